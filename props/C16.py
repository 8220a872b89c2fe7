"""adaptive_grad_clip: unit-wise clipping relative to the parameter norm."""
import optax
from optax._src import clipping
from props.common import *

BOUNDS = ('leaf shapes (), (3), (1,3), (3,1), (2,2), (2,2,2), (1,2,2), (2,1,2,2), (1,1,2,2), (1,1,1,3); finite real updates and '
          'parameters; clipping > 0 and eps > 1e-6/clipping symbolic; default eps = 1e-3 checked')
ASSUMPTIONS = ['clipping * eps >= 1e-6, so that the internal 1e-6 guard against division by zero never engages.']
FN = ['optax.adaptive_grad_clip']
SHAPES = [(), (3,), (1, 3), (3, 1), (2, 2), (2, 2, 2), (1, 2, 2), (2, 1, 2, 2), (1, 1, 2, 2), (1, 1, 1, 3)]


def unit_axes(sh):
  """Axes of one output unit: everything for scalars/vectors, rows for dense, HWI for kernels."""
  if sum(d != 1 for d in sh) <= 1:
    return tuple(range(len(sh)))
  return {2: (0,), 3: (0,), 4: (0, 1, 2)}[len(sh)]


def norm2(O, x, sh):
  if not sh:
    return x * x
  ax = unit_axes(sh)
  s = O.sum(x * x, axis=ax, keepdims=True)
  return np.broadcast_to(s, sh)


def cases():
  out = []
  for sh in SHAPES:
    for eps in ('symbolic', 'default'):
      args = dict(g=[F(sh)], p=[F(sh)], c=pos((0.01, 0.5, 1.0)))
      if eps == 'symbolic':
        args['eps'] = pos((1e-3, 0.3))

      def run(a, eps=eps):
        tx = optax.adaptive_grad_clip(a.c, a.eps) if eps == 'symbolic' else optax.adaptive_grad_clip(a.c)
        return tx.update(a.g, tx.init(a.p), a.p)

      def prop(a, o, O, sh=sh, eps=eps):
        u, g, p = o[0][0], a.g[0], a.p[0]
        e = a.eps if eps == 'symbolic' else O.R(1e-3)
        gn, pn = O.sqrt(norm2(O, g, sh)), O.sqrt(norm2(O, p, sh))
        lim = a.c * O.max(pn, e)
        inside = O.le(gn, lim)
        return [('unchanged inside', O.implies(inside, O.eq(u, g))),
                ('rescaled outside', O.implies(O.not_(inside), O.eq(u * gn, g * lim))),
                ('unit norm bounded', O.le(norm2(O, u, sh), lim * lim))]
      out.append(Case('shape %s eps=%s' % (sh, eps), args, run=run, prop=prop, functions=FN,
                      assume=lambda a, O, eps=eps: [O.ge(a.c * (a.eps if eps == 'symbolic' else O.R(1e-3)), O.R(1e-6))],
                      static=lambda a, o: same('updates', o[0], a.g)))
  # each leaf is clipped on its own
  def prop2(a, o, O):
    r = []
    for i, (u, g, p) in enumerate(zip(leaves(o), leaves(a.g), leaves(a.p))):
      sh = np.shape(g)
      gn, pn = O.sqrt(norm2(O, g, sh)), O.sqrt(norm2(O, p, sh))
      lim = a.c * O.max(pn, O.R(1e-3))
      r.append(('leaf %d' % i, O.implies(O.gt(gn, lim), O.eq(u * gn, g * lim))))
      r.append(('leaf %d kept' % i, O.implies(O.le(gn, lim), O.eq(u, g))))
    return r
  out.append(Case('tree', dict(g=ftree(), p=ftree(), c=pos((0.01, 0.5))), functions=FN,
                  assume=lambda a, O: [O.ge(a.c, O.R(1e-3))],
                  run=lambda a: optax.adaptive_grad_clip(a.c).update(a.g, optax.EmptyState(), a.p)[0], prop=prop2))
  out.append(Case('rank 5 refused', dict(g=F((2, 2, 1, 1, 1)), p=F((2, 2, 1, 1, 1))),
                  run=lambda a: optax.adaptive_grad_clip(.1).update(a.g, optax.EmptyState(), a.p)[0],
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))
  out.append(Case('params required', dict(g=F((2,))),
                  run=lambda a: optax.adaptive_grad_clip(.1).update(a.g, optax.EmptyState(), None)[0],
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))
  return out
