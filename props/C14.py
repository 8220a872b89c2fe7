"""apply_every: sums of k consecutive updates, zeros in between."""
import optax
from optax._src import transform
from props.common import *

BOUNDS = ('k symbolic 1..1000 and 1..5; any count < k; gradients and leftover accumulator finite or NaN/Inf; histories of '
          '2k steps from init')
FN = ['optax.apply_every']


def cases():
  out = []
  T = lambda **kw: {'w': F((2,), **kw), 'n': (F((), **kw), None, [F((1, 2), **kw)])}
  for k in (1, 2, 3, 5, 'symbolic'):
    for special in (False, True):
      args = dict(g=T(special=special), acc=T(special=special), c=Int(hi=k - 1 if k != 'symbolic' else 999))
      if k == 'symbolic':
        args['k'] = HPI(1, 1000, samples=(1, 2, 6))

      def run(a, k=k):
        return optax.apply_every(a.k if k == 'symbolic' else k).update(a.g, transform.ApplyEvery(a.c, a.acc))

      def prop(a, o, O, k=k):
        u, s = o
        kk = a.k if k == 'symbolic' else k
        first, emit = O.eq(a.c, 0), O.eq(a.c, kk - 1)
        tot = tmap(lambda g, x: O.where(first, g, x + g), a.g, a.acc)
        r = eqs('updates', O, u, tsel(O, emit, tot, zeros(a.g)))
        r += [('accumulated %d' % i, O.or_(emit, O.eq(x, y))) for i, (x, y) in enumerate(zip(leaves(s.grad_acc), leaves(tot)))]
        return r + [('count', O.eq(s.count, O.where(emit, 0, a.c + 1)))]
      out.append(Case('step k=%s special=%s' % (k, special), args, run=run, prop=prop, functions=FN,
                      assume=(lambda a, O: [O.lt(a.c, a.k)]) if k == 'symbolic' else None,
                      static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], transform.ApplyEvery(a.c, a.acc))))
  S = lambda: {'w': F((2,)), 'b': (F(),)}
  for k in (1, 2, 3):
    def hist(a, k=k):
      tx = optax.apply_every(k)
      s = tx.init(a.p)
      us, cs = [], []
      for g in a.g:
        u, s = tx.update(g, s, a.p)
        us.append(u)
        cs.append(s.count)
      return us, cs

    def hprop(a, o, O, k=k):
      us, cs = o
      r = []
      for i, g in enumerate(a.g):
        if (i + 1) % k:
          r += eqs('quiet %d' % i, O, us[i], zeros(a.p))
        else:
          r += eqs('emit %d' % i, O, us[i], tmap(lambda *x: sum(x[1:], x[0]), *a.g[i + 1 - k:i + 1]))
        r += [('count %d' % i, O.eq(cs[i], (i + 1) % k))]
      return r
    out.append(Case('history k=%d' % k, dict(p=S(), g=[S() for _ in range(2 * k)]), run=hist, prop=hprop, functions=FN))
  out.append(Case('default k=1 is transparent', dict(g=S()), functions=FN,
                  run=lambda a: (lambda tx: tx.update(a.g, tx.init(a.g))[0])(optax.apply_every()),
                  prop=lambda a, o, O: eqs('updates', O, o, a.g)))
  # a NaN window does not leak into the next one
  def nrun(a):
    tx = optax.apply_every(2)
    s = tx.init(a.h)
    us = []
    for g in (a.g, a.g, a.h, a.i):
      u, s = tx.update(g, s)
      us.append(u)
    return us[2], us[3]
  out.append(Case('non-finite window is forgotten', dict(g={'w': F((2,), special=True), 'b': (F(special=True),)}, h=S(), i=S()),
                  run=nrun, functions=FN,
                  prop=lambda a, o, O: eqs('quiet', O, o[0], zeros(a.h)) + eqs('emit', O, o[1], tmap(lambda x, y: x + y, a.h, a.i))))
  return out
