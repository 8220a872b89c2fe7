"""clip and clip_by_global_norm."""
import optax
from symjax.fp import FPCase
from props.common import *

BOUNDS = ('trees of up to 7 elements; clip: every element finite, NaN or Inf, bound > 0 (or >= 0) symbolic; global norm: '
          'finite real updates, max_norm > 0 symbolic; stateless (state passes through)')
FN = ['optax.clip', 'optax.clip_by_global_norm', 'optax.global_norm']


def cases():
  out = []
  run = lambda a: optax.clip(a.m).update(a.g, optax.clip(a.m).init(a.g))

  def prop(a, o, O):
    u, _ = o
    r = []
    for i, (x, g) in enumerate(zip(leaves(u), leaves(a.g))):
      r += [('value %d' % i, O.eq(x, O.where(O.isnan(g), g, O.where(O.gt(g, a.m), a.m, O.where(O.lt(g, -a.m), -a.m, g))))),
            ('inside %d' % i, O.or_(O.isnan(g), O.and_(O.le(x, a.m), O.ge(x, -a.m)))),
            ('identity inside %d' % i, O.implies(O.and_(O.le(g, a.m), O.ge(g, -a.m)), O.eq(x, g)))]
    return r
  for special in (False, True):
    out.append(Case('clip special=%s' % special, dict(g=ftree(special=special), m=nonneg((1.0, 0.25))), run=run, prop=prop,
                    static=lambda a, o: same('updates', o[0], a.g), functions=FN))

  out.append(FPCase('clip float32 exact', dict(g=F(special=True), m=F()),
                    run=lambda a: optax.clip(a.m).update(a.g, optax.EmptyState())[0],
                    assume=lambda a, O: [O.le(O.const(0), a.m)],
                    prop=lambda a, o, O: [('inside', O.or_(O.nan(a.g), O.and_(O.le(o, a.m), O.le(O.neg(a.m), o)))),
                                          ('identity inside', O.implies(O.and_(O.le(a.g, a.m), O.le(O.neg(a.m), a.g)), O.eq(o, a.g)))],
                    functions=FN))

  def grun(a):
    tx = optax.clip_by_global_norm(a.m)
    return tx.update(a.g, tx.init(a.g))

  def gprop(a, o, O):
    u, _ = o
    n = O.sqrt(sum2(a.g, O))
    inside = O.le(n, a.m)
    r = []
    for i, (x, g) in enumerate(zip(leaves(u), leaves(a.g))):
      r += [('unchanged inside %d' % i, O.implies(inside, O.eq(x, g))),
            ('rescaled outside %d' % i, O.implies(O.not_(inside), O.eq(x * n, g * a.m)))]
    r += [('norm at most the bound', O.le(sum2(u, O), a.m * a.m)),
          ('norm is the bound outside', O.implies(O.not_(inside), O.eq(sum2(u, O), a.m * a.m)))]
    return r
  trees = {'tree': ftree, 'scalar': lambda: F(), 'vector': lambda: F((3,)), 'tensor': lambda: [F((1, 2, 1)), F((1, 1, 1, 2))]}
  for nm, mk in trees.items():
    out.append(Case('global norm ' + nm, dict(g=mk(), m=pos((1.0, 0.25, 5.0))), run=grun, prop=gprop,
                    static=lambda a, o: same('updates', o[0], a.g), functions=FN))

  # idempotent, and no dependence on earlier calls
  def irun(a):
    tx = optax.clip_by_global_norm(a.m)
    u, s = tx.update(a.g, tx.init(a.g), a.g)
    v, _ = tx.update(u, s, a.g)
    return u, v
  out.append(Case('global norm idempotent', dict(g=F((2,)), m=pos((1.0, 0.25))), run=irun,
                  prop=lambda a, o, O: eqs('twice', O, o[1], o[0]), functions=FN))
  return out
