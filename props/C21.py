"""apply_updates, incremental_update, periodic_update."""
import optax
from symjax.fp import FPCase
from props.common import *

BOUNDS = ('trees of up to 7 elements with empty slots; finite real (and element-wise NaN/Inf) parameters and updates; float32, '
          'float16, bfloat16, int32 and int16 parameter dtypes with any float update dtype (integer updates on float parameters); step_size any real; steps 0..2^31-1 and '
          'update_period 1..2^31-1 symbolic')
FN = ['optax.apply_updates', 'optax.incremental_update', 'optax.periodic_update']


def cases():
  out = []
  out.append(Case('apply_updates', dict(p=ftree(), u=ftree()), run=lambda a: optax.apply_updates(a.p, a.u), functions=FN,
                  prop=lambda a, o, O: eqs('sum', O, o, tmap(lambda p, u: p + u, a.p, a.u)),
                  static=lambda a, o: same('params', o, a.p)))
  out.append(Case('apply_updates non-finite', dict(p=ftree_small(special=True), u=ftree_small(special=True)),
                  run=lambda a: optax.apply_updates(a.p, a.u), functions=FN,
                  prop=lambda a, o, O: eqs('sum', O, o, tmap(lambda p, u: p + u, a.p, a.u))))
  for dp in ('float32', 'float16', 'bfloat16'):
    for du in ('float32', 'float16', 'bfloat16'):
      out.append(Case('apply_updates %s += %s' % (dp, du), dict(p=F((2,)), u=F((2,))), x64=False,
                      run=lambda a, dp=dp, du=du: optax.apply_updates({'x': a.p.astype(dp)}, {'x': a.u.astype(du)}),
                      static=lambda a, o, dp=dp: [('dtype kept', str(o['x'].dtype) == dp), ('shape', o['x'].shape == (2,))],
                      prop=lambda a, o, O: [('sum', O.eq(o['x'], a.p + a.u))], functions=FN, replay_tol=(0.05, 0.05)))
  out.append(Case('apply_updates scalars', dict(p=F(()), u=F((2,))),
                  run=lambda a: optax.apply_updates(a.p, a.u), functions=FN,
                  prop=lambda a, o, O: [('broadcast', O.eq(o, a.p + a.u))]))
  # integer and boolean-free mixes: the sum is taken first, then brought to p's dtype
  def tprop(a, o, O):
    r = []
    for i, (x, p, u) in enumerate(zip(o['x'], a.p, a.u)):
      s = O.R(p) + u
      r.append(('sum truncated to an integer %d' % i, O.where(O.le(0, s), O.and_(O.le(O.R(x), s), O.lt(s, O.R(x) + 1)),
                                                              O.and_(O.lt(O.R(x) - 1, s), O.le(s, O.R(x))))))
    return r
  for dp in ('int32', 'int16'):
    out.append(Case('apply_updates %s += float' % dp, dict(p=Int((2,), lo=-10**4, hi=10**4), u=F((2,))), functions=FN, prop=tprop,
                    run=lambda a, dp=dp: optax.apply_updates({'x': a.p.astype(dp)}, {'x': a.u}),
                    assume=lambda a, O: [O.le(O.abs(x), 10**4) for x in a.u],
                    static=lambda a, o, dp=dp: [('dtype kept', str(o['x'].dtype) == dp)], replay_tol=(1e-4, 1e-4)))
  out.append(Case('apply_updates float += int', dict(p=F((2,)), u=Int((2,), lo=-10**4, hi=10**4)), functions=FN,
                  run=lambda a: optax.apply_updates([a.p], [a.u]),
                  prop=lambda a, o, O: [('sum', O.eq(o[0], a.p + a.u))], static=lambda a, o: same('params', o, [a.p])))
  out.append(FPCase('apply_updates float32 exact', dict(p=F(special=True), u=F(special=True)),
                    run=lambda a: (optax.apply_updates(a.p, a.u), a.p + a.u),
                    prop=lambda a, o, O: [('rounded sum', O.or_(O.nan(o[1]), O.same_bits(*o))),
                                          ('NaN agrees', O.or_(O.not_(O.nan(o[1])), O.nan(o[0])))], functions=FN))

  out.append(Case('incremental_update', dict(new=ftree(), old=ftree(), k=real((0.1, 1.0, 0.0, -0.5))),
                  run=lambda a: optax.incremental_update(a.new, a.old, a.k), functions=FN,
                  prop=lambda a, o, O: eqs('polyak', O, o, tmap(lambda n, q: a.k * n + (1 - a.k) * q, a.new, a.old)),
                  static=lambda a, o: same('tensors', o, a.old)))
  out.append(Case('incremental_update array step', dict(new=ftree_small(), old=ftree_small(), k=F(())),
                  run=lambda a: optax.incremental_update(a.new, a.old, a.k), functions=FN,
                  prop=lambda a, o, O: eqs('polyak', O, o, tmap(lambda n, q: a.k * n + (1 - a.k) * q, a.new, a.old))))

  def between(a, o, O):
    return [('between %d' % i, O.and_(O.le(O.min(n, q), x), O.le(x, O.max(n, q))))
            for i, (x, n, q) in enumerate(zip(leaves(o), leaves(a.new), leaves(a.old)))]
  out.append(Case('incremental_update interpolates', dict(new=ftree_small(), old=ftree_small(), k=HP(0, 1, samples=(0.1, 1.0, 0.0))),
                  run=lambda a: optax.incremental_update(a.new, a.old, a.k), prop=between, functions=FN))

  def hist(a):
    o = a.old
    for n in a.new:
      o = optax.incremental_update(n, o, a.k)
    return o
  out.append(Case('incremental_update history', dict(new=[F((2,)) for _ in range(3)], old=F((2,)), k=real((0.1, 0.5))),
                  run=hist, functions=FN, prop=lambda a, o, O: [('ema', O.eq(
                      o, (1 - a.k) * ((1 - a.k) * ((1 - a.k) * a.old + a.k * a.new[0]) + a.k * a.new[1]) + a.k * a.new[2]))]))

  for k in range(1, 8):
    def kprop(a, o, O, k=k):
      r = []
      for i, (x, nw, od) in enumerate(zip(leaves(o), leaves(a.new), leaves(a.old))):
        r += [('due %d' % i, O.implies(O.eq(a.steps, a.q * k), O.eq(x, nw))),
              ('not due %d' % i, O.implies(O.and_(O.lt(a.q * k, a.steps), O.lt(a.steps, a.q * k + k)), O.eq(x, od)))]
      return r
    out.append(Case('periodic_update every %d' % k, dict(new=ftree_small(), old=ftree_small(), steps=Int(), q=Int(hi=(2**31 - 1) // k)),
                    run=lambda a, k=k: optax.periodic_update(a.new, a.old, a.steps, k), prop=kprop, functions=FN, x64=True,
                    tier='quick' if k < 6 else 'thorough', static=lambda a, o: same('tensors', o, a.old)))
  # symbolic period, bounded quotient
  for q in (0, 1, 2):
    def sprop(a, o, O, q=q):
      r = []
      for i, (x, nw, od) in enumerate(zip(leaves(o), leaves(a.new), leaves(a.old))):
        r += [('due %d' % i, O.implies(O.eq(a.steps, q * a.k), O.eq(x, nw))),
              ('not due %d' % i, O.implies(O.and_(O.lt(q * a.k, a.steps), O.lt(a.steps, (q + 1) * a.k)), O.eq(x, od)))]
      return r
    out.append(Case('periodic_update any period, quotient %d' % q,
                    dict(new=ftree_small(special=True), old=ftree_small(special=True), steps=Int(), k=Int(lo=1, hi=10**9 // 2)),
                    run=lambda a: optax.periodic_update(a.new, a.old, a.steps, a.k), prop=sprop,
                    assume=lambda a, O, q=q: [O.le(q * a.k, a.steps), O.lt(a.steps, (q + 1) * a.k)], functions=FN))
  return out
