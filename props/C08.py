"""apply_if_finite: bounded tolerance to non-finite gradients."""
import optax
from symjax.fp import FPCase
from props.common import *

BOUNDS = ('every gradient, parameter and inner state element independently finite, NaN, +Inf or -Inf; arbitrary inner transformation (uninterpreted) '
          'and adam; mixed float dtypes; bit-exact float32 for a three-element tree; counters 0..2^31-2; max_consecutive_errors symbolic 0..2^31-2; histories of 4 steps from init')
ASSUMPTIONS = ['The error counters do not saturate: after 2^31-1 errors they wrap.']
FN = ['optax.apply_if_finite']


def st(**kw):
  return {'b': F((2,), **kw), 'a': (F((), **kw), [F((1, 2), **kw)])}


def allfin(O, g):
  r = True
  for x in leaves(g):
    r = O.and_(r, O.all(O.isfinite(x)))
  return r


def machine(a, O, g, cnt, last, total, inner, p, n):
  fin = allfin(O, g)
  c = O.where(fin, 0, cnt + 1)
  do = O.or_(fin, O.gt(c, n))
  u, s = uf_upd(O, 'in', g, inner, p)
  return (tsel(O, do, u, zeros(g)), c, fin, O.where(fin, total, total + 1), tsel(O, do, s, inner))


def cases():
  out = []
  for wp in (True, False):
    for n in ('symbolic', 0, 3):
      args = dict(g=st(special=True), cnt=Int(hi=INT_MAX - 1), total=Int(hi=INT_MAX - 1), last=Bo(), s=(F((2,), special=True), Int(lo=-100, hi=100)), p={'b': F((2,), special=True), 'a': F((), special=True)})
      if n == 'symbolic':
        args['n'] = HPI(0, INT_MAX - 1, samples=(0, 1, 5))

      def run(a, wp=wp, n=n):
        tx = optax.apply_if_finite(uf_tx('in', True), a.n if n == 'symbolic' else n)
        s = optax.ApplyIfFiniteState(a.cnt, a.last, a.total, a.s)
        return tx.update(a.g, s, a.p) if wp else tx.update(a.g, s)

      def prop(a, o, O, wp=wp, n=n):
        u, s = o
        w = machine(a, O, a.g, a.cnt, a.last, a.total, a.s, a.p if wp else None, a.n if n == 'symbolic' else n)
        return (eqs('updates', O, u, w[0]) + [('consecutive errors', O.eq(s.notfinite_count, w[1])),
                                               ('last finite', O.eq(s.last_finite, w[2])),
                                               ('total errors', O.eq(s.total_notfinite, w[3]))] +
                eqs('inner state', O, s.inner_state, w[4]))
      out.append(Case('step params=%s max=%s' % (wp, n), args, run=run, prop=prop, functions=FN,
                      static=lambda a, o: same('updates', o[0], a.g) + same(
                          'state', o[1], optax.ApplyIfFiniteState(a.cnt, a.last, a.total, a.s))))

  def hrun(n):
    def run(a):
      tx = optax.apply_if_finite(uf_tx('in', True), n)
      s = s0 = tx.init(a.p)
      us, ss = [], []
      for g in a.g:
        u, s = tx.update(g, s, a.p)
        us.append(u)
        ss.append(s)
      return us, ss, s0
    return run

  def hprop(n):
    def prop(a, o, O):
      us, ss, s0 = o
      inner = uf_init(O, 'in', a.p, True)
      r = [('init', O.and_(O.eq(s0.notfinite_count, 0), O.eq(s0.total_notfinite, 0), O.eq(s0.last_finite, O.eq(0, 0) if O.symbolic else True)))]
      r += eqs('init inner', O, s0.inner_state, inner)
      c, last, tot = 0, True, 0
      if O.symbolic:
        from symjax.fv import IV
        c, tot = IV(0), IV(0)
      for i, g in enumerate(a.g):
        u, c, last, tot, inner = machine(a, O, g, c, last, tot, inner, a.p, n)
        r += eqs('step%d' % i, O, us[i], u)
        r += [('count%d' % i, O.eq(ss[i].notfinite_count, c)), ('total%d' % i, O.eq(ss[i].total_notfinite, tot)),
              ('last%d' % i, O.eq(ss[i].last_finite, last))]
        r += eqs('inner%d' % i, O, ss[i].inner_state, inner)
      return r
    return prop
  sm = lambda **kw: {'b': F((1,), **kw), 'a': F((), **kw)}
  for n in (0, 1, 2):
    out.append(Case('history max=%d' % n, dict(p=sm(), g=[sm(special=True) for _ in range(4)]),
                    run=hrun(n), prop=hprop(n), functions=FN, budget=120))

  # with adam inside: rejected gradients leave no trace in the trajectory
  def arun(a):
    tx = optax.apply_if_finite(optax.scale_by_adam(a.b1, a.b2, a.eps), 10)
    s = tx.init(a.g)
    _, s1 = tx.update(a.g, s)
    ub, s2 = tx.update(a.bad, s1)
    u3, s3 = tx.update(a.h, s2)
    ref = optax.scale_by_adam(a.b1, a.b2, a.eps)
    r = ref.init(a.g)
    _, r1 = ref.update(a.g, r)
    r3, rs = ref.update(a.h, r1)
    return ub, u3, r3, s3.inner_state, rs

  def aprop(a, o, O):
    ub, u3, r3, s3, rs = o
    return (eqs('rejected update', O, ub, zeros(ub)) + eqs('next update', O, u3, r3) + eqs('state', O, s3, rs))
  out.append(Case('adam inside', dict(g=sm(), bad=sm(special=True), h=sm(), b1=unit(), b2=unit(), eps=pos((1e-8, .1))),
                  assume=lambda a, O: [O.not_(allfin(O, a.bad))], run=arun, prop=aprop, functions=FN))

  # every leaf is looked at, whatever its dtype
  def mrun(a):
    tx = optax.apply_if_finite(optax.scale(2.), a.n)
    return tx.update(a.g, tx.init(a.g)._replace(notfinite_count=a.cnt))

  def mprop(a, o, O):
    u, s = o
    fin = allfin(O, a.g)
    c = O.where(fin, 0, a.cnt + 1)
    do = O.or_(fin, O.gt(c, a.n))
    return eqs('updates', O, u, tsel(O, do, tmap(lambda x: 2 * x, a.g), zeros(a.g))) + [
        ('last finite', O.eq(s.last_finite, fin)), ('count', O.eq(s.notfinite_count, c)),
        ('total', O.eq(s.total_notfinite, O.where(fin, 0, 1)))]
  for first in ('float32', 'bfloat16', 'float16'):
    rest = [d for d in ('float32', 'bfloat16', 'float16') if d != first]
    out.append(Case('mixed dtypes first=%s' % first, dict(
        g={'a': F((2,), special=True, dtype=first), 'b': F((), special=True, dtype=rest[0]),
           'c': F((1, 1), special=True, dtype=rest[1])}, cnt=Int(hi=INT_MAX - 1), n=HPI(0, INT_MAX - 1, samples=(0, 1, 5))),
                    run=mrun, prop=mprop, static=lambda a, o: same('updates', o[0], a.g), x64=False, functions=FN))

  # bit-exact float32: finiteness is a matter of the elements, not of their sums or norms
  def frun(a):
    tx = optax.apply_if_finite(optax.identity(), 2)
    g = {'a': jnp.stack([a.x, a.y]), 'b': a.z}
    u, s = tx.update(g, tx.init(g))
    return u['a'][0], u['a'][1], u['b'], s.last_finite

  def fprop(a, o, O):
    xs = (a.x, a.y, a.z)
    fin = O.and_(*[O.not_(O.or_(O.nan(v), O.inf(v))) for v in xs])
    return [('last finite', O.or_(O.and_(fin, o[3]), O.and_(O.not_(fin), O.not_(o[3]))))] + [
        ('update %d' % i, O.and_(O.implies(fin, O.same_bits(o[i], v)), O.implies(O.not_(fin), O.eq(o[i], O.const(0)))))
        for i, v in enumerate(xs)]
  out.append(FPCase('float32 exact', dict(x=F(special=True), y=F(special=True), z=F(special=True)), run=frun, prop=fprop,
                    functions=FN))

  # no array at all counts as finite
  out.append(Case('empty tree', dict(x=F()), run=lambda a: (lambda tx: tx.update({}, tx.init({})))(
      optax.apply_if_finite(optax.identity(), 0))[1],
                  prop=lambda a, o, O: [('finite', O.eq(o.notfinite_count, 0)), ('last', o.last_finite)], functions=FN))
  out += falsy_params('apply_if_finite', lambda tx: optax.apply_if_finite(tx, 3), FN)
  return out
