"""maybe_update: the inner transformation runs only at the chosen steps."""
import optax
from props.common import *

BOUNDS = ('arbitrary (uninterpreted) inner transformation and predicate of the step counter; step 0..2^31-2; updates '
          'finite or NaN/Inf; histories of 3 steps from init')
ASSUMPTIONS = ['The step counter does not reach 2^31-1 (int32, non-saturating).']
FN = ['optax.maybe_update']


def pred(step):
  from symjax import uf
  return uf.uf('when', step, np.float32(0)) > 0


def cases():
  out = []
  when = lambda O, s: O.gt(O.uf('when', s, np.float32(0)), 0)
  for wp in (True, False):
    for special in (True, False):
      g = lambda sp=special: {'b': F((2,), special=sp), 'a': (F((), special=sp), [F((1, 2), special=sp)])}

      def run(a, wp=wp):
        tx = optax.maybe_update(uf_tx('in', True), pred)
        s = optax.MaybeUpdateState(a.s, a.step)
        return tx.update(a.g, s, a.p) if wp else tx.update(a.g, s)

      def prop(a, o, O, wp=wp):
        u, s = o
        w = when(O, a.step)
        iu, is_ = uf_upd(O, 'in', a.g, a.s, a.p if wp else None)
        return (eqs('updates', O, u, tsel(O, w, iu, a.g)) + eqs('inner state', O, s.inner_state, tsel(O, w, is_, a.s)) +
                [('step', O.eq(s.step, a.step + 1))])
      out.append(Case('step params=%s special=%s' % (wp, special),
                      dict(g=g(), s=uf_state(True), p=ctree(), step=Int(hi=INT_MAX - 1)), run=run, prop=prop, functions=FN,
                      static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], optax.MaybeUpdateState(a.s, a.step))))

  def hist(a):
    tx = optax.maybe_update(uf_tx('in', True), pred)
    s = tx.init(a.p)
    us, ss = [], [s]
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      us.append(u)
      ss.append(s)
    return us, ss

  def hprop(a, o, O):
    us, ss = o
    inner = uf_init(O, 'in', a.p, True)
    r = eqs('init inner', O, ss[0].inner_state, inner) + [('init step', O.eq(ss[0].step, 0))]
    for i, g in enumerate(a.g):
      w = when(O, i)
      u, n = uf_upd(O, 'in', g, inner, a.p)
      inner = tsel(O, w, n, inner)
      r += eqs('updates %d' % i, O, us[i], tsel(O, w, u, g)) + eqs('inner %d' % i, O, ss[i + 1].inner_state, inner)
      r += [('step %d' % i, O.eq(ss[i + 1].step, i + 1))]
    return r
  T = lambda: {'b': F((2,)), 'a': F()}
  out.append(Case('history', dict(p=T(), g=[T(), T(), T()]), run=hist, prop=hprop, functions=FN))

  # constant predicates
  for b in (True, False):
    def crun(a, b=b):
      tx = optax.maybe_update(optax.scale_by_adam(), lambda step: jnp.asarray(b))
      ref = optax.scale_by_adam()
      s, r = tx.init(a.g), ref.init(a.g)
      u, s = tx.update(a.g, s)
      w, r2 = ref.update(a.g, r)
      return u, s.inner_state, w, (r2 if b else r)

    def cprop(a, o, O, b=b):
      u, s, w, r = o
      return eqs('updates', O, u, w if b else a.g) + eqs('state', O, s, r)
    out.append(Case('constant %s' % b, dict(g=T()), run=crun, prop=cprop, functions=FN))
  # the predicate as Python code writes it: comparisons, remainders, floats
  T3 = lambda: {'b': F((2,)), 'a': F()}
  for name, f, w in (('remainder', lambda s: s % 3, lambda O, n: O.gt(n % 3, 0)), ('comparison', lambda s: s >= 1000, lambda O, n: O.ge(n, 1000)),
                     ('python bool', lambda s: True, lambda O, n: True)):
    def frun(a, f=f):
      return optax.maybe_update(uf_tx('in', True), f).update(a.g, optax.MaybeUpdateState(a.s, a.step), a.p)

    def fprop(a, o, O, w=w):
      u, s = o
      c = w(O, a.step)
      iu, is_ = uf_upd(O, 'in', a.g, a.s, a.p)
      return (eqs('updates', O, u, tsel(O, c, iu, a.g)) + eqs('inner state', O, s.inner_state, tsel(O, c, is_, a.s)) + [('step', O.eq(s.step, a.step + 1))])
    out.append(Case('predicate %s' % name, dict(g=T3(), s=uf_state(True), p=T3(), step=Int(hi=INT_MAX - 1, samples=(0, 1, 2, 3, 4, 5, 999, 1000))),
                    run=frun, prop=fprop, functions=FN))
  out += falsy_params('maybe_update', lambda tx: optax.maybe_update(tx, lambda s: True), FN)
  out += falsy_params('maybe_update (sometimes)', lambda tx: optax.maybe_update(tx, lambda s: s % 2 == 0), FN)
  return out
