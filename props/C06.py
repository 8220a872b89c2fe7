"""scale_by_schedule, and step counters that count every update and saturate."""
import optax
from optax._src import transform, numerics
from props.common import *

BOUNDS = ('step count 0..2^31-1 symbolic; schedule an uninterpreted function of the count; trees of up to 7 elements; '
          'arbitrary finite real updates; histories of 3 steps')
FN = ['optax.scale_by_schedule', 'optax._src.numerics.safe_int32_increment', 'optax.ema', 'optax.scale_by_adam', 'optax.scale_by_belief',
      'optax.scale_by_yogi', 'optax.scale_by_radam', 'optax.add_noise', 'optax.inject_hyperparams']


def sched(count):
  from symjax import uf
  return uf.uf('sched', count, np.float32(0))


def cases():
  out = []
  lrs = lambda O, c: O.uf('sched', c, np.float32(0))

  def prop(a, o, O):
    u, s = o
    k = lrs(O, a.count)
    return eqs('updates', O, u, tmap(lambda g: k * g, a.g)) + [('count', O.eq(s.count, sat_inc(a.count, O)))]
  out.append(Case('schedule/step', dict(g=ftree(), count=Int()),
                  run=lambda a: optax.scale_by_schedule(sched).update(a.g, transform.ScaleByScheduleState(a.count)),
                  static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], transform.ScaleByScheduleState(a.count)),
                  prop=prop, functions=FN))

  def hist(a):
    tx = optax.scale_by_schedule(sched)
    s = tx.init(a.p)
    us, cs = [], [s.count]
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      us.append(u)
      cs.append(s.count)
    return us, cs

  def hprop(a, o, O):
    us, cs = o
    r = []
    for i, g in enumerate(a.g):
      r += eqs('step%d' % i, O, us[i], tmap(lambda x: lrs(O, i) * x, g))
    return r + [('count %d' % i, O.eq(c, i)) for i, c in enumerate(cs)]
  out.append(Case('schedule/history', dict(p=ftree_small(), g=[ftree_small() for _ in range(3)]), run=hist, prop=hprop,
                  functions=FN))

  for dt in ('bfloat16', 'float16'):
    out.append(Case('schedule/keeps dtype ' + dt, dict(g={'w': F((2,)), 'h': F()}, count=Int()), x64=False,
                    run=lambda a, dt=dt: optax.scale_by_schedule(lambda c: 1.0 / (1.0 + c)).update(
                        tmap(lambda x: x.astype(dt), a.g), transform.ScaleByScheduleState(a.count))[0],
                    static=lambda a, o, dt=dt: same('updates', o, tmap(lambda x: x.astype(dt), a.g)),
                    prop=lambda a, o, O: eqs('updates', O, o, tmap(lambda x: x / (1 + a.count), a.g)), functions=FN))

  # leaves of different dtypes: each gets the step size in its own dtype
  for first in ('float16', 'float32'):
    def mrun(a, first=first):
      g = [a.g[0].astype(first), a.g[1].astype('float16' if first == 'float32' else 'float32')]
      u = optax.scale_by_schedule(sched).update(g, transform.ScaleByScheduleState(a.count))[0]
      return [x.astype('float32') for x in u]

    def mprop(a, o, O, first=first):
      k = lrs(O, a.count)
      h = 0 if first == 'float16' else 1
      return [('full precision leaf', O.eq(o[1 - h], k * a.g[1 - h])),
              ('half precision leaf', (O.eq if O.symbolic else lambda x, y: np.isclose(x, y, 2e-3, 1e-6))(
                  o[h], O.cast(k, 'float16') * O.cast(a.g[h], 'float16')))]
    out.append(Case('schedule/mixed dtypes, %s first' % first, dict(g=[F((2,)), F(())], count=Int()), run=mrun, prop=mprop, functions=FN,
                    x64=False, casts=True, replay_tol=(1e-5, 1e-7)))

  # the saturating increment itself
  out.append(Case('counter/saturating increment', dict(c=Int(lo=-2**31)),
                  run=lambda a: numerics.safe_int32_increment(a.c), functions=FN,
                  static=lambda a, o: [('int32', str(o.dtype) == 'int32')],
                  prop=lambda a, o, O: [('+1', O.implies(O.lt(a.c, INT_MAX), O.eq(o, a.c + 1))),
                                        ('saturates', O.implies(O.eq(a.c, INT_MAX), O.eq(o, INT_MAX))),
                                        ('never decreases', O.ge(o, a.c))]))

  # every counting transformation
  txs = dict(
      ema=lambda: optax.ema(0.9), ema_nodebias=lambda: optax.ema(0.9, debias=False),
      adam=lambda: optax.scale_by_adam(), belief=lambda: optax.scale_by_belief(), yogi=lambda: optax.scale_by_yogi(),
      radam=lambda: optax.scale_by_radam(), schedule=lambda: optax.scale_by_schedule(sched),
      noise=lambda: optax.add_noise(0.1, 0.5, 3),
      inject=lambda: optax.inject_hyperparams(optax.scale)(step_size=lambda c: 1.0 + c))
  for nm, mk in txs.items():
    def run(a, mk=mk):
      tx = mk()
      s0 = tx.init(a.p)
      _, s = tx.update(a.g, with_count(s0, a.count), a.p)
      return s0.count, s.count

    def cprop(a, o, O):
      return [('starts at 0', O.eq(o[0], 0)), ('counts and saturates', O.eq(o[1], sat_inc(a.count, O)))]
    out.append(Case('counter/' + nm, dict(p=ftree_small(), g=ftree_small(), count=Int()), run=run, prop=cprop,
                    static=lambda a, o: [('int32 scalar', spec_of(o[1]) == ((), 'int32') and spec_of(o[0]) == ((), 'int32'))],
                    functions=FN))
  return out
