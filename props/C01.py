"""First-moment accumulators: trace and ema."""
import optax
from props.common import *

BOUNDS = ('trees of up to 7 elements (vector, scalar, matrix, empty slot); arbitrary finite real state and gradients; '
          'decay symbolic (trace: any real, ema: [0,1)); count 0..2^31-1; histories of 3 steps from init')
FN = ['optax.trace', 'optax.ema', 'optax._src.numerics.safe_int32_increment']


def cases():
  out = []
  for nest in (False, True):
    def prop(a, out_, O, nest=nest):
      u, s = out_
      t = tmap(lambda g, m: g + a.decay * m, a.g, a.t)
      want = tmap(lambda g, m: g + a.decay * m, a.g, t) if nest else t
      return eqs('trace', O, s.trace, t) + eqs('updates', O, u, want)
    out.append(Case('trace/step nesterov=%s' % nest, dict(g=ftree(), t=ftree(), decay=real()),
                    run=lambda a, nest=nest: optax.trace(a.decay, nest).update(a.g, optax.TraceState(a.t)),
                    static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], optax.TraceState(a.t)),
                    prop=prop, functions=FN))

    def hist(a, nest=nest):
      tx = optax.trace(decay=a.decay, nesterov=nest)
      s = tx.init(a.p)
      us = []
      for g in a.g:
        u, s = tx.update(g, s, a.p)
        us.append(u)
      return us, s

    def hprop(a, o, O, nest=nest):
      us, s = o
      acc = zeros(a.p)
      r = []
      for i, g in enumerate(a.g):
        acc = tmap(lambda t, x: a.decay * t + x, acc, g)
        w = tmap(lambda t, x: a.decay * t + x, acc, g) if nest else acc
        r += eqs('step%d' % i, O, us[i], w)
      return r + eqs('trace', O, s.trace, acc)
    out.append(Case('trace/history nesterov=%s' % nest,
                    dict(p=ftree_small(), g=[ftree_small() for _ in range(3)], decay=real()),
                    run=hist, prop=hprop, functions=FN))

  for debias in (True, False):
    def eprop(a, o, O, debias=debias):
      u, s = o
      e = tmap(lambda g, m: a.decay * m + (1 - a.decay) * g, a.g, a.e)
      c = sat_inc(a.count, O)
      w = tmap(lambda m: m / (1 - O.pow(a.decay, c)), e) if debias else e
      r = eqs('ema', O, s.ema, e) + [('count', O.eq(s.count, c))]
      return r + eqs('updates', O, u, w)
    out.append(Case('ema/step debias=%s' % debias,
                    dict(g=ftree(), e=ftree(), count=Int(), decay=unit()),
                    run=lambda a, d=debias: optax.ema(a.decay, debias=d).update(a.g, optax.EmaState(a.count, a.e)),
                    static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], optax.EmaState(a.count, a.e)),
                    prop=eprop, functions=FN))

    def ehist(a, debias=debias):
      tx = optax.ema(a.decay, debias)
      s = tx.init(a.p)
      us = []
      for g in a.g:
        u, s = tx.update(g, s)
        us.append(u)
      return us, s

    def ehprop(a, o, O, debias=debias):
      us, s = o
      r = []
      acc = zeros(a.p)
      for i, g in enumerate(a.g):
        acc = tmap(lambda t, x: a.decay * t + (1 - a.decay) * x, acc, g)
        w = tmap(lambda t: t / (1 - O.pow(a.decay, i + 1)), acc) if debias else acc
        r += eqs('step%d' % i, O, us[i], w)
      return r + eqs('ema', O, s.ema, acc) + [('count', O.eq(s.count, 3))]
    out.append(Case('ema/history debias=%s' % debias,
                    dict(p=ftree_small(), g=[ftree_small() for _ in range(3)], decay=unit()),
                    run=ehist, prop=ehprop, functions=FN))

    if debias:
      # naming the accumulator's own dtype changes nothing
      def ahist(a):
        tx = optax.ema(a.decay, True, jnp.dtype('float32'))
        s = tx.init(a.p)
        us = []
        for g in a.g:
          u, s = tx.update(g, s)
          us.append(u)
        return us, s
      out.append(Case('ema/history accumulator dtype named', dict(p=ftree_small(), g=[ftree_small() for _ in range(3)], decay=unit()),
                      run=ahist, prop=ehprop, functions=FN, x64=False))

  # a constant gradient is reproduced exactly by the debiased average at every step
  def cprop(a, o, O):
    u, _ = o
    return eqs('debiased', O, u, a.g)
  out.append(Case('ema/debias unbiased', dict(g=ftree_small(), count=Int(hi=INT_MAX - 1), decay=unit(lo_open=True)),
                  run=lambda a: optax.ema(a.decay, True).update(
                      a.g, optax.EmaState(a.count, tmap(lambda g: g * (1 - a.decay ** a.count), a.g))),
                  prop=cprop, functions=FN))

  # a narrower accumulator changes what is stored and nothing else
  for dt in ('bfloat16', 'float16'):
    for nm, mk, stored in (('trace', lambda a, dt: optax.trace(0.75, accumulator_dtype=dt), lambda s: s.trace),
                           ('ema', lambda a, dt: optax.ema(0.75, True, accumulator_dtype=dt), lambda s: s.ema),
                           ('ema biased', lambda a, dt: optax.ema(0.75, False, accumulator_dtype=dt), lambda s: s.ema)):
      def nrun(a, mk=mk, dt=dt, stored=stored):
        tx = mk(a, jnp.dtype(dt))
        u, s = tx.update(a.g, tx.init(a.p))
        return u, tmap(lambda x: x.astype('float32'), stored(s))

      def nprop(a, o, O, nm=nm, dt=dt):
        keep = tmap(lambda g: g * (1 if nm == 'trace' else 0.25), a.g)
        return (eqs('emitted at full precision', O, o[0], keep if 'biased' in nm else a.g) +
                eqs('stored rounded', O, o[1], tmap(lambda x: O.cast(x, dt), keep)))
      out.append(Case('%s/narrow accumulator %s' % (nm, dt), dict(p=ftree_small(), g=ftree_small()), run=nrun, prop=nprop, functions=FN,
                      x64=False, casts=True, replay_tol=(1e-5, 1e-7)))

  for dt in ('bfloat16', 'float32', None):
    def st(a, o, dt=dt):
      u, s, s0 = o
      acc = tmap(lambda x: x if dt is None else x.astype(dt), a.g)
      return (same('initial state', leaves(s0)[-len(leaves(a.g)):], leaves(acc)) +
              same('state', leaves(s)[-len(leaves(a.g)):], leaves(acc)) +
              [('updates: structure', structure(u) == structure(a.g))])
    for nm, mk in (('trace', lambda dt: optax.trace(0.9, accumulator_dtype=dt)),
                   ('trace-nesterov', lambda dt: optax.trace(0.9, True, accumulator_dtype=dt)),
                   ('ema', lambda dt: optax.ema(0.9, accumulator_dtype=dt))):
      def run(a, mk=mk, dt=dt):
        tx = mk(jnp.dtype(dt) if dt else None)
        s0 = tx.init(a.p)
        u, s = tx.update(a.g, s0)
        return u, s, s0
      tree = lambda: {'w': F((2,)), 'h': F((), dtype='float32' if dt else 'bfloat16')}
      out.append(Case('%s/accumulator dtype %s' % (nm, dt), dict(p=tree(), g=tree()),
                      run=run, static=st, prop=lambda a, o, O: [('reached', True)], x64=False, functions=FN))
  return out
