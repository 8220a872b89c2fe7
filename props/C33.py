"""Transformations are pure, traceable functions that keep structure and dtypes."""
import optax
from props.common import *

BOUNDS = ('every gradient transformation and wrapper of the library (about 50 configurations), trees with a matrix and a vector leaf (then a '
          'second model with one scalar leaf through the same instance) in float32, float16 and bfloat16; arbitrary finite real gradients and parameters; two consecutive updates; batch of 2 under vmap')
ASSUMPTIONS = ['Parameters, gradients and state share one float dtype.',
               'Half-precision cases decide structure and dtypes; their values are compared as exact reals.']
FN = ['optax GradientTransformation.init/update of every transformation', 'jax.lax.scan, jax.vmap, jax.jit over them']


def decay(c):
  return 0.5 / (1 + c)


def F1():
  c, m, a = optax.chain, optax.masked, optax
  t = {
      'trace': lambda: a.trace(0.9), 'trace nesterov': lambda: a.trace(0.9, nesterov=True), 'ema': lambda: a.ema(0.9),
      'ema biased': lambda: a.ema(0.9, debias=False), 'adam': lambda: a.scale_by_adam(), 'belief': lambda: a.scale_by_belief(),
      'yogi': lambda: a.scale_by_yogi(), 'radam': lambda: a.scale_by_radam(b2=0.9), 'rss': lambda: a.scale_by_rss(),
      'rms': lambda: a.scale_by_rms(), 'stddev': lambda: a.scale_by_stddev(), 'sm3': lambda: a.scale_by_sm3(),
      'scale': lambda: a.scale(-0.1), 'schedule': lambda: a.scale_by_schedule(decay), 'weight decay': lambda: a.add_decayed_weights(0.1),
      'trust ratio': lambda: a.scale_by_trust_ratio(), 'trust ratio min': lambda: a.scale_by_trust_ratio(min_norm=0.1),
      'noise': lambda: a.add_noise(0.1, 0.55, 3), 'apply every': lambda: a.apply_every(2), 'centralize': lambda: a.centralize(),
      'clip': lambda: a.clip(1.0), 'global clip': lambda: a.clip_by_global_norm(1.0), 'agc': lambda: a.adaptive_grad_clip(0.1),
      'nonnegative': lambda: a.keep_params_nonnegative(), 'zero nans': lambda: a.zero_nans(), 'identity': lambda: a.identity(),
      'chain': lambda: c(a.clip(1.0), a.trace(0.9), a.scale_by_schedule(decay)), 'flatten': lambda: a.flatten(a.trace(0.9)),
      'apply if finite': lambda: a.apply_if_finite(a.trace(0.9), 2),
      'masked': lambda: m(a.trace(0.9), {'w': True, 'n': False}), 'masked callable': lambda: m(a.trace(0.9), lambda p: tmap(lambda x: x.ndim > 1, p)),
      'multi steps': lambda: a.MultiSteps(a.trace(0.9), 2).gradient_transformation(),
      'maybe update': lambda: a.maybe_update(a.trace(0.9), lambda s: s % 2 == 0),
      'inject': lambda: a.inject_hyperparams(a.sgd)(learning_rate=decay, momentum=0.9),
      'inject constants': lambda: a.inject_hyperparams(a.trace)(decay=0.9, nesterov=True),
      'sgd': lambda: a.sgd(0.1, 0.9, nesterov=True), 'alias adam': lambda: a.adam(decay), 'alias adamw': lambda: a.adamw(0.1),
      'alias adagrad': lambda: a.adagrad(decay), 'alias adabelief': lambda: a.adabelief(0.1), 'alias fromage': lambda: a.fromage(0.1),
      'alias lamb': lambda: a.lamb(0.1), 'alias rmsprop': lambda: a.rmsprop(0.1, centered=True, momentum=0.9), 'alias yogi': lambda: a.yogi(decay),
      'alias sm3': lambda: a.sm3(0.1), 'alias noisy sgd': lambda: a.noisy_sgd(0.1), 'alias radam': lambda: a.radam(decay, b2=0.9),
  }
  return t


EXTRA = {
    'strong schedule': lambda: optax.scale_by_schedule(lambda c: jnp.float32(0.5) / (1 + c)),
    'alias sgd strong schedule': lambda: optax.sgd(lambda c: jnp.float32(0.5) / (1 + c), 0.9),
    'alias adam strong schedule': lambda: optax.adam(lambda c: jnp.float32(0.5) / (1 + c)),
    'inject strong schedule': lambda: optax.inject_hyperparams(optax.sgd)(learning_rate=lambda c: jnp.float32(0.5) / (1 + c), momentum=0.9),
}
FIXED_TREE = {'masked'}
NO_SCALAR = {'sm3', 'alias sm3'}  # a rank-0 leaf is C04's known finding
HARD = {'alias lamb', 'radam', 'alias radam', 'agc', 'alias fromage'}
NOBATCH = {'noise', 'alias noisy sgd'}


def stacked(n=2):
  return {'w': F((n, 2, 1)), 'n': F((n, 2))}


def at(t, i):
  return tmap(lambda x: x[i], t)


def cases():
  out = []
  for name, mk in dict(F1(), **EXTRA).items():
    for dt in ('float32', 'bfloat16', 'float16'):
      half = dt != 'float32'
      sh = (1,) if name in NO_SCALAR else ()

      def cast(t, dt=dt):
        return tmap(lambda x: x.astype(dt), t)

      def run(a, mk=mk, cast=cast, name=name):
        p, g = cast(a.p), cast(a.g)
        tx = mk()
        s0 = tx.init(p)
        u1, s1 = tx.update(at(g, 0), s0, p)
        u2, s2 = tx.update(at(g, 1), s1, p)
        # the same instance serves another model in between
        q, h, side = cast([a.q]), cast([a.h]), []
        if name not in FIXED_TREE:
          t0 = tx.init(q)
          side.append((t0, tx.update(h, t0, q)))
        again = tx.update(at(g, 0), s0, p)
        other = mk()
        if side:
          f0 = other.init(q)
          side.append((f0, other.update(h, f0, q)))
        fresh = other.update(at(g, 0), other.init(p), p)

        # another process restores the state leaf by leaf and carries on without calling init
        sl, st = jax.tree_util.tree_flatten(s1)
        resumed = mk().update(at(g, 1), jax.tree_util.tree_unflatten(st, [jnp.array(x) for x in sl]), p)

        def body(s, x):
          u, n = tx.update(x, s, p)
          return n, u
        s3, us = jax.lax.scan(body, s0, g)
        return (u1, u2), s2, us, s3, again, (u1, s1), fresh, s0, side, resumed

      def prop(a, o, O):
        (u1, u2), s2, us, s3, again, first, fresh, _, side, resumed = o
        return (eqs('scan update 0', O, at(us, 0), u1) + eqs('scan update 1', O, at(us, 1), u2) + keyeqs('scan state', O, s3, s2) +
                keyeqs('second call', O, again, first) + keyeqs('fresh instance', O, fresh, first) + keyeqs('resumed', O, resumed, (u2, s2)) +
                (keyeqs('second model', O, side[0], side[1]) if side else []))

      def static(a, o, dt=dt, sh=sh):
        (u1, u2), s2, us, s3, again, first, fresh, s0, side, _ = o
        r = []
        for i, u in enumerate((u1, u2)):
          r += [('update %d structure' % i, structure(u) == structure(a.p)),
                ('update %d shapes' % i, [np.shape(x) for x in leaves(u)] == [np.shape(x) for x in leaves(a.p)]),
                ('update %d dtypes' % i, [spec_of(x)[1] for x in leaves(u)] == [dt] * len(leaves(u)))]
        for t0, (u, t1) in side[:1]:
          r += [('scalar leaf: shape', np.shape(u[0]) == sh), ('scalar leaf: dtype', spec_of(u[0])[1] == dt)] + same('scalar leaf: state', t1, t0)
        return r + same('state after one update', first[1], s0) + same('state after two updates', s2, s0)
      out.append(Case('%s %s' % (name, dt), dict(g=stacked(), p={'w': F((2, 1)), 'n': F((2,))}, q=F(sh), h=F(sh)), run=run, prop=prop, static=static,
                      functions=FN, x64=False, replay_tol=(0.2, 0.2) if half else (1e-3, 1e-3),
                      tier='thorough' if dt == 'float16' or (half and name in HARD) else 'quick'))
      if half and name in HARD:
        out.append(Case('%s %s kinds' % (name, dt), dict(g=stacked(), p={'w': F((2, 1)), 'n': F((2,))}, q=F(sh), h=F(sh)), run=run,
                        prop=lambda a, o, O: [('accepted', True)], static=static, functions=FN, x64=False))

    if name in NOBATCH:
      continue

    def vrun(a, mk=mk):
      tx = mk()

      def one(g, p):
        s = tx.init(p)
        return tx.update(g, s, p)
      return jax.vmap(one)(a.g, a.p), [one(at(a.g, i), at(a.p, i)) for i in range(2)], jax.jit(one)(at(a.g, 0), at(a.p, 0))

    def vprop(a, o, O):
      b, s, j = o
      return keyeqs('example 0', O, at(b, 0), s[0]) + keyeqs('example 1', O, at(b, 1), s[1]) + keyeqs('jit', O, j, s[0])
    out.append(Case('%s batched' % name, dict(g=stacked(), p=stacked()), run=vrun, prop=vprop, functions=FN, x64=False,
                    replay_tol=(1e-3, 1e-3), tier='thorough' if name in HARD else 'quick'))
  return out


def keyeqs(label, O, x, y):
  """Equality of two trees that may hold PRNG keys (compared as a whole)."""
  if structure(x) != structure(y):
    return [(label + ': structure', False)]
  out = []
  for i, (a, b) in enumerate(zip(leaves(x), leaves(y))):
    if np.shape(a) != np.shape(b):
      out.append(('%s/%d: shape' % (label, i), False))
    else:
      out.append(('%s/%d' % (label, i), O.all(O.eq(a, b))))
  return out
