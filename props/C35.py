"""Optimiser steps can be differentiated (meta-gradients)."""
import optax
from props.common import *

BOUNDS = ('two updates from init (lookahead, accumulation and noise windows included) over a tree of a vector and a scalar leaf (a matrix for centralisation and unit-wise '
          'clipping); arbitrary finite real gradients, parameters, cotangents and hyperparameters in their documented ranges; '
          'first derivatives, reverse mode, and forward mode for adam and sgd')
ASSUMPTIONS = ['The reference is the documented formula written with jax.numpy in the check and differentiated by the same jax; what is decided is '
               'that the two derivatives agree for all inputs.',
               'Points where a formula has a kink (a clipping threshold, a tie) are left out.']
FN = ['optax.* transformations under jax.grad and jax.jvp']


def tm2(f, *t):
  return tmap(f, *t)


def leafwise(step, init=lambda p: ()):
  """A reference with independent elements: step(g, s, p, h, t) -> (u, s)."""
  def ref(gs, p, h):
    fl, tree = jax.tree_util.tree_flatten(p)
    cols = []
    for i, x in enumerate(fl):
      s, us = init(x), []
      for t, g in enumerate(gs):
        u, s = step(leaves(g)[i], s, x, h, t + 1)
        us.append(u)
      cols.append(us)
    return [jax.tree_util.tree_unflatten(tree, [c[t] for c in cols]) for t in range(len(gs))]
  return ref


def unroll(mk):
  def real_(gs, p, h):
    tx = mk(h)
    s, us = tx.init(p), []
    for g in gs:
      u, s = tx.update(g, s, p)
      us.append(u)
    return us
  return real_


def Z(p):
  return jnp.zeros_like(p)


def adam_ref(g, s, p, h, t, belief=False):
  m0, v = s
  m = h.b1 * m0 + (1 - h.b1) * g
  e = g - m0 if belief else g
  v = h.b2 * v + (1 - h.b2) * e * e
  return m / (1 - h.b1**t) / (jnp.sqrt(v / (1 - h.b2**t) + h.eps_root) + h.eps), (m, v)


def norm(x):
  return jnp.sqrt(jnp.sum(x * x))


def gnorm(t):
  return jnp.sqrt(sum(jnp.sum(x * x) for x in leaves(t)))


def trace_ref(nesterov):
  def step(g, s, p, h, t):
    s = g + h.decay * s
    return (g + h.decay * s if nesterov else s), s
  return leafwise(step, Z)


def ema_ref(debias):
  def step(g, s, p, h, t):
    s = h.decay * s + (1 - h.decay) * g
    return (s / (1 - h.decay**t) if debias else s), s
  return leafwise(step, Z)


def rss_ref(g, s, p, h, t):
  s = s + g * g
  return jnp.where(s > 0, g / jnp.sqrt(s + h.eps), 0.), s


def rms_ref(g, s, p, h, t):
  s = h.decay * s + (1 - h.decay) * g * g
  return g / jnp.sqrt(s + h.eps), s


def stddev_ref(g, s, p, h, t):
  m, v = h.decay * s[0] + (1 - h.decay) * g, h.decay * s[1] + (1 - h.decay) * g * g
  return g / jnp.sqrt(v - m * m + h.eps), (m, v)


def sgdm(g, s, p, h, t):
  s = g + h.decay * s
  return -h.lr * s, s


def trust_ref(gs, p, h):
  def one(g, x):
    n = []
    for y in (x, g):
      q = jnp.sum(y * y)
      big = q > h.mn * h.mn
      n.append(jnp.where(big, jnp.sqrt(jnp.where(big, q, 1.)), h.mn))
    return g * n[0] / n[1]
  return [tmap(one, g, p) for g in gs]


def clipn_ref(gs, p, h):
  del p
  r = []
  for g in gs:
    n = gnorm(g)
    r.append(tmap(lambda x: jnp.where(n < h.mx, x, x / n * h.mx), g))
  return r


def agc_ref(gs, p, h):
  def one(g, x):
    n = jnp.sqrt(jnp.sum(g * g, axis=0, keepdims=True))
    m = h.clipping * jnp.maximum(jnp.sqrt(jnp.sum(x * x, axis=0, keepdims=True)), h.eps)
    return jnp.where(n < m, g, g * m / n)
  return [tmap(one, g, p) for g in gs]


def window(k, f):
  """Every k-th step emits f(window), zeros in between."""
  def ref(gs, p, h):
    r = []
    for t, g in enumerate(gs):
      if (t + 1) % k:
        r.append(tmap(jnp.zeros_like, g))
      else:
        r.append(tmap(lambda *x: f(x, h), *gs[t + 1 - k:t + 1]))
    return r
  return ref


def lookahead_real(gs, p, h):
  tx = optax.lookahead(optax.sgd(h.lr, h.decay), 2, h.alpha)
  pp = optax.LookaheadParams.init_synced(p)
  s, us = tx.init(pp), []
  for g in gs:
    u, s = tx.update(g, s, pp)
    pp = optax.apply_updates(pp, u)
    us.append((pp.fast, pp.slow))
  return us


def lookahead_ref(gs, p, h):
  a, b = leafwise(sgdm, Z)(gs, p, h)
  f1 = tmap(lambda x, u: x + u, p, a)
  f2 = tmap(lambda x, u: x + u, f1, b)
  s2 = tmap(lambda x, f: x + h.alpha * (f - x), p, f2)
  return [(f1, p), (s2, s2)]


def descend(mk):
  """Parameters after following the gradient of 0.5 * curvature * p^2 + g * p."""
  def f(gs, p, h):
    tx = mk(h)
    s = tx.init(p)
    ps = []
    for g in gs:
      u, s = tx.update(tmap(lambda x, y: y * x * x + x, p, g), s, p)
      p = optax.apply_updates(p, u)
      ps.append(p)
    return ps
  return f


def descend_ref(step, init):
  def f(gs, p, h):
    fl, tree = jax.tree_util.tree_flatten(p)
    cols = []
    for i, x in enumerate(fl):
      s, ps = init(x), []
      for t, g in enumerate(gs):
        y = leaves(g)[i]
        u, s = step(y * x * x + x, s, x, h, t + 1)
        x = x + u
        ps.append(x)
      cols.append(ps)
    return [jax.tree_util.tree_unflatten(tree, [c[t] for c in cols]) for t in range(len(gs))]
  return f


def adam_step(g, s, p, h, t):
  u, s = adam_ref(g, s, p, h, t)
  return -h.lr * u, s


U = lambda: F((), lo=0, hi=1, hi_open=True, lo_open=True)
P = lambda: F((), lo=0, lo_open=True)
N = lambda: F((), lo=0)
R = lambda: F(())
ADAM = dict(b1=U, b2=U, eps=P, eps_root=P)
V = lambda: {'w': F((2,)), 'n': F(())}
M = lambda: {'w': F((2, 2))}


def far(O, x, y):
  return O.not_(O.eq(x, y))


def each(a, O, f):
  return [c for g in a.g for x in leaves(g) for c in f(x)]


def cl_as(a, O):
  return each(a, O, lambda x: [O.all(far(O, O.abs(x), a.h['mx']))])


def n_as(a, O):
  return [c for g in a.g for c in (O.gt(sum2(g, O), 0), far(O, sum2(g, O), a.h['mx'] * a.h['mx']))]


def tr_as(a, O):
  return [far(O, O.sum(x * x), a.h['mn'] * a.h['mn']) for t in a.g + [a.p] for x in leaves(t)]


def agc_as(a, O):
  x = np.asarray(a.p['w'])
  r = []
  for j in range(2):
    px = x[0][j] * x[0][j] + x[1][j] * x[1][j]
    r += [far(O, px, a.h['eps'] * a.h['eps']), O.gt(px, 0)]
    m = a.h['clipping'] * O.max(O.sqrt(px), a.h['eps'])
    for g in a.g:
      w = np.asarray(g['w'])
      n2 = w[0][j] * w[0][j] + w[1][j] * w[1][j]
      r += [far(O, n2, m * m), O.gt(n2, 1e-10)]
  return r


def nn_as(a, O):
  return [O.all(far(O, x + y, 0)) for g in a.g for x, y in zip(leaves(a.p), leaves(g))] + [O.all(O.ge(x, 0)) for x in leaves(a.p)]


# name: (hyperparameters, real, reference, options)
T = {
    'trace': (dict(decay=R), unroll(lambda h: optax.trace(h.decay)), trace_ref(False), {}),
    'trace nesterov': (dict(decay=R), unroll(lambda h: optax.trace(h.decay, nesterov=True)), trace_ref(True), {}),
    'ema': (dict(decay=U), unroll(lambda h: optax.ema(h.decay)), ema_ref(True), {}),
    'ema biased': (dict(decay=U), unroll(lambda h: optax.ema(h.decay, debias=False)), ema_ref(False), {}),
    'scale': (dict(k=R), unroll(lambda h: optax.scale(h.k)), leafwise(lambda g, s, p, h, t: (h.k * g, s)), {}),
    'scale_by_schedule': (dict(k=R), unroll(lambda h: optax.scale_by_schedule(lambda c: h.k / (1 + c))),
                          leafwise(lambda g, s, p, h, t: (h.k / t * g, s)), {}),
    'scale_by_adam': (ADAM, unroll(lambda h: optax.scale_by_adam(h.b1, h.b2, h.eps, h.eps_root)), leafwise(adam_ref, lambda p: (Z(p), Z(p))), {}),
    'scale_by_belief': (ADAM, unroll(lambda h: optax.scale_by_belief(h.b1, h.b2, h.eps, h.eps_root)),
                        leafwise(lambda g, s, p, h, t: adam_ref(g, s, p, h, t, True), lambda p: (Z(p), Z(p))), {}),
    'scale_by_radam': (dict(b1=U, eps=P, eps_root=P), unroll(lambda h: optax.scale_by_radam(h.b1, 0.9, h.eps, h.eps_root)),
                       leafwise(lambda g, s, p, h, t: (lambda m: (m / (1 - h.b1**t), m))(h.b1 * s + (1 - h.b1) * g), Z), {}),
    'scale_by_rss': (dict(a0=N, eps=P), unroll(lambda h: optax.scale_by_rss(h.a0, h.eps)), None, {}),
    'scale_by_rms': (dict(decay=U, eps=P), unroll(lambda h: optax.scale_by_rms(h.decay, h.eps)), leafwise(rms_ref, Z), {}),
    'scale_by_stddev': (dict(decay=U, eps=P), unroll(lambda h: optax.scale_by_stddev(h.decay, h.eps)), leafwise(stddev_ref, lambda p: (Z(p), Z(p))), {}),
    'add_decayed_weights': (dict(wd=R), unroll(lambda h: optax.add_decayed_weights(h.wd)), leafwise(lambda g, s, p, h, t: (g + h.wd * p, s)), {}),
    'scale_by_trust_ratio': (dict(mn=P), unroll(lambda h: optax.scale_by_trust_ratio(h.mn)), trust_ref, dict(assume=tr_as)),
    'centralize': ({}, unroll(lambda h: optax.centralize()), lambda gs, p, h: [tmap(lambda x: x - jnp.mean(x, axis=1, keepdims=True), g) for g in gs], dict(tree=M)),
    'clip': (dict(mx=P), unroll(lambda h: optax.clip(h.mx)), leafwise(lambda g, s, p, h, t: (jnp.where(g > h.mx, h.mx, jnp.where(g < -h.mx, -h.mx, g)), s)),
             dict(assume=cl_as)),
    'clip_by_global_norm': (dict(mx=P), unroll(lambda h: optax.clip_by_global_norm(h.mx)), clipn_ref, dict(assume=n_as)),
    'adaptive_grad_clip': (dict(clipping=P, eps=P), unroll(lambda h: optax.adaptive_grad_clip(h.clipping, h.eps)), agc_ref, dict(tree=M, assume=agc_as)),
    'apply_every': ({}, unroll(lambda h: optax.apply_every(2)), window(2, lambda x, h: x[0] + x[1]), {}),
    'multi steps': (dict(k=R), unroll(lambda h: optax.MultiSteps(optax.scale(h.k), 2).gradient_transformation()), window(2, lambda x, h: h.k * (x[0] + x[1]) / 2), {}),
    'keep_params_nonnegative': ({}, unroll(lambda h: optax.keep_params_nonnegative()),
                                leafwise(lambda g, s, p, h, t: (jnp.where(p + g < 0, -p, g), s)), dict(assume=nn_as)),
    'zero_nans': ({}, unroll(lambda h: optax.zero_nans()), leafwise(lambda g, s, p, h, t: (g, s)), {}),
    'identity': ({}, unroll(lambda h: optax.identity()), leafwise(lambda g, s, p, h, t: (g, s)), {}),
    'chain': (dict(decay=R, lr=R), unroll(lambda h: optax.chain(optax.trace(h.decay), optax.identity(), optax.scale(-h.lr))), leafwise(sgdm, Z), {}),
    'flatten': (dict(decay=R, lr=R), unroll(lambda h: optax.flatten(optax.sgd(h.lr, h.decay))), leafwise(sgdm, Z), {}),
    'masked': (dict(decay=R, lr=R), unroll(lambda h: optax.masked(optax.sgd(h.lr, h.decay), {'w': True, 'n': False})),
               lambda gs, p, h: [{'w': m['w'], 'n': g['n']} for m, g in zip(leafwise(sgdm, Z)(gs, p, h), gs)], {}),
    'apply_if_finite': (dict(decay=R, lr=R), unroll(lambda h: optax.apply_if_finite(optax.sgd(h.lr, h.decay), 3)), leafwise(sgdm, Z), {}),
    'maybe_update': (dict(decay=R, lr=R), unroll(lambda h: optax.maybe_update(optax.sgd(h.lr, h.decay), lambda c: c != 1)),
                     lambda gs, p, h: [leafwise(sgdm, Z)(gs, p, h)[0], gs[1]], {}),
    'inject_hyperparams': (dict(decay=R, lr=R), unroll(lambda h: optax.inject_hyperparams(optax.sgd)(learning_rate=lambda c: h.lr / (1 + c), momentum=h.decay)),
                           None, {}),
    'lookahead': (dict(decay=R, lr=R, alpha=R), lookahead_real, lookahead_ref, {}),
    'sgd descent': (dict(decay=R, lr=R), descend(lambda h: optax.sgd(h.lr, h.decay)), descend_ref(sgdm, Z), {}),
    'adam descent': (dict(ADAM, lr=R), descend(lambda h: optax.adam(h.lr, h.b1, h.b2, h.eps, h.eps_root)), None, {}),
    'adamw': (dict(ADAM, lr=R, wd=R), unroll(lambda h: optax.adamw(h.lr, h.b1, h.b2, h.eps, h.eps_root, h.wd)), None, {}),
}


# name: (leaf shape, updates, trees to differentiate by)
HARD = {'scale_by_adam': ((), 2, ['g']), 'scale_by_belief': ((), 2, ['g']), 'scale_by_rss': ((), 2, ['g']), 'scale_by_rms': ((), 2, ['g']),
        'scale_by_stddev': ((), 2, ['g']), 'adamw': ((), 2, ['g', 'p']), 'adam descent': ((), 1, ['g', 'p']),
        'scale_by_trust_ratio': ((2,), 1, ['g', 'p'])}


def inj_ref(g, s, p, h, t):
  s = g + h.decay * s
  return -h.lr / (1 + t) * s, s


def adamw_ref(g, s, p, h, t):
  u, s = adam_ref(g, s, p, h, t)
  return -h.lr * (u + h.wd * p), s


def late():
  """References whose initial state depends on a hyperparameter."""
  def rss(gs, p, h):
    return leafwise(rss_ref, lambda x: jnp.zeros_like(x) + h.a0)(gs, p, h)
  return {'scale_by_rss': rss, 'inject_hyperparams': leafwise(inj_ref, Z), 'adamw': leafwise(adamw_ref, lambda x: (Z(x), Z(x))),
          'adam descent': descend_ref(adam_step, lambda x: (Z(x), Z(x)))}


def sm3_ref(g, s, p, h, t):
  nu, acc = s
  acc = acc + g * g
  nu = h.b1 * nu + (1 - h.b1) * jnp.where(acc > 0, g / jnp.sqrt(acc + h.eps), 0.)
  return nu, (nu, acc)


def dp_ref(gs, p, h):
  r = []
  for g in gs:
    x = g['n']
    q = jnp.sum(x * x, axis=1)
    c = x * jnp.where(q > h.mx * h.mx, h.mx / jnp.sqrt(q), 1.)[:, None]
    r.append({'n': jnp.sum(c, axis=0) / x.shape[0]})
  return r


T.update({
    'scale_by_sm3': (dict(b1=U, eps=P), unroll(lambda h: optax.scale_by_sm3(h.b1, eps=h.eps)), leafwise(sm3_ref, lambda p: (Z(p), Z(p))), {}),
    'add_noise': ({}, unroll(lambda h: optax.add_noise(0.1, 0.55, 3)), leafwise(lambda g, s, p, h, t: (g, s)), {}),
    'noisy_sgd': (dict(lr=R), unroll(lambda h: optax.chain(optax.add_noise(0., 0.55, 3), optax.sgd(h.lr))), leafwise(lambda g, s, p, h, t: (-h.lr * g, s)), {}),
    'differentially_private_aggregate': (dict(mx=P), unroll(lambda h: optax.differentially_private_aggregate(h.mx, 0., 3)), dp_ref,
                                         dict(assume=lambda a, O: [c for x in np.asarray(a.g[0]['n']) for c in
                                                                   (O.gt(O.sum(x * x), 0), far(O, O.sum(x * x), a.h['mx'] * a.h['mx']))])),
    'incremental_update': (dict(k=R), lambda gs, p, h: [optax.incremental_update(g, p, h.k) for g in gs],
                           lambda gs, p, h: [tmap(lambda g, x: h.k * g + (1 - h.k) * x, g, p) for g in gs], {}),
    'periodic_update': ({}, lambda gs, p, h: [optax.periodic_update(g, p, jnp.int32(t), 2) for t, g in enumerate(gs)],
                        lambda gs, p, h: [gs[0], p], {}),
})
HARD.update({'scale_by_sm3': ((1,), 2, ['g']), 'differentially_private_aggregate': ((2, 1), 1, ['g'])})


def schedules():
  S = optax
  B = {2: 0.5, 5: 3.0}
  # name: (schedule of the two endpoint values, its range of steps)
  return {
      'constant_schedule': lambda x, y: S.constant_schedule(x),
      'linear_schedule': lambda x, y: S.linear_schedule(x, y, 10, 3),
      'polynomial_schedule': lambda x, y: S.polynomial_schedule(x, y, 2, 10, 3),
      'exponential_decay': lambda x, y: S.exponential_decay(x, 10, 0.5, 3),
      'exponential_decay staircase': lambda x, y: S.exponential_decay(x, 10, 0.5, 3, True),
      'cosine_decay_schedule': lambda x, y: S.cosine_decay_schedule(x, 10, 0.1),
      'piecewise_constant_schedule': lambda x, y: S.piecewise_constant_schedule(x, B),
      'piecewise_interpolate_schedule': lambda x, y: S.piecewise_interpolate_schedule('linear', x, B),
      'join_schedules': lambda x, y: S.join_schedules([S.constant_schedule(x), S.linear_schedule(x, y, 5)], [4]),
      'warmup_exponential_decay_schedule': lambda x, y: S.warmup_exponential_decay_schedule(x, y, 5, 10, 0.5),
  }


class H:

  def __init__(self, d):
    self.__dict__.update(d)


def cases():
  out = []
  refs = late()
  for name, (hp, real_, ref, opt) in T.items():
    ref = ref or refs[name]
    tree = opt.get('tree', V)
    two = name == 'lookahead'
    w = [(tree(), tree()) if two else tree() for _ in range(2)]
    if name in HARD:
      # one leaf, one update, one argument at a time
      shape, steps, by = HARD[name]
      for t in range(steps):
        for k in by + sorted(hp):
          def hrun(a, real_=real_, ref=ref, t=t, k=k):
            def at(f):
              def L(x):
                h = dict(a.h)
                if k in h:
                  h[k] = x
                o = f(x if k == 'g' else a.g, x if k == 'p' else a.p, H(h))[t]['n']
                return jnp.sum(o * a.w)
              return L
            x = a.g if k == 'g' else a.p if k == 'p' else a.h[k]
            return jax.grad(at(real_))(x), jax.grad(at(ref))(x)

          def hprop(a, o, O):
            return eqs('derivative', O, o[0], o[1]) + [('finite %d' % i, O.all(O.isfinite(x))) for i, x in enumerate(leaves(o[0]))]
          out.append(Case('%s, update %d by %s' % (name, t + 1, k),
                          dict(g=[{'n': F(shape)} for _ in range(t + 1)], p={'n': F(shape)}, h={q: v() for q, v in hp.items()}, w=F(shape)),
                          run=hrun, prop=hprop, functions=FN, assume=opt.get('assume'), replay_x64=True))
      continue

    def run(a, real_=real_, ref=ref):
      def total(f):
        def L(d):
          us = f(d['g'], d['p'], H(d['h']))
          return sum(jnp.sum(x * y) for x, y in zip(leaves(us), leaves(a.w)))
        return L
      d = dict(g=a.g, p=a.p, h=dict(a.h))
      return jax.grad(total(real_))(d), jax.grad(total(ref))(d)

    def prop(a, o, O):
      r, s = o
      res = []
      for k in ('g', 'p', 'h'):
        res += eqs('d/d' + k, O, r[k], s[k])
        res += [('finite d/d%s %d' % (k, i), O.all(O.isfinite(x))) for i, x in enumerate(leaves(r[k]))]
      return res
    out.append(Case(name, dict(g=[tree(), tree()], p=tree(), h={k: v() for k, v in hp.items()}, w=w), run=run, prop=prop, functions=FN,
                    assume=opt.get('assume'), replay_x64=True))

  # every schedule is linear in its values, so its derivatives are the schedule of unit values
  for name, f in schedules().items():
    def srun(a, f=f):
      val = lambda x, y: 1.0 * f(x, y)(a.c)
      one, nil = jnp.ones_like(a.x), jnp.zeros_like(a.x)
      return jax.grad(val, (0, 1))(a.x, a.y), (val(one, nil), val(nil, one)), val(a.x, a.y)

    out.append(Case('%s by its values' % name, dict(x=F(()), y=F(()), c=Int(lo=0, hi=1000)), run=srun, functions=FN, replay_x64=True,
                    prop=lambda a, o, O: [('by the first value', O.eq(o[0][0], o[1][0])), ('by the last value', O.eq(o[0][1], o[1][1])),
                                          ('linear', O.eq(o[2], a.x * o[1][0] + a.y * o[1][1]))]))
  return out
