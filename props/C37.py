"""Symmetries of the transformations: odd, linear, scale invariant, local, at rest without gradients."""
import optax
from props.common import *

BOUNDS = ('every deterministic gradient transformation and ready-made optimiser (about 45 configurations); two runs related by the symmetry, two updates each from init, '
          'trees with a matrix and a vector leaf; every real gradient, parameter, factor; scale invariance with eps = 0 and non-zero gradients')
ASSUMPTIONS = ['Scale invariance of clip_by_global_norm, LAMB and the trust ratio is the homogeneity of norms; ties at kinks are excluded.']
FN = ['init and update of every gradient transformation', 'optax.apply_updates']


def decay(c):
  return 0.5 / (1 + c)


o = optax
LINEAR = {
    'trace': lambda: o.trace(0.9), 'nesterov': lambda: o.trace(0.9, nesterov=True), 'ema': lambda: o.ema(0.9), 'ema biased': lambda: o.ema(0.9, debias=False),
    'scale': lambda: o.scale(-0.1), 'schedule': lambda: o.scale_by_schedule(decay), 'weight decay': lambda: o.add_decayed_weights(0.1),
    'centralize': lambda: o.centralize(), 'apply every': lambda: o.apply_every(2), 'identity': lambda: o.identity(),
    'chain': lambda: o.chain(o.trace(0.9), o.scale_by_schedule(decay)), 'flatten': lambda: o.flatten(o.trace(0.9)),
    'masked': lambda: o.masked(o.trace(0.9), {'w': True, 'n': False}), 'multi steps': lambda: o.MultiSteps(o.trace(0.9), 2).gradient_transformation(),
    'maybe update': lambda: o.maybe_update(o.trace(0.9), lambda s: s % 2 == 0), 'inject': lambda: o.inject_hyperparams(o.sgd)(learning_rate=decay, momentum=0.9),
    'sgd': lambda: o.sgd(0.1, 0.9, nesterov=True), 'sgd schedule': lambda: o.sgd(decay, 0.9),
}
NORMAL = {  # second-moment scalings; eps = 0 where scale invariance is claimed
    'adam': lambda e: o.scale_by_adam(eps=e), 'belief': lambda e: o.scale_by_belief(eps=e, eps_root=e), 'yogi': lambda e: o.scale_by_yogi(eps=e, initial_accumulator_value=1e-6),
    'radam': lambda e: o.scale_by_radam(b2=0.9, eps=e), 'rss': lambda e: o.scale_by_rss(initial_accumulator_value=0., eps=e),
    'rms': lambda e: o.scale_by_rms(eps=e), 'stddev': lambda e: o.scale_by_stddev(eps=e), 'sm3': lambda e: o.scale_by_sm3(eps=e),
    'alias adam': lambda e: o.adam(decay, eps=e), 'alias adagrad': lambda e: o.adagrad(0.1, initial_accumulator_value=0., eps=e),
    'alias rmsprop': lambda e: o.rmsprop(0.1, eps=e, momentum=0.9), 'rmsprop centered': lambda e: o.rmsprop(0.1, eps=e, centered=True),
    'alias sm3': lambda e: o.sm3(0.1), 'alias adabelief': lambda e: o.adabelief(0.1, eps=e), 'alias yogi': lambda e: o.yogi(0.1, eps=e), 'alias radam': lambda e: o.radam(0.1, b2=0.9, eps=e),
}
WITHP = {  # see the parameters
    'trust ratio': lambda: o.scale_by_trust_ratio(), 'trust ratio min': lambda: o.scale_by_trust_ratio(min_norm=0.1), 'agc': lambda: o.adaptive_grad_clip(0.1),
    'adamw': lambda: o.adamw(0.1, eps=1e-3), 'lamb': lambda: o.lamb(0.1, eps=1e-3), 'fromage': lambda: o.fromage(0.1),
}
CLIPS = {'clip': lambda: o.clip(1.0), 'global clip': lambda: o.clip_by_global_norm(1.0), 'zero nans': lambda: o.zero_nans(),
         'finite': lambda: o.apply_if_finite(o.trace(0.9), 2)}
ELEMENTWISE = [k for k in LINEAR if k != 'centralize'] + [k for k in NORMAL if 'sm3' not in k] + ['clip', 'zero nans', 'adamw']
# ... of each leaf: other leaves have no influence
LEAFWISE = ['centralize', 'sm3', 'alias sm3', 'trust ratio', 'trust ratio min', 'agc', 'lamb', 'fromage']


def two(mk, g, p):
  tx = mk()
  s = tx.init(p)
  out = []
  for x in g:
    u, s = tx.update(x, s, p)
    out.append(u)
  return out


def tree(**kw):
  return {'w': F((2, 1), **kw), 'n': F((2,), **kw)}


def cases():
  out = []
  allf = dict(LINEAR, **WITHP, **CLIPS)
  for k, f in NORMAL.items():
    allf[k] = lambda f=f: f(1e-3)
  tol = dict(functions=FN, replay_x64=True, replay_tol=(1e-3, 1e-9))

  def add(kind, name, args, run, **kw):
    out.append(Case('%s %s' % (kind, name), args, run=run, prop=lambda a, r, O: eqs('update', O, r[0], r[1]), **dict(tol, **kw)))

  gs = lambda **kw: [tree(**kw), tree(**kw)]
  for name, mk in allf.items():
    def odd(a, mk=mk):
      neg = lambda t: tmap(lambda x: -x, t)
      return two(mk, neg(a.g), neg(a.p)), neg(two(mk, a.g, a.p))
    if 'yogi' not in name:  # its first moment starts at the (positive) initial accumulator
      add('odd', name, dict(g=gs(), p=tree()), odd)

    if 'yogi' not in name and name not in ('weight decay', 'adamw', 'lamb', 'fromage'):
      def rest(a, mk=mk):
        z = [zeros(a.p), zeros(a.p)]
        return two(mk, z, a.p), z
      add('rest', name, dict(p=tree()), rest)

  for name, mk in LINEAR.items():
    def lin(a, mk=mk):
      mix = lambda x, y: tmap(lambda u, v: a.c * u + a.d * v, x, y)
      return two(mk, mix(a.g, a.h), mix(a.p, a.q)), mix(two(mk, a.g, a.p), two(mk, a.h, a.q))
    add('linear', name, dict(g=gs(), h=gs(), p=tree(), q=tree(), c=F(), d=F()), lin)

  for name, mk in NORMAL.items():
    # yogi's accumulator is not homogeneous, RAdam starts un-normalised, sm3 and adabelief keep an eps under the root
    if any(x in name for x in ('yogi', 'radam', 'sm3', 'alias adabelief')):
      continue

    def inv(a, mk=mk):
      m = lambda: mk(0.)
      return two(m, tmap(lambda x: a.c * x, a.g), a.p), two(m, a.g, a.p)
    def nz(a, O):
      r = []
      for x in leaves(a.g):
        r += [O.not_(O.eq(v, 0)) for v in np.asarray(x, dtype=object).reshape(-1)]
      return r
    add('scale', name, dict(g=gs(), p=tree(), c=F(lo=0, lo_open=True)), inv, assume=nz)

  for name in ELEMENTWISE:
    mk = allf[name]

    def loc(a, mk=mk):
      def put(t, r):
        # everything but the first element of the vector leaf is replaced
        return {'w': r['w'], 'n': jnp.stack([t['n'][0], r['n'][1]])}
      u = two(mk, [put(x, y) for x, y in zip(a.g, a.h)], put(a.p, a.q))
      v = two(mk, a.g, a.p)
      return [x['n'][0] for x in u], [x['n'][0] for x in v]
    add('local', name, dict(g=gs(), h=gs(), p=tree(), q=tree()), loc)
  for name in LEAFWISE:
    mk = allf[name]

    def leafloc(a, mk=mk):
      u = two(mk, [{'w': x['w'], 'n': y['n']} for x, y in zip(a.g, a.h)], {'w': a.p['w'], 'n': a.q['n']})
      v = two(mk, a.g, a.p)
      return [x['w'] for x in u], [x['w'] for x in v]
    add('leaf-local', name, dict(g=gs(), h=gs(), p=tree(), q=tree()), leafloc)

  # units of a matrix (columns) have no influence on each other
  for c in (0, 1):
    def unit_local(a, c=c):
      tx = optax.adaptive_grad_clip(a.clipping, a.eps)
      keep = jnp.arange(2) == c
      u, _ = tx.update(jnp.where(keep, a.g, a.h), tx.init(a.p), jnp.where(keep, a.p, a.q))
      v, _ = tx.update(a.g, tx.init(a.p), a.p)
      return u[:, c], v[:, c]
    m = lambda: F((2, 2))
    out.append(Case('unit-local agc %d' % c, dict(g=m(), h=m(), p=m(), q=m(), clipping=pos((0.1, 1.0)), eps=pos((1e-3, 0.1))), run=unit_local,
                    prop=lambda a, r, O: eqs('update', O, r[0], r[1]), **tol))

  # the order of the elements (and of the leaves) does not matter
  for name in ELEMENTWISE + ['global clip', 'agc', 'fromage', 'lamb', 'trust ratio']:
    mk = allf[name]
    if name in ('masked', 'agc'):
      continue

    def perm(a, mk=mk):
      sw = lambda t: {'w': t['w'][::-1], 'n': t['n'][::-1]}
      return two(mk, [sw(x) for x in a.g], sw(a.p)), [sw(x) for x in two(mk, a.g, a.p)]
    add('order', name, dict(g=gs(), p=tree()), perm)

    def swap(a, mk=mk):
      sw = lambda t: {'w': t['n'], 'n': t['w']}
      return two(mk, [sw(x) for x in a.g], sw(a.p)), [sw(x) for x in two(mk, a.g, a.p)]
    add('leaf order', name, dict(g=gs(), p=tree()), swap)
  return out
