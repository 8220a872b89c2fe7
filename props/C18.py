"""differentially_private_aggregate: clip per example, sum, add Gaussian noise, average."""
import types

import optax
from optax._src import privacy
from props.common import *

BOUNDS = ('batches of 1-3 examples over trees of 1-3 (and 12) leaves (scalar, vector, matrix per example); finite real '
          'per-example gradients; clip > 0, noise multiplier >= 0 symbolic; any key; 2 consecutive updates; '
          'any seed 0..2^31-1')
ASSUMPTIONS = ['Gaussian draws are opaque functions of (key, shape, index); keys derived differently are different.']
FN = ['optax.differentially_private_aggregate', 'optax.global_norm']


def batch(b):
  return {'w': F((b, 2)), 'n': (F((b,)), [F((b, 1, 2))])}


def run(a, n=1):
  tx = optax.differentially_private_aggregate(a.c, a.nm, 7)
  s = privacy.DifferentiallyPrivateAggregateState(rng_key=a.key)
  res = []
  for i in range(n):
    with Recorder() as r:
      u, s2 = tx.update(a.g if n == 1 else a.g[i], s)
    res.append((u, s.rng_key, s2.rng_key, [k for k, _ in r.draws], [d for _, d in r.draws]))
    s = s2
  return res


def clipped_sum(O, g, c):
  b = np.shape(leaves(g)[0])[0]
  tot = None
  for j in range(b):
    ex = tmap(lambda x: x[j], g)
    d = O.max(O.sqrt(sum2(ex, O)) / c, 1)
    ex = tmap(lambda x: x / d, ex)
    tot = ex if tot is None else tmap(lambda p, q: p + q, tot, ex)
  return tot, b


def prop(a, o, O):
  r = []
  used, old = [], []
  gs = a.g if isinstance(a.g, list) and len(o) > 1 else [a.g]
  for i, (u, k0, k1, ks, ds) in enumerate(o):
    s, b = clipped_sum(O, gs[i], a.c)
    r += noise_eqs('mean of clipped examples plus noise, step %d' % i, O, u, tmap(lambda x: x / b, s),
                   a.c * a.nm / b, ds)
    used += ks
    old.append(k0)
  r += fresh('keys', O, used + [o[-1][2]], old)
  return r


def cases():
  out = []
  hp = dict(c=pos((1.0, 0.3, 10.0)), nm=nonneg((1.1, 0.0)))
  for b in (1, 2, 3):
    out.append(Case('step batch=%d' % b, dict(g=batch(b), key=Key(), **hp), run=run, prop=prop, functions=FN,
                    tier='quick' if b < 3 else 'thorough',
                    static=lambda a, o: [('batch axis removed', [np.shape(x) for x in leaves(o[0][0])] ==
                                          [np.shape(x)[1:] for x in leaves(a.g)]),
                                         ('structure', structure(o[0][0]) == structure(a.g)),
                                         ('dtypes', [spec_of(x)[1] for x in leaves(o[0][0])] ==
                                          [spec_of(x)[1] for x in leaves(a.g)])]))
  out.append(Case('single leaf', dict(g=F((2, 2)), key=Key(), **hp), run=run, prop=prop, functions=FN))
  out.append(Case('equal shapes', dict(g=[F((2, 1)), F((2, 1))], key=Key(), **hp), run=run, prop=prop, functions=FN))
  out.append(Case('many leaves', dict(g={'%d' % i: F((1, i + 1)) for i in range(4)}, key=Key(), **hp), run=run, prop=prop,
                  functions=FN, tier='thorough'))
  # the noise of a dozen leaves (of zero gradients)
  def many(a):
    return run(types.SimpleNamespace(c=a.c, nm=a.nm, key=a.key, g=[jnp.zeros((1,) * (i + 1)) for i in range(12)]))

  def mprop(a, o, O):
    (u, k0, k1, ks, ds), = o
    return noise_eqs('noise alone', O, u, [np.zeros((1,) * i) for i in range(12)], a.c * a.nm, ds) + fresh('keys', O, ks + [k1], [k0])
  out.append(Case('a dozen leaves', dict(key=Key(), **hp), run=many, prop=mprop, functions=FN))
  out.append(Case('history', dict(g=[{'w': F((2, 2)), 'n': F((2,))} for _ in range(2)], key=Key(), **hp),
                  run=lambda a: run(a, 2), prop=prop, functions=FN))
  out.append(Case('history of three', dict(g=[{'w': F((1, 2)), 'n': F((1,))} for _ in range(3)], key=Key(), **hp),
                  run=lambda a: run(a, 3), prop=prop, functions=FN))

  # sensitivity: without noise one example contributes its own direction, of norm at most the clip
  def sens(a):
    tx = optax.differentially_private_aggregate(a.c, 0.0, 7)
    return tx.update(a.g, tx.init(None))[0]

  def sprop(a, o, O):
    n2 = sum2(tmap(lambda x: x[0], a.g), O)
    r = [('norm at most clip', O.le(sum2(o, O), a.c * a.c))]
    for i, (x, g) in enumerate(zip(leaves(o), leaves(a.g))):
      r += [('short examples untouched %d' % i, O.implies(O.le(n2, a.c * a.c), O.eq(x, g[0]))),
            ('direction kept %d' % i, O.implies(O.gt(n2, a.c * a.c), O.eq(x * O.sqrt(n2), a.c * g[0])))]
    return r
  out.append(Case('sensitivity', dict(g={'w': F((1, 2)), 'n': (F((1,)),)}, c=hp['c']), run=sens, prop=sprop, functions=FN))

  def init(a):
    tx = optax.differentially_private_aggregate(1.0, 1.0, a.seed)
    return tx.init({'w': jnp.zeros(2)}).rng_key, jax.random.PRNGKey(a.seed)
  out.append(Case('init key from the seed', dict(seed=Int()), run=init, functions=FN,
                  prop=lambda a, o, O: [('key', O.all(O.eq(o[0], o[1])))]))

  bad = {'mismatched': {'w': F((2, 2)), 'n': F((3,))}, 'scalar leaf': {'a': F((2, 2)), 'n': F(())},
         'scalar first': {'b': F((2, 2)), 'a': F((3, 2))}}
  for n, t in bad.items():
    out.append(Case('refused: ' + n, dict(g=t),
                    run=lambda a: (lambda tx: tx.update(a.g, tx.init(None))[0])(
                        optax.differentially_private_aggregate(1.0, 1.0, 7)),
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))
  return out
