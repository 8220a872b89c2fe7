"""add_noise: annealed Gaussian gradient noise with fresh keys."""
import optax
from optax._src import transform
from props.common import *

BOUNDS = ('trees of 1-3 and of 12 leaves; finite real gradients; eta >= 0 symbolic; gamma symbolic >= 0 (and 0.55, 0, 1); count '
          '0..2^31-1 symbolic; any key; 2-3 consecutive updates; any seed')
ASSUMPTIONS = ['Gaussian draws are opaque functions of (key, shape, index); keys derived differently are different.']
FN = ['optax.add_noise', 'optax._src.numerics.safe_int32_increment']


def run(a, n=1):
  tx = optax.add_noise(a.eta, a.gamma, 7)
  s = transform.AddNoiseState(count=a.count, rng_key=a.key)
  res = []
  for i in range(n):
    with Recorder() as r:
      u, s2 = tx.update(a.g[i], s)
    res.append((u, s.rng_key, s2.rng_key, [k for k, _ in r.draws], [d for _, d in r.draws], s2.count))
    s = s2
  return res


def prop(a, o, O):
  r, used, old = [], [], []
  c = a.count
  for i, (u, k0, k1, ks, ds, c1) in enumerate(o):
    c = sat_inc(c, O)
    std = O.sqrt(a.eta / O.pow(O.R(c), a.gamma))
    r += noise_eqs('gradient plus annealed noise, step %d' % i, O, u, a.g[i], std, ds)
    r.append(('count, step %d' % i, O.eq(c1, c)))
    used += ks
    old.append(k0)
  return r + fresh('keys', O, used + [o[-1][2]], old)


def cases():
  out = []
  hp = dict(eta=nonneg((0.01, 0.0, 1.0)), gamma=nonneg((0.55, 0.0, 1.0)), key=Key())
  t3 = lambda: {'w': F((2,)), 'n': (F(()), [F((1, 2))])}
  out.append(Case('step', dict(g=[t3()], count=Int(), **hp), run=run, prop=prop, functions=FN,
                  static=lambda a, o: same('updates', o[0][0], a.g[0]) + [('count', spec_of(o[0][5]) == ((), 'int32'))]))
  out.append(Case('single leaf', dict(g=[F((2,))], count=Int(), **hp), run=run, prop=prop, functions=FN))
  out.append(Case('equal shapes', dict(g=[[F((1,)), F((1,))]], count=Int(), **hp), run=run, prop=prop, functions=FN))
  out.append(Case('a dozen leaves', dict(g=[[F((1,) * i) for i in range(12)]], count=Int(), **hp), run=run, prop=prop, functions=FN))
  out.append(Case('history', dict(g=[{'w': F((2,)), 'n': F(())} for _ in range(3)], count=Int(), **hp),
                  run=lambda a: run(a, 3), prop=prop, functions=FN))

  def first(a):
    tx = optax.add_noise(a.eta, a.gamma, a.seed)
    s = tx.init({'w': jnp.zeros(2)})
    with Recorder() as r:
      u, s2 = tx.update({'w': a.g}, s)
    return u['w'], r.draws[0][1], s.count, s2.count, s.rng_key, jax.random.PRNGKey(a.seed)
  out.append(Case('first step from init', dict(g=F((2,)), seed=Int(), eta=hp['eta'], gamma=hp['gamma']), run=first, functions=FN,
                  prop=lambda a, o, O: [('variance eta at the first step', O.eq(o[0], a.g + O.sqrt(a.eta) * o[1])),
                                        ('counts', O.and_(O.eq(o[2], 0), O.eq(o[3], 1))),
                                        ('key from the seed', O.all(O.eq(o[4], o[5])))]))

  def zero(a):
    tx = optax.add_noise(0.0, a.gamma, 7)
    return tx.update(a.g, transform.AddNoiseState(count=a.count, rng_key=a.key))[0]
  out.append(Case('no noise when eta is zero', dict(g=t3(), count=Int(), gamma=hp['gamma'], key=Key()), run=zero, functions=FN,
                  prop=lambda a, o, O: eqs('u', O, o, a.g)))
  return out
