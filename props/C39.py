"""multi_normal is the diagonal Gaussian its parameters say; the batched-diagonal helpers."""
import math
import optax
from optax._src import utils
from props.common import *

BOUNDS = ('dimension 1 to 3 and scalar parameters, sample shapes of rank 0 to 2, every real mean, log-scale, point and draw; square batches up to 2x3x3 for the helpers')
ASSUMPTIONS = ['A draw is an opaque standard Gaussian of (key, shape, index); its law is the random library\'s contract.']
FN = ['optax.multi_normal', 'MultiNormalDiagFromLogScale.sample/log_prob/params/log_scale', 'utils.set_diags', 'utils.tile_second_to_last_dim']
SH = [(1,), (2,), (3,)]


def logp(O, x, m, s):
  t = None
  for v, a, b in zip(x, m, s):
    z = (v - a) / O.exp(b)
    e = -z * z / 2 - b - HALF_LOG_2PI(O)
    t = e if t is None else t + e
  return t


def HALF_LOG_2PI(O):
  return O.log(2 * O.pi) / 2


def drawn(f):
  """-> (result, the Gaussian draws it made, raveled)."""
  with Recorder() as rec:
    x = f()
  return x, jnp.concatenate([jnp.ravel(w) for _, w in rec.draws])


def cases():
  out = []
  for sh in SH:
    d = sh[0]

    def run(a):
      dist = optax.multi_normal(a.m, a.s)
      lp = dist.log_prob
      g = jax.grad(lambda m, s: optax.multi_normal(m, s).log_prob(a.x), (0, 1))(a.m, a.s)
      return lp(a.x), dist.params, dist.log_scale, g, lp(a.xs), jax.vmap(lp)(a.xs), lp(a.m) - lp(a.x)

    def prop(a, o, O, d=d):
      lp, params, ls, (gm, gs), many, vm, gap = o
      r = eqs('params', O, params, [a.m, a.s]) + eqs('log scale', O, ls, a.s)
      q = None
      for i in range(d):
        z = (a.x[i] - a.m[i]) / O.exp(a.s[i])
        r += [('score of the mean %d' % i, O.eq(gm[i], z / O.exp(a.s[i]))), ('score of the log-scale %d' % i, O.eq(gs[i], z * z - 1))]
        q = z * z / 2 if q is None else q + z * z / 2
      r += [('the mean is the mode', O.ge(gap, 0)), ('log-density ratio', O.eq(gap, q))]
      r.append(('log-density', O.eq(lp, logp(O, a.x, a.m, a.s))))
      for i in range(2):
        r += [('batch row %d' % i, O.eq(many[i], vm[i])), ('row %d' % i, O.eq(vm[i], logp(O, a.xs[i], a.m, a.s)))]
      return r
    out.append(Case('density dim=%d' % d, dict(m=F(sh), s=F(sh, lo=-20, hi=20), x=F(sh), xs=F((2,) + sh)), run=run, prop=prop, functions=FN,
                    static=lambda a, o: [('one number', np.shape(o[0]) == ()), ('one per row', np.shape(o[4]) == (2,))], replay_tol=(1e-3, 1e-3)))

    for shape in ((), (1,), (2,), (2, 2)):
      def srun(a, shape=shape):
        x = optax.multi_normal(a.m, a.s).sample(shape, a.key)
        y = optax.multi_normal(a.m, a.s).sample(shape, a.key)
        z = optax.multi_normal(jnp.zeros_like(a.m), jnp.zeros_like(a.s)).sample(shape, a.key)
        return x, y, z

      def sprop(a, o, O, shape=shape, d=d):
        x, y, z = o
        r = eqs('same key, same samples', O, x, y)
        for idx in np.ndindex(*shape):
          for i in range(d):
            r.append(('mean + scale * standard sample %s %d' % (idx, i), O.eq(x[idx + (i,)], a.m[i] + O.exp(a.s[i]) * z[idx + (i,)])))
        return r
      out.append(Case('sample dim=%d shape=%s' % (d, shape), dict(m=F(sh), s=F(sh, lo=-20, hi=20), key=Key()), run=srun, prop=sprop, functions=FN,
                      static=lambda a, o, shape=shape, sh=sh: [('sample shape', np.shape(o[0]) == shape + sh)]))

    # standard samples are independent draws: as many as there are elements, each used once
    for shape in ((), (2,), (2, 2)):
      def raw(a, sh=sh, shape=shape):
        z, w = drawn(lambda: optax.multi_normal(jnp.zeros(sh), jnp.zeros(sh)).sample(shape, a.key))
        return jnp.ravel(z), w
      out.append(Case('standard samples dim=%d shape=%s' % (d, shape), dict(key=Key()), run=raw, functions=FN,
                      prop=lambda a, o, O: eqs('draw', O, o[0], o[1]) if np.shape(o[0]) == np.shape(o[1]) else [('one draw per element', False)]))

  # parameters broadcast against each other; scalars are a distribution over numbers
  def brun(a):
    dist = optax.multi_normal(a.m, a.s)
    x, w = drawn(lambda: dist.sample((2,), a.key))
    return dist.log_prob(a.x), x, jnp.reshape(w, np.shape(x))
  out.append(Case('broadcast', dict(m=F((2,)), s=F((), lo=-20, hi=20), x=F((2,)), key=Key()), run=brun, functions=FN,
                  static=lambda a, o: [('sample shape', np.shape(o[1]) == (2, 2))],
                  prop=lambda a, o, O: [('log-density', O.eq(o[0], logp(O, a.x, a.m, [a.s, a.s])))] + [
                      ('sample', O.eq(o[1][i, j], a.m[j] + O.exp(a.s) * o[2][i, j])) for i in range(2) for j in range(2)]))
  out.append(Case('scalar', dict(m=F(), s=F((), lo=-20, hi=20), x=F(), key=Key()), run=brun, functions=FN,
                  static=lambda a, o: [('sample shape', np.shape(o[1]) == (2,))],
                  prop=lambda a, o, O: [('log-density', O.eq(o[0], logp(O, [a.x], [a.m], [a.s])))] + [
                      ('sample', O.eq(o[1][i], a.m + O.exp(a.s) * o[2][i])) for i in range(2)]))

  # parameters of any rank: the density is of the whole array
  def mrun(a):
    dist = optax.multi_normal(a.m, a.s)
    x, w = drawn(lambda: dist.sample((2,), a.key))
    return dist.log_prob(a.x), x, jnp.reshape(w, np.shape(x))

  def mprop(a, o, O):
    fl = lambda v: list(np.asarray(v, dtype=object).reshape(-1))
    r = [('log-density %d' % i, O.eq(o[0][i], logp(O, fl(a.x[i]), fl(a.m), fl(a.s)))) for i in range(2)]
    return r + [('sample %d%d%d' % (i, j, k), O.eq(o[1][i, j, k], a.m[j, k] + O.exp(a.s[j, k]) * o[2][i, j, k])) for i in range(2) for j in range(2) for k in range(2)]
  out.append(Case('matrix', dict(m=F((2, 2)), s=F((2, 2), lo=-20, hi=20), x=F((2, 2, 2)), key=Key()), run=mrun, prop=mprop, functions=FN,
                  static=lambda a, o: [('one number per row', np.shape(o[0]) == (2,)), ('sample shape', np.shape(o[1]) == (2, 2, 2))]))

  for n, d in ((1, 1), (2, 2), (2, 3), (3, 2)):
    def drun(a):
      return utils.set_diags(a.x, a.v), utils.tile_second_to_last_dim(a.v)

    def dprop(a, o, O, n=n, d=d):
      r = []
      for i in range(n):
        for j in range(d):
          for k in range(d):
            r += [('diagonals %d %d %d' % (i, j, k), O.eq(o[0][i, j, k], a.v[i, j] if j == k else a.x[i, j, k])),
                  ('tile %d %d %d' % (i, j, k), O.eq(o[1][i, j, k], a.v[i, j]))]
      return r
    out.append(Case('helpers %dx%d' % (n, d), dict(x=F((n, d, d)), v=F((n, d))), run=drun, prop=dprop, functions=FN))
  return out
