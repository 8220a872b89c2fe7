"""Monte-Carlo gradient estimators: score function, pathwise, measure valued."""
import math
import optax
from optax._src import utils, stochastic_gradient_estimators as sge
from symjax import uf
from symjax import fv as _fv
from props.common import *

BOUNDS = ('diagonal Gaussians of dimension 1-2, any real mean and log-scale; 1-3 samples, every draw symbolic; test function '
          'uninterpreted (score, measure valued) or any cubic polynomial with symbolic coefficients (pathwise); one further '
          'distribution (scaled) for score and pathwise; coupling on and off')
ASSUMPTIONS = ['Draws are opaque functions of (key, shape, index): what is decided is the per-sample estimate; that the Weibull, '
               'double-sided Maxwell and coupled draws have the right laws is the random library\'s contract.']
FN = ['optax.score_function_jacobians', 'optax.pathwise_jacobians', 'optax.measure_valued_jacobians',
      'optax._src.utils.multi_normal', 'optax._src.utils.set_diags', 'optax._src.utils.tile_second_to_last_dim']


def fun(x):
  return uf.uf('f', x, np.float32(0))


def Fn(O, x):
  return O.uf('f', x, np.float32(0))


def poly(c):
  def f(x):
    t = c[0]
    for i in range(x.shape[0]):
      t = t + c[1] * x[i] + c[2] * x[i] * x[i] + c[3] * x[i] * x[i] * x[i]
    if x.shape[0] == 2:
      t = t + c[4] * x[0] * x[1] + c[5] * x[0] * x[0] * x[1]
    return t
  return f


def dpoly(c, x):
  g = [c[1] + 2 * c[2] * v + 3 * c[3] * v * v for v in x]
  if len(x) == 2:
    g[0] = g[0] + c[4] * x[1] + 2 * c[5] * x[0] * x[1]
    g[1] = g[1] + c[4] * x[0] + c[5] * x[0] * x[0]
  return g


class Scaled:
  """x = theta * eps with eps of standard Laplace-free form: log p = -x/theta - log theta."""

  def __init__(self, theta):
    self.theta = theta

  def sample(self, shape, seed):
    return jax.random.exponential(seed, shape + self.theta.shape) * self.theta

  def log_prob(self, x):
    return jnp.sum(-x / self.theta - jnp.log(self.theta))


def arr(xs):
  a = np.empty(len(xs), dtype=object if isinstance(xs[0], _fv.FV) else np.float64)
  for i, x in enumerate(xs):
    a[i] = x
  return a


def cases():
  out = []
  for D, N in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)):
    args = dict(mu=F((D,)), ls=F((D,), mags=(-2, 0)), key=Key())
    tier = 'thorough' if N == 3 else 'quick'

    def score(a, N=N, D=D):
      j = optax.score_function_jacobians(fun, [a.mu, a.ls], utils.multi_normal, a.key, N)
      return list(j), jax.random.normal(a.key, (N, D))

    def xs(a, O, eps):
      return [arr([a.mu[i] + O.exp(a.ls[i]) * eps[n][i] for i in range(np.shape(a.mu)[0])]) for n in range(np.shape(eps)[0])]

    def sprop(a, o, O, N=N, D=D):
      (jm, jl), eps = o
      r = []
      for n, x in enumerate(xs(a, O, eps)):
        f = Fn(O, x)
        for i in range(D):
          s = O.exp(a.ls[i])
          r += [('mean %d/%d' % (n, i), O.eq(jm[n][i], f * eps[n][i] / s)),
                ('log scale %d/%d' % (n, i), O.eq(jl[n][i], f * (eps[n][i] * eps[n][i] - 1)))]
      return r
    shapes = lambda a, o, N=N, D=D: [('one jacobian per sample', [x.shape for x in o[0]] == [(N, D)] * 2)]
    out.append(Case('score D=%d N=%d' % (D, N), args, run=score, prop=sprop, static=shapes, functions=FN, tier=tier))

    def path(a, N=N, D=D):
      j = optax.pathwise_jacobians(poly(a.c), [a.mu, a.ls], utils.multi_normal, a.key, N)
      return list(j), jax.random.normal(a.key, (N, D))

    def pprop(a, o, O, N=N, D=D):
      (jm, jl), eps = o
      r = []
      for n, x in enumerate(xs(a, O, eps)):
        g = dpoly(a.c, list(x))
        for i in range(D):
          r += [('mean %d/%d' % (n, i), O.eq(jm[n][i], g[i])),
                ('log scale %d/%d' % (n, i), O.eq(jl[n][i], g[i] * O.exp(a.ls[i]) * eps[n][i]))]
      return r
    out.append(Case('pathwise D=%d N=%d' % (D, N), dict(args, c=F((6,))), run=path, prop=pprop, static=shapes, functions=FN, tier=tier))

    for coupling in (True, False):
      def mv(a, N=N, D=D, coupling=coupling):
        kw = {} if coupling else dict(coupling=False)
        j = optax.measure_valued_jacobians(fun, [a.mu, a.ls], utils.multi_normal, a.key, N, **kw)
        k1, k2 = jax.random.split(a.key)
        wb = lambda k: jax.random.weibull_min(k, scale=math.sqrt(2.), concentration=2., shape=(N, D))
        dm = jax.random.double_sided_maxwell(k1, loc=0.0, scale=1.0, shape=(N, D))
        return (list(j), jax.random.normal(a.key, (N, D)), wb(k1), wb(k1) if coupling else wb(k2), dm,
                jax.random.uniform(k2, (N, D)) * dm if coupling else jax.random.normal(k2, (N, D)))

      def mprop(a, o, O, N=N, D=D):
        (jm, jl), eps, wp, wn, sp, sn = o
        r = []
        for n, x in enumerate(xs(a, O, eps)):
          for i in range(D):
            s = O.exp(a.ls[i])
            def at(v):
              y = list(x)
              y[i] = v
              return Fn(O, arr(y))
            c = O.sqrt(2 * O.pi)
            r += [('mean %d/%d' % (n, i), O.eq(jm[n][i], (at(a.mu[i] + s * wp[n][i]) - at(a.mu[i] - s * wn[n][i])) / (c * s))),
                  ('log scale %d/%d' % (n, i), O.eq(jl[n][i], at(a.mu[i] + s * sp[n][i]) - at(a.mu[i] + s * sn[n][i])))]
        return r
      out.append(Case('measure valued D=%d N=%d coupling=%s' % (D, N, coupling), args, run=mv, prop=mprop, static=shapes, functions=FN,
                      tier=tier))

  # another distribution
  def other(a):
    s = sge.score_function_jacobians(fun, [a.th], Scaled, a.key, 2)
    p = sge.pathwise_jacobians(poly(a.c), [a.th], Scaled, a.key, 2)
    return s[0], p[0], jax.random.exponential(a.key, (2, 1))

  def oprop(a, o, O):
    r = []
    for n in range(2):
      e = o[2][n][0]
      x = e * a.th[0]
      r += [('score %d' % n, O.eq(o[0][n][0], Fn(O, arr([x])) * (x / (a.th[0] * a.th[0]) - 1 / a.th[0]))),
            ('pathwise %d' % n, O.eq(o[1][n][0], dpoly(a.c, [x])[0] * e))]
    return r
  out.append(Case('scaled distribution', dict(th=F((1,), lo=0, lo_open=True), c=F((6,)), key=Key()), run=other, prop=oprop, functions=FN))
  out.append(Case('measure valued refuses other distributions', dict(th=F((1,), lo=0, lo_open=True), key=Key()), functions=FN,
                  run=lambda a: optax.measure_valued_jacobians(fun, [a.th], Scaled, a.key, 2)[0],
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError)))

  # the building blocks
  def mvn(a):
    d = utils.multi_normal(a.mu, a.ls)
    return d.log_prob(a.x), d.sample((2,), a.key), jax.random.normal(a.key, (2, 2)), d.log_scale, d.params

  def mvprop(a, o, O):
    t = 0
    for i in range(2):
      s = O.exp(a.ls[i])
      z = (a.x[i] - a.mu[i]) / s
      t = t - z * z / 2 - a.ls[i] - O.log(2 * O.pi) / 2
    return [('log density', O.eq(o[0], t)), ('log scale', O.eq(o[3], a.ls)), ('params', O.and_(O.all(O.eq(o[4][0], a.mu)), O.all(O.eq(o[4][1], a.ls))))] + [
        ('sample %d/%d' % (n, i), O.eq(o[1][n][i], a.mu[i] + O.exp(a.ls[i]) * o[2][n][i])) for n in range(2) for i in range(2)]
  out.append(Case('gaussian', dict(mu=F((2,)), ls=F((2,), mags=(-2, 0)), x=F((2,)), key=Key()), run=mvn, prop=mvprop, functions=FN))

  def diag(a):
    return utils.set_diags(a.m, a.d), utils.tile_second_to_last_dim(a.d)

  def dprop(a, o, O):
    r = []
    for n in range(2):
      for i in range(3):
        for j in range(3):
          r += [('set_diags', O.eq(o[0][n][i][j], a.d[n][i] if i == j else a.m[n][i][j])),
                ('tile', O.eq(o[1][n][i][j], a.d[n][i]))]
    return r
  out.append(Case('diagonals', dict(m=F((2, 3, 3)), d=F((2, 3))), run=diag, prop=dprop, functions=FN))
  return out
