"""Control variates: delta method, moving-average baseline, corrected jacobians, coefficients."""
import optax
from optax._src import utils
from symjax import uf
from symjax import fv as _fv
from props.common import *

BOUNDS = ('Gaussians of dimension 1-2, 1-3 samples (coefficients: 2-3), every draw symbolic; functions: any polynomial of degree 4 in 1-2 '
          'variables with symbolic coefficients; arbitrary (uninterpreted) gradient estimator and test function, control variates '
          'quadratic in sample, parameters and state with symbolic coefficients; baseline: decay in [0,1), iteration 0..10^6 symbolic, '
          'any running value, histories of 4 updates')
ASSUMPTIONS = ['Draws are opaque functions of (key, shape, index).',
               'Estimated coefficients are checked where the control-variate state does not change, so that reading the state before or '
               'after its update makes no difference (docstring and code disagree on which one is read).']
FN = ['optax.control_delta_method', 'optax.moving_avg_baseline', 'optax.control_variates_jacobians',
      'optax._src.control_variates.estimate_control_variate_coefficients']
from optax._src import control_variates as cvm


# monomials up to degree 4 in 1 or 2 variables
def monos(d):
  if d == 1:
    return [(i,) for i in range(5)]
  return [(i, j) for i in range(5) for j in range(5) if i + j <= 4 and (i + j < 3 or (i, j) in ((3, 0), (2, 1), (1, 3), (2, 2), (0, 4)))]


def pw(x, n):
  t = 1
  for _ in range(n):
    t = t * x
  return t


def poly(c, d):
  def f(x):
    t = 0.
    for k, m in enumerate(monos(d)):
      t = t + c[k] * pw(x[0], m[0]) * (pw(x[1], m[1]) if d == 2 else 1)
    return t
  return f


def dmono(m, wrt):
  """(coefficient, exponents) of the derivative of a monomial."""
  m, k = list(m), 1
  for w in wrt:
    k *= m[w]
    m[w] = max(m[w] - 1, 0)
  return k, m


def pd(c, x, wrt):
  t = 0
  for i, m in enumerate(monos(len(x))):
    k, e = dmono(m, wrt)
    if k:
      v = c[i] * k
      for xx, ee in zip(x, e):
        v = v * pw(xx, ee)
      t = t + v
  return t


def cases():
  out = []
  # ---- delta method
  for d in (1, 2):
    n = len(monos(d))

    def delta(a, d=d):
      h, eh, upd = optax.control_delta_method(poly(a.c, d))
      p = [a.mu, a.ls]
      return h(p, a.x, None), eh(p, None), upd(p, a.x[None], a.st), h(p, a.x, a.st), eh(p, a.st)

    def dprop(a, o, O, d=d):
      mu, ls = list(a.mu), list(a.ls)
      dx = [a.x[i] - mu[i] for i in range(d)]
      f0 = pd(a.c, mu, ())
      t, e = f0, f0
      for i in range(d):
        t = t + pd(a.c, mu, (i,)) * dx[i]
        s = O.exp(ls[i])
        e = e + s * s * pd(a.c, mu, (i, i)) / 2
        for j in range(d):
          t = t + dx[i] * dx[j] * pd(a.c, mu, (i, j)) / 2
      return [('second order expansion', O.eq(o[0], t)), ('expected value', O.eq(o[1], e)), ('state kept', O.eq(o[2], a.st)),
              ('value ignores state', O.eq(o[3], t)), ('expectation ignores state', O.eq(o[4], e))]
    out.append(Case('delta method D=%d' % d, dict(c=F((n,)), mu=F((d,)), ls=F((d,), mags=(-2, 0)), x=F((d,)), st=F(())), run=delta,
                    prop=dprop, functions=FN, static=lambda a, o: [('scalar', o[0].shape == () and o[1].shape == ())]))

  def exact(a):
    f = lambda x: a.c[0] + a.c[1] * x[0] + a.c[2] * x[1] + a.c[3] * x[0] * x[1] + a.c[4] * x[0] * x[0] + a.c[5] * x[1] * x[1]
    h, _, _ = optax.control_delta_method(f)
    return h([a.mu, a.ls], a.x, None), f(a.x)
  out.append(Case('delta method exact on quadratics', dict(c=F((6,)), mu=F((2,)), ls=F((2,), mags=(-2, 0)), x=F((2,))), run=exact,
                  prop=lambda a, o, O: [('equal', O.eq(*o))], functions=FN))

  # ---- moving average baseline
  f = lambda x: uf.uf('f', x, np.float32(0))
  Fv = lambda O, x: O.uf('f', x, np.float32(0))
  mean = lambda O, s: sum([Fv(O, s[i]) for i in range(np.shape(s)[0])]) / np.shape(s)[0]

  for n in (1, 3):
    for debias in (True, False):
      for heur in (True, False):
        def base(a, debias=debias, heur=heur):
          h, eh, upd = optax.moving_avg_baseline(f, decay=a.d, zero_debias=debias, use_decay_early_training_heuristic=heur)
          st = (a.v, a.i)
          return h(None, a.s[0], st), eh(None, st), upd(None, a.s, st)

        def bprop(a, o, O, debias=debias, heur=heur):
          d = a.d
          if heur:
            d = O.min(d, (1 + a.i) / (10 + a.i))
          m = mean(O, a.s)
          if debias:
            w = O.pow(d, a.i)
            want = O.eq(o[2][0] * (1 - w * d), d * (1 - w) * a.v + (1 - d) * m)
          else:
            want = O.eq(o[2][0], d * a.v + (1 - d) * m)
          return [('value is the state', O.eq(o[0], a.v)), ('expectation is the state', O.eq(o[1], a.v)), ('average', want),
                  ('iterations', O.eq(o[2][1], a.i + 1))]
        out.append(Case('baseline n=%d debias=%s heuristic=%s' % (n, debias, heur), functions=FN,
                        args=dict(s=F((n, 2)), v=F(()), i=Int(hi=10**6), d=HP(0.05, 1, hi_open=True, samples=(0.99, 0.5))),
                        run=base, prop=bprop, replay_tol=(1e-3, 1e-3)))

  def bhist(a):
    _, _, upd = optax.moving_avg_baseline(f, decay=a.d, use_decay_early_training_heuristic=False)
    st, r = (jnp.zeros(()), 0), []
    for s in a.s:
      st = upd(None, s, st)
      r.append(st)
    return r

  def bhprop(a, o, O):
    r, tot = [], 0
    for t in range(4):
      tot = tot * a.d + (1 - a.d) * mean(O, a.s[t])
      r += [('debiased average %d' % t, O.eq(o[t][0] * (1 - pw(a.d, t + 1)), tot)), ('iterations %d' % t, O.eq(o[t][1], t + 1))]
    return r
  out.append(Case('baseline history', dict(s=[F((2, 1)) for _ in range(4)], d=HP(0, 1, hi_open=True, samples=(0.99, 0.5, 0.0))), run=bhist,
                  prop=bhprop, functions=FN))

  def bconst(a, heur=True):
    _, _, upd = optax.moving_avg_baseline(lambda x: a.k + 0 * x[0], decay=a.d, use_decay_early_training_heuristic=heur)
    st, r = (jnp.zeros(()), 0), []
    for _ in range(4):
      st = upd(None, jnp.zeros((2, 1)), st)
      r.append(st[0])
    return r
  for heur in (True, False):
    out.append(Case('baseline of a constant heuristic=%s' % heur, dict(k=F(()), d=HP(0, 1, hi_open=True, samples=(0.99, 0.5, 0.0))),
                    run=lambda a, heur=heur: bconst(a, heur), functions=FN,
                    prop=lambda a, o, O: [('constant %d' % i, O.eq(v, a.k)) for i, v in enumerate(o)]))

  def bdef(a):
    d = optax.moving_avg_baseline(f)[2](None, a.s, (a.v, a.i))
    e = optax.moving_avg_baseline(f, 0.99, True, True)[2](None, a.s, (a.v, a.i))
    return d, e
  out.append(Case('baseline defaults', dict(s=F((2, 1)), v=F(()), i=Int(hi=1000)), run=bdef, functions=FN,
                  prop=lambda a, o, O: [('value', O.eq(o[0][0], o[1][0])), ('count', O.eq(o[0][1], o[1][1]))]))

  def bgrad(a):
    # the baseline is a constant for differentiation
    _, eh, upd = optax.moving_avg_baseline(lambda x: a.k * x[0], decay=0.9)
    return jax.grad(lambda s: upd(None, s, (0.3, 2))[0])(a.s)
  out.append(Case('baseline carries no gradient', dict(s=F((2, 1)), k=F(())), run=bgrad, functions=FN,
                  prop=lambda a, o, O: [('zero', O.all(O.eq(x, 0))) for x in leaves(o)]))

  # ---- jacobians with an arbitrary estimator and control variate
  class Gauss:
    """A distribution whose draws do not depend on the internals of optax."""

    def __init__(self, mu, ls):
      self.mu, self.ls = mu, ls

    def sample(self, shape, seed):
      return jax.random.normal(seed, shape + self.mu.shape)

  def estimator(fn, params, dist_builder, rng, n):
    s = dist_builder(*params).sample((n,), seed=rng)
    vals = jax.vmap(fn)(s)
    like = [np.zeros((n,) + p.shape, np.float32) for p in params]
    return uf.uf('est', (vals, s, params), like)

  def Est(O, vals, s, params):
    n = np.shape(s)[0]
    return O.uf('est', (vals, s, params), [np.zeros((n,) + np.shape(p), np.float32) for p in params])

  # h(p, x, z) = c0 z + c1 p0.x + c2 sum p1 x^2 + c3 z sum p0*p1 x ; expectation: e0 z + e1 sum p0^2 + e2 z sum p1 + e3 sum p0*p1
  def cv(a, upd=True):
    def make(function):
      del function
      def h(p, x, st):
        return a.c[0] * st + jnp.sum(a.c[1] * p[0] * x + a.c[2] * p[1] * x * x + a.c[3] * st * p[0] * p[1] * x)

      def eh(p, st):
        return a.e[0] * st + jnp.sum(a.e[1] * p[0] * p[0] + a.e[2] * st * p[1] + a.e[3] * p[0] * p[1])

      def up(p, s, st):
        return uf.uf('cvstate', (p, s, st), np.float32(0)) if upd else st
      return h, eh, up
    return make

  def H(O, a, p, x, st):
    d = range(len(p[0]))
    return a.c[0] * st + sum([a.c[1] * p[0][i] * x[i] + a.c[2] * p[1][i] * x[i] * x[i] + a.c[3] * st * p[0][i] * p[1][i] * x[i] for i in d])

  def dH(a, p, x, st, i):
    return (a.c[1] * x[i] + a.c[3] * st * p[1][i] * x[i], a.c[2] * x[i] * x[i] + a.c[3] * st * p[0][i] * x[i])

  def dE(a, p, st, i):
    return (2 * a.e[1] * p[0][i] + a.e[3] * p[1][i], a.e[2] * st + a.e[3] * p[0][i])

  def vec(xs):
    xs = [x.item() if isinstance(x, np.ndarray) else x for x in xs]
    v = np.empty(len(xs), dtype=object if any(isinstance(x, _fv.FV) for x in xs) else np.float64)
    for i, x in enumerate(xs):
      v[i] = x
    return v

  def coeffs(O, a, p, s, st):
    n, d = np.shape(s)
    ch = Est(O, vec([H(O, a, p, s[k], st) for k in range(n)]), s, p)
    cf = Est(O, vec([Fv(O, s[k]) for k in range(n)]), s, p)
    r = []
    for q in range(2):
      num, den = 0, 0
      for i in range(d):
        mf, mh = sum([cf[q][k][i] for k in range(n)]) / n, sum([ch[q][k][i] for k in range(n)]) / n
        num = num + sum([(cf[q][k][i] - mf) * (ch[q][k][i] - mh) for k in range(n)]) / n
        den = den + sum([(ch[q][k][i] - mh) * (ch[q][k][i] - mh) for k in range(n)]) / n
      r.append((num, den))
    return r

  for D, N in ((1, 1), (1, 3), (2, 2)):
    for est in (False, True):
      def jac(a, D=D, N=N, est=est):
        j, st = optax.control_variates_jacobians(f, cv(a, not est), estimator, (a.mu, a.ls), Gauss, a.key, N,
                                                 control_variate_state=a.z, estimate_cv_coeffs=est, **(dict(estimate_cv_coeffs_num_samples=2) if est else {}))
        return list(j), st, jax.random.normal(a.key, (N, D)), jax.random.normal(jax.random.split(a.key)[0], (2, D))

      def jprop(a, o, O, D=D, N=N, est=est):
        j, st, s, s2 = o
        p = (a.mu, a.ls)
        st1 = a.z if est else O.uf('cvstate', (p, s, a.z), np.float32(0))
        if est:
          co = [n / (d + 0.001) for n, d in coeffs(O, a, p, s2, a.z)]
        else:
          co = [1, 1]
        ef = Est(O, vec([Fv(O, s[k]) for k in range(N)]), s, p)
        ehh = Est(O, vec([H(O, a, p, s[k], st1) for k in range(N)]), s, p)
        r = [('state updated once', O.eq(st, st1))]
        for q in range(2):
          for i in range(D):
            cvg = sum([dH(a, p, s[k], st1, i)[q] for k in range(N)]) / N
            for k in range(N):
              r.append(('param %d sample %d/%d' % (q, k, i), O.eq(
                  j[q][k][i], ef[q][k][i] - co[q] * (ehh[q][k][i] + cvg - dE(a, p, st1, i)[q]))))
        return r
      out.append(Case('jacobians D=%d N=%d coefficients %s' % (D, N, 'estimated' if est else 'one'), functions=FN,
                      args=dict(mu=F((D,)), ls=F((D,)), c=F((4,)), e=F((4,)), z=F(()), key=Key()), run=jac, prop=jprop,
                      tier='quick' if not (est and D == 2) else 'thorough',
                      static=lambda a, o, N=N, D=D: [('shapes', [x.shape for x in o[0]] == [(N, D)] * 2)]))

  for D, N in ((1, 2), (1, 3), (2, 2)):
    def cf(a, D=D, N=N):
      kw = dict(eps=a.eps) if D == 1 else {}
      c = cvm.estimate_control_variate_coefficients(f, cv(a), estimator, (a.mu, a.ls), Gauss, a.key, N, control_variate_state=a.z, **kw)
      return list(c), jax.random.normal(jax.random.split(a.key)[0], (N, D))

    def cprop(a, o, O, D=D):
      return [('coefficient %d' % i, O.eq(x * (d + (a.eps if D == 1 else 0.001)), n))
              for i, (x, (n, d)) in enumerate(zip(o[0], coeffs(O, a, (a.mu, a.ls), o[1], a.z)))]
    out.append(Case('coefficients D=%d N=%d' % (D, N), functions=FN,
                    args=dict(mu=F((D,)), ls=F((D,)), c=F((4,)), e=F((4,)), z=F(()), key=Key(), eps=pos((0.001, 1.0))), run=cf, prop=cprop,
                    replay_tol=(5e-3, 2e-3)))

  # ---- end to end: with the delta method, a quadratic f and the pathwise estimator every sample gives the exact gradient
  def e2e(a):
    fq = lambda x: a.c[0] + jnp.sum(a.c[1] * x + a.c[2] * x * x)
    j, st = optax.control_variates_jacobians(fq, optax.control_delta_method, optax.pathwise_jacobians, (a.mu, a.ls), utils.multi_normal,
                                             a.key, 2)
    return list(j), jax.random.normal(a.key, (2, 1)), st is None

  def e2eprop(a, o, O):
    s = O.exp(a.ls[0])
    return [('state stays None', bool(o[2]))] + [
        ('mean %d' % k, O.eq(o[0][0][k][0], a.c[1] + 2 * a.c[2] * a.mu[0])) for k in range(2)]
  out.append(Case('delta method with pathwise', dict(c=F((3,)), mu=F((1,)), ls=F((1,), mags=(-2, 0)), key=Key()), run=e2e, prop=e2eprop,
                  functions=FN))
  return out
