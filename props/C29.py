"""Second-order utilities: hvp, hessian_diag, fisher_diag."""
import optax
from symjax import uf
from props.common import *

BOUNDS = ('losses: every polynomial of degree <= 4 in 3 parameters with symbolic coefficients (all cubic and quartic monomials), '
          'softmax/sigmoid regression with 1-2 examples, exp; parameters as trees (dict of vector and scalar, matrix); '
          'finite real parameters, inputs, targets, vectors')
ASSUMPTIONS = ['jax.grad / jvp produce the derivative program; its result is compared with the algebraic derivative.']
FN = ['optax.hvp', 'optax.hessian_diag', 'optax.fisher_diag']


def monomials(n, d):
  import itertools
  out = []
  for k in range(d + 1):
    out += list(itertools.combinations_with_replacement(range(n), k))
  return out


MON = monomials(3, 4)


def ev(c, x, mons):
  t = 0
  for k, m in zip(range(len(mons)), mons):
    y = c[k]
    for i in m:
      y = y * x[i]
    t = t + y
  return t


def d(terms, i):
  """Derivative of [(coef index, factor, monomial)]."""
  out = []
  for k, f, m in terms:
    n = m.count(i)
    if n:
      r = list(m)
      r.remove(i)
      out.append((k, f * n, tuple(r)))
  return out


def val(c, terms, x):
  t = 0 * x[0]
  for k, f, m in terms:
    y = f * c[k]
    for i in m:
      y = y * x[i]
    t = t + y
  return t


def cases():
  out = []
  base = [(k, 1, m) for k, m in enumerate(MON)]

  def split(x):        # three parameters as a tree; ravel order is b, w
    return {'w': x[1:], 'b': x[0]}

  def loss(p, i, t):
    x = [p['b'], p['w'][0], p['w'][1]]
    return ev(i, x, MON) * t

  args = dict(x=F((3,)), v=F((3,)), c=F((len(MON),)), t=F(()))

  def run(a):
    p = split(a.x)
    return (optax.hvp(loss, a.v, p, a.c, a.t), optax.hessian_diag(loss, p, a.c, a.t), optax.fisher_diag(loss, p, a.c, a.t))

  def prop(a, o, O):
    r = []
    H = o[0]
    flat = [H['b'], H['w'][0], H['w'][1]]
    for i in range(3):
      g = d(base, i)
      row = 0
      for j in range(3):
        row = row + val(a.c, d(g, j), a.x) * a.v[j]
      r += [('hvp %d' % i, O.eq(flat[i], a.t * row)), ('hessian diagonal %d' % i, O.eq(o[1][i], a.t * val(a.c, d(g, i), a.x))),
            ('fisher diagonal %d' % i, O.eq(o[2][i], (a.t * val(a.c, g, a.x)) * (a.t * val(a.c, g, a.x)))),
            ('fisher nonnegative %d' % i, O.ge(o[2][i], 0))]
    return r
  out.append(Case('polynomials', args, run=run, prop=prop, functions=FN,
                  static=lambda a, o: [('hvp tree', structure(o[0]) == structure(split(a.x))), ('flat diagonals', o[1].shape == (3,) == o[2].shape)]))

  # the diagonal is consistent with hvp on an arbitrary smooth loss
  def loss2(p, i, t):
    z = p['w'] @ i + p['b']
    return optax.sigmoid_binary_cross_entropy(z, t)

  def run2(a):
    p = {'w': a.w, 'b': a.b}
    vs = jnp.eye(3, dtype=a.w.dtype)
    hv = [optax.hvp(loss2, vs[k], p, a.i, a.t) for k in range(3)]
    return hv, optax.hessian_diag(loss2, p, a.i, a.t), optax.fisher_diag(loss2, p, a.i, a.t)

  def prop2(a, o, O):
    z = a.w[0] * a.i[0] + a.w[1] * a.i[1] + a.b
    s = 1 / (1 + O.exp(-1 * z))
    i = [1, a.i[0], a.i[1]]
    r = []
    for k in range(3):
      h = o[0][k]
      row = [h['b'], h['w'][0], h['w'][1]]
      for m in range(3):
        r.append(('hvp %d/%d' % (k, m), O.eq(row[m], s * (1 - s) * i[k] * i[m])))
      r += [('hessian diagonal %d' % k, O.eq(o[1][k], s * (1 - s) * i[k] * i[k])),
            ('fisher diagonal %d' % k, O.eq(o[2][k], (s - a.t) * (s - a.t) * i[k] * i[k]))]
    return r
  out.append(Case('logistic regression', dict(w=F((2,), mags=(-2, 0)), b=F((), mags=(-2, 0)), i=F((2,), mags=(-2, 0)), t=F(())), run=run2, prop=prop2,
                  functions=FN))

  # quadratic over a matrix and a vector: the Hessian is the constant matrix A + A^T
  def quad(p, i, t):
    x = jnp.concatenate([p[0].reshape(-1), p[1]])
    return x @ i @ x + t @ x

  def run3(a):
    p = (a.m, a.u)
    return optax.hvp(quad, a.v, p, a.A, a.t), optax.hessian_diag(quad, p, a.A, a.t), optax.fisher_diag(quad, p, a.A, a.t)

  def prop3(a, o, O):
    n = 4
    x = list(np.reshape(a.m, -1)) + list(np.reshape(a.u, -1))
    h = list(np.reshape(o[0][0], -1)) + list(np.reshape(o[0][1], -1))
    r = []
    for k in range(n):
      row = 0
      gr = a.t[k]
      for j in range(n):
        row = row + (a.A[k][j] + a.A[j][k]) * a.v[j]
        gr = gr + (a.A[k][j] + a.A[j][k]) * x[j]
      r += [('hvp %d' % k, O.eq(h[k], row)), ('diagonal %d' % k, O.eq(o[1][k], 2 * a.A[k][k])), ('fisher %d' % k, O.eq(o[2][k], gr * gr))]
    return r
  out.append(Case('quadratic', dict(m=F((1, 2)), u=F((2,)), v=F((4,)), A=F((4, 4)), t=F((4,))), run=run3, prop=prop3, functions=FN,
                  static=lambda a, o: [('hvp shapes', [x.shape for x in o[0]] == [a.m.shape, a.u.shape])]))

  # linear in the vector
  def lin(a):
    p = split(a.x)
    h = lambda v: optax.hvp(loss, v, p, a.c, a.t)
    return h(a.v), h(a.w), h(a.k * a.v + a.w)
  out.append(Case('hvp is linear', dict(args, w=F((3,)), k=F(())), run=lin, functions=FN,
                  prop=lambda a, o, O: eqs('linear', O, o[2], tmap(lambda x, y: a.k * x + y, o[0], o[1]))))
  out.append(Case('single array parameters', dict(x=F((2,)), v=F((2,)), A=F((2, 2)), t=F(())), functions=FN,
                  run=lambda a: (lambda f: (optax.hvp(f, a.v, a.x, a.A, a.t), optax.hessian_diag(f, a.x, a.A, a.t), optax.fisher_diag(f, a.x, a.A, a.t)))(
                      lambda p, i, t: t * (p @ i @ p)),
                  prop=lambda a, o, O: [('diag', O.eq(o[1], 2 * a.t * np.stack([a.A[0][0], a.A[1][1]]))),
                                        ('hvp', O.eq(o[0][0], a.t * (2 * a.A[0][0] * a.v[0] + (a.A[0][1] + a.A[1][0]) * a.v[1])))]))
  return out
