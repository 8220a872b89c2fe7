"""Power iteration and the inverse p-th root of a PSD matrix."""
import contextlib
import optax
from optax._src import linear_algebra as la
from symjax import fv as _fv, uf
from props.common import *

BOUNDS = ('power iteration: any symmetric matrix of size 1 and 2, any starting vector, 0-2 iterations, any tolerance; inverse root: 1x1 '
          'matrices with p in {1,2,4,5,8,10,16} through the real power iteration; 2x2 matrices with any dominant eigenvalue estimate, ridge '
          'and tolerance: first guess and error for diagonal (p in {1,2,3,4,5,8}) and symmetric (p=1) matrices, one further step for diagonal '
          '(p in {1,2}), symmetric (p=1) and multiples of the identity (p in {3,4,5,8})')
ASSUMPTIONS = ['Convergence of the iterations to the eigenpair or root in general is a limit statement outside bounded symbolic execution: '
               'decided are the iterates, the stopping rule, the fixed points and the reported error.']
FN = ['optax.power_iteration', 'optax.matrix_inverse_pth_root']


@contextlib.contextmanager
def start(v0):
  orig = np.random.uniform
  np.random.uniform = lambda *a, **k: v0
  try:
    yield
  finally:
    np.random.uniform = orig


@contextlib.contextmanager
def dominant(ev):
  orig = la.power_iteration
  la.power_iteration = lambda matrix, **k: (matrix[0], ev)
  try:
    yield
  finally:
    la.power_iteration = orig


def mv(A, v):
  return [sum(A[i][j] * v[j] for j in range(len(v))) for i in range(len(v))]


def dot(x, y):
  return sum(p * q for p, q in zip(x, y))


def mm(A, B):
  n = range(len(A))
  return [[sum(A[i][k] * B[k][j] for k in n) for j in n] for i in n]


def mpow(A, p):
  r = A
  for _ in range(p - 1):
    r = mm(r, A)
  return r


def sym(a):
  return jnp.stack([jnp.stack([a.m[0], a.m[1]]), jnp.stack([a.m[1], a.m[2]])])


def cases():
  out = []
  # ---- power iteration, no early exit
  for K in (0, 1):
    def run(a, K=K):
      with start(a.v0):
        v, s = la.power_iteration(sym(a), num_iters=K, error_tolerance=-1.0)
      return v, s

    def prop(a, o, O, K=K):
      A = [[a.m[0], a.m[1]], [a.m[1], a.m[2]]]
      w, prev = list(a.v0), None
      for _ in range(K):
        prev, w = w, mv(A, w)
      v, s = o
      ok = O.gt(dot(w, w), 0)
      r = [('direction', O.implies(ok, O.eq(v[0] * w[1], v[1] * w[0]))), ('orientation', O.implies(ok, O.ge(dot(v, w), 0))),
           ('unit length', O.implies(ok, O.eq(dot(v, v), 1)))]
      r.append(('Rayleigh quotient', O.implies(ok, O.eq(s * dot(prev, prev), dot(prev, w)) if K else O.eq(s, 0))))
      return r
    out.append(Case('power %d iterations, direction' % K, dict(m=F((3,)), v0=F((2,))), run=run, prop=prop, functions=FN,
                    tier='thorough' if K else 'quick'))

  # further iterations repeat the step; each later one runs only while the estimate still moves by more than the tolerance
  # (for full matrices the Euclidean norm, pinned by the cases above, is an uninterpreted function of the vector)
  for K, full, cut in ((1, False, False), (1, True, False), (1, True, True), (2, True, True)):
    def run(a, K=K, full=full, cut=cut):
      orig, used = jnp.linalg.norm, []
      if cut:
        jnp.linalg.norm = lambda x, **k: used.append(1) or uf.uf('norm', x, np.float32(0))
      try:
        with start(a.v0):
          v, s = la.power_iteration((sym(a) if full else jnp.diag(a.m[::2])), num_iters=K, error_tolerance=-1.0)
      finally:
        jnp.linalg.norm = orig
      return v, s, jnp.asarray(bool(used))

    def prop(a, o, O, K=K, full=full, cut=cut):
      A = [[a.m[0], a.m[1]], [a.m[1], a.m[2]]] if full else [[a.m[0], 0], [0, a.m[2]]]
      if cut:
        n = lambda v: O.uf('norm', np.array(v, dtype=object if O.symbolic else np.float64), np.float32(0))
      else:
        n = lambda v: O.sqrt(dot(v, v))
      w, s, nz = list(a.v0), 0, []
      for k in range(K):
        nw = n(w)
        nz.append(O.gt(nw, 0) if cut else O.gt(dot(w, w), 0))
        x = [e / nw for e in w]
        w = mv(A, x)
        s = dot(x, w)
      nw = n(w)
      nz = O.and_(O.gt(nw, 0) if cut else O.gt(dot(w, w), 0), *nz)
      if cut:
        nz = O.and_(nz, o[2])   # another way of computing the norm leaves nothing to cut
      return [('value', O.implies(nz, O.eq(o[1], s)))] + [
          ('vector %d' % i, O.implies(nz, O.eq(o[0][i], w[i] / nw))) for i in range(2)]
    out.append(Case('power %d iterations, %s%s' % (K, 'full' if full else 'diagonal', ' cut norm' if cut else ''), dict(m=F((3,)), v0=F((2,))), run=run, prop=prop, functions=FN))

  # the early exit: the answer is the iterate at which the estimate first moves by no more than the tolerance
  def stopp(a, o, O):
    K = len(o) - 1
    r, go, s = [], True, 0
    lo, hi = (1, 1) if O.symbolic else (0.99, 1.01)     # replays keep clear of rounding at the tolerance
    for k in range(K):
      last = k == K - 1
      d = O.abs(o[k][1] - s)
      here = go if last else O.and_(go, O.le(d, a.tol * lo))
      for i in range(2):
        r.append(('vector after %d/%d' % (k + 1, i), O.implies(here, O.eq(o[K][0][i], o[k][0][i]))))
      r.append(('value after %d' % (k + 1), O.implies(here, O.eq(o[K][1], o[k][1]))))
      go, s = O.and_(go, O.gt(d, a.tol * hi)), o[k][1]
    return r

  def runs(mat, v0, K, tol):
    r = []
    for k, t in [(k, -1.0) for k in range(1, K + 1)] + [(K, tol)]:
      with start(v0):
        r.append(la.power_iteration(mat, num_iters=k, error_tolerance=t))
    return r
  out.append(Case('power stopping rule, 2 iterations', dict(m=F((3,)), v0=F((2,)), tol=F((), lo=0)), prop=stopp, functions=FN,
                  run=lambda a: runs(sym(a), a.v0, 2, a.tol),
                  assume=lambda a, O: [O.gt(dot(a.v0, a.v0), 0), O.not_(O.eq(a.m[0] * a.m[2], a.m[1] * a.m[1]))]))
  for name, m in (('diagonal', [[3., 0.], [0., 1.]]), ('full', [[2., 1.], [1., 5.]]), ('indefinite', [[2., 0.], [0., -3.]])):
    out.append(Case('power stopping rule, 3 iterations, %s' % name, dict(tol=F((), lo=0)), prop=stopp, functions=FN,
                    run=lambda a, m=m: runs(jnp.array(m, jnp.float32), np.array([1., 1.], np.float32), 3, a.tol)))

  # an eigenvector is a fixed point, with its eigenvalue
  def fix(a):
    with start(a.v0):
      v1 = la.power_iteration(sym(a), num_iters=1, error_tolerance=a.tol)
    return v1

  def fixp(a, o, O):
    n = O.sqrt(dot(a.v0, a.v0))
    return [('eigenvalue', O.eq(o[1], a.l))] + [('eigenvector %d' % i, O.eq(o[0][i] * n, O.where(O.gt(a.l, 0), a.v0[i], -a.v0[i]))) for i in range(2)]
  out.append(Case('power fixed point', dict(m=F((3,)), v0=F((2,)), l=F(()), tol=F((), lo=0)), run=fix, prop=fixp, functions=FN,
                  assume=lambda a, O: [O.gt(dot(a.v0, a.v0), 0), O.not_(O.eq(a.l, 0)),
                                       O.eq(a.m[0] * a.v0[0] + a.m[1] * a.v0[1], a.l * a.v0[0]),
                                       O.eq(a.m[1] * a.v0[0] + a.m[2] * a.v0[1], a.l * a.v0[1])]))

  def one(a):
    with start(a.v0):
      return la.power_iteration(a.m)
  out.append(Case('power 1x1 defaults', dict(m=F((1, 1), lo=0, lo_open=True), v0=F((1,))), run=one, functions=FN,
                  assume=lambda a, O: [O.not_(O.eq(a.v0[0], 0))],
                  prop=lambda a, o, O: [('eigenvalue', O.eq(o[1], a.m[0][0])), ('unit', O.eq(o[0][0], O.where(O.gt(a.v0[0], 0), 1, -1)))]))

  # ---- inverse root, 1x1, the real power iteration inside
  for p in (1, 2, 4, 5, 8, 10, 16):
    def r1(a, p=p):
      with start(a.v0):
        return la.matrix_inverse_pth_root(a.m, p, ridge_epsilon=a.eps)

    def r1p(a, o, O, p=p):
      x = a.m[0][0]
      x = x + a.eps * O.max(x, 1e-16)
      h = o[0][0][0]
      return [('positive', O.gt(h, 0)), ('root', O.eq(h, O.pow(x, -1 / p))), ('error', O.eq(o[1], 0))]
    out.append(Case('root 1x1 p=%d' % p, dict(m=F((1, 1), lo=0, lo_open=True), v0=F((1,)), eps=F((), lo=0)), run=r1, prop=r1p, functions=FN,
                    x64=False, assume=lambda a, O: [O.not_(O.eq(a.v0[0], 0))]))

  # ---- inverse root, 2x2: the coupled iteration
  def mat(a, diag):
    if diag == 'scalar':
      return a.m[0] * jnp.eye(2)
    return jnp.diag(a.m[::2]) if diag else sym(a)

  def spec(a, o, O, diag, p, K, z=None, rules=True):
    e = a.eps * O.max(a.ev, 1e-16)
    off = 0 if diag else a.m[1]
    A = [[a.m[0] + e, off], [off, (a.m[0] if diag == 'scalar' else a.m[2]) + e]]
    if z is None:
      z = (1 + p) / (2 * O.sqrt(sum(x * x for row in A for x in row)))
    r = []
    h, err = o[K]
    if K == 0:
      root = O.pow(z, 1 / p)
      r += [('first guess %d%d' % (i, j), O.eq(h[i][j], root if i == j else 0)) for i in range(2) for j in range(2)]
    h0 = o[0][0][0][0]     # h0^p = z, by the first-guess obligation
    R = mm(mpow([[h[i][j] / h0 for j in range(2)] for i in range(2)], p), A) if K else A
    res = [R[i][j] * z - (1 if i == j else 0) for i in range(2) for j in range(2)]
    m = O.max(O.max(O.abs(res[0]), O.abs(res[1])), O.max(O.abs(res[2]), O.abs(res[3])))
    ran = O.lt(err, o[K - 1][1] * 1.2) if K else True
    r.append(('reported error is the residual', O.implies(ran, O.eq(err, m))))
    if K == 1:
      go = ran if not rules else O.and_(ran, O.gt(o[0][1], a.tol))
      N = mm(o[0][0], [[((p + 1) * (1 if i == j else 0) - A[i][j] * z) / p for j in range(2)] for i in range(2)])
      r += [('Newton step %d%d' % (i, j), O.implies(go, O.eq(h[i][j], N[i][j]))) for i in range(2) for j in range(2)]
    if K and rules:
      hp, ep = o[K - 1]
      stop = O.le(ep, a.tol)
      for i in range(2):
        for j in range(2):
          r.append(('stops once within tolerance %d%d' % (i, j), O.implies(stop, O.eq(h[i][j], hp[i][j]))))
          r.append(('keeps the previous root when the error grows %d%d' % (i, j), O.implies(O.not_(ran), O.eq(h[i][j], hp[i][j]))))
    return r

  def solve(a, diag, p, K, rules=True):
    r = []
    for k in range(K + 1):
      with dominant(a.ev):
        r.append(la.matrix_inverse_pth_root(mat(a, diag), p, num_iters=k, ridge_epsilon=a.eps, error_tolerance=a.tol if rules else -1.0))
    return r

  def args(diag, **k):
    return dict(args=dict(m=F((3,)), ev=F((), lo=0), eps=F((), lo=0), tol=F((), lo=0), **k), x64=False, functions=FN,
                assume=lambda a, O: [O.gt(a.m[0], 0), O.gt(a.m[2], 0)] + ([] if diag else [O.gt(a.m[0] * a.m[2], a.m[1] * a.m[1])]))

  for diag, p, K in [(True, p, 0) for p in (1, 2, 3, 4, 5, 8)] + [(True, 1, 1), (False, 1, 0)]:
    out.append(Case('root %s p=%d after %d' % ('diagonal' if diag else 'symmetric', p, K),
                    run=lambda a, diag=diag, p=p, K=K: solve(a, diag, p, K), tier='thorough' if K else 'quick',
                    prop=lambda a, o, O, diag=diag, p=p, K=K: spec(a, o, O, diag, p, K), **args(diag)))

  # the step itself, for any positive value of the norm (which the cases above pin): the norm is cut to a free variable
  for diag, p, rules, tier in ([(True, 1, True, 'quick'), (True, 2, True, 'thorough'), ('scalar', 2, True, 'quick')] +
                               [('scalar', p, False, 'quick') for p in (3, 4, 5, 8)] +
                               [('scalar', p, True, 'thorough') for p in (3, 4, 5)] + [(False, 1, False, 'thorough')]):
    def run(a, diag=diag, p=p, rules=rules):
      orig, used = jnp.linalg.norm, []
      jnp.linalg.norm = lambda *x, **k: used.append(1) or a.norm
      try:
        r = solve(a, diag, p, 1, rules)
      finally:
        jnp.linalg.norm = orig
      return r, jnp.asarray(bool(used))

    def prop(a, o, O, diag=diag, p=p, rules=rules):
      # another way of computing the norm leaves nothing to cut
      return [(l, O.implies(o[1], c)) for l, c in spec(a, o[0], O, diag, p, 1, (1 + p) / (2 * a.norm), rules)]
    out.append(Case('root step %s p=%d%s' % (diag if diag == 'scalar' else 'diagonal' if diag else 'symmetric', p, ' stopping rule' if rules else ''),
                    run=run, prop=prop, tier=tier, **args(diag, norm=F((), lo=0, lo_open=True))))
  return out
