"""Shared helpers for the property modules."""
import jax
import jax.numpy as jnp
import numpy as np

from symjax.harness import (Case, F, Int, Bo, Key, HP, HPI, unit, pos, nonneg, real, NS)
from symjax import fv as _fv

tmap = jax.tree_util.tree_map
leaves = jax.tree_util.tree_leaves
structure = jax.tree_util.tree_structure
INT_MAX = 2**31 - 1


def ftree(**kw):
  """Nested tree of float leaves: a vector, a scalar, a matrix, a rank-3 tensor, an empty slot."""
  return {'w': F((2,), **kw), 'n': (F((), **kw), None, [F((1, 2), **kw), F((2, 1, 1), **kw)])}


def ftree_small(**kw):
  return {'w': F((2,), **kw), 'n': (F((), **kw),)}


def spec_of(x):
  return (tuple(jnp.shape(x)), str(getattr(x, 'dtype', None) or jnp.asarray(x).dtype))


def same(label, x, y, dtypes=True):
  """Static facts: equal tree structure, leaf shapes and dtypes."""
  out = [(label + ': tree structure', structure(x) == structure(y))]
  if structure(x) == structure(y):
    sx = [spec_of(v) for v in leaves(x)]
    sy = [spec_of(v) for v in leaves(y)]
    out.append((label + ': shapes', [s[0] for s in sx] == [s[0] for s in sy]))
    if dtypes:
      out.append((label + ': dtypes', [s[1] for s in sx] == [s[1] for s in sy]))
  return out


def eqs(label, O, x, y):
  """Elementwise equality obligations over two trees of the same structure."""
  if structure(x) != structure(y):
    return [(label + ': structure', False)]
  out = []
  for i, (a, b) in enumerate(zip(leaves(x), leaves(y))):
    sa, sb = np.shape(a), np.shape(b)
    if sa != sb:
      out.append(('%s/%d shape %s vs %s' % (label, i, sa, sb), False))
    else:
      out.append(('%s/%d' % (label, i), O.eq(a, b)))
  return out


def zeros(tree):
  """Zeros shaped like tree (numeric or symbolic)."""
  return tmap(lambda x: np.zeros(np.shape(x)) if np.shape(x) else 0.0, tree)


def full(tree, v):
  def f(x):
    if not np.shape(x):
      return v
    a = np.empty(np.shape(x), dtype=object if isinstance(v, _fv.FV) else np.float64)
    a[...] = v
    return a
  return tmap(f, tree)


def sat_inc(c, O):
  """Saturating int32 increment."""
  return O.where(O.lt(c, INT_MAX), c + 1, INT_MAX)


def sum2(trees, O):
  t = 0
  for x in leaves(trees):
    t = t + O.sum(x * x)
  return t


def with_count(state, c):
  """The same state at an arbitrary step: every int32 scalar counter set to c."""
  def f(x):
    if np.shape(x) == () and str(jnp.asarray(x).dtype) in ('int32', 'int64'):
      return jnp.asarray(c, jnp.asarray(x).dtype)
    return x
  return tmap(f, state)


def uf_tx(name, with_int=False):
  """An arbitrary gradient transformation: uninterpreted init and update."""
  import optax
  from symjax import uf

  def like_state():
    s = (np.zeros((2,), np.float32),)
    return s + (np.int32(0),) if with_int else s

  def init(params):
    return uf.uf(name + ':init', params, like_state())

  def update(updates, state, params=None):
    ins = (updates, state) if params is None else (updates, state, params)
    return uf.uf(name, ins, (updates, state))
  return optax.GradientTransformation(init, update)


def uf_init(O, name, params, with_int=False):
  s = (np.zeros((2,), np.float32),)
  return O.uf(name + ':init', params, s + (np.int32(0),) if with_int else s)


def uf_state(with_int=False):
  s = (F((2,)),)
  return s + (Int(lo=-100, hi=100),) if with_int else s


def uf_upd(O, name, updates, state, params=None):
  ins = (updates, state) if params is None else (updates, state, params)
  like_s = tuple(np.zeros((2,), np.float32) if np.shape(x) else np.int32(0) for x in state)
  like_u = tmap(lambda x: np.zeros(np.shape(x), np.float32), updates)
  return O.uf(name, ins, (like_u, like_s))


def tsel(O, c, x, y):
  return tmap(lambda p, q: O.where(c, p, q), x, y)


def ctree():
  """Uninterpreted-function friendly tree with distinct shapes."""
  return {'b': F((2,)), 'a': (F(()), [F((1, 2))])}


def raises(kind):
  """Exception handler: the documented exception type is raised."""
  def f(a, e, O):
    del a, O
    return [('raises ' + kind.__name__, isinstance(e, kind))]
  return f


class Recorder:
  """Records the keys and results of every Gaussian draw made while it is active."""

  def __enter__(self):
    self.draws, self._orig = [], jax.random.normal

    def normal(key, *args, **kw):
      r = self._orig(key, *args, **kw)
      self.draws.append((key, r))
      return r
    jax.random.normal = normal
    return self

  def __exit__(self, *e):
    jax.random.normal = self._orig
    return False


def fresh(label, O, used, consumed=()):
  """All keys differ from each other and from the keys already consumed."""
  out = []
  ks = list(used) + list(consumed)
  for i in range(len(used)):
    for j in range(i + 1, len(ks)):
      out.append(('%s %d/%d' % (label, i, j), O.not_(O.all(O.eq(ks[i], ks[j])))))
  return out


def noise_eqs(label, O, outs, base, std, draws):
  """Every leaf is base + std * (its own Gaussian draw); leaves of equal shape may take the draws in any order."""
  import itertools
  n = len(leaves(outs))
  if len(draws) != n or sorted(np.shape(d) for d in draws) != sorted(np.shape(x) for x in leaves(outs)):
    return [(label + ': one draw per leaf', False)]
  shapes = [np.shape(x) for x in leaves(outs)]
  groups = [([i for i in range(n) if shapes[i] == sh], [j for j in range(n) if np.shape(draws[j]) == sh]) for sh in sorted(set(shapes))]
  alts = []
  for choice in itertools.product(*[itertools.permutations(js) for _, js in groups]):
    perm = [0] * n
    for (is_, _), js in zip(groups, choice):
      for i, j in zip(is_, js):
        perm[i] = j
    alts.append(O.and_(*[O.all(O.eq(x, b + std * draws[j]))
                         for j, x, b in zip(perm, leaves(outs), leaves(base))]))
  return [(label, alts[0] if len(alts) == 1 else O.or_(*alts))]


def probe_tx():
  """u + 2 p; insists on params."""
  import optax

  def update(updates, state, params=None):
    if params is None:
      raise ValueError('params missing')
    return tmap(lambda g, p: g + 2 * p, updates, params), state
  return optax.GradientTransformation(lambda p: (), update)


def falsy_params(name, wrap, fn):
  """Params that are falsy or empty in Python still reach the inner transformation: zero scalars, empty trees."""
  out = [Case('%s passes on a scalar parameter, zero or not' % name, dict(p=F(()), g=F(())), functions=fn,
              run=lambda a: (lambda tx: tx.update(a.g, tx.init(a.p), a.p)[0])(wrap(probe_tx())),
              prop=lambda a, o, O: [('u + 2 p', O.eq(o, a.g + 2 * a.p))])]
  for k, t in (('()', ()), ('{}', {}), ('all slots empty', {'a': None})):
    out.append(Case('%s passes on empty params %s' % (name, k), dict(x=F(())), functions=fn,
                    run=lambda a, t=t: (lambda tx: tx.update(t, tx.init(t), t)[0])(wrap(probe_tx())) or a.x * 0,
                    prop=lambda a, o, O: [('accepted', True)]))
  return out
