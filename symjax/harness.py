"""Cases: symbolic execution of real optax functions against a property."""
from fractions import Fraction
import math
import os
import pickle
import random
import subprocess
import sys
import tempfile
import time
import traceback
import types

import jax
import jax.numpy as jnp
import numpy as np

from symjax import terms as tm
from symjax import fv as fvm
from symjax import interp, solve, trace, uf
from symjax.fv import FV, IV, BV, KV, lit
from symjax.terms import T, R, I, and_, or_, not_, TRUE, FALSE

tree_flatten = jax.tree_util.tree_flatten
tree_unflatten = jax.tree_util.tree_unflatten
tree_map = jax.tree_util.tree_map


# --------------------------------------------------------------- arg specs


class Leaf:
  hp = False

  def __init__(self, shape=(), lo=None, hi=None, lo_open=False, hi_open=False,
               special=False, dtype='float32', kind='F', samples=None, mags=None, near=None):
    self.shape, self.lo, self.hi = tuple(shape), lo, hi
    self.lo_open, self.hi_open = lo_open, hi_open
    self.special, self.dtype, self.kind, self.samples = special, dtype, kind, samples
    self.mags = mags or (-3, 2)
    self.near = near


def F(shape=(), lo=None, hi=None, **kw):
  return Leaf(shape, lo, hi, **kw)


def Int(shape=(), lo=0, hi=2**31 - 1, **kw):
  return Leaf(shape, lo, hi, kind='I', dtype=kw.pop('dtype', 'int32'), **kw)


def Bo(shape=()):
  return Leaf(shape, kind='B', dtype='bool')


def Key():
  return Leaf((2,), kind='K', dtype='uint32')


def HP(lo=None, hi=None, samples=None, **kw):
  """Symbolic Python-float hyperparameter."""
  l = Leaf((), lo, hi, samples=samples, **kw)
  l.hp = True
  return l


def HPI(lo, hi, samples=None, **kw):
  l = Leaf((), lo, hi, kind='I', dtype='int32', samples=samples, **kw)
  l.hp = True
  return l


def unit(lo_open=False, samples=(0.9, 0.5, 0.99)):
  """[0, 1) decay hyperparameter."""
  return HP(0, 1, lo_open=lo_open, hi_open=True, samples=samples)


def pos(samples=(1e-3, 0.3, 2.0), hi=None):
  return HP(0, hi, lo_open=True, samples=samples)


def nonneg(samples=(0.1, 0.0, 2.0)):
  return HP(0, None, samples=samples)


def real(samples=(0.1, -0.7, 2.0)):
  return HP(None, None, samples=samples)


# --------------------------------------------------------------- op namespaces


class SymOps:
  symbolic = True

  def _m(self, f, *xs):
    if any(isinstance(x, np.ndarray) for x in xs):
      xs = [x if isinstance(x, np.ndarray) else interp.arr((), [x]) for x in xs]
      xs = interp.bcast(*xs)
      out = interp.vmap1(f, *xs)
      return out if out.shape else out[()]
    return f(*xs)

  def _f(self, f):
    return lambda *xs: self._m(lambda *ys: f(*[lit(y) for y in ys]), *xs)

  def sqrt(self, x):
    return self._f(fvm.fsqrt)(x)

  def exp(self, x):
    return self._f(fvm.fexp)(x)

  def log(self, x):
    return self._f(fvm.flog)(x)

  def cos(self, x):
    return self._f(fvm.fun1('cos'))(x)

  def erf_inv(self, x):
    return self._f(fvm.fun1('erf_inv'))(x)

  def abs(self, x):
    return self._m(lambda y: interp._abs(y) if isinstance(y, IV) else fvm.fabs(lit(y)), x)

  def sign(self, x):
    return self._f(fvm.fsign)(x)

  def floor(self, x):
    return self._f(fvm.ffloor)(x)

  def _mm(self, f, a, b):
    def g(x, y):
      if isinstance(x, (IV, int)) and isinstance(y, (IV, int)):
        return f(x if isinstance(x, IV) else IV(x), y if isinstance(y, IV) else IV(y))
      return f(lit(x), lit(y))
    return self._m(g, a, b)

  def max(self, a, b):
    return self._mm(interp._max, a, b)

  def min(self, a, b):
    return self._mm(interp._min, a, b)

  def pow(self, a, b):
    return self._m(lambda x, y: (x if isinstance(x, FV) else lit(x)) ** y, a, b)

  def where(self, c, a, b):
    return self._m(lambda cc, x, y: fvm.fsel(cc if isinstance(cc, BV) else BV(bool(cc)), x, y), c, a, b)

  def isfinite(self, x):
    return self._m(lambda y: fvm.fisfinite(lit(y)), x)

  def isnan(self, x):
    return self._m(lambda y: BV(lit(y).nan), x)

  def eq(self, a, b):
    return self._m(lambda x, y: BV(fvm.eq_term(x, y)), a, b)

  def _cmp(self, f, a, b):
    return self._m(lambda x, y: f(x, y), a, b)

  def le(self, a, b, slack=None):
    del slack
    return self._m(lambda x, y: (x if isinstance(x, (FV, IV)) else lit(x)) <= y, a, b)

  def ge(self, a, b, slack=None):
    return self.le(b, a)

  def lt(self, a, b):
    return self._m(lambda x, y: (x if isinstance(x, (FV, IV)) else lit(x)) < y, a, b)

  def gt(self, a, b):
    return self.lt(b, a)

  def and_(self, *xs):
    out = BV(TRUE)
    for x in xs:
      out = self._m(lambda p, q: (p if isinstance(p, BV) else BV(bool(p))) & (q if isinstance(q, BV) else BV(bool(q))), out, x)
    return out

  def or_(self, *xs):
    return self.not_(self.and_(*[self.not_(x) for x in xs]))

  def not_(self, x):
    return self._m(lambda p: ~(p if isinstance(p, BV) else BV(bool(p))), x)

  def implies(self, a, b):
    return self.or_(self.not_(a), b)

  def all(self, x):
    out = BV(TRUE)
    for y in np.asarray(x, dtype=object).reshape(-1):
      out = out & (y if isinstance(y, BV) else BV(bool(y)))
    return out

  def any(self, x):
    out = BV(FALSE)
    for y in np.asarray(x, dtype=object).reshape(-1):
      out = out | (y if isinstance(y, BV) else BV(bool(y)))
    return out

  def sum(self, x, axis=None, keepdims=False):
    x = np.asarray(x, dtype=object)
    if x.size == 0:
      return lit(0)
    r = np.sum(x, axis=axis, keepdims=keepdims)
    return r

  def R(self, x):
    return lit(x)

  @property
  def pi(self):
    return FV(tm.PI)

  def cast(self, x, dtype):
    return self._f(lambda v: FV(tm.rnd(dtype, v.r), v.nan, v.inf))(x)

  def uf(self, name, inputs, like):
    flat, tree = tree_flatten(inputs)
    lflat, ltree = tree_flatten(like)
    import hashlib
    tag = hashlib.sha256(str(tree).encode()).hexdigest()[:8]
    eqn = types.SimpleNamespace(params=dict(
        name='%s:%s' % (name, tag),
        shapes=tuple(np.shape(x) for x in lflat),
        dtypes=tuple('int32' if _isint(x) else 'float32' for x in lflat)))
    vals = [x if isinstance(x, np.ndarray) else interp.arr((), [x if isinstance(x, (FV, IV, BV)) else lit(x)]) for x in flat]
    outs = uf._rule(eqn, *vals)
    return tree_unflatten(ltree, outs)


def _isint(x):
  e = np.asarray(x, dtype=object).reshape(-1)
  return bool(e.size) and isinstance(e[0], (IV, int, np.integer)) and not isinstance(e[0], bool)


class TolBool(np.ndarray):
  """A comparison that tolerates rounding, with its exact value for use as a condition or hypothesis."""
  exact = None


def _tb(tolerant, exact):
  o = np.asarray(tolerant).view(TolBool)
  o.exact = np.asarray(exact)
  return o


def _ex(c):
  e = getattr(c, 'exact', None)
  return np.asarray(c) if e is None else e


class NumOps:
  symbolic = False

  def __init__(self, rtol, atol):
    self.rtol, self.atol = rtol, atol

  def _n(self, f, *xs):
    with np.errstate(all='ignore'):
      return f(*xs)

  def sqrt(self, x):
    return self._n(np.sqrt, np.asarray(x, np.float64))

  def exp(self, x):
    return self._n(np.exp, np.asarray(x, np.float64))

  def log(self, x):
    return self._n(np.log, np.asarray(x, np.float64))

  def cos(self, x):
    return np.cos(x)

  def erf_inv(self, x):
    from scipy.special import erfinv
    return erfinv(x)

  def abs(self, x):
    return np.abs(x)

  def sign(self, x):
    return np.sign(x)

  def floor(self, x):
    return np.floor(x)

  def max(self, a, b):
    return np.maximum(a, b)

  def min(self, a, b):
    return np.minimum(a, b)

  def pow(self, a, b):
    return self._n(np.power, np.asarray(a, np.float64), np.asarray(b, np.float64))

  def where(self, c, a, b):
    return np.where(_ex(c), a, b)

  def isfinite(self, x):
    return np.isfinite(x)

  def isnan(self, x):
    return np.isnan(x)

  def eq(self, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'bu' or b.dtype.kind in 'bu':
      return a == b
    if a.dtype.kind in 'i' and b.dtype.kind in 'i':
      return a == b
    a, b = a.astype(np.float64), b.astype(np.float64)
    with np.errstate(all='ignore'):
      tol = self.atol + self.rtol * np.maximum(np.abs(a), np.abs(b))
      close = np.abs(a - b) <= tol
      same = (a == b) | (np.isnan(a) & np.isnan(b))
      return _tb(np.where(np.isfinite(a) & np.isfinite(b), close, same), same)

  def le(self, a, b, slack=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'iu' and b.dtype.kind in 'iu':
      return a <= b
    with np.errstate(all='ignore'):
      return _tb(a <= b + self.atol + self.rtol * np.maximum(np.abs(a), np.abs(b)), a <= b)

  def ge(self, a, b, slack=None):
    return self.le(b, a)

  def lt(self, a, b):
    return np.asarray(a) < np.asarray(b)

  def gt(self, a, b):
    return np.asarray(a) > np.asarray(b)

  def and_(self, *xs):
    out = ex = np.asarray(True)
    for x in xs:
      out, ex = np.logical_and(out, np.asarray(x)), np.logical_and(ex, _ex(x))
    return _tb(out, ex)

  def or_(self, *xs):
    out = ex = np.asarray(False)
    for x in xs:
      out, ex = np.logical_or(out, np.asarray(x)), np.logical_or(ex, _ex(x))
    return _tb(out, ex)

  def not_(self, x):
    return np.logical_not(_ex(x))

  def implies(self, a, b):
    return _tb(np.logical_or(np.logical_not(_ex(a)), np.asarray(b)), np.logical_or(np.logical_not(_ex(a)), _ex(b)))

  def all(self, x):
    return np.all(x)

  def any(self, x):
    return np.any(x)

  def sum(self, x, axis=None, keepdims=False):
    return np.sum(x, axis=axis, keepdims=keepdims)

  def R(self, x):
    return np.float64(x)

  pi = math.pi

  def cast(self, x, dtype):
    return self._n(np.vectorize(lambda v: tm._rnd16(dtype, v), otypes=[float]), x)

  def uf(self, name, inputs, like):
    like = tree_map(lambda x: np.asarray(x, np.float32) if np.asarray(x).dtype.kind == 'f' else np.asarray(x), like)
    o = uf.uf(name, tree_map(jnp.asarray, inputs), like)
    return tree_map(lambda x: _np(x), o)


def _np(x):
  x = np.asarray(x)
  if x.dtype.kind == 'f' or str(x.dtype) == 'bfloat16':
    return x.astype(np.float64)
  return x


# --------------------------------------------------------------- cases


class Case:

  def __init__(self, name, args, run, prop, assume=None, static=None, x64=True,
               max_unroll=64, mode='real', tier='quick', exc=None, budget=60, witness=True,
               concretize=None, functions=(), note='', int_samples=None, known=None,
               replay_tol=None, replay_x64=False, leaf_ms=8000, casts=False, jit=False):
    self.name, self.args, self.run, self.prop = name, args, run, prop
    self.assume, self.static, self.x64 = assume, static, x64
    self.max_unroll, self.mode, self.tier, self.exc = max_unroll, mode, tier, exc
    self.budget, self.functions, self.note = budget, functions, note
    self.known = known
    self.replay_x64 = replay_x64   # only double-precision replays count (cancellation)
    self.origin = None             # (property, tier) it was loaded for
    self.casts = casts             # narrowing float casts are rounding symbols
    self.jit = jit                 # traceable: no Python branch on an input value; replayed under jax.jit
    self.concretize = concretize
    self.replay_tol = replay_tol
    self.leaf_ms = leaf_ms


class NS(types.SimpleNamespace):
  pass


class Report:

  def __init__(self):
    self.obligations = []       # (case, label, status)
    self.violation = None
    self.errors = []
    self.info = {}


def _names(args):
  leaves, tree = tree_flatten(args)
  paths = jax.tree_util.tree_flatten_with_path(args)[0]
  names = [jax.tree_util.keystr(p).replace("['", '').replace("']", '.').replace('[', '').replace(']', '.').strip('.')
           for p, _ in paths]
  return leaves, tree, names


def sym_args(args, fixed=None):
  """-> (flat list of symbolic arrays, assumptions, var table)."""
  leaves, tree, names = _names(args)
  flat, assum, vars_ = [], [], {}
  for i, (l, n) in enumerate(zip(leaves, names)):
    if fixed is not None and i in fixed:
      v = fixed[i]
      flat.append(interp.arr((), [lit(v) if l.kind == 'F' else IV(int(v))]))
      continue
    elems = []
    for ix in np.ndindex(*l.shape):
      nm = n + (str(list(ix)) if l.shape else '')
      if l.kind == 'F':
        v = tm.var(nm, 'R')
        if l.special:
          nan, inf = tm.var(nm + '?nan', 'B'), tm.var(nm + '?inf', 'B')
          e = FV(v, nan, inf)
          assum += [not_(and_(nan, inf)), or_(not_(inf), not_(tm.eq(v, tm.R0)))]
        else:
          e = FV(v)
        if l.lo is not None:
          b = R(Fraction(str(l.lo)))
          assum.append(tm.lt(b, v) if l.lo_open else tm.le(b, v))
        if l.hi is not None:
          b = R(Fraction(str(l.hi)))
          assum.append(tm.lt(v, b) if l.hi_open else tm.le(v, b))
      elif l.kind == 'I':
        v = tm.var(nm, 'I')
        e = IV(v)
        assum += [tm.le(I(l.lo), v), tm.le(v, I(l.hi))]
      elif l.kind == 'B':
        v = tm.var(nm, 'B')
        e = BV(v)
      else:
        v = tm.var(nm, 'K')
        e = KV(v)
      vars_[nm] = (i, ix, l)
      elems.append(e)
    flat.append(interp.arr(l.shape, elems))
  return flat, assum, vars_


def example(l):
  if l.hp:
    return 0.5 if l.kind == 'F' else 1
  return np.zeros(l.shape, l.dtype)


def prop_view(args, flat):
  """Namespace handed to assume/prop (hp and scalars unboxed)."""
  leaves, tree, _ = _names(args)
  vals = []
  for l, v in zip(leaves, flat):
    vals.append(v[()] if (isinstance(v, np.ndarray) and v.shape == ()) else v)
  return NS(**tree_unflatten(tree, vals))


def run_view(args, flat):
  _, tree, _ = _names(args)
  return NS(**tree_unflatten(tree, flat))


# ---- concrete side


def sample_leaf(l, rng, model=None, name=None, mode=0, scale=1):
  """Values near a counterexample: mode 0 as is, 1 partly random, 2 random, 3 partly scaled (to leave the rounding range)."""
  out = np.empty(l.shape, dtype=object)
  keep = l.lo is not None and l.hi is not None or rng.random() < .4
  for ix in np.ndindex(*l.shape):
    nm = name + (str(list(ix)) if l.shape else '')
    v = None
    if model and nm in model and (mode in (0, 3) or l.kind in 'IB' or (mode == 1 and rng.random() < .5)):
      v = model[nm]
      v = float(v) if l.kind == 'F' else v
      if mode == 3 and l.kind == 'F' and not keep:
        v *= scale
      if l.kind == 'F' and l.special:
        if model.get(nm + '?nan'):
          v = float('nan')
        elif model.get(nm + '?inf'):
          v = math.copysign(float('inf'), v)
    if v is None:
      v = _rand(l, rng)
    out[ix] = v
  return out


def _rand(l, rng):
  if l.kind == 'B':
    return rng.random() < .5
  if l.kind == 'K':
    return rng.randrange(2**32)
  if l.kind == 'I':
    c = rng.random()
    if l.samples and c < .3:
      return int(rng.choice(l.samples))
    if c < .5:
      return min(l.hi, l.lo + rng.randrange(0, 8))
    if c < .7:
      return max(l.lo, l.hi - rng.randrange(0, 4))
    if c < .85:
      return rng.randint(l.lo, min(l.hi, l.lo + 1000))
    return rng.randint(l.lo, l.hi)
  if l.special and rng.random() < .35:
    return rng.choice([float('nan'), float('inf'), float('-inf')])
  if l.near is not None and rng.random() < .5:
    return float(rng.choice(l.near))
  lo, hi = l.lo, l.hi
  c = rng.random()
  if lo is not None and hi is not None:
    if c < .1 and not l.lo_open:
      return float(lo)
    if c < .2 and not l.hi_open:
      return float(hi)
    return lo + (hi - lo) * rng.uniform(0.001, 0.999)
  mag = 10 ** rng.uniform(*l.mags)
  if lo is not None:
    if c < .08 and not l.lo_open:
      return float(lo)
    return lo + mag
  if hi is not None:
    return hi - mag
  if c < .08:
    return 0.0
  return mag if rng.random() < .5 else -mag


def to_real_args(args, conc, x64):
  """conc: list of object arrays of python numbers -> jnp arrays / floats."""
  leaves, _, _ = _names(args)
  out = []
  for l, v in zip(leaves, conc):
    if l.hp:
      out.append(float(v[()]) if l.kind == 'F' else int(v[()]))
    else:
      dt = l.dtype
      if x64 and dt == 'float32':
        dt = 'float64'
      out.append(jnp.asarray(np.array(v.tolist(), dtype=dt).reshape(l.shape)))
  return out


def to_num_args(args, conc, x64):
  leaves, _, _ = _names(args)
  out = []
  for l, v in zip(leaves, conc):
    if l.kind == 'F':
      a = np.array(v.tolist(), dtype=np.float64).reshape(l.shape)
      if l.dtype in ('float16', 'bfloat16'):
        a = np.asarray(jnp.asarray(a.astype(np.float32), l.dtype).astype(jnp.float32)).astype(np.float64)
      elif not x64:
        a = a.astype(np.float32).astype(np.float64)
    elif l.kind == 'I':
      a = np.array(v.tolist(), dtype=np.int64).reshape(l.shape)
    else:
      a = np.array(v.tolist(), dtype=bool if l.kind == 'B' else np.uint32).reshape(l.shape)
    out.append(a)
  return out


def env_of(args, num):
  """numeric env for term evaluation."""
  leaves, _, names = _names(args)
  env = {}
  for l, n, v in zip(leaves, names, num):
    for ix in np.ndindex(*l.shape):
      nm = n + (str(list(ix)) if l.shape else '')
      x = v[ix]
      if l.kind == 'F':
        x = float(x)
        env[nm + '?nan'] = math.isnan(x)
        env[nm + '?inf'] = math.isinf(x)
        env[nm] = 0.0 if math.isnan(x) else math.copysign(1., x) if math.isinf(x) else x
      elif l.kind == 'B':
        env[nm] = bool(x)
      else:
        env[nm] = int(x)
  return env


class KeyEval:
  """Evaluates opaque PRNG terms with the real jax.random."""

  def __init__(self):
    self.cache = {}

  def __call__(self, t, name, args):
    if name.startswith('uf:'):
      nm, tag, leaf, idx = name[3:].rsplit(':', 3)
      return uf.numeric('%s:%s' % (nm, tag), int(leaf), int(idx), args)
    if name.startswith('op:'):
      return interp.opaque_value(name, args)
    if name == 'wrap':
      return ('raw',) + tuple(int(a) for a in args)
    if name == 'seed':
      return self._raw(jax.random.PRNGKey(int(args[0])))
    if name == 'word':
      return self._key(args[0])[args[1]]
    if name == 'split':
      k = ('split', args[0], args[1])
      if k not in self.cache:
        self.cache[k] = np.asarray(jax.random.split(self._arr(args[0]), args[1]))
      return self._raw(self.cache[k][args[2]])
    if name == 'fold_in':
      return self._raw(jax.random.fold_in(self._arr(args[0]), int(args[1])))
    if name == 'rademacher':
      r = self.draw(name, args[0], args[1], lambda k, s: jax.random.rademacher(k, s))
      return bool(r[args[2]] > 0)
    fns = {'normal': jax.random.normal, 'uniform': jax.random.uniform,
           'maxwell': jax.random.maxwell, 'dsmaxwell': lambda k, s: jax.random.double_sided_maxwell(k, 0., 1., s),
           'gumbel': jax.random.gumbel, 'laplace': jax.random.laplace, 'exponential': jax.random.exponential}
    if name in fns:
      return float(self.draw(name, args[0], args[1], fns[name])[args[2]])
    if name == 'bits':
      r = self.draw('bits%d' % args[2], args[0], args[1], lambda k, s: jax.random.bits(k, s, getattr(jnp, 'uint%d' % args[2])))
      return int(r[args[3]])
    if name == 'weibull':
      r = self.draw('weibull%r' % args[3], args[0], args[1],
                    lambda k, s: jax.random.weibull_min(k, 1., args[3], s))
      return float(r[args[2]])
    if name == 'logistic':
      return 1 / (1 + math.exp(-args[0])) if args[0] > -700 else 0.
    raise NotImplementedError('ufn %s' % name)

  def draw(self, name, key, shp, f):
    k = (name, key, shp)
    if k not in self.cache:
      shape = eval(shp)  # pylint: disable=eval-used
      self.cache[k] = np.asarray(f(self._arr(key), shape)).reshape(-1)
    return self.cache[k]

  def _raw(self, arr_):
    return ('raw',) + tuple(int(x) for x in np.asarray(arr_).reshape(-1))

  def _key(self, k):
    return k[1:]

  def _arr(self, k):
    return jnp.asarray(np.array(k[1:], dtype=np.uint32))


def fv_num(e, vals):
  """FV/IV/BV/KV numeric value given evaluator dict id->value."""
  if isinstance(e, FV):
    if vals[e.nan.id]:
      return float('nan')
    if vals[e.inf.id]:
      return math.copysign(float('inf'), vals[e.r.id])
    return float(vals[e.r.id])
  v = vals[e.t.id]
  return v


class ConcreteRaise(Exception):
  pass


def run_concrete(case, conc, x64, rtol, atol, traced=None):
  """Run real code and the property on concrete values.

  -> (ok, failed labels, outputs) ; domain assumed already checked.
  """
  from jax.experimental import enable_x64, disable_x64
  cm = enable_x64() if x64 else disable_x64()
  with cm:
    real_args = to_real_args(case.args, conc, x64)
    rv = run_view(case.args, real_args)
    num = to_num_args(case.args, conc, x64)
    pv = prop_view(case.args, num)
    ops = NumOps(rtol, atol)
    stat = []
    try:
      if traced is not None:
        # as under jit, with the argument leaves in `traced` as Python numbers
        def inner(xs):
          it = iter(xs)
          view = run_view(case.args, [x if i in traced else next(it) for i, x in enumerate(real_args)])
          o = case.run(view)
          stat.extend(case.static(view, o) if case.static else [])
          return o
        out = jax.jit(inner)([x for i, x in enumerate(real_args) if i not in traced])
      elif case.jit:
        out = jax.jit(lambda xs: case.run(run_view(case.args, xs)))(real_args)
      else:
        out = case.run(rv)
      if case.static and traced is None:
        stat = case.static(rv, out)
      exc = None
    except Exception as e:  # pylint: disable=broad-except
      exc = e
    failed = []
    if exc is not None:
      if case.exc is None:
        return False, ['raised %s: %s' % (type(exc).__name__, str(exc)[:200])], None
      obs = case.exc(pv, exc, ops)
      out = None
    else:
      out = tree_map(_np, out)
      out_view = tree_map(lambda x: x, out)
      obs = list(stat if not x64 else [(l, True) for l, _ in stat])
      try:
        obs += list(case.prop(pv, out_view, ops))
      except Exception:  # pylint: disable=broad-except
        # outputs of the wrong form are reported by the static obligations
        if all(np.all(np.asarray(c, dtype=bool)) for _, c in obs):
          raise
    for label, c in obs:
      if not np.all(np.asarray(c, dtype=bool)):
        failed.append(label)
    return not failed, failed, out


def in_domain(case, conc, x64):
  num = to_num_args(case.args, conc, x64)
  leaves, _, _ = _names(case.args)
  for l, v in zip(leaves, num):
    if l.kind != 'F' or not l.shape and l.lo is None and l.hi is None:
      continue
    w = v[np.isfinite(v)] if l.special else v
    if l.lo is not None and np.any((w <= l.lo) if l.lo_open else (w < l.lo)):
      return False
    if l.hi is not None and np.any((w >= l.hi) if l.hi_open else (w > l.hi)):
      return False
  if case.assume:
    pv = prop_view(case.args, num)
    with np.errstate(all='ignore'):
      for c in case.assume(pv, NumOps(0., 0.)):
        if not np.all(np.asarray(c, dtype=bool)):
          return False
  return True


def eval_tol(roots, env, ufn, rtol):
  """Like tm.evaluate but real equalities are tolerant."""
  val = {}
  for t in tm.subterms(roots):
    if t.op == 'eq' and t.args[0].sort == 'R':
      a, b = val[t.args[0].id], val[t.args[1].id]
      v = a == b or abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-12
      val[t.id] = v
    elif t.op == 'lt' and t.args[0].sort == 'R':
      a, b = val[t.args[0].id], val[t.args[1].id]
      val[t.id] = a < b
    else:
      val[t.id] = _ev1(t, val, env, ufn)
  return [val[r.id] for r in roots]


def _ev1(t, val, env, ufn):
  op = t.op
  if op == 'const':
    v = t.args[0]
    return float(v) if t.sort == 'R' else v
  if op == 'var':
    return env[t.args[0]]
  if op == 'pi':
    return math.pi
  a = [val[x.id] if isinstance(x, T) else x for x in t.args]
  if op == 'add':
    return a[0] + a[1]
  if op == 'mul':
    return a[0] * a[1]
  if op == 'div':
    try:
      return a[0] / a[1] if a[1] != 0 else math.nan
    except OverflowError:
      return math.inf
  if op == 'imod':
    return a[0] % abs(a[1]) if a[1] else 0
  if op == 'idiv':
    return (a[0] - a[0] % abs(a[1])) // a[1] if a[1] else 0
  if op == 'toR':
    return float(a[0])
  if op == 'floorI':
    return math.floor(a[0]) if math.isfinite(a[0]) else 0
  if op == 'not':
    return not a[0]
  if op == 'and':
    return all(a)
  if op == 'lt':
    return a[0] < a[1]
  if op == 'eq':
    return a[0] == a[1]
  if op == 'ite':
    return a[1] if a[0] else a[2]
  if op == 'fn':
    if a[0] in tm.NUMFN:
      return tm.NUMFN[a[0]](*a[1:])
    return ufn(t, a[0], a[1:])
  raise NotImplementedError(op)


UNWINDING = 'every loop stops within the unrolling bound'


def terminates(case, conc, limit=40):
  """Runs the real code on concrete inputs in a process of its own; False if it has not returned after `limit` seconds."""
  if not case.origin:
    return True
  with tempfile.NamedTemporaryFile(suffix='.pkl') as f:
    pickle.dump(conc, f)
    f.flush()
    cmd = [sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'run.py'),
           case.origin[0], '--tier', case.origin[1], '--only-run', f.name, '--case', case.name]
    try:
      subprocess.run(cmd, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False)
    except subprocess.TimeoutExpired:
      return False
  return True


class CaseResult:

  def __init__(self, name):
    self.name = name
    self.status = 'ok'            # ok / violation / error
    self.messages = []
    self.obligations = 0
    self.proved = 0
    self.labels = []
    self.paths = 0
    self.eqns = 0
    self.prims = []
    self.witness = False
    self.validated = 0
    self.concretized = None
    self.replay = None
    self.wall = 0
    self.stats = {}
    self.sample = None
    self.note = ''


def count_eqns(jaxpr):
  n = 0
  for e in jaxpr.eqns:
    n += 1
    for v in e.params.values():
      for w in (v if isinstance(v, (tuple, list)) else (v,)):
        if hasattr(w, 'jaxpr'):
          n += count_eqns(w.jaxpr)
        elif hasattr(w, 'eqns'):
          n += count_eqns(w)
  return n


TRACE_ERRS = (jax.errors.ConcretizationTypeError, jax.errors.TracerArrayConversionError,
              jax.errors.TracerIntegerConversionError, jax.errors.TracerBoolConversionError,
              jax.errors.UnexpectedTracerError)


class NeedConcrete(Exception):
  pass


class Checker:

  def __init__(self, case, seed=1, tier='quick'):
    self.case, self.seed, self.tier = case, seed, tier
    self.rng = random.Random('%s/%s' % (seed, case.name))
    self.res = CaseResult(case.name)
    self.known_hits = []

  # ----- main
  def check(self):
    t0 = self.t0 = time.time()
    self.retries = 0
    st0 = dict(vars(solve.STATS))
    interp.MAX_UNROLL[0] = self.case.max_unroll
    interp.RANGE_MODE[0] = self.case.mode == 'range'
    interp.CASTS[0] = self.case.casts
    interp.PRIMS_SEEN.clear()
    try:
      self._check()
    except Exception as e:  # pylint: disable=broad-except
      self.res.status = 'error' if self.res.status == 'ok' else self.res.status
      self.res.messages.append('internal: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    finally:
      interp.RANGE_MODE[0] = interp.CASTS[0] = False
      uf.set_table(None)
      fvm.CUR.ctx = None
    self.res.wall = time.time() - t0
    self.res.stats = {k: v - st0[k] for k, v in vars(solve.STATS).items()}
    self.res.prims = sorted(interp.PRIMS_SEEN)
    return self.res

  def _check(self):
    case = self.case
    fixes = [None]
    if case.concretize:
      fixes = self._hp_fixes()
    try:
      for f in fixes:
        self._run_fixed(f)
        if self.res.status == 'violation':
          return
    except NeedConcrete as e:
      self.res.note += 'hyperparameters concretised (%s); ' % str(e)[:160]
      fs = self._hp_fixes()
      self.res.obligations = self.res.proved = 0
      self.res.labels = []
      self.res.status, self.res.messages = 'ok', []
      for f in fs:
        self._run_fixed(f, allow=False)
        if self.res.status == 'violation':
          return

  def _hp_fixes(self):
    leaves, _, names = _names(self.case.args)
    want = self.case.concretize
    idx = [i for i, l in enumerate(leaves) if l.hp and (want is None or want is True or names[i] in want)]
    n = max([len(leaves[i].samples or ()) for i in idx] or [1])
    out = []
    for k in range(n):
      d = {}
      for i in idx:
        s = leaves[i].samples or (_rand(leaves[i], self.rng),)
        d[i] = s[k % len(s)]
      out.append(d)
    self.res.concretized = [{names[i]: v for i, v in d.items()} for d in out]
    return out

  def _run_fixed(self, fixed, allow=True):
    case, res = self.case, self.res
    self.fixed = fixed or {}
    leaves, _, names = _names(case.args)
    flat, assum, vars_ = sym_args(case.args, fixed)
    self.flat, self.vars_ = flat, vars_
    sops = SymOps()
    ctx0 = solve.Ctx(assum)
    fvm.CUR.ctx = ctx0
    pv = prop_view(case.args, flat)
    if case.assume:
      for c in case.assume(pv, sops):
        for x in np.asarray(c, dtype=object).reshape(-1):
          ctx0.assume(x.t if isinstance(x, BV) else tm.B(bool(x)))
    self.ctx0 = ctx0
    # vacuity: the assumptions must be satisfiable
    st, model = solve.check_sat(ctx0.assumptions, [], 5000, relevant=False)
    if st == 'unsat':
      raise RuntimeError('vacuous assumptions in ' + case.name)

    def fun(*args):
      full = []
      it = iter(args)
      for i, l in enumerate(leaves):
        full.append(self.fixed[i] if i in self.fixed else next(it))
      rv = run_view(case.args, full)
      out = case.run(rv)
      stat = case.static(rv, out) if case.static else []
      return out, stat

    ex = [example(l) for i, l in enumerate(leaves) if i not in self.fixed]
    symflat = [v for i, v in enumerate(flat) if i not in self.fixed]
    try:
      paths = trace.fork_trace(fun, ex)
    except trace.PathLimit as e:
      if case.jit:
        # every path is a branch on an input value
        self._oblige(ctx0, 'no Python-level branch on an input value', FALSE)
        return
      if allow and any(l.hp for l in leaves):
        raise NeedConcrete(str(e))
      raise
    except TRACE_ERRS as e:
      if allow and any(l.hp for l in leaves):
        raise NeedConcrete(str(e))
      raise
    if allow and not self.fixed and any(l.hp for l in leaves):
      for p in paths:
        if p.exc is not None and (isinstance(p.exc, TRACE_ERRS) or 'Tracer' in str(p.exc)
                                  or 'tracer' in str(p.exc)):
          raise NeedConcrete(str(p.exc))
    live = 0
    if case.jit:
      branch = any(p.decisions for p in paths)
      self._oblige(ctx0, 'no Python-level branch on an input value', FALSE if branch else TRUE)
      if res.status == 'violation':
        return
    for p in paths:
      res.paths += 1
      res.eqns += count_eqns(p.closed.jaxpr)
      nd = len(p.decisions)
      ctx = ctx0
      if nd:
        fvm.CUR.ctx = ctx0
        pr = interp.run_closed(p.closed, symflat)[:nd]
        conds = [c[()].t if d else not_(c[()].t) for c, d in zip(pr, p.decisions)]
        ctx = ctx0.child(*conds)
        if not ctx.feasible():
          continue
      live += 1
      fvm.CUR.ctx = ctx
      interp.UNWIND.clear()
      if p.exc is not None:
        self._exc_path(p, ctx, pv, sops)
        if res.status == 'violation':
          return
        continue
      outs = interp.run_closed(p.closed, symflat)[nd:]
      unwind = list(interp.UNWIND)
      out = tree_unflatten(p.tree, outs)
      for l, c in p.static:
        self._oblige(ctx, 'static: ' + l, tm.B(bool(c)), allow_static=True)
        if res.status == 'violation':
          return
      for u in unwind:
        if u is not TRUE and self._endless():
          return
        self._oblige(ctx, UNWINDING, u)
        if res.status != 'ok':
          return
      self._validate(p, outs, ctx)
      fvm.CUR.ctx = ctx
      obs = case.prop(pv, _unbox(out), sops)
      for label, c in obs:
        arr_ = np.asarray(c, dtype=object).reshape(-1)
        for k, x in enumerate(arr_):
          t = x.t if isinstance(x, BV) else tm.B(bool(x))
          self._oblige(ctx, label + ('[%d]' % k if len(arr_) > 1 else ''), t)
          if res.status == 'violation':
            return
    if live == 0:
      raise RuntimeError('no feasible path')
    res.witness = True

  # ----- obligations
  def _oblige(self, ctx, label, goal, allow_static=False):
    res = self.res
    res.obligations += 1
    fvm.CUR.ctx = ctx
    short = label == UNWINDING
    pr = solve.Prover(ctx, budget_s=10 if short else self.case.budget, leaf_ms=1500 if short else self.case.leaf_ms)
    if goal is TRUE:
      # decided by constant folding of the encoding; ask the solver anyway
      r = solve.Result('proved')
    else:
      r = pr.prove(goal)
    if r.status == 'proved':
      res.proved += 1
      res.labels.append(label)
      return
    try:
      before = res.status, len(res.messages)
      self._concretise(ctx, label, goal, r)
    finally:
      uf.set_table(None)
    if r.status == 'unknown' and res.status == 'error' and label != UNWINDING and self.retries < 4 and time.time() - self.t0 < 240:
      # no counterexample either: the solver gets one more, much longer attempt
      self.retries += 1
      fvm.CUR.ctx = ctx
      pr = solve.Prover(ctx, quick_ms=8000, budget_s=3 * self.case.budget, leaf_ms=8 * self.case.leaf_ms)
      if pr.prove(goal).status == 'proved':
        res.status = before[0]
        del res.messages[before[1]:]
        res.proved += 1
        res.labels.append(label)

  def _endless(self):
    """A loop was cut: does the call come back at all on some inputs?"""
    tries = 0
    for _ in range(20):
      conc = self._sample(None, 2)
      try:
        if not in_domain(self.case, conc, False):
          continue
      except Exception:  # pylint: disable=broad-except
        continue
      tries += 1
      if terminates(self.case, conc):
        if tries >= 3:
          return False
        continue
      names = _names(self.case.args)[2]
      self.res.obligations += 1
      self.res.status = 'violation'
      self.res.messages.append('%s: %s -> the call had not returned after 40 s' % (self.case.name, UNWINDING))
      self.res.replay = {'case': self.case.name, 'label': UNWINDING, 'failed': ['no return after 40 s'], 'x64': False,
                         'inputs': {nm: _js(c) for nm, c in zip(names, conc)}}
      return True
    return False

  def _exc_path(self, p, ctx, pv, sops):
    if self.case.exc is not None:
      obs = self.case.exc(pv, p.exc, sops)
      for label, c in obs:
        for x in np.asarray(c, dtype=object).reshape(-1):
          self._oblige(ctx, label, x.t if isinstance(x, BV) else tm.B(bool(x)))
      return
    self.res.obligations += 1
    st, model = solve.check_sat(ctx.assumptions, [], 5000, relevant=False)
    r = solve.Result('refuted', model if st == 'sat' else None)
    label = 'no exception (%s: %s)' % (type(p.exc).__name__, str(p.exc)[:120])
    self._concretise(ctx, label, FALSE, r, exc=p.exc)

  def _concretise(self, ctx, label, goal, r, exc=None):
    """Look for concrete inputs that violate the property on the real code."""
    case, res = self.case, self.res
    tried = 0
    t_end = time.time() + (90 if label == UNWINDING else 40 if self.tier == 'quick' else 90) / (1 + 2 * (res.status == 'error'))
    hits = 0
    n = 400
    for k in range(n):
      if time.time() > t_end:
        break
      mode = 0 if k == 0 else 3 if k % 4 == 1 else 1 if k % 3 else 2
      conc = self._sample(r.model if mode != 2 else None, mode)
      # arbitrary user functions take the values the model gives them
      uf.set_table(r.model.get('?uf') if r.model and mode != 2 else None)
      try:
        if not in_domain(case, conc, False):
          continue
      except Exception:  # pylint: disable=broad-except
        continue
      # cheap filter through the encoding (skipped for the model itself)
      if k > 0 and exc is None and goal is not FALSE:
        try:
          env = env_of(case.args, to_num_args(case.args, conc, False))
          vals = eval_tol([and_(*ctx.assumptions[len(self.ctx0.assumptions):]), goal], env, KeyEval(), 1e-7)
          if not vals[0] or vals[1]:
            if k % 10:
              continue
        except Exception:  # pylint: disable=broad-except
          pass
      tried += 1
      if label == UNWINDING:
        hit = None if terminates(case, conc) else (False, ['the call had not returned after 40 s'])
        if tried > 1 and not hit:
          break
      else:
        hit = self._replay(conc, label.startswith('static: '))
      if hit:
        res.status = 'violation'
        res.messages.append('%s: %s -> %s' % (case.name, label, '; '.join(hit[1])))
        leaves, _, names = _names(case.args)
        res.replay = {'case': case.name, 'label': label, 'failed': hit[1], 'x64': hit[0],
                      'inputs': {nm: _js(c) for nm, c in zip(names, conc)}}
        return
      if tried > 60:
        break
    if exc is not None and not self.fixed and any(l.hp for l in _names(case.args)[0]):
      raise NeedConcrete(str(exc))
    res.status = 'error'
    res.messages.append('%s: obligation "%s" %s by the solver but no concrete violation reproduced '
                        '(%d replays)' % (case.name, label, r.status, tried))

  def _sample(self, model, mode):
    leaves, _, names = _names(self.case.args)
    conc = []
    scale = 10. ** self.rng.choice((-6, -4, -3, -2, -1, 1, 2, 3, 4, 6)) if mode == 3 else 1
    for i, (l, n) in enumerate(zip(leaves, names)):
      if i in self.fixed:
        a = np.empty((), dtype=object)
        a[()] = self.fixed[i]
        conc.append(a)
      else:
        conc.append(sample_leaf(l, self.rng, model, n, mode, scale))
    return conc

  def _replay(self, conc, traced=False):
    case = self.case
    modes = ([(True, 1e-5, 1e-9)] if case.x64 else []) + [(False, 2e-2, 1e-4)]
    if case.replay_x64:
      modes = [(True, 1e-4, 1e-6)]
    elif case.replay_tol:
      modes = [(False,) + tuple(case.replay_tol)]
    for x64, rt, at in modes:
      try:
        if not in_domain(case, conc, x64):
          continue
        ok, failed, _ = run_concrete(case, conc, x64, rt, at)
      except Exception as e:  # harness-side problem  pylint: disable=broad-except
        self.res.messages.append('replay error: %r' % e)
        continue
      if not ok:
        return (x64, failed)
    if traced and case.static:
      # kinds and shapes may go wrong only in a traced call
      try:
        if in_domain(case, conc, False):
          failed = run_concrete(case, conc, False, 2e-2, 1e-4, traced=self.fixed)[1]
          failed = [l + ' (under jit)' for l in failed if not l.startswith('raised ')]
          if failed:
            return (False, failed)
      except Exception:  # pylint: disable=broad-except
        pass
    return None

  # ----- translation validation
  def _validate(self, p, outs, ctx):
    case = self.case
    if case.mode != 'real':
      return
    extra = ctx.assumptions[len(self.ctx0.assumptions):]
    done = 0
    for k in range(60):
      if done >= 2:
        break
      conc = self._sample(None, 2)
      try:
        if not in_domain(case, conc, case.x64):
          continue
      except Exception:  # pylint: disable=broad-except
        continue
      env = env_of(case.args, to_num_args(case.args, conc, case.x64))
      ev = KeyEval()
      roots = []
      for o in outs:
        for e in o.reshape(-1):
          roots += [e.r, e.nan, e.inf] if isinstance(e, FV) else [e.t]
      from jax.experimental import enable_x64, disable_x64
      with (enable_x64() if case.x64 else disable_x64()):
        if extra and not all(tm.evaluate(list(extra), env, ev)):
          continue
        try:
          vals = tm.evaluate(roots, env, ev)
        except OverflowError:
          continue
        d = dict(zip([t.id for t in roots], vals))
        args = to_real_args(case.args, conc, case.x64)
        try:
          out = case.run(run_view(case.args, args))
        except Exception:  # reported elsewhere  pylint: disable=broad-except
          continue
        real_flat = [_np(x) for x in tree_flatten(out)[0]]
      if len(real_flat) != len(outs):
        raise RuntimeError('translation: output structure differs between trace and run')
      for o, rr in zip(outs, real_flat):
        if o.shape != rr.shape:
          raise RuntimeError('translation: shape differs')
        for e, x in zip(o.reshape(-1), rr.reshape(-1)):
          v = fv_num(e, d)
          if isinstance(v, tuple):
            continue
          if isinstance(e, FV):
            x = float(x)
            if math.isnan(x) and math.isnan(v) or x == v:
              continue
            tol = (1e-6 if case.x64 else 2e-2) * max(abs(x), abs(v)) + (1e-7 if case.x64 else 1e-3)
            if not abs(x - v) <= tol:
              self._mismatch(conc, v, x)
          elif isinstance(e, KV):
            if int(x) != int(v):
              self._mismatch(conc, v, x)
          elif int(x) != int(v):
            self._mismatch(conc, v, x)
      done += 1
    self.res.validated += done

  def _mismatch(self, conc, v, x):
    # The real code disagrees with its encoding on this input.  If the input
    # itself violates the property, that is the finding; otherwise record it.
    # (Rounding alone must not count: the violation has to survive a loose tolerance.)
    hit = self._replay(conc)
    if hit and hit[0]:
      try:
        if in_domain(self.case, conc, True) and run_concrete(self.case, conc, True, 2e-2, 1e-4)[0]:
          hit = None
      except Exception:  # pylint: disable=broad-except
        pass
    if hit:
      self.res.messages.append('encoding mismatch input violates the property')
      leaves, _, names = _names(self.case.args)
      self.res.status = 'violation'
      self.res.replay = {'case': self.case.name, 'label': 'mismatch', 'failed': hit[1], 'x64': hit[0],
                         'inputs': {nm: _js(c) for nm, c in zip(names, conc)}}
      raise RuntimeError('violation found during validation')
    self.res.note += 'encoding vs real value differs numerically (%r vs %r); ' % (v, x)


def _js(c):
  def f(x):
    if isinstance(x, (bool, np.bool_)):
      return bool(x)
    if isinstance(x, (int, np.integer)):
      return int(x)
    return repr(float(x))
  return [f(x) for x in c.reshape(-1)] if c.shape else f(c[()])


def _unbox(tree):
  return tree_map(lambda x: x[()] if isinstance(x, np.ndarray) and x.shape == () else x, tree)
