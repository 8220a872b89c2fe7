"""Symbolic execution of jaxprs over numpy object arrays of FV/IV/BV/KV."""
import math
import time

import jax
import types

import numpy as np
from jax import core as jcore
from jax import lax
from jax._src import core as _core

from symjax import terms as tm
from symjax import fv as fvm
from symjax.fv import FV, IV, BV, KV, lit, implied, fsel
from symjax.terms import and_, or_, not_, R0, R1, I


class Unsupported(Exception):
  pass


CASTS = [False]
MAX_UNROLL = [64]
UNROLL_S = [10]            # seconds after which a loop is cut (leaving an unwinding obligation)
RANGE_MODE = [False]      # model exp overflow / underflow of float32
PRIMS_SEEN = {}
UNWIND = []               # unwinding obligations (terms) collected


def is_key(aval):
  return 'key<' in str(aval.dtype)


def kind(dtype):
  if 'key<' in str(dtype):
    return 'K'
  k = np.dtype(dtype).kind if str(dtype) != 'bfloat16' else 'f'
  return {'f': 'F', 'i': 'I', 'u': 'U', 'b': 'B', 'V': 'F'}.get(k) or _bad(dtype)


def _bad(d):
  raise Unsupported('dtype %s' % d)


def arr(shape, vals):
  a = np.empty(shape, dtype=object)
  flat = a.reshape(-1)
  for i, v in enumerate(vals):
    flat[i] = v
  return a


def lift(x, dtype=None):
  """Concrete array -> symbolic array."""
  if isinstance(x, np.ndarray) and x.dtype == object:
    return x
  if hasattr(x, 'dtype') and 'key<' in str(x.dtype):
    words = np.asarray(jax.random.key_data(x)) if hasattr(jax.random, 'key_data') else None
    if words is None:
      raise Unsupported('key constant')
    flat = words.reshape(-1, words.shape[-1])
    return arr(x.shape, [KV(tm.mk('fn', ('wrap',) + tuple(tm.I(int(w)) for w in ws), 'K')) for ws in flat])
  x = np.asarray(x)
  k = kind(dtype or x.dtype)
  if k == 'F':
    return arr(x.shape, [lit(float(v)) for v in x.reshape(-1)])
  if k in 'IU':
    return arr(x.shape, [IV(int(v)) for v in x.reshape(-1)])
  return arr(x.shape, [BV(bool(v)) for v in x.reshape(-1)])


def vmap1(f, *xs):
  shape = xs[0].shape
  return arr(shape, [f(*t) for t in zip(*[x.reshape(-1) for x in xs])])


def bcast(*xs):
  shp = np.broadcast_shapes(*[x.shape for x in xs])
  return [x if x.shape == shp else np.broadcast_to(x, shp) for x in xs]


def wrap_int(v, dtype):
  """two's complement wrap of IV unless the context shows it is in range."""
  if isinstance(v, KV):
    return v
  info = np.iinfo(dtype)
  lo, hi = int(info.min), int(info.max)
  t = v.t
  if t.is_const:
    return IV((t.val - lo) % (hi - lo + 1) + lo)
  if implied(and_(tm.le(I(lo), t), tm.le(t, I(hi)))):
    return v
  m = hi - lo + 1
  ok = and_(tm.le(I(lo), t), tm.le(t, I(hi)))
  return IV(tm.ite(ok, t, tm.add(tm.imod(tm.sub(t, I(lo)), I(m)), I(lo))))


def to_kind(v, k):
  if k == 'F':
    return lit(v)
  if k in 'IU':
    if isinstance(v, BV):
      return IV(tm.ite(v.t, I(1), I(0)))
    return v
  return v


# ------------------------------------------------------------ elementwise


def _num2(f):
  def rule(eqn, a, b):
    a, b = bcast(a, b)
    k = kind(eqn.outvars[0].aval.dtype)
    out = vmap1(f, a, b)
    if k in 'IU':
      out = vmap1(lambda v: wrap_int(v, eqn.outvars[0].aval.dtype), out)
    return out
  return rule


def _idiv_trunc(a, b):
  # C-style truncation
  q = tm.idiv(a.t, b.t)      # Euclidean; equals trunc when a >= 0
  if implied(tm.le(I(0), a.t)):
    return IV(q)
  nq = tm.neg(tm.idiv(tm.neg(a.t), b.t))
  return IV(tm.ite(tm.le(I(0), a.t), q, nq))


def _irem(a, b):
  m = tm.imod(a.t, b.t)
  if implied(tm.le(I(0), a.t)):
    return IV(m)
  return IV(tm.ite(tm.le(I(0), a.t), m, tm.neg(tm.imod(tm.neg(a.t), b.t))))


def _div(a, b):
  if isinstance(a, IV):
    if not implied(not_(tm.eq(b.t, I(0)))):
      raise Unsupported('integer division by a possibly-zero value')
    return _idiv_trunc(a, b)
  return a / b


def _rem(a, b):
  if isinstance(a, IV):
    if not implied(not_(tm.eq(b.t, I(0)))):
      raise Unsupported('integer remainder by a possibly-zero value')
    return _irem(a, b)
  q = a / b
  tr = tm.ite(tm.le(R0, q.r), tm.toR(tm.floorI(q.r)),
              tm.neg(tm.toR(tm.floorI(tm.neg(q.r)))))
  return FV(tm.sub(a.r, tm.mul(tr, b.r)), or_(q.nan, q.inf), tm.FALSE)


def _max(a, b):
  if isinstance(a, IV):
    return fsel(a >= b, a, b)
  if isinstance(a, BV):
    return a | b
  return fvm.fmax(a, b)


def _min(a, b):
  if isinstance(a, IV):
    return fsel(a <= b, a, b)
  if isinstance(a, BV):
    return a & b
  return fvm.fmin(a, b)


def _pow(a, b):
  if isinstance(b, IV):
    b = lit(b)
  return fvm.fpow(a, b)


def _exp(x):
  if not RANGE_MODE[0]:
    return fvm.fexp(x)
  big = _p(tm.lt(tm.R(fvm.Fraction(8872, 100)), x.r))
  small = _p(tm.lt(x.r, tm.R(-104)))
  r = tm.ite(big, R1, tm.ite(small, R0, tm.fn('exp', x.r)))
  neg = tm.lt(x.r, R0)
  return FV(tm.ite(x.inf, tm.ite(neg, R0, R1), r), x.nan,
            and_(not_(x.nan), or_(and_(x.inf, not_(neg)), and_(not_(x.inf), big))))


def _p(c):
  if c.is_const:
    return c
  if implied(c):
    return tm.TRUE
  if implied(not_(c)):
    return tm.FALSE
  return c


def _log1p(x):
  return fvm.flog(lit(1) + x)


def _expm1(x):
  return _exp(x) - 1


def _logistic(x):
  if RANGE_MODE[0]:
    small = _p(tm.lt(x.r, tm.R(-104)))
    big = _p(tm.lt(tm.R(18), x.r))
    return FV(tm.ite(small, R0, tm.ite(big, R1, tm.fn('logistic', x.r))), or_(x.nan, x.inf))
  if x.fin:
    return lit(1) / (lit(1) + fvm.fexp(-x))
  y = lit(1) / (lit(1) + fvm.fexp(-x))
  return y


def _tanh(x):
  e = fvm.fexp(2 * x)
  return (e - 1) / (e + 1)


def _neg(x):
  return -x


def _sign(x):
  if isinstance(x, IV):
    return IV(tm.ite(tm.lt(x.t, I(0)), I(-1), tm.ite(tm.eq(x.t, I(0)), I(0), I(1))))
  return fvm.fsign(x)


def _abs(x):
  if isinstance(x, IV):
    return IV(tm.ite(tm.lt(x.t, I(0)), tm.neg(x.t), x.t))
  return fvm.fabs(x)


def _round(x, even_ties=True):
  if x.fin and not x.r.is_const and not any(t.op == 'var' or (t.op == 'fn' and t.args[0] not in tm.NUMFN) for t in tm.subterms([x.r])):
    v = tm.evaluate([x.r], {})[0]    # a closed expression: only its nearest integer matters
    if math.isfinite(v) and abs(v) < 1e6 and abs(abs(v - math.floor(v)) - 0.5) > 1e-6:
      return FV(tm.R(round(v)))
  f = fvm.ffloor(x)
  d = tm.sub(x.r, f.r)
  half = tm.R(fvm.Fraction(1, 2))
  fi = tm.floorI(x.r)
  tie = not_(tm.eq(tm.imod(fi, I(2)), I(0))) if even_ties else tm.le(R0, x.r)
  up = or_(tm.lt(half, d), and_(tm.eq(d, half), tie))
  return FV(tm.ite(x.inf, x.r, tm.ite(up, tm.add(f.r, R1), f.r)), x.nan, x.inf)


def _erf(x):
  return fvm.fun1('erf')(x)


UN = {
    'neg': _neg, 'exp': _exp, 'log': fvm.flog, 'sqrt': fvm.fsqrt,
    'rsqrt': lambda x: lit(1) / fvm.fsqrt(x), 'abs': _abs, 'sign': _sign,
    'floor': fvm.ffloor, 'ceil': fvm.fceil, 'log1p': _log1p, 'expm1': _expm1,
    'logistic': _logistic, 'tanh': _tanh, 'cos': fvm.fun1('cos'),
    'sin': fvm.fun1('sin'), 'is_finite': fvm.fisfinite, 'erf_inv': fvm.fun1('erf_inv'),
    'erf': _erf, 'square': lambda x: x * x, 'cbrt': fvm.fun1('cbrt'),
    'stop_gradient': lambda x: x, 'real': lambda x: x, 'copy': lambda x: x,
    'tan': fvm.fun1('tan'), 'atan': fvm.fun1('atan'), 'optimization_barrier': lambda x: x,
    'copy_p': lambda x: x,
}
BIN = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'div': _div, 'rem': _rem, 'max': _max, 'min': _min, 'pow': _pow,
    'add_any': lambda a, b: a + b,
}


def _cmp(f):
  def rule(eqn, a, b):
    a, b = bcast(a, b)
    return vmap1(f, a, b)
  return rule


def _keq(a, b):
  if isinstance(a, KV):
    return BV(tm.eq(a.t, b.t))
  return a == b


CMP = {
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b,
    'ge': lambda a, b: a >= b, 'eq': _keq, 'ne': lambda a, b: ~_keq(a, b),
}

MOVE = {'reshape', 'transpose', 'broadcast_in_dim', 'squeeze', 'slice', 'rev',
        'concatenate', 'expand_dims', 'pad', 'reduce_precision', 'copy', 'copy_p'}


def move(eqn, *vals):
  """Data movement via the real primitive applied to integer IDs."""
  pool = []
  ids = []
  for v in vals:
    n = v.size
    ids.append(np.arange(len(pool), len(pool) + n, dtype=np.int32).reshape(v.shape))
    pool.extend(v.reshape(-1).tolist())
  outs = _bind_np(eqn, ids)
  out = np.asarray(outs)
  return arr(out.shape, [pool[int(i)] for i in out.reshape(-1)])


def _bind_np(eqn, ids):
  with jax.core.eval_context():
    r = eqn.primitive.bind(*[jax.numpy.asarray(i) for i in ids], **eqn.params)
  return r


def _concrete_int(v):
  out = np.empty(v.shape, dtype=np.int64)
  for i, x in np.ndenumerate(v):
    if not isinstance(x, IV):
      raise Unsupported('non-integer index')
    if not x.t.is_const:
      return None
    out[i] = x.t.val
  return out


def indexed(eqn, operand_ids, index_pos, vals, post):
  """Apply a primitive with index operands; symbolic indices are enumerated.

  operand_ids: positions of value operands; index_pos: positions of indices.
  """
  sym = []
  for p in index_pos:
    for ix, x in np.ndenumerate(vals[p]):
      if not x.t.is_const:
        sym.append((p, ix, x))
  if not sym:
    return post(vals)
  p, ix, x = sym[0]
  dim = max(max(v.shape) if v.shape else 1 for i, v in enumerate(vals) if i in operand_ids)
  lo, hi = -1, dim
  res = None
  for c in range(hi, lo - 1, -1):
    cond = (x <= c) if c == lo else (x >= c) if c == hi else (x == c)
    if implied(not_(cond.t)):
      continue
    v2 = list(vals)
    w = vals[p].copy()
    w[ix] = IV(c)
    # equal index terms get the same value
    for q in index_pos:
      if q != p:
        continue
      for jx, y in np.ndenumerate(w):
        if y.t is x.t:
          w[jx] = IV(c)
    v2[p] = w
    r = indexed(eqn, operand_ids, index_pos, v2, post)
    res = r if res is None else vmap1(lambda a, b: fsel(cond, a, b), r, res)
  if res is None:
    raise Unsupported('no feasible index')
  return res


def r_gather(eqn, operand, indices):
  fill = eqn.params.get('fill_value')
  mode = eqn.params.get('mode')

  def post(vals):
    op, ind = vals
    idx = _concrete_int(ind).astype(np.int32)
    pool = op.reshape(-1).tolist()
    ids = np.arange(1, len(pool) + 1, dtype=np.int32).reshape(op.shape)
    prm = dict(eqn.params)
    prm['fill_value'] = 0
    with jax.core.eval_context():
      out = np.asarray(eqn.primitive.bind(jax.numpy.asarray(ids), jax.numpy.asarray(idx), **prm))
    def pick(i):
      if i == 0:
        k = kind(eqn.outvars[0].aval.dtype)
        if k == 'F':
          return lit(fill if fill is not None else float('nan'))
        return IV(int(fill) if fill is not None else int(np.iinfo(eqn.outvars[0].aval.dtype).min))
      return pool[i - 1]
    return arr(out.shape, [pick(int(i)) for i in out.reshape(-1)])
  del mode
  return indexed(eqn, (0,), (1,), [operand, indices], post)


def r_dynamic_slice(eqn, operand, *starts):
  def post(vals):
    op, st = vals[0], vals[1:]
    pool = op.reshape(-1).tolist()
    ids = np.arange(len(pool), dtype=np.int32).reshape(op.shape)
    st = [jax.numpy.asarray(_concrete_int(s).astype(np.int32)) for s in st]
    with jax.core.eval_context():
      out = np.asarray(eqn.primitive.bind(jax.numpy.asarray(ids), *st, **eqn.params))
    return arr(out.shape, [pool[int(i)] for i in out.reshape(-1)])
  return indexed(eqn, (0,), tuple(range(1, 1 + len(starts))), [operand] + list(starts), post)


def r_dynamic_update_slice(eqn, operand, update, *starts):
  def post(vals):
    op, up, st = vals[0], vals[1], vals[2:]
    pool = op.reshape(-1).tolist() + up.reshape(-1).tolist()
    a = np.arange(op.size, dtype=np.int32).reshape(op.shape)
    b = np.arange(op.size, op.size + up.size, dtype=np.int32).reshape(up.shape)
    st = [jax.numpy.asarray(_concrete_int(s).astype(np.int32)) for s in st]
    with jax.core.eval_context():
      out = np.asarray(eqn.primitive.bind(jax.numpy.asarray(a), jax.numpy.asarray(b), *st, **eqn.params))
    return arr(out.shape, [pool[int(i)] for i in out.reshape(-1)])
  return indexed(eqn, (0,), tuple(range(2, 2 + len(starts))), [operand, update] + list(starts), post)


def r_scatter(eqn, operand, indices, updates):
  add = eqn.primitive.name == 'scatter-add'

  def post(vals):
    op, ind, up = vals
    idx = jax.numpy.asarray(_concrete_int(ind).astype(np.int32))
    if not add:
      pool = op.reshape(-1).tolist() + up.reshape(-1).tolist()
      a = np.arange(op.size, dtype=np.int32).reshape(op.shape)
      b = np.arange(op.size, op.size + up.size, dtype=np.int32).reshape(up.shape)
      with jax.core.eval_context():
        out = np.asarray(lax.scatter(jax.numpy.asarray(a), idx, jax.numpy.asarray(b),
                                     eqn.params['dimension_numbers'], mode=eqn.params['mode']))
      return arr(out.shape, [pool[int(i)] for i in out.reshape(-1)])
    res = op.copy()
    flat = up.reshape(-1)
    for i, u in enumerate(flat):
      one = np.zeros(up.size, dtype=np.int32)
      one[i] = 1
      with jax.core.eval_context():
        m = np.asarray(lax.scatter_add(jax.numpy.zeros(op.shape, 'int32'), idx,
                                       jax.numpy.asarray(one.reshape(up.shape)),
                                       eqn.params['dimension_numbers'], mode=eqn.params['mode']))
      for j in np.argwhere(m):
        j = tuple(j)
        res[j] = res[j] + u
    return res
  return indexed(eqn, (0,), (1,), [operand, indices, updates], post)


# ------------------------------------------------------------ reductions


def _reduce(f, init):
  def rule(eqn, a):
    axes = tuple(eqn.params['axes'])
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [int(np.prod([a.shape[i] for i in axes]))])
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
      row = b[ix]
      if len(row) == 0:
        out[ix] = init(eqn)
        continue
      v = row[0]
      for w in row[1:]:
        v = f(v, w)
      out[ix] = v
    if kind(eqn.outvars[0].aval.dtype) in 'IU':
      out = vmap1(lambda v: wrap_int(v, eqn.outvars[0].aval.dtype), out)
    return out
  return rule


def _ident(x):
  def f(eqn):
    k = kind(eqn.outvars[0].aval.dtype)
    return lit(x) if k == 'F' else IV(int(x)) if k in 'IU' else BV(bool(x))
  return f


def r_argminmax(eqn, a):
  axis, = eqn.params['axes']
  better = (lambda x, y: x > y) if eqn.primitive.name == 'argmax' else (lambda x, y: x < y)
  b = np.moveaxis(a, axis, -1)
  out = np.empty(b.shape[:-1], dtype=object)
  for ix in np.ndindex(*b.shape[:-1]):
    best, bi = b[ix][0], IV(0)
    for j in range(1, b.shape[-1]):
      c = better(b[ix][j], best)
      if isinstance(best, FV) and not b[ix][j].fin:
        # NaN wins (jnp semantics of lax.argmax)
        c = BV(and_(not_(best.nan), or_(c.t, b[ix][j].nan)))
      bi = fsel(c, IV(j), bi)
      best = fsel(c, b[ix][j], best)
    out[ix] = bi
  return out


def r_cum(f):
  def rule(eqn, a):
    ax = eqn.params['axis']
    b = np.moveaxis(a, ax, -1).copy()
    n = b.shape[-1]
    rng = range(1, n) if not eqn.params['reverse'] else range(n - 2, -1, -1)
    for ix in np.ndindex(*b.shape[:-1]):
      for j in rng:
        p = j - 1 if not eqn.params['reverse'] else j + 1
        b[ix][j] = f(b[ix][p], b[ix][j])
    return np.moveaxis(b, -1, ax)
  return rule


def r_dot_general(eqn, a, b):
  (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
  lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
  rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
  a2 = np.transpose(a, list(lb) + lf + list(lc))
  b2 = np.transpose(b, list(rb) + rf + list(rc))
  bs = [a.shape[i] for i in lb]
  ls = [a.shape[i] for i in lf]
  rs = [b.shape[i] for i in rf]
  k = int(np.prod([a.shape[i] for i in lc], dtype=int))
  a3 = a2.reshape(bs + [int(np.prod(ls, dtype=int)), k])
  b3 = b2.reshape(bs + [int(np.prod(rs, dtype=int)), k])
  out = np.empty(bs + [a3.shape[-2], b3.shape[-2]], dtype=object)
  fl = kind(eqn.outvars[0].aval.dtype) == 'F'
  for ix in np.ndindex(*bs):
    for i in range(a3.shape[-2]):
      for j in range(b3.shape[-2]):
        v = lit(0) if fl else IV(0)
        for m in range(k):
          v = v + to_kind(a3[ix][i, m], 'F' if fl else 'I') * to_kind(b3[ix][j, m], 'F' if fl else 'I')
        out[ix + (i, j)] = v
  return out.reshape(bs + ls + rs)


def r_sort(eqn, *ops):
  dim = eqn.params['dimension']
  nk = eqn.params['num_keys']
  if nk != 1:
    raise Unsupported('multi-key sort')
  ops = [np.moveaxis(o, dim, -1).copy() for o in ops]
  n = ops[0].shape[-1]
  for ix in np.ndindex(*ops[0].shape[:-1]):
    for i in range(n):       # bubble network (stable)
      for j in range(n - 1 - i):
        c = ops[0][ix][j] > ops[0][ix][j + 1]
        if isinstance(c, BV) and c.t is tm.FALSE:
          continue
        for o in ops:
          x, y = o[ix][j], o[ix][j + 1]
          o[ix][j], o[ix][j + 1] = fsel(c, y, x), fsel(c, x, y)
  return [np.moveaxis(o, -1, dim) for o in ops]


def r_select_n(eqn, which, *cases):
  w = which
  if len(cases) == 1:
    return cases[0]
  if w.shape == () and cases[0].shape != ():
    w = np.broadcast_to(w, cases[0].shape)
  def sel(c, *xs):
    if isinstance(c, BV):
      return fsel(c, xs[1], xs[0])
    r = xs[-1]
    for i in range(len(xs) - 2, -1, -1):
      r = fsel(c <= i, xs[i], r)
    return r
  return vmap1(sel, w, *cases)


def round_to(a, sdt, ddt):
  """Narrowing to a 16-bit float: a rounding function symbol (CASTS mode)."""
  if np.dtype(ddt).itemsize >= 4 or np.dtype(sdt) == np.dtype(ddt):
    return a
  return vmap1(lambda v: FV(tm.rnd(str(np.dtype(ddt)), v.r), v.nan, v.inf), a)


def r_convert(eqn, a):
  src = kind(eqn.invars[0].aval.dtype)
  dst = kind(eqn.outvars[0].aval.dtype)
  ddt = eqn.outvars[0].aval.dtype
  if src == dst == 'F' and CASTS[0]:
    return round_to(a, eqn.invars[0].aval.dtype, ddt)
  if src == dst:
    if src in 'IU' and np.iinfo(ddt).max < np.iinfo(eqn.invars[0].aval.dtype).max:
      return vmap1(lambda v: wrap_int(v, ddt), a)
    return a
  if dst == 'F':
    return vmap1(lambda v: _draw_f(v) if isinstance(v, KV) else lit(v), a)
  if dst == 'B':
    return vmap1(lambda v: (v != 0), a)
  if src == 'B':
    return vmap1(lambda v: to_kind(v, 'I'), a)
  if src == 'F':
    def f2i(v):
      if not v.fin and not implied(v.finite()):
        raise Unsupported('non-finite float to int')
      t = tm.ite(tm.le(R0, v.r), tm.floorI(v.r), tm.neg(tm.floorI(tm.neg(v.r))))
      if implied(tm.le(R0, v.r)):
        t = tm.floorI(v.r)
      return wrap_int(IV(t), ddt)
    return vmap1(f2i, a)
  if src in 'IU' and dst in 'IU':
    return vmap1(lambda v: wrap_int(v, ddt), a)
  raise Unsupported('convert %s->%s' % (src, dst))


def _draw_f(v):
  raise Unsupported('key word to float')


def r_iota(eqn):
  p = eqn.params
  x = np.asarray(lax.broadcasted_iota(np.int32, p['shape'], p['dimension']))
  return lift(x, p['dtype'])


def r_integer_pow(eqn, a):
  n = eqn.params['y']
  return vmap1(lambda x: x ** n, a)


def r_clamp(eqn, lo, x, hi):
  lo, x, hi = bcast(lo, x, hi)
  return vmap1(lambda l, v, h: _min(_max(l, v), h), lo, x, hi)


def _bool2(f, g=None):
  def rule(eqn, *xs):
    xs = bcast(*xs)
    if kind(eqn.outvars[0].aval.dtype) == 'B':
      return vmap1(f, *xs)
    if all(isinstance(v, IV) and v.t.is_const for x in xs for v in x.reshape(-1)):
      return vmap1(lambda *v: IV(g(*[int(y.t.val) for y in v])), *xs)
    raise Unsupported('bitwise integer op')
  return rule


# ------------------------------------------------------------ random

DRAWS = {'_normal': 'normal', '_uniform': 'uniform', '_weibull_min': 'weibull',
         '_maxwell': 'maxwell', '_rademacher': 'rademacher', '_bernoulli': 'bernoulli',
         '_double_sided_maxwell': 'dsmaxwell', '_gumbel': 'gumbel', '_laplace': 'laplace',
         '_exponential': 'exponential', '_truncated_normal': 'truncnormal', '_normal_real': 'normal',
         '_cauchy': 'cauchy', '_logistic': 'rlogistic', '_randint': 'randint', '_shuffle': None,
         '_gamma': 'gamma', '_multivariate_normal': 'mvn', '_categorical': None,
         '_permutation': None}


def key_of_words(ws):
  ts = [w.t for w in ws]
  if all(t.op == 'fn' and t.args[0] == 'word' for t in ts) and \
      all(t.args[1] is ts[0].args[1] for t in ts) and \
      [t.args[2] for t in ts] == list(range(len(ts))):
    return KV(ts[0].args[1])
  return KV(tm.mk('fn', ('wrap',) + tuple(ts), 'K'))


def r_random_wrap(eqn, a):
  return arr(a.shape[:-1], [key_of_words(a[ix]) for ix in np.ndindex(*a.shape[:-1])])


def r_random_unwrap(eqn, a):
  n = eqn.outvars[0].aval.shape[-1]
  out = np.empty(a.shape + (n,), dtype=object)
  for ix in np.ndindex(*a.shape):
    k = a[ix].t
    if k.op == 'fn' and k.args[0] == 'wrap' and len(k.args) == n + 1:
      for i in range(n):
        w = k.args[1 + i]
        out[ix + (i,)] = IV(w) if w.sort == 'I' else KV(w)
    else:
      for i in range(n):
        out[ix + (i,)] = KV(tm.mk('fn', ('word', k, i), 'K'))
  return out


def r_random_split(eqn, a):
  shp = eqn.outvars[0].aval.shape[a.ndim:]
  n = int(np.prod(shp, dtype=int))
  out = np.empty(a.shape + (n,), dtype=object)
  for ix in np.ndindex(*a.shape):
    for i in range(n):
      out[ix + (i,)] = KV(tm.mk('fn', ('split', a[ix].t, n, i), 'K'))
  return out.reshape(a.shape + tuple(shp))


def r_random_seed(eqn, a):
  return arr(a.shape, [KV(tm.mk('fn', ('seed', x.t), 'K')) for x in a.reshape(-1)])


def r_random_fold_in(eqn, a, m):
  a, m = bcast(a, m)
  return vmap1(lambda k, x: KV(tm.mk('fn', ('fold_in', k.t, x.t), 'K')), a, m)


def r_random_bits(eqn, a):
  shp = eqn.params['shape']
  bw = eqn.params['bit_width']
  n = int(np.prod(shp, dtype=int))
  out = np.empty(a.shape + (n,), dtype=object)
  for ix in np.ndindex(*a.shape):
    for i in range(n):
      t = tm.mk('fn', ('bits', a[ix].t, str(tuple(shp)), bw, i), 'I')
      out[ix + (i,)] = IV(t)
  return out.reshape(a.shape + tuple(shp))


def r_draw(eqn, name, args):
  """A call to one of jax.random's samplers on a key."""
  key = args[0]
  av = eqn.outvars[0].aval
  if key.dtype == object and key.shape and not isinstance(key.reshape(-1)[0], KV):
    raise Unsupported('draw from non-key')
  if isinstance(key.reshape(-1)[0], KV) and eqn.invars[0].aval.dtype == np.uint32:
    key = r_random_wrap(None, key)
  if key.shape != ():
    n = len(key.shape)
    if len(args) > 1 or tuple(av.shape[:n]) != key.shape:
      raise Unsupported('batched draw')
    sub = types.SimpleNamespace(invars=[types.SimpleNamespace(aval=types.SimpleNamespace(dtype=None))],
                                outvars=[types.SimpleNamespace(aval=types.SimpleNamespace(
                                    shape=tuple(av.shape[n:]), dtype=av.dtype))])
    rows = np.empty(tuple(av.shape), dtype=object)
    for ix in np.ndindex(*key.shape):
      rows[ix] = r_draw(sub, name, [arr((), [key[ix]])])
    return rows
  k = key[()].t
  kd = kind(av.dtype)
  shp = str(tuple(av.shape))
  extra = []
  for a in args[1:]:
    if a.shape == ():
      extra.append(a[()])
  out = []
  for i in range(int(np.prod(av.shape, dtype=int))):
    t = tm.mk('fn', (name, k, shp, i) , 'I' if name == 'rademacher' else 'R')
    if name == 'uniform':
      lo, hi = (extra + [lit(0), lit(1)])[:2] if len(extra) >= 2 else (lit(0), lit(1))
      out.append(lo + (hi - lo) * FV(t))
    elif name == 'bernoulli':
      u = tm.mk('fn', ('uniform', k, shp, i), 'R')
      out.append(FV(u) < (extra[0] if extra else lit(0.5)))
    elif name == 'rademacher':
      v = tm.mk('fn', ('rademacher', k, shp, i), 'B')
      iv = IV(tm.ite(v, I(1), I(-1)))
      out.append(lit(iv) if kd == 'F' else iv)
    elif name == 'weibull':
      # scale * Weibull(1, concentration)
      sc, co = extra[0], extra[1]
      c = co.r
      out.append(sc * FV(tm.mk('fn', ('weibull', k, shp, i, c), 'R')))
    elif name == 'randint':
      raise Unsupported('randint')
    else:
      out.append(FV(t))
  return arr(av.shape, out)


# ------------------------------------------------------------ control flow


class Path:
  """Path condition pushed onto the current context while a branch runs."""

  def __init__(self, cond):
    self.cond = cond

  def __enter__(self):
    self.saved = fvm.CUR.ctx
    if self.saved is not None:
      fvm.CUR.ctx = self.saved.child(self.cond)

  def __exit__(self, *a):
    fvm.CUR.ctx = self.saved


def merge(cond, xs, ys):
  return [vmap1(lambda a, b: fsel(cond, a, b), x, y) for x, y in zip(xs, ys)]


def r_cond(eqn, idx, *ops):
  brs = eqn.params['branches']
  i = idx[()]
  if isinstance(i, BV):
    i = IV(tm.ite(i.t, I(1), I(0)))
  n = len(brs)
  res = None
  for j in range(n - 1, -1, -1):
    c = (i <= 0).t if j == 0 else (i >= n - 1).t if j == n - 1 else (i == j).t
    c = _p(c)
    if c is tm.FALSE:
      continue
    with Path(c):
      r = run_closed(brs[j], ops)
    if c is tm.TRUE:
      return r
    res = r if res is None else merge(c, r, res)
  return res


def _pred(v):
  return v[()].t


def r_while(eqn, *args):
  p = eqn.params
  cn, bn = p['cond_nconsts'], p['body_nconsts']
  cc, bc, carry = list(args[:cn]), list(args[cn:cn + bn]), list(args[cn + bn:])
  body, cond = p['body_jaxpr'], p['cond_jaxpr']
  t0 = time.time()

  def go(carry, depth):
    c = _p(_pred(run_closed(cond, cc + carry)[0]))
    if c is tm.FALSE:
      return carry
    if depth >= MAX_UNROLL[0] or depth > 1 and time.time() - t0 > UNROLL_S[0]:
      UNWIND.append(not_(c))
      return carry
    with Path(c):
      nxt = run_closed(body, bc + carry)
      out = go(nxt, depth + 1)
    if c is tm.TRUE:
      return out
    return merge(c, out, carry)
  return go(carry, 0)


def r_scan(eqn, *args):
  p = eqn.params
  nc, ncar = p['num_consts'], p['num_carry']
  consts, carry, xs = list(args[:nc]), list(args[nc:nc + ncar]), args[nc + ncar:]
  length = p['length']
  ys = []
  order = range(length) if not p['reverse'] else range(length - 1, -1, -1)
  for i in order:
    out = run_closed(p['jaxpr'], consts + carry + [x[i] if isinstance(x[i], np.ndarray) else arr((), [x[i]]) for x in xs])
    carry = out[:ncar]
    ys.append(out[ncar:])
  if p['reverse']:
    ys = ys[::-1]
  outs = list(carry)
  for j, v in enumerate(eqn.outvars[ncar:]):
    if length == 0:
      outs.append(np.empty(v.aval.shape, dtype=object))
    else:
      a = np.empty(v.aval.shape, dtype=object)
      for i in range(length):
        a[i] = ys[i][j] if ys[i][j].shape else ys[i][j][()]
      outs.append(a)
  return outs


RULES = {
    'reduce_sum': _reduce(lambda a, b: a + b, _ident(0)),
    'reduce_prod': _reduce(lambda a, b: a * b, _ident(1)),
    'reduce_max': _reduce(_max, _ident(float('-inf'))),
    'reduce_min': _reduce(_min, _ident(float('inf'))),
    'reduce_and': _reduce(lambda a, b: a & b, _ident(True)),
    'reduce_or': _reduce(lambda a, b: a | b, _ident(False)),
    'argmax': r_argminmax, 'argmin': r_argminmax,
    'cumsum': r_cum(lambda a, b: a + b), 'cumprod': r_cum(lambda a, b: a * b),
    'cummax': r_cum(_max), 'cummin': r_cum(_min),
    'dot_general': r_dot_general, 'select_n': r_select_n,
    'zeros_like': lambda eqn, a: lift(np.zeros(eqn.outvars[0].aval.shape), eqn.outvars[0].aval.dtype),
    'convert_element_type': r_convert, 'iota': r_iota, 'integer_pow': r_integer_pow,
    'clamp': r_clamp, 'gather': r_gather, 'dynamic_slice': r_dynamic_slice,
    'dynamic_update_slice': r_dynamic_update_slice, 'scatter': r_scatter,
    'scatter-add': r_scatter, 'sort': r_sort,
    'and': _bool2(lambda a, b: a & b, lambda a, b: a & b),
    'or': _bool2(lambda a, b: a | b, lambda a, b: a | b),
    'xor': _bool2(lambda a, b: a ^ b, lambda a, b: a ^ b),
    'not': _bool2(lambda a: ~a, lambda a: ~a),
    'random_wrap': r_random_wrap, 'random_unwrap': r_random_unwrap,
    'random_split': r_random_split, 'random_seed': r_random_seed,
    'random_fold_in': r_random_fold_in, 'random_bits': r_random_bits,
}
MULTI = {'cond': r_cond, 'while': r_while, 'scan': r_scan, 'sort': r_sort}
CALLS = {'pjit', 'closed_call', 'core_call', 'remat', 'checkpoint', 'remat2', 'custom_jvp_call',
         'custom_vjp_call_jaxpr', 'custom_vjp_call', 'custom_lin', 'xla_call', 'named_call'}
UF_RULES = {}


def run_closed(closed, args):
  if isinstance(closed, jcore.ClosedJaxpr):
    return run(closed.jaxpr, closed.consts, args)
  return run(closed, (), args)


def run(jaxpr, consts, args):
  env = {}

  def read(v):
    if isinstance(v, jcore.Literal):
      return lift(np.asarray(v.val), v.aval.dtype)
    return env[v]

  for v, c in zip(jaxpr.constvars, consts):
    env[v] = lift(c)
  for v, a in zip(jaxpr.invars, args):
    env[v] = a
  for eqn in jaxpr.eqns:
    vals = [read(v) for v in eqn.invars]
    outs = step(eqn, vals)
    for v, o in zip(eqn.outvars, outs):
      if not (isinstance(o, np.ndarray) and o.dtype == object):
        o = arr((), [o])
      if o.shape != tuple(v.aval.shape):
        raise Unsupported('shape mismatch in %s: %s vs %s' % (eqn.primitive.name, o.shape, v.aval.shape))
      env[v] = o
  return [read(v) for v in jaxpr.outvars]


def step(eqn, vals):
  try:
    return _step(eqn, vals)
  except Unsupported as e:
    outs = opaque(eqn, vals)
    if outs is None:
      raise e
    return outs


# Operations without an encoding: constants are folded by the real primitive; otherwise every output is an arbitrary
# function of all the inputs (sound for what is proved; a counterexample must reproduce on the real code).
OPAQUE = {}
ELEMENTWISE = {'cbrt', 'digamma', 'lgamma', 'erf_inv', 'bessel_i0e', 'bessel_i1e', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh',
               'asinh', 'acosh', 'atanh', 'nextafter', 'igamma', 'igammac', 'population_count', 'clz', 'shift_left', 'and', 'or', 'xor', 'not',
               'shift_right_logical', 'shift_right_arithmetic', 'bitcast_convert_type'}


def _terms_of(x):
  if isinstance(x, FV):
    return [x.r] if x.fin else [x.r, tm.toR(tm.ite(x.nan, I(1), I(0))), tm.toR(tm.ite(x.inf, I(1), I(0)))]
  return [x.t]


def _plain(x):
  return isinstance(x, FV) and x.fin and x.r.is_const or isinstance(x, (IV, BV)) and x.t.is_const


def _bind(eqn, nums):
  args = [jax.numpy.asarray(np.array(n, dtype=object).astype(str(v.aval.dtype)) if str(v.aval.dtype) != 'bfloat16' else np.array(n, dtype=np.float32),
                            v.aval.dtype).reshape(v.aval.shape) for n, v in zip(nums, eqn.invars)]
  sub, params = eqn.primitive.get_bind_params(eqn.params)
  out = eqn.primitive.bind(*sub, *args, **params)
  return [np.asarray(o) for o in (out if eqn.primitive.multiple_results else [out])]


def opaque(eqn, vals):
  if any(getattr(v.aval, 'effects', None) for v in eqn.invars) or any(hasattr(w, 'jaxpr') or hasattr(w, 'eqns') for w in eqn.params.values()):
    return None
  if any(is_key(v.aval) for v in list(eqn.invars) + list(eqn.outvars)):
    return None
  xs = [list(v.reshape(-1)) for v in vals]
  if any(isinstance(e, KV) for x in xs for e in x):
    return None
  if all(_plain(e) for x in xs for e in x):
    return [lift(o, v.aval.dtype) for o, v in zip(_bind(eqn, [[e.r.val if isinstance(e, FV) else e.t.val for e in x] for x in xs]), eqn.outvars)]
  name = 'op:%s:%s' % (eqn.primitive.name, str(sorted(eqn.params.items(), key=str)))
  flags = [[[isinstance(e, FV), isinstance(e, FV) and bool(e.fin)] for e in x] for x in xs]
  each = eqn.primitive.name in ELEMENTWISE and all(v.aval.shape == eqn.outvars[0].aval.shape for v in list(eqn.invars) + list(eqn.outvars))
  OPAQUE[name] = eqn
  outs = []
  for k, v in enumerate(eqn.outvars):
    kd = kind(v.aval.dtype)
    o = []
    for i in range(int(np.prod(v.aval.shape, dtype=int))):
      args, lay = [], []
      for x, f in zip(xs, flags):
        for e, g in ([(x[i], f[i])] if each else zip(x, f)):
          args += _terms_of(e)
          lay.append('%d%d' % tuple(g))
      lay = ','.join(lay)
      mk = lambda part, sort: tm.mk('fn', ('%s|%d|%d|%s|%d|%s' % (name, k, 0 if each else i, part, each, lay),) + tuple(args), sort)
      if kd == 'F':
        fin = all(g[1] or not g[0] for f in flags for g in f)
        o.append(FV(mk('r', 'R')) if fin else FV(mk('r', 'R'), mk('nan', 'B'), mk('inf', 'B')))
      elif kd in 'IU':
        o.append(IV(mk('i', 'I')))
      else:
        o.append(BV(mk('b', 'B')))
    outs.append(arr(tuple(v.aval.shape), o))
  return outs


def opaque_value(label, nums):
  """Value of an opaque operation's output element, from the real primitive."""
  name, k, i, part, each, lay = label.rsplit('|', 5)
  eqn, nums, xs = OPAQUE[name], list(nums), []
  for f in lay.split(','):
    v = nums.pop(0)
    if f == '10':
      nan, inf = nums.pop(0), nums.pop(0)
      v = math.nan if nan else math.copysign(math.inf, v) if inf else v
    xs.append(v)
  args = []
  for v in eqn.invars:
    n = 1 if each == '1' else int(np.prod(v.aval.shape, dtype=int))
    part_, xs = xs[:n], xs[n:]
    args.append(part_ * int(np.prod(v.aval.shape, dtype=int)) if each == '1' else part_)
  x = _bind(eqn, args)[int(k)].reshape(-1)[int(i)]
  if part == 'nan':
    return bool(np.isnan(x))
  if part == 'inf':
    return bool(np.isinf(x))
  if part == 'r':
    return 0. if np.isnan(x) else math.copysign(1., x) if np.isinf(x) else float(x)
  return bool(x) if part == 'b' else int(x)


def _step(eqn, vals):
  name = eqn.primitive.name
  PRIMS_SEEN[name] = PRIMS_SEEN.get(name, 0) + 1
  if name in MULTI:
    return MULTI[name](eqn, *vals)
  if name in CALLS:
    cn = eqn.params.get('name', '')
    if cn in DRAWS and DRAWS[cn]:
      return [r_draw(eqn, DRAWS[cn], vals)]
    for k in ('jaxpr', 'call_jaxpr', 'fun_jaxpr'):
      if k in eqn.params:
        return run_closed(eqn.params[k], vals)
    raise Unsupported('call %s' % name)
  if name in UF_RULES:
    return UF_RULES[name](eqn, *vals)
  if name in RULES:
    return [RULES[name](eqn, *vals)]
  if name in MOVE:
    if name in ('reduce_precision', 'copy', 'copy_p'):
      return [vals[0]]
    return [move(eqn, *vals)]
  if name in BIN:
    return [_num2(BIN[name])(eqn, *vals)]
  if name in CMP:
    return [_cmp(CMP[name])(eqn, *vals)]
  if name == 'round':
    even = 'EVEN' in str(eqn.params.get('rounding_method', 'EVEN'))
    return [vmap1(lambda v: _round(v, even), vals[0])]
  if name in UN:
    out = vmap1(UN[name], vals[0])
    if name in ('neg', 'abs') and kind(eqn.outvars[0].aval.dtype) in 'IU':
      out = vmap1(lambda v: wrap_int(v, eqn.outvars[0].aval.dtype), out)
    return [out]
  raise Unsupported('primitive %s' % name)
