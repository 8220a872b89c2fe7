"""An uninterpreted-function primitive: an arbitrary inner computation.

Symbolically the outputs are uninterpreted function applications of every
input element; concretely (replay) they are a fixed pseudo-random function.
"""
from fractions import Fraction
import hashlib
import math

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore
from jax.interpreters import mlir, batching

from symjax import terms as tm
from symjax import interp
from symjax.fv import FV, IV, BV, KV

uf_p = jcore.Primitive('verif_uf')
uf_p.multiple_results = True


def _coef(name, leaf, idx, k):
  h = hashlib.sha256(('%s/%s/%s/%s' % (name, leaf, idx, k)).encode()).digest()
  return (int.from_bytes(h[:4], 'little') / 2**32) * 2 - 1


TABLE = [()]


def set_table(apps):
  """Makes the concrete twin agree with a solver model's function values.

  apps: [(term name, argument values, value)] or None for the default function.
  """
  if not apps:
    TABLE[0] = ()
    return
  out = {}
  for nm, args, v in apps:
    nm, tag, leaf, idx = nm[3:].rsplit(':', 3)
    out.setdefault('%s:%s' % (nm, tag), []).append((int(leaf), int(idx), tuple(float(x) for x in args), v))
  TABLE[0] = tuple(sorted((k, tuple(v)) for k, v in out.items()))


def _entries(table, name, leaf, idx):
  for k, es in table:
    if k == name:
      for l, i, args, v in es:
        if (l, i) == (leaf, idx):
          yield args, v


def _close(xs, args):
  return abs(xs - args) <= 1e-4 * (abs(args) + 1e-2)


def _impl(*args, name, shapes, dtypes, table=()):
  flat = []
  for a in args:
    x = jnp.asarray(a)
    if x.dtype == jnp.bool_:
      x = x.astype(jnp.float32)
    x = x.astype(jnp.promote_types(x.dtype, jnp.float32)).reshape(-1)
    x = jnp.where(jnp.isnan(x), 0.7, jnp.where(jnp.isinf(x), jnp.sign(x) * 1.9, x))
    flat.append(x)
  raw = jnp.concatenate(flat) if flat else jnp.zeros((0,))
  flat = [x / (1 + jnp.abs(x)) for x in flat]
  v = jnp.concatenate(flat) if flat else jnp.zeros((0,))
  outs = []
  for leaf, (s, d) in enumerate(zip(shapes, dtypes)):
    n = int(np.prod(s, dtype=int))
    rows = []
    for i in range(n):
      c = np.array([_coef(name, leaf, i, k) for k in range(v.shape[0])] or [0.], np.float64)
      b = _coef(name, leaf, i, 'b')
      isint = np.issubdtype(np.dtype(d), np.integer)
      row = (jnp.sum(v * c) if v.shape[0] else 0.) + b
      info = np.iinfo(d) if isint else None
      if isint:
        row = jnp.floor(row * 50)
      for at, val in _entries(table, name, leaf, i):
        if len(at) == raw.shape[0]:
          row = jnp.where(jnp.all(_close(raw, np.array(at))), float(_clampint(math.floor(val * 50), info) if isint else val), row)
      rows.append(row)
    o = jnp.stack([jnp.asarray(r) for r in rows]).reshape(s) if n else jnp.zeros(s)
    outs.append(o.astype(d))
  return outs


def _clampint(n, info):
  return n if int(info.min) <= n <= int(info.max) else 0


def numeric(name, leaf, idx, args):
  """Same function on python numbers; args: flat (r, nan, inf) triples."""
  for at, val in _entries(TABLE[0], name, leaf, idx):
    if len(at) == len(args) and all(_close(x, y) for x, y in zip(args, at)):
      return float(val)
  tot = _coef(name, leaf, idx, 'b')
  for k, x in enumerate(args):
    tot += _coef(name, leaf, idx, k) * (x / (1 + abs(x)))
  return tot


uf_p.def_impl(lambda *a, **k: _impl(*a, **k))


@uf_p.def_abstract_eval
def _abs(*args, name, shapes, dtypes, table=()):
  del args, name, table
  return [jcore.ShapedArray(s, jnp.dtype(d)) for s, d in zip(shapes, dtypes)]


mlir.register_lowering(uf_p, mlir.lower_fun(_impl, multiple_results=True))


def _rule(eqn, *vals):
  p = eqn.params
  args = []
  for v in vals:
    for x in v.reshape(-1):
      if isinstance(x, FV):
        r = x.r
        if not x.fin:
          # fold the flags into the argument so the concrete twin agrees
          r = tm.ite(x.nan, tm.R(Fraction(7, 10)),
                     tm.ite(x.inf, tm.ite(tm.lt(tm.R0, x.r), tm.R(Fraction(19, 10)),
                                          tm.R(Fraction(-19, 10))), x.r))
        args.append(r)
      elif isinstance(x, KV):
        raise interp.Unsupported('key into uf')
      else:
        t = x.t
        args.append(tm.ite(t, tm.R1, tm.R0) if isinstance(x, BV) else tm.toR(t))
  outs = []
  for leaf, (s, d) in enumerate(zip(p['shapes'], p['dtypes'])):
    o = []
    for i in range(int(np.prod(s, dtype=int))):
      t = tm.mk('fn', ('uf:%s:%d:%d' % (p['name'], leaf, i),) + tuple(args), 'R')
      if np.issubdtype(np.dtype(d), np.integer):
        info, n = np.iinfo(d), tm.floorI(tm.mul(tm.R(50), t))
        lo, hi = tm.I(int(info.min)), tm.I(int(info.max))
        # an output of the integer type: out-of-range values stand for 0
        o.append(IV(tm.ite(tm.and_(tm.le(lo, n), tm.le(n, hi)), n, tm.I(0))))
      else:
        o.append(FV(t))
    outs.append(interp.arr(s, o))
  return outs


interp.UF_RULES['verif_uf'] = _rule


def _batch(args, dims, **params):
  n = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
  rows = [uf_p.bind(*[a if d is batching.not_mapped else jax.lax.index_in_dim(a, i, d, keepdims=False)
                      for a, d in zip(args, dims)], **params) for i in range(n)]
  return [jnp.stack(c) for c in zip(*rows)], [0] * len(rows[0])


batching.primitive_batchers[uf_p] = _batch


def uf(name, inputs, like):
  """Arbitrary function of the pytree `inputs` with outputs shaped as `like`."""
  flat, tree = jax.tree_util.tree_flatten(inputs)
  lflat, ltree = jax.tree_util.tree_flatten(like)
  tag = hashlib.sha256(str(tree).encode()).hexdigest()[:8]
  outs = uf_p.bind(*[jnp.asarray(x) for x in flat], name='%s:%s' % (name, tag),
                   table=TABLE[0], shapes=tuple(tuple(jnp.shape(x)) for x in lflat),
                   dtypes=tuple(str(jnp.asarray(x).dtype) if not hasattr(x, 'dtype') else str(x.dtype)
                                for x in lflat))
  return jax.tree_util.tree_unflatten(ltree, outs)
