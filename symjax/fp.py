"""Bit-exact mode: jaxprs of branch-free elementwise code over z3's IEEE float32.

A small companion of the exact-real engine for claims where rounding matters.
"""
import time

import jax
import jax.numpy as jnp
import numpy as np
import z3

from symjax.harness import CaseResult, _names, run_view, count_eqns
from symjax import solve

F32 = z3.FPSort(8, 24)
RNE = z3.RNE()


def fpval(x):
  x = np.float32(x)
  if np.isnan(x):
    return z3.fpNaN(F32)
  return z3.fpBVToFP(z3.BitVecVal(int(x.view(np.uint32)), 32), F32)


def lift(x):
  x = np.asarray(x)
  out = np.empty(x.shape, dtype=object)
  for ix in np.ndindex(*x.shape):
    v = x[ix]
    if x.dtype == np.bool_:
      out[ix] = z3.BoolVal(bool(v))
    elif x.dtype.kind in 'iu':
      out[ix] = z3.BitVecVal(int(v), 32)
    else:
      out[ix] = fpval(v)
  return out


def isf(x):
  return z3.is_fp(x)


def _add(a, b):
  return z3.fpAdd(RNE, a, b) if isf(a) else a + b


def _sub(a, b):
  return z3.fpSub(RNE, a, b) if isf(a) else a - b


def _mul(a, b):
  return z3.fpMul(RNE, a, b) if isf(a) else a * b


def _max(a, b):
  # lax.max propagates NaN
  return z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpNaN(F32), z3.If(z3.fpGT(a, b), a, b)) if isf(a) else z3.If(a > b, a, b)


def _min(a, b):
  return z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpNaN(F32), z3.If(z3.fpLT(a, b), a, b)) if isf(a) else z3.If(a < b, a, b)


def _eq(a, b):
  return z3.fpEQ(a, b) if isf(a) else a == b


EW = {
    'add': _add, 'add_any': _add, 'sub': _sub, 'mul': _mul,
    'div': lambda a, b: z3.fpDiv(RNE, a, b), 'neg': lambda a: z3.fpNeg(a) if isf(a) else -a,
    'abs': lambda a: z3.fpAbs(a), 'max': _max, 'min': _min,
    'lt': lambda a, b: z3.fpLT(a, b) if isf(a) else a < b, 'le': lambda a, b: z3.fpLEQ(a, b) if isf(a) else a <= b,
    'gt': lambda a, b: z3.fpGT(a, b) if isf(a) else a > b, 'ge': lambda a, b: z3.fpGEQ(a, b) if isf(a) else a >= b,
    'eq': _eq, 'ne': lambda a, b: z3.Not(_eq(a, b)),
    'and': lambda a, b: z3.And(a, b), 'or': lambda a, b: z3.Or(a, b), 'not': z3.Not,
    'is_finite': lambda a: z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a))),
    'sqrt': lambda a: z3.fpSqrt(RNE, a), 'copy': lambda a: a, 'stop_gradient': lambda a: a,
    'square': lambda a: z3.fpMul(RNE, a, a),
}


def vm(f, *xs):
  xs = np.broadcast_arrays(*xs)
  out = np.empty(xs[0].shape, dtype=object)
  for ix in np.ndindex(*xs[0].shape):
    out[ix] = f(*[x[ix] for x in xs])
  return out


def interp(jaxpr, consts, args):
  env = {}

  def rd(v):
    return lift(v.val) if hasattr(v, 'val') else env[v]
  for v, c in zip(jaxpr.constvars, consts):
    env[v] = lift(c)
  for v, x in zip(jaxpr.invars, args):
    env[v] = x
  for e in jaxpr.eqns:
    n, p = e.primitive.name, e.params
    xs = [rd(v) for v in e.invars]
    if n in EW:
      o = [vm(EW[n], *xs)]
    elif n == 'select_n':
      c = xs[0]
      o = [vm(lambda q, x, y: z3.If(q, y, x), c, xs[1], xs[2])]
    elif n == 'clamp':
      o = [vm(lambda lo, x, hi: _min(_max(x, lo), hi), *xs)]
    elif n in ('pjit', 'closed_call', 'core_call', 'remat', 'custom_jvp_call', 'custom_vjp_call', 'xla_call'):
      cj = p.get('jaxpr') or p.get('call_jaxpr')
      o = interp(cj.jaxpr, cj.consts, xs) if hasattr(cj, 'jaxpr') else interp(cj, (), xs)
    elif n == 'broadcast_in_dim':
      shape, bd = p['shape'], p['broadcast_dimensions']
      y = xs[0].reshape([xs[0].shape[bd.index(i)] if i in bd else 1 for i in range(len(shape))])
      o = [np.broadcast_to(y, shape)]
    elif n == 'reshape':
      o = [xs[0].reshape(p['new_sizes'])]
    elif n == 'squeeze':
      o = [np.squeeze(xs[0], axis=tuple(p['dimensions']))]
    elif n == 'convert_element_type':
      x = xs[0]
      dt = np.dtype(p['new_dtype'])
      def cv(v):
        if isf(v) and dt == np.float32 or (z3.is_bv(v) and dt == np.int32) or (z3.is_bool(v) and dt == np.bool_):
          return v
        if z3.is_bool(v) and dt == np.float32:
          return z3.If(v, fpval(1), fpval(0))
        if z3.is_bool(v) and dt == np.int32:
          return z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        if z3.is_bv(v) and dt == np.bool_:
          return v != 0
        if isf(v) and dt == np.bool_:
          return z3.Not(z3.fpIsZero(v))
        if z3.is_bv(v) and dt == np.float32:
          return z3.fpSignedToFP(RNE, v, F32)
        raise NotImplementedError('fp convert to %s' % dt)
      o = [vm(cv, x)]
    elif n in ('reduce_or', 'reduce_and'):
      f = z3.Or if n == 'reduce_or' else z3.And
      x = xs[0]
      ax = tuple(p['axes'])
      keep = [d for i, d in enumerate(x.shape) if i not in ax]
      m = np.moveaxis(x, ax, range(len(ax))).reshape([-1] + keep)
      out = np.empty(keep, dtype=object)
      for ix in np.ndindex(*keep):
        out[ix] = f(*[m[(k,) + ix] for k in range(m.shape[0])])
      o = [out]
    elif n == 'concatenate':
      o = [np.concatenate(xs, axis=p['dimension'])]
    elif n in ('reduce_sum', 'reduce_max', 'reduce_min'):
      f = {'reduce_sum': _add, 'reduce_max': _max, 'reduce_min': _min}[n]
      x = xs[0]
      ax = tuple(p['axes'])
      keep = [d for i, d in enumerate(x.shape) if i not in ax]
      m = np.moveaxis(x, ax, range(len(ax))).reshape([-1] + keep)
      r = m[0]
      for k in range(1, m.shape[0]):
        r = vm(f, r, m[k])
      o = [np.asarray(r, dtype=object).reshape(keep)]
    elif n == 'slice':
      o = [xs[0][tuple(slice(a, b, s) for a, b, s in zip(p['start_indices'], p['limit_indices'],
                                                          p['strides'] or [1] * xs[0].ndim))]]
    elif n == 'transpose':
      o = [np.transpose(xs[0], p['permutation'])]
    elif n == 'cond':
      k = xs[0][()]
      os_ = [interp(b.jaxpr, b.consts, xs[1:]) for b in p['branches']]
      o = os_[0]
      for j in range(1, len(os_)):
        c = k if z3.is_bool(k) else (z3.UGE(k, j) if j == len(os_) - 1 else k == j)
        o = [vm(lambda x, y: z3.If(c, y, x), u, w) for u, w in zip(o, os_[j])]
    elif n == 'integer_pow' and p['y'] == 2:
      o = [vm(lambda a: z3.fpMul(RNE, a, a), xs[0])]
    else:
      raise NotImplementedError('fp primitive ' + n)
    for v, x in zip(e.outvars, o):
      env[v] = x
  return [rd(v) for v in jaxpr.outvars]


class FPOps:
  symbolic = True
  nan = staticmethod(z3.fpIsNaN)
  inf = staticmethod(z3.fpIsInf)
  le = staticmethod(z3.fpLEQ)
  eq = staticmethod(z3.fpEQ)
  and_ = staticmethod(z3.And)
  or_ = staticmethod(z3.Or)
  not_ = staticmethod(z3.Not)
  implies = staticmethod(z3.Implies)
  neg = staticmethod(z3.fpNeg)
  const = staticmethod(fpval)

  @staticmethod
  def same_bits(a, b):
    return a == b        # structural: equal bits, NaNs identified


class FPNum:
  symbolic = False
  nan = staticmethod(lambda x: bool(np.isnan(x)))
  inf = staticmethod(lambda x: bool(np.isinf(x)))
  le = staticmethod(lambda a, b: bool(a <= b))
  eq = staticmethod(lambda a, b: bool(a == b))
  and_ = staticmethod(lambda *x: all(x))
  or_ = staticmethod(lambda *x: any(x))
  not_ = staticmethod(lambda x: not x)
  implies = staticmethod(lambda a, b: (not a) or b)
  neg = staticmethod(lambda x: -x)
  const = staticmethod(np.float32)

  @staticmethod
  def same_bits(a, b):
    a, b = np.float32(a), np.float32(b)
    return bool(np.isnan(a) and np.isnan(b) or a.view(np.uint32) == b.view(np.uint32))


class FPCase:
  """Elementwise claim over float32 bit patterns (args: F leaves of shape () only)."""

  def __init__(self, name, args, run, prop, assume=None, functions=(), tier='quick', known=None, note='', ms=120000):
    self.name, self.args, self.run, self.prop, self.assume = name, args, run, prop, assume
    self.functions, self.tier, self.known, self.note, self.ms = functions, tier, known, note, ms


class FPChecker:

  def __init__(self, case, seed=1, tier='quick'):
    self.case, self.res = case, CaseResult(case.name)

  def check(self):
    t0 = time.time()
    st0 = dict(vars(solve.STATS))
    try:
      self._check()
    except Exception as e:  # pylint: disable=broad-except
      self.res.status = 'error'
      self.res.messages.append('%s: fp: %r' % (self.case.name, e))
    self.res.wall = time.time() - t0
    self.res.stats = {k: v - st0[k] for k, v in vars(solve.STATS).items()}
    return self.res

  def _check(self):
    case, res = self.case, self.res
    leaves, tree, names = _names(case.args)
    vs = [z3.FP(n, F32) for n in names]

    def fun(*xs):
      return case.run(run_view(case.args, list(xs)))
    ex = [np.float32(0.5)] * len(leaves)
    # hyperparameters are traced like everything else
    closed, shp = jax.make_jaxpr(fun, return_shape=True)(*ex)
    otree = jax.tree_util.tree_structure(shp)
    res.paths, res.eqns = 1, count_eqns(closed.jaxpr)
    args = []
    for v in vs:
      a = np.empty((), dtype=object)
      a[()] = v
      args.append(a)
    outs = interp(closed.jaxpr, closed.consts, args)
    out = otree.unflatten([o[()] if o.shape == () else o for o in outs])
    view = run_view(case.args, vs)
    ass = case.assume(view, FPOps) if case.assume else []
    for l, v in zip(leaves, vs):
      if not l.special:
        ass.append(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
    s = z3.Solver()
    s.add(*ass)
    s.set('timeout', 20000)
    if s.check() == z3.unsat:
      raise RuntimeError('vacuous')
    res.witness = True
    for label, c in case.prop(view, out, FPOps):
      res.obligations += 1
      t0 = time.time()
      s = z3.SolverFor('QF_FP')
      s.set('timeout', case.ms)
      s.add(*ass)
      s.add(z3.Not(c))
      r = s.check()
      solve.STATS.z3_queries += 1
      solve.STATS.solver_s += time.time() - t0
      if r == z3.unsat:
        solve.STATS.unsat += 1
        res.proved += 1
        res.labels.append(label)
        continue
      if r == z3.sat:
        solve.STATS.sat += 1
        m = s.model()
        conc = []
        for v in vs:
          b = z3.simplify(z3.fpToIEEEBV(m.eval(v, model_completion=True)))
          conc.append(np.uint32(b.as_long() if hasattr(b, 'as_long') else 0x7fc00000).view(np.float32))
        bad = self._replay(conc)
        if bad:
          res.status = 'violation'
          res.messages.append('%s: %s fails for %s' % (case.name, label, dict(zip(names, map(float, conc)))))
          res.replay = {'case': case.name, 'label': label, 'failed': bad,
                        'inputs': {n: repr(float(c)) for n, c in zip(names, conc)}}
          return
        res.status = 'error'
        res.messages.append('%s: %s refuted but not reproduced at %r' % (case.name, label, conc))
      else:
        solve.STATS.unknown += 1
        res.status = 'error'
        res.messages.append('%s: %s undecided' % (case.name, label))

  def _replay(self, conc):
    case = self.case
    leaves, _, _ = _names(case.args)
    real = [float(c) if l.hp else jnp.asarray(c) for l, c in zip(leaves, conc)]
    with np.errstate(all='ignore'):
      out = jax.tree_util.tree_map(lambda x: np.asarray(x)[()], case.run(run_view(case.args, real)))
      view = run_view(case.args, [np.float32(c) for c in conc])
      return [l for l, c in case.prop(view, out, FPNum) if not c]
