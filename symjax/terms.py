"""Hash-consed term IR (reals, integers, booleans, PRNG keys) with light simplification.

The symbolic interpreter (interp.py) builds these terms from jaxprs; solve.py
translates them to SMT.  They can also be evaluated numerically (used to
validate the translation against the real code and to replay models).
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(20000)

_TABLE = {}
_NEXT = [0]


class T:
  __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')

  def __init__(self, op, args, sort, id_):
    self.op, self.args, self.sort, self.id = op, args, sort, id_

  def __hash__(self):
    return self.id

  def __eq__(self, other):
    return self is other

  def __repr__(self):
    return show(self)

  @property
  def is_const(self):
    return self.op == 'const'

  @property
  def val(self):
    return self.args[0]


def mk(op, args, sort):
  key = (op, sort) + tuple(('t', a.id) if isinstance(a, T) else
                           (type(a).__name__, a) for a in args)
  t = _TABLE.get(key)
  if t is None:
    t = T(op, tuple(args), sort, _NEXT[0])
    _NEXT[0] += 1
    _TABLE[key] = t
  return t


def show(t, depth=6):
  if not isinstance(t, T):
    return str(t)
  if t.op == 'const':
    return str(t.args[0])
  if t.op == 'var':
    return t.args[0]
  if depth == 0:
    return '..'
  return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


def R(x):
  return mk('const', (Fraction(x),), 'R')


def I(x):
  return mk('const', (int(x),), 'I')


TRUE = mk('const', (True,), 'B')
FALSE = mk('const', (False,), 'B')


def B(x):
  return TRUE if x else FALSE


def var(name, sort):
  return mk('var', (name,), sort)


R0, R1 = R(0), R(1)
PI = mk('pi', (), 'R')

# ---------------------------------------------------------------- reals / ints


def is0(a):
  return a.op == 'const' and a.args[0] == 0


def is1(a):
  return a.op == 'const' and a.args[0] == 1


def _push_ite(f, a, b):
  return None


def add(a, b):
  if a.is_const and b.is_const:
    return R(a.val + b.val) if a.sort == 'R' else I(a.val + b.val)
  if is0(a):
    return b
  if is0(b):
    return a
  if a.id > b.id:
    a, b = b, a
  return mk('add', (a, b), a.sort)


def neg(a):
  return mul(R(-1) if a.sort == 'R' else I(-1), a)


def sub(a, b):
  if a is b:
    return R0 if a.sort == 'R' else I(0)
  return add(a, neg(b))


def mul(a, b):
  if a.is_const and b.is_const:
    return R(a.val * b.val) if a.sort == 'R' else I(a.val * b.val)
  if b.is_const or (not a.is_const and a.id > b.id):
    a, b = b, a
  if a.is_const:
    if a.val == 0:
      return a
    if a.val == 1:
      return b
    if b.op == 'mul' and b.args[0].is_const:
      return mul(mul(a, b.args[0]), b.args[1])
  return mk('mul', (a, b), a.sort)


def div(a, b):
  """Real division; callers are responsible for b == 0."""
  if b.is_const and b.val != 0:
    return mul(R(1 / b.val), a)
  if a.is_const and a.val == 0:
    return R0
  if a is b:
    return R1
  return mk('div', (a, b), 'R')


def imod(a, b):
  """Euclidean (SMT-LIB) mod."""
  if b.is_const and b.val != 0:
    if a.is_const:
      return I(a.val % abs(b.val))
    if abs(b.val) == 1:
      return I(0)
  return mk('imod', (a, b), 'I')


def idiv(a, b):
  if b.is_const and b.val != 0:
    if a.is_const:
      m = a.val % abs(b.val)
      return I((a.val - m) // b.val)
    if b.val == 1:
      return a
  return mk('idiv', (a, b), 'I')


def toR(a):
  if a.sort == 'R':
    return a
  if a.is_const:
    return R(a.val)
  if a.op == 'ite':
    return ite(a.args[0], toR(a.args[1]), toR(a.args[2]))
  return mk('toR', (a,), 'R')


def floorI(a):
  if a.is_const:
    return I(math.floor(a.val))
  if a.op == 'toR':
    return a.args[0]
  return mk('floorI', (a,), 'I')


def fn(name, *args, sort='R'):
  """Application of a (possibly interpreted) function symbol."""
  if name == 'sqrt':
    a, = args
    if a.is_const and a.val >= 0:
      n, d = a.val.numerator, a.val.denominator
      rn, rd = math.isqrt(n), math.isqrt(d)
      if rn * rn == n and rd * rd == d:
        return R(Fraction(rn, rd))
  elif name == 'exp':
    if is0(args[0]):
      return R1
    if args[0].op == 'fn' and args[0].args[0] == 'log':
      return args[0].args[1]
    if args[0].op == 'ite':
      c, x, y = args[0].args
      return ite(c, fn('exp', x), fn('exp', y))
  elif name == 'log':
    if is1(args[0]):
      return R0
    if args[0].op == 'fn' and args[0].args[0] == 'exp':
      return args[0].args[1]
  elif name == 'cos':
    if is0(args[0]):
      return R1
    if args[0] is PI:
      return R(-1)
  elif name == 'sin':
    if is0(args[0]) or args[0] is PI:
      return R0
  elif name == 'pow':
    x, y = args
    if y.is_const:
      v = y.val
      if v.denominator == 1 and abs(v) <= 16:
        return powi(x, int(v))
      if v == Fraction(1, 2):
        return fn('sqrt', x)
    if is1(x):
      return R1
    if y.op == 'ite' and y.args[1].is_const and y.args[2].is_const:
      return ite(y.args[0], fn('pow', x, y.args[1]), fn('pow', x, y.args[2]))
  return mk('fn', (name,) + tuple(args), sort)


def _rnd16(dtype, v):
  import ml_dtypes
  import numpy as np
  dt = np.float16 if dtype == 'float16' else ml_dtypes.bfloat16
  return float(np.asarray(v, np.float64).astype(np.float32).astype(dt))


def rnd(dtype, x):
  """Rounding to a 16-bit float format."""
  name = 'rnd:' + dtype
  if x.is_const:
    v = _rnd16(dtype, float(x.val))
    return R(Fraction(v)) if math.isfinite(v) else x
  if x.op == 'fn' and x.args[0] == name:
    return x
  if x.op == 'ite':
    return ite(x.args[0], rnd(dtype, x.args[1]), rnd(dtype, x.args[2]))
  return mk('fn', (name, x), 'R')


def powi(x, n):
  if n == 0:
    return R1
  if n < 0:
    return div(R1, powi(x, -n))
  r = x
  for _ in range(n - 1):
    r = mul(r, x)
  return r


# ---------------------------------------------------------------- booleans


def not_(a):
  if a.is_const:
    return B(not a.val)
  if a.op == 'not':
    return a.args[0]
  return mk('not', (a,), 'B')


def and_(*xs):
  out = []
  seen = set()
  for x in xs:
    if x.is_const:
      if not x.val:
        return FALSE
      continue
    for y in (x.args if x.op == 'and' else (x,)):
      if y.id not in seen:
        seen.add(y.id)
        out.append(y)
  for y in out:
    if not_(y).id in seen:
      return FALSE
  if not out:
    return TRUE
  if len(out) == 1:
    return out[0]
  out.sort(key=lambda t: t.id)
  return mk('and', tuple(out), 'B')


def or_(*xs):
  return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
  return or_(not_(a), b)


def lt(a, b):
  if a is b:
    return FALSE
  if a.is_const and b.is_const:
    return B(a.val < b.val)
  if a.sort == 'R' and a.op == 'toR' and b.op == 'toR':
    return lt(a.args[0], b.args[0])
  if a.sort == 'R' and a.op == 'toR' and b.is_const:
    return lt(a.args[0], I(math.ceil(b.val)))
  if b.sort == 'R' and b.op == 'toR' and a.is_const:
    return lt(I(math.floor(a.val)), b.args[0])
  return mk('lt', (a, b), 'B')


def le(a, b):
  return not_(lt(b, a))


def eq(a, b):
  if a is b:
    return TRUE
  if a.sort == 'B':
    if a.is_const:
      return b if a.val else not_(b)
    if b.is_const:
      return a if b.val else not_(a)
    if not_(a) is b:
      return FALSE
  if a.is_const and b.is_const:
    return B(a.val == b.val)
  if a.sort == 'R' and a.op == 'toR' and b.op == 'toR':
    return eq(a.args[0], b.args[0])
  if a.sort == 'R' and a.op == 'toR' and b.is_const:
    return eq(a.args[0], I(b.val)) if b.val.denominator == 1 else FALSE
  if a.sort == 'R' and b.op == 'toR' and a.is_const:
    return eq(b, a)
  if a.id > b.id:
    a, b = b, a
  return mk('eq', (a, b), 'B')


def ite(c, a, b):
  if c.is_const:
    return a if c.val else b
  if a is b:
    return a
  if c.op == 'not':
    return ite(c.args[0], b, a)
  if a.op == 'ite' and a.args[0] is c:
    a = a.args[1]
  if b.op == 'ite' and b.args[0] is c:
    b = b.args[2]
  if a.sort == 'B':
    if a.is_const:
      return or_(c, b) if a.val else and_(not_(c), b)
    if b.is_const:
      return or_(not_(c), a) if b.val else and_(c, a)
  return mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- traversal


def subterms(roots):
  seen = {}
  order = []
  stack = [(r, False) for r in roots]
  while stack:
    t, done = stack.pop()
    if done:
      order.append(t)
      continue
    if t.id in seen:
      continue
    seen[t.id] = t
    stack.append((t, True))
    for a in t.args:
      if isinstance(a, T) and a.id not in seen:
        stack.append((a, False))
  return order


def rebuild(t, args):
  op = t.op
  if op in ('const', 'var', 'pi'):
    return t
  if op == 'add':
    return add(*args)
  if op == 'mul':
    return mul(*args)
  if op == 'div':
    return div(*args)
  if op == 'imod':
    return imod(*args)
  if op == 'idiv':
    return idiv(*args)
  if op == 'toR':
    return toR(*args)
  if op == 'floorI':
    return floorI(*args)
  if op == 'fn':
    return fn(*args, sort=t.sort)
  if op == 'not':
    return not_(*args)
  if op == 'and':
    return and_(*args)
  if op == 'lt':
    return lt(*args)
  if op == 'eq':
    return eq(*args)
  if op == 'ite':
    return ite(*args)
  return mk(op, args, t.sort)


def subst(root, mapping):
  """mapping: dict T -> T."""
  cache = {k.id: v for k, v in mapping.items()}
  for t in subterms([root]):
    if t.id in cache:
      continue
    if not any(isinstance(a, T) for a in t.args):
      cache[t.id] = t
      continue
    new = [cache[a.id] if isinstance(a, T) else a for a in t.args]
    if all(n is a for n, a in zip(new, t.args)):
      cache[t.id] = t
    else:
      cache[t.id] = rebuild(t, new)
  return cache[root.id]


# ---------------------------------------------------------------- evaluation


def _erfinv(x):
  from scipy.special import erfinv  # pylint: disable=g-import-not-at-top
  return float(erfinv(x))


def _pow(x, y):
  try:
    if x < 0 and y != int(y):
      return math.nan
    return float(x) ** float(y)
  except (ZeroDivisionError, OverflowError):
    return math.inf


def _safe(f):
  def g(*a):
    try:
      return f(*a)
    except (ValueError, ZeroDivisionError):
      return math.nan
    except OverflowError:
      return math.inf
  return g


NUMFN = {
    'rnd:float16': lambda x: _rnd16('float16', x), 'rnd:bfloat16': lambda x: _rnd16('bfloat16', x),
    'sqrt': _safe(math.sqrt), 'exp': _safe(math.exp), 'log': _safe(math.log),
    'cos': math.cos, 'sin': math.sin, 'pow': _pow, 'erf_inv': _erfinv,
    'erf': math.erf, 'tan': math.tan,
    'atan': math.atan, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x),
}


def evaluate(roots, env, ufn=None):
  """Numerically evaluates terms. env: var name -> python number/bool."""
  val = {}
  for t in subterms(roots):
    op = t.op
    if op == 'const':
      v = t.args[0]
      v = float(v) if t.sort == 'R' else v
    elif op == 'var':
      v = env[t.args[0]]
    elif op == 'pi':
      v = math.pi
    else:
      a = [val[x.id] if isinstance(x, T) else x for x in t.args]
      if op == 'add':
        v = a[0] + a[1]
      elif op == 'mul':
        v = a[0] * a[1]
      elif op == 'div':
        v = a[0] / a[1] if a[1] != 0 else math.nan
      elif op == 'imod':
        v = a[0] % abs(a[1]) if a[1] else 0
      elif op == 'idiv':
        v = (a[0] - a[0] % abs(a[1])) // a[1] if a[1] else 0
      elif op == 'toR':
        v = float(a[0])
      elif op == 'floorI':
        v = math.floor(a[0]) if math.isfinite(a[0]) else 0
      elif op == 'not':
        v = not a[0]
      elif op == 'and':
        v = all(a)
      elif op == 'lt':
        v = a[0] < a[1]
      elif op == 'eq':
        v = a[0] == a[1]
      elif op == 'ite':
        v = a[1] if a[0] else a[2]
      elif op == 'fn':
        name = a[0]
        if name in NUMFN:
          v = NUMFN[name](*a[1:])
        else:
          v = ufn(t, name, a[1:])
      else:
        raise NotImplementedError(op)
    val[t.id] = v
  return [val[r.id] for r in roots]
