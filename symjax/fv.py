"""Scalar values used by the symbolic interpreter and by the specifications.

FV: float = exact real `r` + flags `nan`, `inf` (sign of an infinity is the
    sign of r, which is then non-zero).  Rounding, overflow and the sign of
    zero are abstracted; NaN/Inf propagation follows IEEE 754.
IV: integer (mathematical; the interpreter adds two's complement wrap).
BV: boolean.
"""
from fractions import Fraction
import math

import numpy as np

from symjax import terms as tm
from symjax.terms import (R, I, B, TRUE, FALSE, R0, R1, and_, or_, not_, ite)


class _Cur:
  ctx = None


CUR = _Cur()


def implied(t):
  """True if the current context proves boolean term t."""
  if t.is_const:
    return t.val
  if CUR.ctx is None:
    return False
  return CUR.ctx.implied(t)


_F32 = np.float32
_SNAP = {}


def _mksnap():
  pi = tm.PI
  two_pi = tm.mul(R(2), pi)
  _SNAP[_F32(math.pi)] = pi
  _SNAP[_F32(2 * math.pi)] = two_pi
  _SNAP[_F32(math.pi / 2)] = tm.mul(R(Fraction(1, 2)), pi)
  _SNAP[_F32(math.sqrt(2))] = tm.fn('sqrt', R(2))
  _SNAP[_F32(math.sqrt(2 * math.pi))] = tm.fn('sqrt', two_pi)
  _SNAP[_F32(math.log(2.))] = tm.fn('log', R(2))


_mksnap()


def lit(x):
  """Real constant -> FV.  Floats are read as their shortest float32 decimal."""
  if isinstance(x, FV):
    return x
  if isinstance(x, IV):
    return FV(tm.toR(x.t))
  if isinstance(x, BV):
    return FV(ite(x.t, R1, R0))
  if isinstance(x, (bool, np.bool_)):
    return FV(R1 if x else R0)
  if isinstance(x, (int, np.integer)):
    return FV(R(int(x)))
  if isinstance(x, Fraction):
    return FV(R(x))
  x = float(x)
  if math.isnan(x):
    return FV(R0, nan=TRUE)
  if math.isinf(x):
    return FV(R(1 if x > 0 else -1), inf=TRUE)
  if x == int(x) and abs(x) < 2**24:
    return FV(R(int(x)))
  if abs(x) > 3.4028235e38:
    return FV(R(1 if x > 0 else -1), inf=TRUE)
  f = _F32(x)
  for s, t in _SNAP.items():
    if f == s:
      return FV(t)
    if f == -s:
      return FV(tm.neg(t))
  if f == 0:  # underflows float32; keep the exact decimal
    return FV(R(Fraction(repr(x))))
  d = str(f)
  if len(d.split('e')[0].replace('.', '').strip('-0')) >= 7:
    # not a short decimal: a rounded small fraction such as 1/3
    q = Fraction(float(f)).limit_denominator(64)
    if q and _F32(float(q)) == f:
      return FV(R(q))
  return FV(R(Fraction(d)))


def _num(x):
  return isinstance(x, (int, float, Fraction, np.number, np.bool_, bool, IV, BV))


class FV:
  __slots__ = ('r', 'nan', 'inf')
  __array_priority__ = -1

  def __init__(self, r, nan=FALSE, inf=FALSE):
    self.r, self.nan, self.inf = r, nan, inf

  @property
  def fin(self):
    return self.nan is FALSE and self.inf is FALSE

  def finite(self):
    return and_(not_(self.nan), not_(self.inf))

  # arithmetic -------------------------------------------------------------
  def __add__(self, o):
    if not isinstance(o, FV):
      if not _num(o):
        return NotImplemented
      o = lit(o)
    if self.fin and o.fin:
      return FV(tm.add(self.r, o.r))
    sgn = lambda v: tm.lt(R0, v.r)
    opp = and_(self.inf, o.inf, not_(tm.eq(sgn(self), sgn(o))))
    nan = or_(self.nan, o.nan, opp)
    inf = and_(or_(self.inf, o.inf), not_(nan))
    r = ite(self.inf, self.r, ite(o.inf, o.r, tm.add(self.r, o.r)))
    return FV(r, nan, inf)

  __radd__ = __add__

  def __neg__(self):
    return FV(tm.neg(self.r), self.nan, self.inf)

  def __pos__(self):
    return self

  def __sub__(self, o):
    if not isinstance(o, FV):
      if not _num(o):
        return NotImplemented
      o = lit(o)
    if self.fin and o.fin:
      return FV(tm.sub(self.r, o.r))
    return self + (-o)

  def __rsub__(self, o):
    if not _num(o):
      return NotImplemented
    return lit(o) - self

  def __mul__(self, o):
    if not isinstance(o, FV):
      if not _num(o):
        return NotImplemented
      o = lit(o)
    if self.fin and o.fin:
      return FV(tm.mul(self.r, o.r))
    z = lambda v: and_(not_(v.inf), tm.eq(v.r, R0))
    nan = or_(self.nan, o.nan, and_(self.inf, z(o)), and_(o.inf, z(self)))
    inf = and_(or_(self.inf, o.inf), not_(nan))
    return FV(tm.mul(self.r, o.r), nan, inf)

  __rmul__ = __mul__

  def __truediv__(self, o):
    if not isinstance(o, FV):
      if not _num(o):
        return NotImplemented
      o = lit(o)
    z = tm.eq(o.r, R0)
    if not z.is_const and implied(or_(not_(z), o.nan, o.inf)):
      z = FALSE
    if self.fin and o.fin:
      if z is FALSE:
        return FV(tm.div(self.r, o.r))
      n0 = tm.eq(self.r, R0)
      nan = and_(z, n0)
      inf = and_(z, not_(n0))
      r = self.r if z is TRUE else ite(z, self.r, tm.div(self.r, o.r))
      return FV(r, nan, inf)
    oz = and_(z, not_(o.inf))
    n0 = and_(tm.eq(self.r, R0), not_(self.inf))
    nan = or_(self.nan, o.nan, and_(self.inf, o.inf), and_(oz, n0))
    inf = and_(or_(self.inf, oz), not_(nan))
    r = ite(o.inf, R0, ite(oz, self.r, tm.div(self.r, o.r)))
    r = ite(and_(self.inf, not_(oz)), ite(tm.lt(o.r, R0), tm.neg(self.r), self.r), r)
    return FV(r, nan, inf)

  def __rtruediv__(self, o):
    if not _num(o):
      return NotImplemented
    return lit(o) / self

  def __pow__(self, o):
    if not isinstance(o, FV):
      if not _num(o):
        return NotImplemented
      if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
        return ipow(self, int(o))
      o = lit(o)
    return fpow(self, o)

  def __rpow__(self, o):
    if not _num(o):
      return NotImplemented
    return fpow(lit(o), self)

  # comparisons ------------------------------------------------------------
  def _cmp(self, o, kind):
    if not isinstance(o, FV):
      if not _num(o):
        return NotImplemented
      o = lit(o)
    a, b = self, o
    if a.fin and b.fin:
      return BV({'lt': tm.lt, 'le': tm.le, 'eq': tm.eq}[kind](a.r, b.r))
    ok = and_(not_(a.nan), not_(b.nan))
    pos = lambda v: tm.lt(R0, v.r)
    eqinf = or_(and_(a.inf, b.inf, tm.eq(pos(a), pos(b))),
                and_(not_(a.inf), not_(b.inf), tm.eq(a.r, b.r)))
    # a < b with infinities
    ltinf = or_(
        and_(a.inf, not_(pos(a)), not_(and_(b.inf, not_(pos(b))))),
        and_(b.inf, pos(b), not_(and_(a.inf, pos(a)))),
        and_(not_(a.inf), not_(b.inf), tm.lt(a.r, b.r)))
    t = {'lt': ltinf, 'eq': eqinf, 'le': or_(ltinf, eqinf)}[kind]
    return BV(and_(ok, t))

  def __lt__(self, o):
    return self._cmp(o, 'lt')

  def __le__(self, o):
    return self._cmp(o, 'le')

  def __gt__(self, o):
    r = lit(o)._cmp(self, 'lt') if (isinstance(o, FV) or _num(o)) else NotImplemented
    return r

  def __ge__(self, o):
    return lit(o)._cmp(self, 'le') if (isinstance(o, FV) or _num(o)) else NotImplemented

  def __eq__(self, o):
    return self._cmp(o, 'eq')

  def __ne__(self, o):
    r = self._cmp(o, 'eq')
    return r if r is NotImplemented else ~r

  __hash__ = None

  def __abs__(self):
    return fabs(self)

  def __repr__(self):
    if self.fin:
      return 'FV(%r)' % self.r
    return 'FV(%r,nan=%r,inf=%r)' % (self.r, self.nan, self.inf)


class IV:
  __slots__ = ('t',)
  __array_priority__ = -1

  def __init__(self, t):
    self.t = t if isinstance(t, tm.T) else I(t)

  def _co(self, o):
    if isinstance(o, IV):
      return o.t
    if isinstance(o, BV):
      return ite(o.t, I(1), I(0))
    if isinstance(o, (int, np.integer, np.bool_)):
      return I(int(o))
    return None

  def _bin(self, o, f, g):
    if isinstance(o, (float, Fraction, np.floating)):
      return g(lit(self), lit(o))
    c = self._co(o)
    if c is None:
      return NotImplemented
    return f(self.t, c)

  def __add__(self, o):
    return self._bin(o, lambda a, b: IV(tm.add(a, b)), lambda a, b: a + b)
  __radd__ = __add__

  def __sub__(self, o):
    return self._bin(o, lambda a, b: IV(tm.sub(a, b)), lambda a, b: a - b)

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: IV(tm.sub(b, a)), lambda a, b: b - a)

  def __mul__(self, o):
    return self._bin(o, lambda a, b: IV(tm.mul(a, b)), lambda a, b: a * b)
  __rmul__ = __mul__

  def __neg__(self):
    return IV(tm.neg(self.t))

  def __mod__(self, o):
    return self._bin(o, lambda a, b: IV(tm.imod(a, b)), None)

  def __floordiv__(self, o):
    return self._bin(o, lambda a, b: IV(tm.idiv(a, b)), None)

  def __truediv__(self, o):
    if not (isinstance(o, FV) or _num(o)):
      return NotImplemented
    return lit(self) / lit(o)

  def __rtruediv__(self, o):
    if not _num(o):
      return NotImplemented
    return lit(o) / lit(self)

  def __pow__(self, o):
    if isinstance(o, (int, np.integer)):
      r = I(1)
      for _ in range(int(o)):
        r = tm.mul(r, self.t)
      return IV(r)
    if isinstance(o, FV) or _num(o):
      return lit(self) ** lit(o)
    return NotImplemented

  def __rpow__(self, o):
    if isinstance(o, FV) or _num(o):
      return lit(o) ** lit(self)
    return NotImplemented

  def __lt__(self, o):
    return self._bin(o, lambda a, b: BV(tm.lt(a, b)), lambda a, b: a < b)

  def __le__(self, o):
    return self._bin(o, lambda a, b: BV(tm.le(a, b)), lambda a, b: a <= b)

  def __gt__(self, o):
    return self._bin(o, lambda a, b: BV(tm.lt(b, a)), lambda a, b: a > b)

  def __ge__(self, o):
    return self._bin(o, lambda a, b: BV(tm.le(b, a)), lambda a, b: a >= b)

  def __eq__(self, o):
    return self._bin(o, lambda a, b: BV(tm.eq(a, b)), lambda a, b: a == b)

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else ~r

  __hash__ = None

  def __repr__(self):
    return 'IV(%r)' % self.t


class BV:
  __slots__ = ('t',)
  __array_priority__ = -1

  def __init__(self, t):
    self.t = t if isinstance(t, tm.T) else B(bool(t))

  @staticmethod
  def _co(o):
    if isinstance(o, BV):
      return o.t
    if isinstance(o, (bool, np.bool_)):
      return B(bool(o))
    return None

  def __and__(self, o):
    c = self._co(o)
    return NotImplemented if c is None else BV(and_(self.t, c))
  __rand__ = __and__

  def __or__(self, o):
    c = self._co(o)
    return NotImplemented if c is None else BV(or_(self.t, c))
  __ror__ = __or__

  def __xor__(self, o):
    c = self._co(o)
    return NotImplemented if c is None else BV(not_(tm.eq(self.t, c)))

  def __invert__(self):
    return BV(not_(self.t))

  def __eq__(self, o):
    c = self._co(o)
    return NotImplemented if c is None else BV(tm.eq(self.t, c))

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else ~r

  def __mul__(self, o):
    return lit(self) * o if isinstance(o, FV) else IV(ite(self.t, I(1), I(0))) * o
  __rmul__ = __mul__

  def __bool__(self):
    if self.t.is_const:
      return bool(self.t.val)
    raise TypeError('symbolic boolean used as a Python bool')

  __hash__ = None

  def __repr__(self):
    return 'BV(%r)' % self.t


# ------------------------------------------------------------------ functions


def fsel(c, a, b):
  """ite over scalars of the same kind."""
  if isinstance(c, BV):
    c = c.t
  if c is TRUE:
    return a
  if c is FALSE:
    return b
  if isinstance(a, KV):
    if a.t is b.t:
      return a
    return KV(ite(c, a.t, b.t))
  if isinstance(a, FV) or isinstance(b, FV):
    a, b = lit(a), lit(b)
    return FV(ite(c, a.r, b.r), ite(c, a.nan, b.nan), ite(c, a.inf, b.inf))
  if isinstance(a, IV) or isinstance(b, IV):
    a = a if isinstance(a, IV) else IV(IV(I(0))._co(a))
    b = b if isinstance(b, IV) else IV(IV(I(0))._co(b))
    return IV(ite(c, a.t, b.t))
  if isinstance(a, (int, float)) and not isinstance(a, bool):
    return fsel(c, lit(a), lit(b))
  a = a if isinstance(a, BV) else BV(a)
  b = b if isinstance(b, BV) else BV(b)
  return BV(ite(c, a.t, b.t))


def _guard(x, bad):
  """Prune a `bad` condition (Bool term) if the context refutes it."""
  if bad.is_const:
    return bad
  return FALSE if implied(not_(bad)) else bad


def fsqrt(x):
  bad = _guard(x, tm.lt(x.r, R0))
  if bad is TRUE:
    return FV(R0, nan=TRUE)
  r = tm.fn('sqrt', x.r if bad is FALSE else ite(bad, R0, x.r))
  return FV(r, or_(x.nan, bad), x.inf if bad is FALSE else and_(x.inf, not_(bad)))


def fexp(x):
  if x.fin:
    return FV(tm.fn('exp', x.r))
  neg = tm.lt(x.r, R0)
  return FV(ite(x.inf, ite(neg, R0, R1), tm.fn('exp', x.r)), x.nan,
            and_(x.inf, not_(neg)))


def flog(x):
  neg = _guard(x, tm.lt(x.r, R0))
  zero = _guard(x, and_(not_(x.inf), tm.eq(x.r, R0)))
  bad = or_(neg, zero)
  r = tm.fn('log', x.r if bad is FALSE else ite(bad, R1, x.r))
  r = ite(zero, R(-1), ite(x.inf, R1, r))
  nan = or_(x.nan, neg)
  return FV(r, nan, and_(or_(x.inf, zero), not_(nan)))


def fabs(x):
  n = tm.lt(x.r, R0)
  if implied(not_(n)):
    return x
  return FV(ite(n, tm.neg(x.r), x.r), x.nan, x.inf)


def fmax(a, b):
  nan = or_(a.nan, b.nan)
  c = (a >= b).t if (a.inf is FALSE and b.inf is FALSE) else FV(a.r, FALSE, a.inf)._cmp(FV(b.r, FALSE, b.inf), 'lt')
  if isinstance(c, BV):
    c = not_(c.t)
  elif not (a.nan is FALSE and b.nan is FALSE):
    c = tm.le(b.r, a.r)
  v = fsel(c, FV(a.r, FALSE, a.inf), FV(b.r, FALSE, b.inf))
  return FV(v.r, nan, and_(v.inf, not_(nan)))


def fmin(a, b):
  return -fmax(-a, -b)


def fsign(x):
  r = ite(tm.lt(x.r, R0), R(-1), ite(tm.eq(x.r, R0), R0, R1))
  return FV(r, x.nan)


def ffloor(x):
  return FV(tm.toR(tm.floorI(x.r)) if x.fin else
            ite(x.inf, x.r, tm.toR(tm.floorI(x.r))), x.nan, x.inf)


def fceil(x):
  return -ffloor(-x)


def ipow(x, n):
  if n < 0:
    return lit(1) / ipow(x, -n)
  if n == 0:
    return lit(1)
  if n > 64:
    return fpow(x, lit(n))
  r = x
  for _ in range(n - 1):
    r = r * x
  return r


def isint_term(y):
  """Is the real term y syntactically an integer?"""
  if y.is_const:
    return y.val.denominator == 1
  if y.op == 'toR':
    return True
  if y.op in ('add', 'mul'):
    return all(isint_term(a) for a in y.args)
  if y.op == 'ite':
    return isint_term(y.args[1]) and isint_term(y.args[2])
  return False


def fpow(x, y):
  if y.fin and y.r.is_const:
    v = y.r.val
    if v.denominator == 1 and abs(v) <= 64:
      return ipow(x, int(v))
    if v == Fraction(1, 2) and x.fin:
      return fsqrt(x)
    if v == Fraction(-1, 2) and x.fin:
      return lit(1) / fsqrt(x)
  if not (x.fin and y.fin):
    # infinities through pow are outside the model: NaN is propagated, Inf
    # becomes NaN (stated in DESIGN.md).
    base = fpow(FV(x.r), FV(y.r))
    nan = or_(base.nan, x.nan, y.nan, x.inf, y.inf)
    return FV(base.r, nan, and_(base.inf, not_(nan)))
  p = tm.fn('pow', x.r, y.r)
  if implied(tm.lt(R0, x.r)):
    return FV(p)
  zero = _guard(x, tm.eq(x.r, R0))
  neg = _guard(x, tm.lt(x.r, R0))
  nan = inf = FALSE
  if neg is not FALSE and not isint_term(y.r):
    nan = and_(neg, not_(tm.eq(tm.toR(tm.floorI(y.r)), y.r)))
  if zero is not FALSE:
    yneg = _guard(y, tm.lt(y.r, R0))
    inf = and_(zero, yneg)
    p = ite(zero, ite(yneg, R1, ite(tm.eq(y.r, R0), R1, R0)), p)
  return FV(p, nan, inf)


def fisfinite(x):
  return BV(x.finite())


def fisnan(x):
  return BV(x.nan)


def fun1(name):
  def f(x):
    if x.fin:
      return FV(tm.fn(name, x.r))
    return FV(tm.fn(name, x.r), or_(x.nan, x.inf))
  return f


def eq_term(a, b):
  """Boolean term: a and b are the same value (NaN == NaN)."""
  if isinstance(a, KV) or isinstance(b, KV):
    return B(a.t is b.t)
  if isinstance(a, BV) and isinstance(b, (BV, bool, np.bool_)):
    return (a == b).t
  if isinstance(b, BV) and isinstance(a, (bool, np.bool_)):
    return (b == a).t
  if isinstance(a, IV) and isinstance(b, (IV, int, np.integer)):
    return (a == b).t
  if isinstance(b, IV) and isinstance(a, (int, np.integer)):
    return (b == a).t
  a, b = lit(a), lit(b)
  if a.fin and b.fin:
    if a.r is b.r:   # kept as a query: the solver discharges it
      return tm.mk('eq', (a.r, b.r), 'B')
    return tm.eq(a.r, b.r)
  pos = lambda v: tm.lt(R0, v.r)
  return and_(
      tm.eq(a.nan, b.nan),
      or_(a.nan, and_(tm.eq(a.inf, b.inf),
                      or_(and_(a.inf, tm.eq(pos(a), pos(b))),
                          and_(not_(a.inf), tm.eq(a.r, b.r))))))


class KV:
  """Opaque PRNG key or key word."""
  __slots__ = ('t',)
  __array_priority__ = -1

  def __init__(self, t):
    self.t = t

  def __repr__(self):
    return 'KV(%r)' % self.t
