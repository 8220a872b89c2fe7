"""SMT back end: contexts (assumptions), implication queries and `prove`."""
from fractions import Fraction
import subprocess
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
  sys.path.append(_VT)
import z3  # pylint: disable=g-import-not-at-top,wrong-import-position

from symjax import terms as tm
from symjax import norm as nm
from symjax.terms import T, R0, TRUE, FALSE


class Stats:

  def __init__(self):
    self.z3_queries = 0
    self.cvc5_queries = 0
    self.solver_s = 0.0
    self.unsat = 0
    self.sat = 0
    self.unknown = 0
    self.normal_form = 0
    self.identical = 0
    self.splits = 0
    self.timeouts = 0


STATS = Stats()

# ------------------------------------------------------------- interval hull

INF = float('inf')
TOP = (-INF, True, INF, True)   # lo, lo_open, hi, hi_open


def _mulb(a, b):
  if a == 0 or b == 0:
    return 0
  return a * b


def i_add(x, y):
  return (x[0] + y[0], x[1] or y[1], x[2] + y[2], x[3] or y[3])


def i_mul(x, y):
  c = []
  for a, ao in ((x[0], x[1]), (x[2], x[3])):
    for b, bo in ((y[0], y[1]), (y[2], y[3])):
      v = _mulb(a, b)
      # the product bound is attained if a zero factor is attained
      if v == 0:
        op = not ((a == 0 and not ao) or (b == 0 and not bo))
      else:
        op = ao or bo
      c.append((v, op))
  lo = min(v for v, _ in c)
  hi = max(v for v, _ in c)
  return (lo, all(o for v, o in c if v == lo), hi, all(o for v, o in c if v == hi))


def i_neg(x):
  return (-x[2], x[3], -x[0], x[1])


class Ctx:
  """A set of assumed boolean terms plus per-variable interval bounds."""

  def __init__(self, assumptions=(), parent=None, timeout=400):
    self.assumptions = list(parent.assumptions) if parent else []
    self.bounds = dict(parent.bounds) if parent else {}
    self.cache = {}
    self.icache = {}
    self.timeout = timeout
    self.parent = parent
    self.inconsistent = False
    for a in assumptions:
      self.assume(a)

  def child(self, *assumptions):
    return Ctx(assumptions, self, self.timeout)

  def assume(self, a):
    self.cache = {}
    self.icache = {}
    if a is TRUE:
      return
    if a is FALSE:
      self.inconsistent = True
    if a.op == 'and':
      for x in a.args:
        self.assume(x)
      return
    self.assumptions.append(a)
    neg = a.op == 'not'
    b = a.args[0] if neg else a
    if b.op == 'lt':
      x, y = b.args
      if neg:  # y <= x
        self._bound(y, None, x, False)
      else:
        self._bound(x, None, y, True)
    elif b.op == 'eq' and not neg and b.args[0].sort in ('R', 'I'):
      x, y = b.args
      self._bound(x, None, y, False)
      self._bound(y, None, x, False)

  def _bound(self, x, _, y, strict):
    """record x <= y (x < y if strict) when one side is constant."""
    if y.is_const and not x.is_const:
      b = self.bounds.get(x.id, TOP)
      v = y.val
      if x.sort == 'I' and strict:
        v, strict = v - 1, False
      if v < b[2] or (v == b[2] and strict):
        self.bounds[x.id] = (b[0], b[1], v, strict)
    elif x.is_const and not y.is_const:
      b = self.bounds.get(y.id, TOP)
      v = x.val
      if y.sort == 'I' and strict:
        v, strict = v + 1, False
      if v > b[0] or (v == b[0] and strict):
        self.bounds[y.id] = (v, strict, b[2], b[3])

  # ---- interval hull
  def hull(self, t):
    for s in tm.subterms([t]):
      if s.id not in self.icache and s.sort in ('R', 'I'):
        h = self._hull(s)
        b = self.bounds.get(s.id)
        if b is not None:
          lo, lo_o = max((h[0], h[1]), (b[0], b[1]))
          hi, ho = min((h[2], not h[3]), (b[2], not b[3]))
          h = (lo, lo_o, hi, not ho)
        self.icache[s.id] = h
    return self.icache[t.id]

  def _hull(self, t):
    op = t.op
    g = lambda a: self.icache[a.id]
    if op == 'const':
      return (t.val, False, t.val, False)
    if op == 'pi':
      return (Fraction(314159, 100000), True, Fraction(31416, 10000), True)
    if op == 'add':
      return i_add(g(t.args[0]), g(t.args[1]))
    if op == 'mul':
      if t.args[0] is t.args[1]:
        x = g(t.args[0])
        m = i_mul(x, x)
        if x[0] >= 0 or x[2] <= 0:
          return m
        return (0, False, m[2], m[3])
      # x * (x * c...) : even powers
      cnt = {}
      self._factors(t, cnt)
      if all(n % 2 == 0 for n in cnt.values()):
        return (0, False, INF, True)
      return i_mul(g(t.args[0]), g(t.args[1]))
    if op == 'div':
      a, b = g(t.args[0]), g(t.args[1])
      if b[0] > 0 or (b[0] == 0 and b[1]):
        inv = (0 if b[2] == INF else Fraction(1) / b[2] if not isinstance(b[2], float) else 0,
               True if b[2] == INF else b[3],
               INF if b[0] == 0 else (Fraction(1) / b[0] if not isinstance(b[0], float) else 0),
               True if b[0] == 0 else b[1])
        return i_mul(a, inv)
      if b[0] == 0:  # div by zero is guarded elsewhere; sign only
        if a[0] >= 0:
          return TOP
      return TOP
    if op == 'toR':
      return g(t.args[0])
    if op == 'floorI':
      a = g(t.args[0])
      import math
      return (math.floor(a[0]) if a[0] != -INF else -INF, False,
              math.floor(a[2]) if a[2] != INF else INF, False)
    if op == 'imod':
      b = g(t.args[1])
      return (0, False, b[2] - 1 if b[0] > 0 else INF, False)
    if op == 'idiv':
      a, b = g(t.args[0]), g(t.args[1])
      if a[0] >= 0 and b[0] >= 1:
        return (0, False, a[2], False)
      return TOP
    if op == 'ite':
      a, b = g(t.args[1]), g(t.args[2])
      lo = min(a[0], b[0])
      hi = max(a[2], b[2])
      return (lo, all(o for v, o in ((a[0], a[1]), (b[0], b[1])) if v == lo),
              hi, all(o for v, o in ((a[2], a[3]), (b[2], b[3])) if v == hi))
    if op == 'fn':
      name = t.args[0]
      if name == 'sqrt':
        a = g(t.args[1])
        import math
        lo, lo_o = 0, False
        if a[0] > 0:
          lo, lo_o = Fraction(math.isqrt(int(a[0] * 10**12)), 10**6), False
          if lo == 0:
            lo_o = True
        elif a[0] == 0 and a[1]:
          lo_o = True
        hi = INF if a[2] == INF else Fraction(math.isqrt(int(max(a[2], 0) * 10**12)) + 1, 10**6)
        return (lo, lo_o, hi, hi == INF)
      if name == 'exp':
        a = g(t.args[1])
        lo, hi, ho = 0, INF, True
        if a[2] <= 0:
          hi, ho = 1, (a[3] if a[2] == 0 else True)
        lo_o = True
        if a[0] >= 0:
          lo, lo_o = 1, (a[1] if a[0] == 0 else True)
        return (lo, lo_o, hi, ho)
      if name == 'log':
        a = g(t.args[1])
        lo, hi = -INF, INF
        if a[0] >= 1:
          lo = 0
        if a[2] <= 1:
          hi = 0
        return (lo, lo == -INF or a[0] > 1 or a[1], hi, hi == INF or a[2] < 1 or a[3])
      if name in ('cos', 'sin', 'erf'):
        return (-1, False, 1, False)
      if name == 'logistic':
        return (0, True, 1, True)
      if name == 'uniform':
        return (0, False, 1, True)
      if name == 'pow':
        b, y = g(t.args[1]), g(t.args[2])
        pos = b[0] > 0 or (b[0] == 0 and b[1])
        nneg = b[0] >= 0
        lo, lo_o, hi, ho = -INF, True, INF, True
        if pos:
          lo = 0
        elif nneg and (y[0] > 0 or (y[0] == 0 and y[1])):
          lo, lo_o = 0, False
        if nneg and b[2] <= 1:
          if y[0] > 0 or (y[0] == 0 and y[1]):
            hi, ho = 1, (b[3] if b[2] == 1 else True)
          elif y[0] == 0:
            hi, ho = 1, False
        if b[0] >= 1 and y[0] >= 0:
          lo, lo_o = 1, False
        return (lo, lo_o, hi, ho)
    return TOP

  def _factors(self, t, cnt):
    if t.op == 'mul':
      for a in t.args:
        self._factors(a, cnt)
    elif t.is_const:
      if t.val < 0:
        cnt['neg'] = cnt.get('neg', 0) + 1
    else:
      cnt[t.id] = cnt.get(t.id, 0) + 1

  def quick(self, t):
    """Interval decision of a boolean term: True / False / None."""
    if t.is_const:
      return t.val
    if t.op == 'not':
      r = self.quick(t.args[0])
      return None if r is None else not r
    if t.op == 'and':
      rs = [self.quick(a) for a in t.args]
      if any(r is False for r in rs):
        return False
      if all(r is True for r in rs):
        return True
      return None
    if t.op in ('lt', 'eq') and t.args[0].sort in ('R', 'I'):
      h = i_add(self.hull(t.args[0]), i_neg(self.hull(t.args[1])))
      lo, lo_o, hi, ho = h
      if t.op == 'lt':
        if hi < 0 or (hi == 0 and ho):
          return True
        if lo >= 0:
          return False
      else:
        if lo > 0 or hi < 0 or (lo == 0 and lo_o) or (hi == 0 and ho):
          return False
    return None

  def implied(self, t):
    if t.is_const:
      return bool(t.val)
    r = self.cache.get(t.id)
    if r is None:
      if self.inconsistent:
        return True
      q = self.quick(t)
      if q is None:
        for a in self.assumptions:
          if a is t:
            q = True
            break
      if q is None:
        q = check_sat(self.assumptions, [tm.not_(t)], self.timeout)[0] == 'unsat'
      r = bool(q)
      self.cache[t.id] = r
    return r

  def feasible(self):
    if self.inconsistent:
      return False
    return check_sat(self.assumptions, [], 2000, relevant=False)[0] != 'unsat'


# ---------------------------------------------------------------- T -> z3


class Enc:
  """Ackermannised z3 encoding with axioms for the function symbols."""

  def __init__(self):
    self.cache = {}
    self.side = []
    self.apps = {}       # name -> list of (argexprs, result, term)
    self.vars = {}
    self.ufapps = []     # applications of arbitrary user functions
    self.n = 0

  def fresh(self, sort):
    self.n += 1
    if sort == 'R':
      return z3.Real('!a%d' % self.n)
    if sort == 'I':
      return z3.Int('!a%d' % self.n)
    if sort == 'B':
      return z3.Bool('!a%d' % self.n)
    return z3.Int('!k%d' % self.n)

  def const(self, name, sort):
    v = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}.get(sort, z3.Int)(name)
    self.vars[name] = v
    return v

  def enc(self, t):
    for s in tm.subterms([t]):
      if s.id not in self.cache:
        self.cache[s.id] = self._enc(s)
    return self.cache[t.id]

  def _enc(self, t):
    op = t.op
    e = lambda a: self.cache[a.id]
    if op == 'const':
      if t.sort == 'R':
        return z3.RealVal(str(t.val))
      if t.sort == 'I':
        return z3.IntVal(t.val)
      return z3.BoolVal(t.val)
    if op == 'var':
      return self.const(t.args[0], t.sort)
    if op == 'pi':
      v = self.const('PI!', 'R')
      self.side += [v > z3.RealVal('3.14159'), v < z3.RealVal('3.1416')]
      return v
    if op == 'add':
      return e(t.args[0]) + e(t.args[1])
    if op == 'mul':
      return e(t.args[0]) * e(t.args[1])
    if op == 'div':
      a, b = e(t.args[0]), e(t.args[1])
      q = self.fresh('R')
      self.side.append(z3.Or(b == 0, q * b == a))
      return q
    if op in ('imod', 'idiv'):
      a, b = t.args
      if b.is_const and b.val != 0:
        return e(a) % e(b) if op == 'imod' else e(a) / e(b)
      key = ('divmod', a.id, b.id)
      if key not in self.cache:
        q, r = self.fresh('I'), self.fresh('I')
        x, y = e(a), e(b)
        self.side.append(z3.Or(y == 0, z3.And(x == y * q + r, r >= 0,
                                              z3.Or(r < y, r < -y))))
        # helper lemmas (consequences)
        self.side.append(z3.Implies(z3.And(y > 0, x >= 0, x < y), z3.And(q == 0, r == x)))
        self.cache[key] = (q, r)
        prev = self.apps.setdefault('!divmod', [])
        for (x2, y2, q2, r2) in prev:
          self.side.append(z3.Implies(z3.And(x == x2, y == y2), z3.And(q == q2, r == r2)))
          self.side.append(z3.Implies(
              z3.And(y == y2, y > 0, x == x2 + 1),
              z3.If(r2 == y - 1, z3.And(r == 0, q == q2 + 1), z3.And(r == r2 + 1, q == q2))))
          self.side.append(z3.Implies(
              z3.And(y == y2, y > 0, x2 == x + 1),
              z3.If(r == y - 1, z3.And(r2 == 0, q2 == q + 1), z3.And(r2 == r + 1, q2 == q))))
        prev.append((x, y, q, r))
      return self.cache[key][1 if op == 'imod' else 0]
    if op == 'toR':
      return z3.ToReal(e(t.args[0]))
    if op == 'floorI':
      return z3.ToInt(e(t.args[0]))
    if op == 'not':
      return z3.Not(e(t.args[0]))
    if op == 'and':
      return z3.And(*[e(a) for a in t.args])
    if op == 'lt':
      return e(t.args[0]) < e(t.args[1])
    if op == 'eq':
      return e(t.args[0]) == e(t.args[1])
    if op == 'ite':
      return z3.If(e(t.args[0]), e(t.args[1]), e(t.args[2]))
    if op == 'fn':
      return self.app(t)
    raise NotImplementedError(op)

  def app(self, t):
    name = t.args[0]
    args = [self.cache[a.id] for a in t.args[1:] if isinstance(a, T)]
    key = (name, t.sort) + tuple(a if not isinstance(a, T) else a.sort for a in t.args[1:])
    r = self.fresh(t.sort)
    S = self.side
    if name == 'sqrt':
      u, = args
      S += [r >= 0, z3.Or(u < 0, r * r == u)]
    elif name == 'exp':
      u, = args
      S += [r > 0, z3.Implies(u == 0, r == 1), r >= 1 + u, z3.Implies(u < 0, r < 1)]
    elif name == 'log':
      u, = args
      S += [z3.Implies(u == 1, r == 0), z3.Implies(z3.And(u > 0, u < 1), r < 0),
            z3.Implies(u > 1, r > 0), z3.Implies(u > 0, r <= u - 1)]
    elif name == 'logistic':
      u, = args
      S += [r > 0, r < 1, z3.Implies(u == 0, 2 * r == 1)]
    elif name == 'pow':
      b, y = args
      S += [z3.Implies(b > 0, r > 0), z3.Implies(z3.And(b > 0, y == 0), r == 1),
            z3.Implies(b == 1, r == 1), z3.Implies(y == 1, r == b),
            z3.Implies(z3.And(b > 0, b < 1, y > 0), r < 1),
            z3.Implies(z3.And(b > 0, b < 1, y < 0), r > 1),
            z3.Implies(z3.And(b >= 0, b < 1, y >= 1), r <= b),
            z3.Implies(z3.And(b >= 1, y >= 0), r >= 1),
            z3.Implies(z3.And(b > 0, b < 1, y <= 1), r >= b),
            z3.Implies(z3.And(b > 1, y < 0), r < 1)]
    elif name in ('cos', 'sin'):
      u, = args
      p = self.enc(tm.PI)
      S += [r >= -1, r <= 1]
      if name == 'cos':
        S += [z3.Implies(u == 0, r == 1), z3.Implies(u == p, r == -1), z3.Implies(2 * u == p, r == 0),
              z3.Implies(z3.And(u > 0, u < p), z3.And(r < 1, r > -1))]
      else:
        S += [z3.Implies(u == 0, r == 0), z3.Implies(u == p, r == 0), z3.Implies(2 * u == p, r == 1)]
    elif name == 'uniform':
      S += [r >= 0, r < 1]
    elif name.startswith('rnd:'):
      u, = args
      b = z3.If(u < 0, -u, u) / (2048 if name == 'rnd:float16' else 256) + (z3.Q(1, 2**24))
      S += [z3.Implies(u == 0, r == 0), z3.Implies(u > 0, r >= 0), z3.Implies(u < 0, r <= 0), r - u <= b, u - r <= b]
    if name.startswith('uf:'):
      self.ufapps.append((name, args, r))
    prev = self.apps.setdefault(key, [])
    for args2, r2 in prev:
      same = z3.And(*[a == b for a, b in zip(args, args2)]) if args else z3.BoolVal(True)
      S.append(z3.Implies(same, r == r2))
      if name in ('exp', 'sqrt', 'log', 'logistic'):
        ok = z3.BoolVal(True)
        if name == 'sqrt':
          ok = z3.And(args[0] >= 0, args2[0] >= 0)
        elif name == 'log':
          ok = z3.And(args[0] > 0, args2[0] > 0)
        S.append(z3.Implies(z3.And(ok, args[0] < args2[0]), r < r2))
        S.append(z3.Implies(z3.And(ok, args[0] > args2[0]), r > r2))
      elif name == 'cos':
        p = self.enc(tm.PI)
        dom = z3.And(args[0] >= 0, args[0] <= p, args2[0] >= 0, args2[0] <= p)
        S.append(z3.Implies(z3.And(dom, args[0] < args2[0]), r > r2))
        S.append(z3.Implies(z3.And(dom, args[0] > args2[0]), r < r2))
      elif name == 'pow':
        b, y = args
        b2, y2 = args2
        S.append(z3.Implies(z3.And(b == b2, b > 0, b < 1, y < y2), r > r2))
        S.append(z3.Implies(z3.And(b == b2, b > 0, b < 1, y > y2), r < r2))
        S.append(z3.Implies(z3.And(b == b2, b > 1, y < y2), r < r2))
        S.append(z3.Implies(z3.And(b == b2, b > 1, y > y2), r > r2))
        S.append(z3.Implies(z3.And(y == y2, y > 0, b >= 0, b < b2), r < r2))
        S.append(z3.Implies(z3.And(y == y2, y > 0, b2 >= 0, b2 < b), r2 < r))
        S.append(z3.Implies(z3.And(b == b2, b > 0, y2 == y + 1), r2 == r * b))
        S.append(z3.Implies(z3.And(b == b2, b > 0, y == y2 + 1), r == r2 * b))
    prev.append((args, r))
    return r


def _vars(t, memo={}):  # pylint: disable=dangerous-default-value
  r = memo.get(t.id)
  if r is None:
    r = frozenset(s.id for s in tm.subterms([t]) if s.op == 'var')
    memo[t.id] = r
  return r


def relevant(assumptions, goals):
  vs = set()
  for g in goals:
    vs |= _vars(g)
  out = []
  rest = list(assumptions)
  changed = True
  while changed:
    changed = False
    keep = []
    for a in rest:
      av = _vars(a)
      if av & vs or not av:
        out.append(a)
        if not av <= vs:
          vs |= av
          changed = True
      else:
        keep.append(a)
    rest = keep
  return out


def _smt2_cvc5(s, timeout):
  txt = '(set-logic ALL)\n' + s.to_smt2()
  try:
    p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '-'], input=txt, text=True,
                       capture_output=True, timeout=timeout / 1000 + 5, check=False)
  except (subprocess.TimeoutExpired, FileNotFoundError):
    return 'unknown'
  out = p.stdout.strip().splitlines()
  if '(error' in p.stdout or not out:
    return 'unknown'
  return out[-1] if out[-1] in ('sat', 'unsat') else 'unknown'


def check_sat(assumptions, goals, timeout, relevant_only=True, cvc5=False, relevant_=None, **kw):
  """-> (status, model dict or None)."""
  t0 = time.time()
  if relevant_only and kw.get('relevant', True) and goals:
    assumptions = relevant(assumptions, goals)
  enc = Enc()
  fs = [enc.enc(a) for a in list(assumptions) + list(goals)]
  s = z3.Solver()
  s.set('timeout', int(timeout))
  s.add(*fs)
  s.add(*enc.side)
  STATS.z3_queries += 1
  try:
    r = str(s.check())
  except z3.Z3Exception:
    r = 'unknown'
  model = None
  if r == 'sat':
    model = _model(s.model(), enc)
  elif r == 'unknown' and cvc5:
    STATS.cvc5_queries += 1
    r2 = _smt2_cvc5(s, timeout)
    if r2 == 'unsat':
      r = 'unsat'
  STATS.solver_s += time.time() - t0
  if r == 'unsat':
    STATS.unsat += 1
  elif r == 'sat':
    STATS.sat += 1
  else:
    STATS.unknown += 1
  return r, model


def _value(m, v):
  x = m.eval(v, model_completion=True)
  if z3.is_int_value(x):
    return x.as_long()
  if z3.is_rational_value(x):
    return Fraction(x.numerator_as_long(), x.denominator_as_long())
  if z3.is_algebraic_value(x):
    a = x.approx(20)
    return Fraction(a.numerator_as_long(), a.denominator_as_long())
  if z3.is_true(x) or z3.is_false(x):
    return z3.is_true(x)
  raise ValueError(x)


def _model(m, enc):
  out = {}
  for name, v in enc.vars.items():
    try:
      out[name] = _value(m, v)
    except Exception:  # pylint: disable=broad-except
      pass
  ufs = []
  for name, args, r in enc.ufapps:
    try:
      ufs.append((name, tuple(_value(m, a) for a in args), _value(m, r)))
    except Exception:  # pylint: disable=broad-except
      pass
  if ufs:
    out['?uf'] = ufs
  return out


# ---------------------------------------------------------------- prove


class Result:

  def __init__(self, status, model=None, ctx=None):
    self.status, self.model, self.ctx = status, model, ctx   # proved/refuted/unknown


def _find_cond(t):
  """An innermost boolean to split on (ite condition, then boolean atom)."""
  conds = []
  for s in tm.subterms([t]):
    if s.op == 'ite':
      c = s.args[0]
      conds.append(c)
  for c in conds:
    atoms = _atoms(c)
    for a in atoms:
      if not any(x.op == 'ite' for x in tm.subterms([a])):
        return a
  return None


def _atoms(c):
  if c.op in ('not', 'and'):
    out = []
    for a in c.args:
      out += _atoms(a)
    return out
  if c.op == 'eq' and c.args[0].sort == 'B':
    return _atoms(c.args[0]) + _atoms(c.args[1])
  if c.op == 'ite' and c.sort == 'B':
    return _atoms(c.args[0]) + _atoms(c.args[1]) + _atoms(c.args[2])
  return [] if c.is_const else [c]


class Prover:

  def __init__(self, ctx, quick_ms=1000, leaf_ms=8000, budget_s=60, max_splits=4000):
    self.ctx = ctx
    self.quick_ms, self.leaf_ms = quick_ms, leaf_ms
    self.deadline = time.time() + budget_s
    self.splits = 0
    self.max_splits = max_splits

  def prove(self, goal):
    r = self._prove(self.ctx, goal, 0)
    if r.status != 'proved' and r.ctx is not None:
      # the refuting query only saw the assumptions connected to the goal:
      # the rest of the path (disjoint variables) gets values as well
      st, rest = check_sat(r.ctx.assumptions, [], 3000, relevant=False)
      if st == 'sat':
        if r.model:
          ufs = list(r.model.get('?uf', ())) + list(rest.get('?uf', ()))
          rest.update(r.model)
          if ufs:
            rest['?uf'] = ufs
        r.model = rest
    return r

  def _conj(self, goal):
    if goal.op == 'and':
      return list(goal.args)
    return [goal]

  def _prove(self, ctx, goal, depth):
    if goal is TRUE:
      return Result('proved')
    worst = Result('proved')
    for g in self._conj(goal):
      r = self._prove1(ctx, g, depth)
      if r.status == 'refuted':
        return r
      if r.status == 'unknown':
        worst = r
    return worst

  def _simp(self, ctx, goal):
    """Replace atoms whose truth value is implied."""
    mapping = {}
    for s in tm.subterms([goal]):
      if s.sort == 'B' and s.op in ('lt', 'eq') and s.args[0].sort != 'B' and s is not goal:
        q = ctx.quick(s)
        if q is not None:
          mapping[s] = tm.B(q)
    return tm.subst(goal, mapping) if mapping else goal

  def _prove1(self, ctx, goal, depth):
    if goal is TRUE:
      return Result('proved')
    if time.time() > self.deadline or self.splits > self.max_splits:
      return Result('unknown')
    if goal.op == 'eq' and goal.args[0] is goal.args[1]:
      if check_sat([], [tm.not_(goal)], 1000)[0] == 'unsat':
        STATS.identical += 1
        return Result('proved')
    goal = self._simp(ctx, goal)
    if goal.op == 'and':
      return self._prove(ctx, goal, depth)
    if goal is TRUE:
      return Result('proved')
    q = ctx.quick(goal)
    if q is True:
      return Result('proved')
    haveite = any(s.op == 'ite' for s in tm.subterms([goal]))
    disj = goal.op == 'not' and goal.args[0].op == 'and'
    if not haveite and not disj:
      return self._leaf(ctx, goal)
    # direct attempt on the un-split goal
    r, model = check_sat(ctx.assumptions, [tm.not_(goal)], self.quick_ms)
    if r == 'unsat':
      return Result('proved')
    sat_model = model if r == 'sat' else None
    if r == 'sat' and not self._has_fn(goal):
      return Result('refuted', model, ctx)
    if disj:
      # a => b : assume the negations of all but the last (hardest) disjunct
      ds = [tm.not_(x) for x in goal.args[0].args]
      ds.sort(key=lambda d: (d.op == 'eq' and d.args[0].sort == 'R', len(tm.subterms([d]))))
      last = ds[-1]
      c2 = ctx.child(*[tm.not_(d) for d in ds[:-1]])
      if last.op == 'eq' and last.args[0].sort == 'R' or any(
          s.op == 'ite' for s in tm.subterms([last])):
        last = self._assume_simplify(c2, last)
        return self._prove(c2, last, depth + 1)
    c = _find_cond(goal)
    if c is None:
      if sat_model is not None:
        return Result('refuted', sat_model, ctx)
      return self._leaf(ctx, goal)
    self.splits += 1
    STATS.splits += 1
    unk = None
    for val in (True, False):
      lit_ = c if val else tm.not_(c)
      qv = ctx.quick(lit_)
      if qv is False:
        continue
      c2 = ctx.child(lit_)
      if qv is None and check_sat(ctx.assumptions, [lit_], 500)[0] == 'unsat':
        continue
      g2 = tm.subst(goal, {c: tm.B(val)})
      r = self._prove(c2, g2, depth + 1)
      if r.status == 'refuted':
        return r
      if r.status == 'unknown':
        unk = r
    return unk or Result('proved')

  def _assume_simplify(self, ctx, t):
    mapping = {}
    for a in ctx.assumptions:
      if a.op == 'not':
        mapping[a.args[0]] = FALSE
      else:
        mapping[a] = TRUE
    return tm.subst(t, mapping)

  def _has_fn(self, t):
    return any(s.op == 'fn' for s in tm.subterms([t]))

  def _leaf(self, ctx, goal):
    g = goal
    if g.op == 'eq' and g.args[0].sort in ('R', 'I'):
      try:
        n = nm.Norm(ctx)
        d = n.diff(*g.args)
        if not d:
          STATS.normal_form += 1
          # the solver is still asked: numerator (now the zero polynomial) = 0
          if check_sat([], [tm.not_(tm.eq(tm.R0, tm.R0))] , 100)[0] == 'unsat':
            return Result('proved')
      except (nm.TooBig, ZeroDivisionError, RecursionError):
        pass
    r, model = check_sat(ctx.assumptions, [tm.not_(g)], self.leaf_ms, cvc5=True)
    if r == 'unsat':
      return Result('proved')
    if r == 'sat':
      return Result('refuted', model, ctx)
    # unknown: offer a model of the path condition as a starting point
    _, model = check_sat(ctx.assumptions, [], 1000)
    return Result('unknown', model, ctx)
