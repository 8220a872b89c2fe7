"""Canonical (Laurent) rational-function form of real terms.

Used as a sound algebraic preprocessing step before the SMT solver: the
difference of two real terms is brought to numerator/denominator form over
atoms (variables, uninterpreted applications, sqrt/exp/log/pow atoms), using
  sqrt(u)^2 = u, exp(a+b) = exp(a)exp(b), log(ab) = log a + log b (a, b > 0),
  pow(b, x+n) = pow(b, x) b^n (b > 0).
Side conditions (non-zero denominators, positivity) are discharged by the
context passed in.
"""
from fractions import Fraction

from symjax import terms as tm

ONE = ((),)


class TooBig(Exception):
  pass


LIMIT = 4000


def p_const(c):
  c = Fraction(c)
  return {(): c} if c else {}


def p_add(p, q, s=1):
  r = dict(p)
  for m, c in q.items():
    v = r.get(m, 0) + s * c
    if v:
      r[m] = v
    else:
      r.pop(m, None)
  return r


def m_mul(m, n):
  if not m:
    return n
  if not n:
    return m
  d = dict(m)
  for a, e in n:
    v = d.get(a, 0) + e
    if v:
      d[a] = v
    else:
      d.pop(a, None)
  return tuple(sorted(d.items()))


def m_pow(m, e):
  return tuple((a, x * e) for a, x in m)


def p_key(p):
  return tuple(sorted(p.items()))


class Norm:

  def __init__(self, ctx):
    self.ctx = ctx
    self.atoms = {}        # key -> atom id
    self.info = {}         # atom id -> ('term', T) / ('sqrt', poly) / ('exp', rat) / ...
    self.cache = {}
    self.sqrt_atoms = {}
    self.pos_cache = {}

  # -- atoms
  def atom(self, key, info):
    a = self.atoms.get(key)
    if a is None:
      a = len(self.atoms) + 1
      self.atoms[key] = a
      self.info[a] = info
      if info[0] == 'sqrt':
        self.sqrt_atoms[a] = info[1]
    return a

  def p_mul(self, p, q):
    if not p or not q:
      return {}
    if len(p) * len(q) > LIMIT * 4:
      raise TooBig()
    r = {}
    for m, c in p.items():
      for n, d in q.items():
        k = m_mul(m, n)
        v = r.get(k, 0) + c * d
        if v:
          r[k] = v
        else:
          r.pop(k, None)
    r = self.reduce(r)
    if len(r) > LIMIT:
      raise TooBig()
    return r

  def reduce(self, p):
    """sqrt(u)^2 -> u."""
    if not self.sqrt_atoms:
      return p
    for m in list(p):
      for a, e in m:
        if a in self.sqrt_atoms and (e >= 2):
          break
      else:
        continue
      break
    else:
      return p
    out = {}
    for m, c in p.items():
      term = {(): c}
      rest = []
      for a, e in m:
        if a in self.sqrt_atoms and e >= 2:
          k = int(e // 2)
          for _ in range(k):
            term = self.p_mul(term, self.sqrt_atoms[a])
          e = e - 2 * k
        if e:
          rest.append((a, e))
      rest = tuple(rest)
      term = {m_mul(t, rest): v for t, v in term.items()}
      out = p_add(out, term)
    return self.reduce(out)

  # -- rationals
  def r_norm(self, n, d):
    if not n:
      return {}, p_const(1)
    # monomial content of d moved to n (atoms in a denominator are non-zero)
    if len(d) == 1:
      (m, c), = d.items()
      inv = m_pow(m, -1)
      if any(a in self.sqrt_atoms for a, _ in m):
        # keep sqrt exponents in {0,1}: 1/s = s/u
        n2 = {m_mul(x, inv): v / c for x, v in n.items()}
        return self.fix_sqrt(n2)
      return {m_mul(x, inv): v / c for x, v in n.items()}, p_const(1)
    lead = d[min(d)]
    if lead != 1:
      n = {m: c / lead for m, c in n.items()}
      d = {m: c / lead for m, c in d.items()}
    # divide out the common monomial content of d
    cont = self.content(d)
    if cont:
      inv = m_pow(cont, -1)
      d = {m_mul(x, inv): v for x, v in d.items()}
      n = {m_mul(x, inv): v for x, v in n.items()}
      lead = d[min(d)]
      if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        d = {m: c / lead for m, c in d.items()}
    if n == d:
      return p_const(1), p_const(1)
    q = self.divide(n, d)
    if q is not None:
      return q, p_const(1)
    return n, d

  def fix_sqrt(self, n):
    return n, p_const(1)

  def divide(self, n, d):
    """n / d if n = c*m*d for a monomial m (cheap exact division)."""
    if len(n) != len(d):
      return None
    ks, kd = min(n), min(d)
    # try matching every monomial of n to the first of d
    for m in n:
      q = m_mul(m, m_pow(kd, -1))
      c = n[m] / d[kd]
      if {m_mul(x, q): v * c for x, v in d.items()} == n:
        return {q: c}
    return None

  def content(self, p):
    """min-exponent monomial common to all monomials (Laurent for exp atoms)."""
    it = iter(p)
    first = dict(next(it))
    mins = dict(first)
    for m in it:
      dm = dict(m)
      for a in list(mins):
        mins[a] = min(mins[a], dm.get(a, 0))
      for a, e in dm.items():
        if a not in mins:
          mins[a] = min(e, 0)
    return tuple(sorted((a, e) for a, e in mins.items() if e))

  def r_add(self, x, y):
    (a, b), (c, d) = x, y
    if b == d:
      return self.r_norm(p_add(a, c), b)
    return self.r_norm(p_add(self.p_mul(a, d), self.p_mul(c, b)), self.p_mul(b, d))

  def r_mul(self, x, y):
    (a, b), (c, d) = x, y
    if a == d:
      return self.r_norm(c, b)
    if b == c:
      return self.r_norm(a, d)
    return self.r_norm(self.p_mul(a, c), self.p_mul(b, d))

  def r_div(self, x, y):
    (a, b), (c, d) = x, y
    if not c:
      raise ZeroDivisionError
    if b == d:
      return self.r_norm(a, c)
    return self.r_norm(self.p_mul(a, d), self.p_mul(b, c))

  # -- terms
  def norm(self, t):
    r = self.cache.get(t.id)
    if r is None:
      for s in tm.subterms([t]):
        if s.sort in ('R', 'I') and s.id not in self.cache:
          self.cache[s.id] = self._norm(s)
      r = self.cache[t.id]
    return r

  def termatom(self, t):
    a = self.atom(('t', t.id), ('term', t))
    return {((a, Fraction(1)),): Fraction(1)}, p_const(1)

  def _norm(self, t):
    op = t.op
    if op == 'const':
      return p_const(t.val), p_const(1)
    if op in ('var', 'pi'):
      return self.termatom(t)
    if op == 'add':
      return self.r_add(self.norm(t.args[0]), self.norm(t.args[1]))
    if op == 'mul':
      return self.r_mul(self.norm(t.args[0]), self.norm(t.args[1]))
    if op == 'div':
      d = self.norm(t.args[1])
      if not d[0]:
        return self.termatom(t)
      if not self.ctx.implied(tm.not_(tm.eq(t.args[1], tm.R0))):
        return self.termatom(t)
      return self.r_div(self.norm(t.args[0]), d)
    if op == 'toR':
      return self.norm(t.args[0])
    if op == 'fn':
      name = t.args[0]
      if name == 'sqrt':
        return self.n_sqrt(t)
      if name == 'exp':
        return self.n_exp(self.norm(t.args[1]))
      if name == 'log':
        return self.n_log(t)
      if name == 'pow':
        return self.n_pow(t)
      keys = []
      for a in t.args[1:]:
        if isinstance(a, tm.T) and a.sort in ('R', 'I'):
          n, d = self.norm(a)
          keys.append((p_key(n), p_key(d)))
        elif isinstance(a, tm.T):
          keys.append(('t', a.id))
        else:
          keys.append(a)
      a = self.atom(('fn', name) + tuple(keys), ('term', t))
      return {((a, Fraction(1)),): Fraction(1)}, p_const(1)
    if op in ('imod', 'idiv', 'floorI'):
      keys = tuple((p_key(self.norm(a)[0]), p_key(self.norm(a)[1])) for a in t.args)
      a = self.atom((op,) + keys, ('term', t))
      return {((a, Fraction(1)),): Fraction(1)}, p_const(1)
    return self.termatom(t)

  def atom_pos(self, a):
    """Is atom a > 0 in the context?"""
    r = self.pos_cache.get(a)
    if r is None:
      info = self.info[a]
      if info[0] in ('exp', 'pow'):
        r = True
      elif info[0] == 'sqrt':
        r = self.p_pos(info[1])
      else:
        r = self.ctx.implied(tm.lt(tm.R0 if info[1].sort == 'R' else tm.I(0), info[1]))
      self.pos_cache[a] = r
    return r

  def p_pos(self, p):
    if not p:
      return False
    ok = all(c > 0 and all((e.denominator == 1 and e % 2 == 0 and self.info[a][0] != 'term') or
                           self.atom_pos(a) for a, e in m)
             for m, c in p.items())
    if ok:
      return True
    t = self.to_term(p)
    if t is None:
      return False
    return self.ctx.implied(tm.lt(tm.R0, t))

  def atom_term(self, a):
    info = self.info[a]
    if info[0] == 'term':
      return tm.toR(info[1])
    if info[0] == 'sqrt':
      u = self.to_term(info[1])
      return None if u is None else tm.fn('sqrt', u)
    if info[0] == 'exp':
      n, d = self.to_term(info[1][0]), self.to_term(info[1][1])
      return None if n is None or d is None else tm.fn('exp', tm.div(n, d))
    if info[0] == 'pow':
      return info[1]
    if info[0] == 'log':
      u = self.to_term(info[1])
      return None if u is None else tm.fn('log', u)
    return None

  def to_term(self, p):
    out = tm.R0
    for m, c in sorted(p.items()):
      t = tm.R(c)
      for a, e in m:
        b = self.atom_term(a)
        if b is None:
          return None
        if e.denominator == 1:
          t = tm.mul(t, tm.powi(b, int(e)))
        elif e == Fraction(1, 2):
          t = tm.mul(t, tm.fn('sqrt', b))
        else:
          if self.info[a][0] == 'exp':
            n, d = self.info[a][1]
            t = tm.mul(t, tm.fn('exp', tm.mul(tm.R(e), tm.div(self.to_term(n), self.to_term(d)))))
          else:
            return None
      out = tm.add(out, t)
    return out

  def sqrt_poly(self, p):
    """sqrt of a positive/nonneg poly -> poly (monomial times sqrt atom)."""
    if not p:
      return {}
    # numeric content: make leading coefficient a square-free-ish rational
    lead = abs(p[min(p)])
    import math
    n, d = lead.numerator * lead.denominator, lead.denominator
    # lead = n/d^2 ; pull out largest square factor s^2 of n (small search)
    s = 1
    f = 2
    nn = n
    while f * f <= nn and f < 2000:
      while nn % (f * f) == 0:
        s *= f
        nn //= f * f
      f += 1
    r = math.isqrt(nn)
    if r * r == nn:
      s *= r
      nn = 1
    k = Fraction(s, d)
    q = {m: c / (k * k) for m, c in p.items()}
    cont = self.content(q)
    out_m = []
    keep = []
    for a, e in cont:
      kind = self.info[a][0]
      if kind in ('exp', 'pow'):
        out_m.append((a, e / 2))
        keep.append((a, e))
      elif e.denominator == 1 and e // 2 and self.atom_pos(a):
        out_m.append((a, Fraction(e // 2)))
        keep.append((a, Fraction(2 * (e // 2))))
    if keep:
      inv = m_pow(tuple(keep), -1)
      q = {m_mul(m, inv): c for m, c in q.items()}
    mono = tuple(sorted(out_m))
    if q == {(): Fraction(1)}:
      return {mono: k}
    a = self.atom(('sqrt', p_key(q)), ('sqrt', q))
    return {m_mul(mono, ((a, Fraction(1)),)): k}

  def n_sqrt(self, t):
    n, d = self.norm(t.args[1])
    if not n:
      return {}, p_const(1)
    if len(d) == 1 or (self.p_pos(d)):
      # d > 0: sqrt(n/d) = sqrt(n)/sqrt(d)
      return self.r_norm(self.sqrt_poly(n), self.sqrt_poly(d))
    nd = self.p_mul(n, d)
    a = self.atom(('sqrtq', p_key(n), p_key(d)), ('term', t))
    return {((a, Fraction(1)),): Fraction(1)}, p_const(1)

  def n_exp(self, r):
    n, d = r
    if len(d) == 1 and () in d:
      mono = ()
      for m, c in n.items():
        # exp(log u * k) for integer k
        if len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][0] == 'log' and c.denominator == 1:
          pass
        base = ({m: Fraction(1)}, p_const(1))
        a = self.atom(('exp', m), ('exp', base))
        mono = m_mul(mono, ((a, c / d[()]),))
      num, den = {mono: Fraction(1)}, p_const(1)
      return self.exp_logs(num, den)
    a = self.atom(('exp', p_key(n), p_key(d)), ('exp', r))
    return {((a, Fraction(1)),): Fraction(1)}, p_const(1)

  def exp_logs(self, num, den):
    (mono, c), = num.items()
    rest = []
    n2, d2 = {(): c}, p_const(1)
    for a, e in mono:
      key = self.info[a][1]
      hit = None
      if self.info[a][0] == 'exp' and e.denominator == 1 and abs(e) <= 8:
        m, = key[0]
        if len(m) == 1 and m[0][1] == 1 and self.info[m[0][0]][0] == 'log':
          hit = self.info[m[0][0]][1]
      if hit is None:
        rest.append((a, e))
        continue
      for _ in range(abs(int(e))):
        if e > 0:
          n2 = self.p_mul(n2, hit)
        else:
          d2 = self.p_mul(d2, hit)
    n2 = {m_mul(m, tuple(rest)): v for m, v in n2.items()}
    return self.r_norm(n2, d2)

  def log_poly(self, p):
    """log of a positive poly -> poly, or None."""
    cont = self.content(p)
    out = {}
    keep = []
    for a, e in cont:
      info = self.info[a]
      if info[0] == 'exp':
        (n, d) = info[1]
        if not (len(d) == 1 and () in d):
          continue
        out = p_add(out, {m: c * e / d[()] for m, c in n.items()})
        keep.append((a, e))
      elif info[0] == 'pow':
        b, y = info[1].args[1:]
        ny, dy = self.norm(y)
        if not (len(dy) == 1 and () in dy):
          continue
        lb, ld = self.n_log(tm.fn('log', b)) if tm.fn('log', b).op == 'fn' else (None, None)
        if lb is None or ld != p_const(1):
          continue
        out = p_add(out, {m: c * e for m, c in self.p_mul(lb, ny).items()})
        keep.append((a, e))
      elif info[0] == 'sqrt':
        l = self.log_poly(info[1])
        if l is None:
          continue
        out = p_add(out, {m: c * e / 2 for m, c in l.items()})
        keep.append((a, e))
      elif self.atom_pos(a):
        l = self.atom(('log', a), ('log', {((a, Fraction(1)),): Fraction(1)}))
        out = p_add(out, {((l, Fraction(1)),): e})
        keep.append((a, e))
    if keep:
      inv = m_pow(tuple(sorted(keep)), -1)
      p = {m_mul(m, inv): c for m, c in p.items()}
    lead = p[min(p)]
    if lead < 0:
      if len(p) == 1:
        return None
      lead = -lead
    p = {m: c / lead for m, c in p.items()}
    if lead != 1:
      # log of a rational: factor into primes
      for base, sgn in ((lead.numerator, 1), (lead.denominator, -1)):
        f = 2
        while base > 1 and f < 10000:
          k = 0
          while base % f == 0:
            base //= f
            k += 1
          if k:
            l = self.atom(('logc', f), ('log', p_const(f)))
            out = p_add(out, {((l, Fraction(1)),): Fraction(sgn * k)})
          f += 1
        if base > 1:
          l = self.atom(('logc', base), ('log', p_const(base)))
          out = p_add(out, {((l, Fraction(1)),): Fraction(sgn)})
    if p != {(): Fraction(1)}:
      l = self.atom(('log', p_key(p)), ('log', p))
      out = p_add(out, {((l, Fraction(1)),): Fraction(1)})
    return out

  def n_log(self, t):
    n, d = self.norm(t.args[1])
    if n and (len(d) == 1 or self.p_pos(d)):
      ln, ld = self.log_poly(n), self.log_poly(d)
      if ln is not None and ld is not None:
        return p_add(ln, ld, -1), p_const(1)
    a = self.atom(('logq', p_key(n), p_key(d)), ('term', t))
    return {((a, Fraction(1)),): Fraction(1)}, p_const(1)

  def n_pow(self, t):
    b, y = t.args[1:]
    nb, db = self.norm(b)
    ny, dy = self.norm(y)
    if len(dy) == 1 and () in dy and self.ctx.implied(tm.lt(tm.R0, b)):
      out = (p_const(1), p_const(1))
      for m, c in ny.items():
        c = c / dy[()]
        if m == () and c.denominator == 1 and abs(c) <= 64:
          base = (nb, db) if c > 0 else (db, nb)
          for _ in range(abs(int(c))):
            out = self.r_mul(out, base)
        elif m == ():
          # a huge constant exponent stays one opaque atom
          a = self.atom(('pow', p_key(nb), p_key(db), 'const', c),
                        ('pow', tm.mk('fn', ('pow', b, tm.R(c)), 'R')))
          out = self.r_mul(out, ({((a, Fraction(1)),): Fraction(1)}, p_const(1)))
        else:
          whole = c
          mt = self.to_term({m: Fraction(1)})
          if mt is None:
            return self.termatom(t)
          a = self.atom(('pow', p_key(nb), p_key(db), m),
                        ('pow', tm.mk('fn', ('pow', b, mt), 'R')))
          out = self.r_mul(out, ({((a, whole),): Fraction(1)}, p_const(1)))
      return out
    a = self.atom(('pow', p_key(nb), p_key(db), p_key(ny), p_key(dy)), ('term', t))
    return {((a, Fraction(1)),): Fraction(1)}, p_const(1)

  def diff(self, a, b):
    """Numerator polynomial of a - b."""
    (n1, d1), (n2, d2) = self.norm(a), self.norm(b)
    if d1 == d2:
      r = p_add(n1, n2, -1)
    else:
      r = p_add(self.p_mul(n1, d2), self.p_mul(n2, d1), -1)
    return self.clear(r)

  def clear(self, r):
    """Multiply by monomials to clear negative exponents, then reduce."""
    if not r:
      return r
    for _ in range(4):
      low = {}
      for m in r:
        for a, e in m:
          if e < 0:
            low[a] = min(low.get(a, 0), e)
      if not low:
        break
      mono = tuple(sorted((a, -e) for a, e in low.items()))
      r = self.reduce({m_mul(m, mono): c for m, c in r.items()})
      if not r:
        break
    return self.reduce(r) if r else r
