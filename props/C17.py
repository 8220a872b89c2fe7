"""keep_params_nonnegative and zero_nans."""
import optax
from symjax.fp import FPCase
from props.common import *

BOUNDS = ('trees of up to 7 elements; parameters finite (any sign), updates finite, NaN or Inf; zero_nans: every element '
          'finite, NaN or Inf; exact reals, and bit-exact IEEE float32 for the elementwise claims')
FN = ['optax.keep_params_nonnegative', 'optax.zero_nans', 'optax.apply_updates']


def cases():
  out = []
  run = lambda a: (lambda tx: tx.update(a.g, tx.init(a.p), a.p))(optax.keep_params_nonnegative())

  def prop(a, o, O):
    u, _ = o
    r = []
    for i, (x, p, g) in enumerate(zip(leaves(u), leaves(a.p), leaves(a.g))):
      r += [('nonnegative %d' % i, O.ge(p + x, 0)),
            ('untouched when feasible %d' % i, O.implies(O.ge(p + g, 0), O.eq(x, g))),
            ('projected %d' % i, O.implies(O.lt(p + g, 0), O.eq(p + x, 0)))]
    return r
  out.append(Case('nonnegative/step', dict(p=ftree(), g=ftree()), run=run, prop=prop,
                  static=lambda a, o: same('updates', o[0], a.g), functions=FN))

  def sprop(a, o, O):
    r = []
    for i, (x, p, g) in enumerate(zip(leaves(o[0]), leaves(a.p), leaves(a.g))):
      r.append(('finite updates keep the invariant %d' % i, O.implies(O.isfinite(g), O.ge(p + x, 0))))
      r.append(('never below zero %d' % i, O.or_(O.isnan(g), O.ge(p + x, 0))))
    return r
  out.append(Case('nonnegative/any update', dict(p=ftree(lo=0), g=ftree(special=True)), run=run, prop=sprop, functions=FN))

  def hist(a):
    tx = optax.chain(optax.scale(-1.0), optax.keep_params_nonnegative())
    p, s = a.p, tx.init(a.p)
    ps = []
    for g in a.g:
      u, s = tx.update(g, s, p)
      p = optax.apply_updates(p, u)
      ps.append(p)
    return ps
  out.append(Case('nonnegative/projected descent', dict(p=ftree_small(lo=0), g=[ftree_small() for _ in range(3)]), run=hist,
                  functions=FN, prop=lambda a, o, O: [('step %d' % i, O.ge(x, 0)) for i, p in enumerate(o) for x in leaves(p)] +
                  eqs('first', O, o[0], tmap(lambda p, g: O.max(p - g, 0), a.p, a.g[0]))))
  out.append(Case('nonnegative/params required', dict(g=ftree_small()),
                  run=lambda a: optax.keep_params_nonnegative().update(a.g, optax.EmptyState(), None)[0],
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))

  out.append(FPCase('nonnegative/float32 exact', dict(p=F(), g=F(special=True)),
                    run=lambda a: optax.apply_updates(a.p, optax.keep_params_nonnegative().update(
                        a.g, optax.EmptyState(), a.p)[0]),
                    prop=lambda a, o, O: [('>= 0', O.or_(O.nan(a.g), O.le(O.const(0), o)))], functions=FN))

  # ---- zero_nans
  def zprop(a, o, O):
    u, s, s0 = o
    r = []
    for i, (x, g, f, f0) in enumerate(zip(leaves(u), leaves(a.g), leaves(s.found_nan), leaves(s0.found_nan))):
      r += [('value %d' % i, O.eq(x, O.where(O.isnan(g), 0, g))), ('no NaN %d' % i, O.not_(O.isnan(x))),
            ('flag %d' % i, O.eq(f, O.any(O.isnan(g)))), ('initial flag %d' % i, O.not_(f0))]
    return r
  for special in (True, False):
    def zrun(a):
      tx = optax.zero_nans()
      s0 = tx.init(a.g)
      u, s = tx.update(a.g, s0)
      return u, s, s0
    out.append(Case('zero_nans/step special=%s' % special, dict(g=ftree(special=special)), run=zrun, prop=zprop, functions=FN,
                    static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], o[2]) +
                    [('one flag per leaf', structure(o[1].found_nan) == structure(a.g)),
                     ('scalar bool', all(spec_of(x) == ((), 'bool') for x in leaves(o[1])))]))

  def zh(a):
    tx = optax.zero_nans()
    s = tx.init(a.g)
    _, s = tx.update(a.g, s)
    _, s = tx.update(a.h, s)
    return s
  out.append(Case('zero_nans/flag is about the last call', dict(g=ftree_small(special=True), h=ftree_small(special=True)),
                  run=zh, functions=FN, prop=lambda a, o, O: [('flag %d' % i, O.eq(f, O.any(O.isnan(h)))) for i, (f, h) in
                                                enumerate(zip(leaves(o.found_nan), leaves(a.h)))]))
  out.append(FPCase('zero_nans/float32 exact', dict(g=F(special=True)),
                    run=lambda a: (lambda r: (r[0], r[1].found_nan))(optax.zero_nans().update(a.g, None)),
                    prop=lambda a, o, O: [('bits kept', O.or_(O.nan(a.g), O.same_bits(o[0], a.g))),
                                          ('NaN to zero', O.implies(O.nan(a.g), O.eq(o[0], O.const(0))))], functions=FN))
  return out
