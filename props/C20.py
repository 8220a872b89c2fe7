"""Elementary transformations: scale, weight decay, trust ratio, centralisation, identity."""
import optax
from symjax.fp import FPCase
from props.common import *

BOUNDS = ('trees of up to 6 elements (scalar, vector, matrix, rank-3/4 leaves, empty slots); finite real updates and parameters; '
          'step size, weight decay any real; min_norm >= 0 symbolic; zero parameters and zero updates included')
FN = ['optax.scale', 'optax.add_decayed_weights', 'optax.additive_weight_decay', 'optax.scale_by_trust_ratio',
      'optax.centralize', 'optax.identity', 'optax._src.numerics.safe_norm']


def once(tx, a, p=None):
  return tx.update(a.g, tx.init(p), p)


def stat(a, o):
  return same('updates', o[0], a.g) + [('no state leaves', not leaves(o[1]))]


def trust_spec(g, p, m, O):
  pn, gn = O.max(O.sqrt(O.sum(p * p)), m), O.max(O.sqrt(O.sum(g * g)), m)
  ok = O.and_(O.gt(pn, 0), O.gt(gn, 0))
  return g * O.where(ok, pn / O.where(ok, gn, 1), 1)


def cases():
  out = []
  out.append(Case('identity', dict(g=ftree(special=True), p=ftree()), run=lambda a: (
      once(optax.identity(), a), once(optax.identity(), a, a.p)), functions=FN,
                  prop=lambda a, o, O: eqs('no params', O, o[0][0], a.g) + eqs('params', O, o[1][0], a.g),
                  static=lambda a, o: same('updates', o[0][0], a.g) + [('no state', not leaves(o[0][1]))]))
  out.append(Case('scale', dict(g=ftree(), k=real()), run=lambda a: once(optax.scale(a.k), a), functions=FN, static=stat,
                  prop=lambda a, o, O: eqs('u', O, o[0], tmap(lambda g: a.k * g, a.g))))
  out.append(Case('scale non-finite', dict(g=ftree(special=True)), run=lambda a: once(optax.scale(-2.0), a), functions=FN,
                  prop=lambda a, o, O: eqs('u', O, o[0], tmap(lambda g: -2.0 * g, a.g))))
  for n, f in (('add_decayed_weights', optax.add_decayed_weights), ('additive_weight_decay', optax.additive_weight_decay)):
    out.append(Case(n, dict(g=ftree(), p=ftree(), k=real()), run=lambda a, f=f: once(f(a.k), a, a.p), functions=FN, static=stat,
                    prop=lambda a, o, O: eqs('u', O, o[0], tmap(lambda g, p: g + a.k * p, a.g, a.p))))
  out.append(Case('add_decayed_weights default', dict(g=ftree(), p=ftree()), run=lambda a: once(optax.add_decayed_weights(), a, a.p),
                  functions=FN, prop=lambda a, o, O: eqs('u', O, o[0], a.g)))
  for n, f in (('decay', lambda: optax.add_decayed_weights(0.1)), ('trust', lambda: optax.scale_by_trust_ratio())):
    out.append(Case(n + ' requires params', dict(g=ftree_small()), run=lambda a, f=f: once(f(), a), functions=FN,
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError)))

  # ---- trust ratio
  tt = lambda: {'w': F((2,)), 'n': (F(()), [F((1, 2))])}
  for n, hp, f in (('min_norm', dict(m=nonneg((0.0, 0.5, 1e-3))), lambda a: optax.scale_by_trust_ratio(a.m)),
                   ('default', {}, lambda a: optax.scale_by_trust_ratio())):
    def tprop(a, o, O):
      m = getattr(a, 'm', 0)
      return eqs('ratio', O, o[0], tmap(lambda g, p: trust_spec(g, p, m, O), a.g, a.p)) + [
          ('finite %d' % i, O.isfinite(x)) for i, x in enumerate(leaves(o[0]))]
    out.append(Case('trust ratio ' + n, dict(g=tt(), p=tt(), **hp), run=lambda a, f=f: once(f(a), a, a.p), prop=tprop,
                    static=stat, functions=FN))
  def lars(a, o, O):
    p2, g2, u2 = O.sum(a.p * a.p), O.sum(a.g * a.g), O.sum(o[0] * o[0])
    live = O.and_(O.gt(p2, 0), O.gt(g2, 0))
    return [('update norm equals parameter norm', O.implies(live, O.eq(u2, p2))),
            ('zero parameters: plain update', O.implies(O.eq(p2, 0), O.all(O.eq(o[0], a.g)))),
            ('zero update stays zero', O.implies(O.eq(g2, 0), O.all(O.eq(o[0], 0 * a.g))))]
  out.append(Case('trust ratio norms', dict(g=F((3,)), p=F((3,))), run=lambda a: once(optax.scale_by_trust_ratio(), a, a.p),
                  prop=lars, functions=FN))

  # ---- centralize
  shapes = [(), (3,), (2, 2), (1, 2), (2, 1), (2, 2, 2), (1, 2, 1, 2), (2, 0)]
  def cprop(a, o, O):
    r = []
    for i, (x, g) in enumerate(zip(leaves(o[0]), leaves(a.g))):
      s = np.shape(g)
      if 0 in s:
        continue
      if len(s) < 2:
        r.append(('untouched %d' % i, O.eq(x, g)))
        continue
      n = int(np.prod(s[1:]))
      for j in range(s[0]):
        m = O.sum(g[j]) / n
        r += [('mean removed %d/%d' % (i, j), O.eq(x[j], g[j] - m)), ('zero mean %d/%d' % (i, j), O.eq(O.sum(x[j]), 0))]
    return r
  out.append(Case('centralize', dict(g=[F(s) for s in shapes if 0 not in s]), run=lambda a: once(optax.centralize(), a), prop=cprop,
                  static=stat, functions=FN))
  def idem(a):
    u, s = once(optax.centralize(), a)
    return u, optax.centralize().update(u, s)[0]
  out.append(Case('centralize twice', dict(g=[F((2, 2)), F((2,))]), run=idem, functions=FN,
                  prop=lambda a, o, O: eqs('idempotent', O, o[0], o[1])))
  out.append(FPCase('identity float32 exact', dict(g=F(special=True)),
                    run=lambda a: optax.identity().update(a.g, optax.EmptyState())[0],
                    prop=lambda a, o, O: [('bits', O.or_(O.nan(a.g), O.same_bits(o, a.g)))], functions=FN))
  return out
