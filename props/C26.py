"""l2, huber and cosine losses."""
import optax
from props.common import *

BOUNDS = ('shapes (), (3), (2,2) and broadcasting targets; finite real predictions and targets; delta > 0 symbolic; cosine: '
          'batches () and (2) of vectors of length 1-3, epsilon >= 0 symbolic, zero vectors with epsilon > 0')
ASSUMPTIONS = ['cosine with epsilon = 0: nonzero vectors (the angle to a zero vector is undefined).']
FN = ['optax.l2_loss', 'optax.huber_loss', 'optax.cosine_similarity', 'optax.cosine_distance', 'optax._src.numerics.safe_norm']


def grads(f):
  return lambda a: jax.grad(lambda p: jnp.sum(f(p, a)))(a.p)


def cases():
  out = []
  shapes = [((), ()), ((3,), (3,)), ((2, 2), (2, 2)), ((2, 2), (2,)), ((2, 2), ()), ((2, 1, 2), (2, 1, 2)),
            ((2, 1, 1, 1), (1, 1, 1, 1))]
  for sp, st in shapes:
    args = dict(p=F(sp), t=F(st))
    out.append(Case('l2 %s %s' % (sp, st), args, run=lambda a: (optax.l2_loss(a.p, a.t), grads(lambda p, a: optax.l2_loss(p, a.t))(a)),
                    functions=FN, static=lambda a, o: [('no reduction', o[0].shape == a.p.shape), ('dtype', o[0].dtype == a.p.dtype)],
                    prop=lambda a, o, O: [('half squared error', O.eq(o[0], (a.p - a.t) * (a.p - a.t) / 2)),
                                          ('gradient', O.eq(o[1], a.p - a.t)), ('nonnegative', O.ge(o[0], 0))]))

    def hprop(a, o, O):
      e = a.p - a.t
      d = O.abs(e)
      return [('value', O.eq(o[0], O.where(O.le(d, a.d), e * e / 2, a.d * a.d / 2 + a.d * (d - a.d)))),
              ('gradient is the clipped error', O.eq(o[1], O.max(O.min(e, a.d), -1 * a.d))),
              ('nonnegative', O.ge(o[0], 0)), ('below l2', O.le(o[0], e * e / 2)), ('zero iff exact', O.implies(O.eq(e, 0), O.eq(o[0], 0)))]
    out.append(Case('huber %s %s' % (sp, st), dict(args, d=pos((1.0, 0.3))), functions=FN, prop=hprop,
                    run=lambda a: (optax.huber_loss(a.p, a.t, a.d), grads(lambda p, a: optax.huber_loss(p, a.t, a.d))(a)),
                    static=lambda a, o: [('no reduction', o[0].shape == a.p.shape), ('dtype', o[0].dtype == a.p.dtype)]))
  out.append(Case('default targets', dict(p=F((3,)), d=pos((1.0, 0.3))), functions=FN,
                  run=lambda a: (optax.l2_loss(a.p), optax.huber_loss(a.p, delta=a.d), optax.huber_loss(a.p, None, a.d),
                                 optax.huber_loss(a.p, jnp.zeros(3, a.p.dtype))),
                  prop=lambda a, o, O: [
                      ('l2', O.eq(o[0], a.p * a.p / 2)), ('huber', O.eq(o[1], o[2])),
                      ('huber value', O.eq(o[1], O.where(O.le(O.abs(a.p), a.d), a.p * a.p / 2, a.d * a.d / 2 + a.d * (O.abs(a.p) - a.d)))),
                      ('default delta is one', O.eq(o[3], O.where(O.le(O.abs(a.p), 1), a.p * a.p / 2, O.abs(a.p) - 0.5)))]))
  out.append(Case('symmetry', dict(p=F((2,)), t=F((2,)), d=pos((1.0,))), functions=FN,
                  run=lambda a: (optax.l2_loss(a.p, a.t), optax.l2_loss(a.t, a.p), optax.huber_loss(a.p, a.t, a.d), optax.huber_loss(a.t, a.p, a.d)),
                  prop=lambda a, o, O: [('l2', O.eq(o[0], o[1])), ('huber', O.eq(o[2], o[3]))]))
  for n, f in (('l2', lambda a: optax.l2_loss(a.i)), ('huber', lambda a: optax.huber_loss(a.i))):
    out.append(Case(n + ' refuses integer predictions', dict(i=Int((2,), lo=-5, hi=5)), run=f, functions=FN,
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(AssertionError)))

  # ---- cosine
  def rows(x):
    x = np.asarray(x)
    return list(x.reshape((-1, x.shape[-1])))

  def cspec(O, p, t, e):
    n = lambda v: O.max(O.sqrt(O.sum(v * v)), e)
    return O.sum(p * t) / (n(p) * n(t))

  def cprop(a, o, O):
    e = getattr(a, 'e', 0)
    r = []
    T = rows(a.t)
    P = rows(np.broadcast_to(np.asarray(a.p), np.shape(a.t)))
    for i, (p, t, s, d) in enumerate(zip(P, T, np.asarray(o[0]).reshape(-1), np.asarray(o[1]).reshape(-1))):
      r += [('similarity %d' % i, O.eq(s, cspec(O, p, t, e))), ('distance %d' % i, O.eq(d, 1 - s)),
            ('finite %d' % i, O.isfinite(s))]
    return r
  for sp, st in (((2,), (2,)), ((3,), (3,)), ((1,), (1,)), ((2, 2), (2, 2)), ((2,), (2, 2)), ((1, 2, 2), (1, 2, 2)), ((2, 1, 1), (2, 1, 1))):
    for eps in (False, True):
      args = dict(p=F(sp), t=F(st), **(dict(e=pos((1e-3, 0.5))) if eps else {}))
      def crun(a):
        k = (a.e,) if hasattr(a, 'e') else ()
        return optax.cosine_similarity(a.p, a.t, *k), optax.cosine_distance(a.p, a.t, *k)
      def dom(a, O):
        return [O.gt(O.sum(v * v), 0) for x in (a.p, a.t) for v in rows(x)]
      out.append(Case('cosine %s %s epsilon=%s' % (sp, st, eps), args, run=crun, prop=cprop, functions=FN,
                      assume=None if eps else dom, static=lambda a, o: [('batch shape', o[0].shape == a.t.shape[:-1] == o[1].shape)]))
  def bprop(a, o, O):
    return [('Cauchy-Schwarz', O.le(o[0] * o[0], 1)), ('scale invariant', O.eq(o[0], o[1])), ('symmetric', O.eq(o[0], o[2])),
            ('self similarity', O.eq(o[3], 1)), ('opposite', O.eq(o[4], -1))]
  out.append(Case('cosine geometry', dict(p=F((2,)), t=F((2,)), k=pos((2.0, 0.3))), functions=FN, prop=bprop,
                  run=lambda a: (optax.cosine_similarity(a.p, a.t), optax.cosine_similarity(a.k * a.p, a.t), optax.cosine_similarity(a.t, a.p),
                                 optax.cosine_similarity(a.p, a.k * a.p), optax.cosine_similarity(a.p, -a.k * a.p)),
                  assume=lambda a, O: [O.gt(O.sum(a.p * a.p), 0), O.gt(O.sum(a.t * a.t), 0)]))
  out.append(Case('cosine of a zero vector', dict(t=F((2,)), e=pos((1e-3, 0.5))), functions=FN,
                  run=lambda a: (optax.cosine_similarity(jnp.zeros(2, a.t.dtype), a.t, a.e), optax.cosine_distance(a.t, jnp.zeros(2, a.t.dtype), a.e),
                                 jax.grad(lambda p: optax.cosine_similarity(p, a.t, a.e))(jnp.zeros(2, a.t.dtype))),
                  prop=lambda a, o, O: [('similarity zero', O.eq(o[0], 0)), ('distance one', O.eq(o[1], 1)), ('gradient finite', O.isfinite(o[2]))]))
  return out
