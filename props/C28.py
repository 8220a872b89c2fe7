"""safe_norm (and its gradient), global_norm, safe_int32_increment."""
import optax
from optax._src import numerics, utils, linear_algebra
from props.common import *

BOUNDS = ('a scalar, vectors, matrices and rank-3/4 arrays of up to 4 elements; finite real elements including all zeros; min_norm >= 0 symbolic; '
          'global norm over trees of up to 6 elements and empty trees; count any 32-bit integer')
FN = ['optax._src.numerics.safe_norm', 'optax.global_norm', 'optax._src.numerics.safe_int32_increment']


def cases():
  out = []
  for s in ((), (1,), (3,), (2, 2), (2, 1, 1), (1, 2, 2), (1, 1, 2, 1)):
    def run(a):
      f = lambda x: numerics.safe_norm(x, a.m)
      return f(a.x), jax.grad(f)(a.x)

    def prop(a, o, O):
      n2 = O.sum(a.x * a.x)
      big = O.gt(n2, a.m * a.m)
      r = [('value', O.eq(o[0], O.max(O.sqrt(n2), a.m))), ('at least min_norm', O.ge(o[0], a.m)),
           ('gradient finite', O.all(O.isfinite(o[1])))]
      for i, (g, x) in enumerate(zip(np.reshape(o[1], -1), np.reshape(a.x, -1))):
        r += [('gradient direction %d' % i, O.implies(big, O.eq(g * O.sqrt(n2), x))),
              ('gradient zero below min_norm %d' % i, O.implies(O.not_(big), O.eq(g, 0)))]
      return r
    out.append(Case('safe_norm %s' % (s,), dict(x=F(s), m=nonneg((0.0, 0.5, 1e-3))), run=run, prop=prop, functions=FN,
                    static=lambda a, o: [('scalar', o[0].shape == ())]))
  out.append(Case('safe_norm at zero', dict(m=nonneg((0.0, 0.5))), functions=FN,
                  run=lambda a: (numerics.safe_norm(jnp.zeros(3), a.m), jax.grad(lambda x: numerics.safe_norm(x, a.m))(jnp.zeros(3))),
                  prop=lambda a, o, O: [('value', O.eq(o[0], a.m)), ('gradient zero, not NaN', O.all(O.eq(o[1], 0 * o[1])))]))
  out.append(Case('safe_norm chain rule', dict(x=F((2,)), w=F((2,)), m=pos((0.5, 1e-3))), functions=FN,
                  run=lambda a: jax.grad(lambda x: jnp.sum(a.w * x) / numerics.safe_norm(x, a.m))(a.x),
                  prop=lambda a, o, O: [('finite', O.all(O.isfinite(o)))]))

  out.append(Case('global_norm', dict(t=ftree()), run=lambda a: optax.global_norm(a.t), functions=FN,
                  prop=lambda a, o, O: [('root of the sum of squares', O.eq(o, O.sqrt(sum2(a.t, O)))), ('nonnegative', O.ge(o, 0)),
                                        ('definite', O.implies(O.eq(o, 0), O.and_(*[O.all(O.eq(x, 0 * x)) for x in leaves(a.t)])))],
                  static=lambda a, o: [('scalar', o.shape == ())]))
  out.append(Case('global_norm structure-blind', dict(a=F((2,)), b=F((2,)), k=real()), functions=FN,
                  run=lambda a: (optax.global_norm({'x': a.a, 'y': a.b}), optax.global_norm([jnp.concatenate([a.b, a.a])]),
                                 optax.global_norm((a.b.reshape(1, 2), [a.a, None, {}])), optax.global_norm([a.k * a.a, a.k * a.b])),
                  prop=lambda a, o, O: [('concatenation', O.eq(o[0], o[1])), ('order', O.eq(o[0], o[2])), ('homogeneous', O.eq(o[3], O.abs(a.k) * o[0]))]))
  out.append(Case('global_norm of one leaf', dict(a=F((3,))), run=lambda a: (optax.global_norm(a.a), jnp.linalg.norm(a.a)), functions=FN,
                  prop=lambda a, o, O: [('euclidean', O.eq(*o))]))

  def iprop(a, o, O):
    r = []
    for i, v in enumerate(o):
      r += [('saturating successor %d' % i, O.eq(v, O.where(O.lt(a.c, INT_MAX), a.c + 1, INT_MAX) if O.symbolic else
                                               np.where(a.c < INT_MAX, np.asarray(a.c, np.int64) + 1, INT_MAX))),
            ('never decreases %d' % i, O.le(a.c, v))]
    return r
  out.append(Case('safe_int32_increment', dict(c=Int(lo=-2**31, samples=(2**31 - 2, 2**31 - 1, -1, 0, -2**31))), functions=FN, prop=iprop,
                  run=lambda a: (numerics.safe_int32_increment(a.c), utils.safe_int32_increment(a.c)),
                  static=lambda a, o: [('int32 scalar %d' % i, spec_of(v) == ((), 'int32')) for i, v in enumerate(o)]))
  out.append(Case('safe_int32_increment arrays', dict(c=Int((3,), lo=-2**31, samples=(2**31 - 2, 2**31 - 1))), functions=FN, prop=iprop,
                  run=lambda a: (numerics.safe_int32_increment(a.c),)))
  out.append(Case('safe_int32_increment refuses floats', dict(c=F(())), run=lambda a: numerics.safe_int32_increment(a.c), functions=FN,
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(AssertionError)))
  return out
