"""Cross-entropy losses and label smoothing."""
import optax
from props.common import *

BOUNDS = ('exact reals: logits any reals, labels any reals, ranks 1-4, broadcasting, 1-4 classes; stability: float32 '
          'exponential range (exp saturates to inf beyond 88.7, to 0 below -104), logits up to 10^30 in magnitude')
FN = ['optax.sigmoid_binary_cross_entropy', 'optax.softmax_cross_entropy', 'optax.smooth_labels']


def cases():
  out = []
  # ---- sigmoid
  def srun(a):
    f = optax.sigmoid_binary_cross_entropy
    return f(a.x, a.y), jax.grad(lambda x: jnp.sum(f(x, a.y)))(a.x)

  def sprop(a, o, O):
    sig = 1 / (1 + O.exp(-1 * a.x))
    return [('value', O.eq(o[0], -1 * a.y * O.log(sig) - (1 - a.y) * O.log(1 / (1 + O.exp(a.x))))),
            ('gradient', O.eq(o[1], sig - a.y))]
  for sx, sy in (((), ()), ((2,), (2,)), ((2, 2), (2, 2)), ((2,), (2, 2)), ((2, 1, 2), (2, 2, 2)), ((2, 1), (2, 1))):
    out.append(Case('sigmoid %s %s' % (sx, sy), dict(x=F(sx, mags=(-2, 1)), y=F(sy)), run=lambda a: (optax.sigmoid_binary_cross_entropy(a.x, a.y),),
                    functions=FN, prop=lambda a, o, O: sprop(a, (o[0], 0), O)[:1],
                    static=lambda a, o: [('no reduction', o[0].shape == a.y.shape)]))
  out.append(Case('sigmoid gradient', dict(x=F((2,), mags=(-2, 1)), y=F((2,))), run=srun, prop=sprop, functions=FN))
  out.append(Case('sigmoid sign', dict(x=F((2,), mags=(-2, 1)), y=F((2,), lo=0, hi=1)), run=lambda a: optax.sigmoid_binary_cross_entropy(a.x, a.y),
                  functions=FN, prop=lambda a, o, O: [('nonnegative', O.ge(o, 0))]))
  out.append(Case('sigmoid complement', dict(x=F((2,), mags=(-2, 1)), y=F((2,))), functions=FN,
                  run=lambda a: (optax.sigmoid_binary_cross_entropy(a.x, a.y), optax.sigmoid_binary_cross_entropy(-a.x, 1. - a.y)),
                  prop=lambda a, o, O: [('swap the classes', O.eq(*o))]))
  # ---- softmax
  def xrows(v):
    v = np.asarray(v)
    return list(v.reshape((-1, v.shape[-1])))

  def lse(O, x):
    s = 0
    for v in x:
      s = s + O.exp(v)
    return O.log(s)

  def xprop(a, o, O):
    r = []
    X, Y = xrows(np.broadcast_to(np.asarray(a.x), np.shape(a.y))), xrows(a.y)
    for i, (x, y, v) in enumerate(zip(X, Y, np.asarray(o).reshape(-1))):
      r.append(('row %d' % i, O.eq(v, O.sum(y) * lse(O, x) - O.sum(y * x))))
    return r
  for sx, sy in (((2,), (2,)), ((3,), (3,)), ((2, 2), (2, 2)), ((2,), (2, 2)), ((2, 1, 2), (2, 1, 2)),
                 ((1, 2, 2), (2, 2, 2)), ((3, 1), (3, 1))):
    out.append(Case('softmax %s %s' % (sx, sy), dict(x=F(sx, mags=(-2, 1)), y=F(sy)), run=lambda a: optax.softmax_cross_entropy(a.x, a.y),
                    prop=xprop, functions=FN, static=lambda a, o: [('classes reduced', o.shape == a.y.shape[:-1])]))
  out.append(Case('softmax shift invariance', dict(x=F((3,), mags=(-2, 1)), y=F((3,)), c=F((), mags=(-2, 1))), functions=FN,
                  run=lambda a: (optax.softmax_cross_entropy(a.x, a.y), optax.softmax_cross_entropy(a.x + a.c, a.y)),
                  prop=lambda a, o, O: [('equal', O.eq(*o))]))
  out.append(Case('softmax one-hot', dict(x=F((3,), mags=(-2, 1))), functions=FN,
                  run=lambda a: [optax.softmax_cross_entropy(a.x, jnp.eye(3, dtype=a.x.dtype)[i]) for i in range(3)],
                  prop=lambda a, o, O: [('probabilities sum to one', O.eq(O.exp(-1 * o[0]) + O.exp(-1 * o[1]) + O.exp(-1 * o[2]), 1))] +
                  [('nonnegative %d' % i, O.ge(v, 0)) for i, v in enumerate(o)]))

  def ggrad(a):
    return jax.grad(lambda x: optax.softmax_cross_entropy(x, a.y))(a.x)

  def gprop(a, o, O):
    z = O.exp(a.x[0]) + O.exp(a.x[1])
    return [('softmax minus labels %d' % i, O.eq(o[i], O.sum(a.y) * O.exp(a.x[i]) / z - a.y[i])) for i in range(2)]
  out.append(Case('softmax gradient', dict(x=F((2,), mags=(-2, 1)), y=F((2,))), run=ggrad, prop=gprop, functions=FN))
  # ---- smoothing
  for s in ((2,), (3,), (2, 2), (2, 4), (1, 3), (3, 1), (2, 3, 2), (2, 1, 4), (1, 1, 1, 3)):
    def lrun(a):
      return optax.smooth_labels(a.y, a.k)

    def lprop(a, o, O, s=s):
      r = [('value', O.eq(o, (1 - a.k) * a.y + a.k / s[-1]))]
      for i, (u, y) in enumerate(zip(xrows(o), xrows(a.y))):
        r.append(('still a distribution %d' % i, O.implies(O.eq(O.sum(y), 1), O.eq(O.sum(u), 1))))
      return r
    out.append(Case('smooth_labels %s' % (s,), dict(y=F(s), k=HP(0, 1, samples=(0.1, 0.0, 1.0))), run=lrun, prop=lprop, functions=FN,
                    static=lambda a, o: same('labels', o, a.y)))
  # ---- stability
  big = dict(lo=-10**30, hi=10**30)
  lab = dict(lo=0, hi=1)
  out.append(Case('sigmoid stability', dict(x=F((), mags=(0, 30), **big), y=F((), **lab)), mode='range', x64=False, functions=FN,
                  run=lambda a: (optax.sigmoid_binary_cross_entropy(a.x, a.y), jax.grad(optax.sigmoid_binary_cross_entropy)(a.x, a.y)),
                  prop=lambda a, o, O: [('finite', O.isfinite(o[0])), ('gradient finite', O.isfinite(o[1]))]))
  for n in (2, 3):
    out.append(Case('softmax stability %d' % n, dict(x=F((n,), mags=(0, 30), **big), y=F((n,), **lab)), mode='range', x64=False, functions=FN,
                    run=lambda a: (optax.softmax_cross_entropy(a.x, a.y), jax.grad(optax.softmax_cross_entropy)(a.x, a.y)),
                    prop=lambda a, o, O: [('finite', O.isfinite(o[0])), ('gradient finite', O.isfinite(o[1]))]))
  for n, f in (('sigmoid', lambda a: optax.sigmoid_binary_cross_entropy(a.i, a.y)), ('softmax', lambda a: optax.softmax_cross_entropy(a.i, a.y)),
               ('softmax labels', lambda a: optax.softmax_cross_entropy(a.y, a.i)), ('smooth', lambda a: optax.smooth_labels(a.i, 0.1))):
    out.append(Case(n + ' refuses integers', dict(i=Int((2,), lo=-5, hi=5), y=F((2,))), run=f, functions=FN,
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(AssertionError)))
  return out
