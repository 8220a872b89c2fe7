"""flatten: one concatenated vector in, the original tree out."""
import optax
from props.common import *

BOUNDS = ('arbitrary (uninterpreted) inner transformation on the flat vector; trees with scalar, vector, matrix, rank-3, '
          'size-1 and zero-size leaves, single leaf, bare array; params given or None; 2-step histories; elementwise '
          'transformations agree with their unflattened selves')
ASSUMPTIONS = ['All leaves share one dtype (concatenation promotes mixed dtypes).']
FN = ['optax.flatten']

TREES = {
    'mixed': lambda: {'w': F((2, 2)), 'b': F((3,)), 'a': (F(), [F((1, 1, 2))])},
    'scalars': lambda: [F(), F(), F()],
    'size one': lambda: {'a': F((1, 1)), 'b': F((1,)), 'c': (F(), F((3,)))},
    'single': lambda: {'x': F((2, 3))},
    'array': lambda: F((2,)),
    'zero-size': lambda: {'a': F((2,)), 'b': F((0, 2)), 'c': F()},
    'none': lambda: {'a': F((2,)), 'b': None, 'c': (F(),)},
}


def flat(t):
  xs = [np.asarray(x).reshape(-1) for x in leaves(t)]
  return np.concatenate(xs)


def unflat(t, v):
  ls, td = jax.tree_util.tree_flatten(t)
  out, k = [], 0
  for x in ls:
    n = int(np.prod(np.shape(x), dtype=int))
    y = v[k:k + n].reshape(np.shape(x))
    out.append(y if np.shape(x) else y[()])
    k += n
  return td.unflatten(out)


def cases():
  out = []
  for nm, mk in TREES.items():
    for wp in (True, False):
      def run(a, wp=wp):
        tx = optax.flatten(uf_tx('in'))
        s = tx.init(a.p)
        us, ss = [], [s]
        for g in a.g:
          u, s = tx.update(g, s, a.p) if wp else tx.update(g, s)
          us.append(u)
          ss.append(s)
        return us, ss

      def prop(a, o, O, wp=wp):
        us, ss = o
        st = uf_init(O, 'in', flat(a.p))
        r = eqs('init', O, ss[0], st)
        for i, g in enumerate(a.g):
          u, st = uf_upd(O, 'in', flat(g), st, flat(a.p) if wp else None)
          r += eqs('updates %d' % i, O, us[i], unflat(g, u)) + eqs('state %d' % i, O, ss[i + 1], st)
        return r
      out.append(Case('history %s params=%s' % (nm, wp), dict(p=mk(), g=[mk(), mk()]), run=run, prop=prop, functions=FN,
                      static=lambda a, o: same('updates', o[0][0], a.p)))

  el = {
      'adamw': lambda a: optax.adamw(a.k), 'momentum': lambda a: optax.sgd(a.k, 0.9),
      'global norm clip': lambda a: optax.clip_by_global_norm(a.k), 'rms': lambda a: optax.rmsprop(a.k)}
  for nm, mk in el.items():
    def erun(a, mk=mk):
      res = []
      for tx in (mk(a), optax.flatten(mk(a))):
        s = tx.init(a.p)
        us = []
        for g in a.g:
          u, s = tx.update(g, s, a.p)
          us.append(u)
        res.append(us)
      return res

    def eprop(a, o, O):
      r = []
      for i, (x, y) in enumerate(zip(*o)):
        r += eqs('step %d' % i, O, y, x)
      return r
    T = lambda: {'w': F((1, 2)), 'b': F()}
    out.append(Case('transparent for ' + nm, dict(p=T(), g=[T(), T()], k=pos()), run=erun, prop=eprop, functions=FN,
                    static=lambda a, o: same('updates', o[1][0], a.p)))
  out += falsy_params('flatten', optax.flatten, FN)[:1]
  return out
