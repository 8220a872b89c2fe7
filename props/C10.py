"""masked: the inner transformation sees exactly the selected leaves."""
import itertools
import optax
from props.common import *

BOUNDS = ('arbitrary (uninterpreted) inner transformation; parameter trees with 3 leaves/subtrees; every boolean mask of '
          'the full structure, every prefix mask, and callable masks; params given or None; unselected leaves may be '
          'NaN/Inf; inductive step and 2-step histories from init')
FN = ['optax.masked']


def tree(**kw):
  return {'w': F((2,), **kw), 'b': F((), **kw), 'n': (F((1, 2), **kw), F((1,), **kw))}


def masks():
  for x, y, z, w in itertools.product((True, False), repeat=4):
    yield 'full %d%d%d%d' % (x, y, z, w), {'w': x, 'b': y, 'n': (z, w)}
  for x, y, z in itertools.product((True, False), repeat=3):
    yield 'prefix %d%d%d' % (x, y, z), {'w': x, 'b': y, 'n': z}
  yield 'single True', True
  yield 'single False', False
  for x, y, z in itertools.product((np.bool_(True), np.bool_(False)), repeat=3):
    yield 'numpy bool %d%d%d' % (x, y, z), {'w': x, 'b': y, 'n': z}
  yield 'jax bool 101', {'w': jnp.asarray(True), 'b': jnp.asarray(False), 'n': jnp.asarray(True)}
  yield 'array bool 010', {'w': np.asarray(False), 'b': np.asarray(True), 'n': np.asarray(False)}
  yield 'callable ndim', lambda t: tmap(lambda v: jnp.ndim(v) != 1, t)
  yield 'callable prefix', lambda t: {'w': False, 'b': True, 'n': True}


def select(mask, t):
  m = mask(t) if callable(mask) else mask
  fm, td = jax.tree_util.tree_flatten(m)
  sub = td.flatten_up_to(t)
  return [x for x, k in zip(sub, fm) if k], fm, td, sub


def merge(mask, t, new):
  _, fm, td, sub = select(mask, t)
  it = iter(new)
  return td.unflatten([next(it) if k else x for k, x in zip(fm, sub)])


def cases():
  out = []
  for nm, mask in masks():
    for wp in (True, False):
      args = dict(p=tree(), g=[tree(), tree()])

      def run(a, mask=mask, wp=wp):
        tx = optax.masked(uf_tx('in'), mask)
        s = tx.init(a.p)
        us, ss = [], [s.inner_state]
        for g in a.g:
          u, s = tx.update(g, s, a.p) if wp else tx.update(g, s)
          us.append(u)
          ss.append(s.inner_state)
        return us, ss

      def prop(a, o, O, mask=mask, wp=wp):
        us, ss = o
        mp = select(mask, a.p)[0]
        st = uf_init(O, 'in', mp)
        r = eqs('init inner', O, ss[0], st)
        for i, g in enumerate(a.g):
          u, st = uf_upd(O, 'in', select(mask, g)[0], st, mp if wp else None)
          r += eqs('updates %d' % i, O, us[i], merge(mask, g, u)) + eqs('inner %d' % i, O, ss[i + 1], st)
        return r
      out.append(Case('history %s params=%s' % (nm, wp), args, run=run, prop=prop, functions=FN,
                      static=lambda a, o: same('updates', o[0][0], a.p)))

  # unselected leaves pass through bit for bit, whatever they hold; selected ones are transformed
  m = {'w': False, 'b': True, 'n': (True, False)}

  def srun(a):
    tx = optax.masked(optax.scale(a.k), m)
    return tx.update(a.g, tx.init(a.g), a.g)[0]

  def sprop(a, o, O):
    return (eqs('untouched w', O, o['w'], a.g['w']) + eqs('untouched n', O, o['n'][1], a.g['n'][1]) +
            eqs('scaled b', O, o['b'], a.k * a.g['b']) + eqs('scaled n', O, o['n'][0], a.k * a.g['n'][0]))
  out.append(Case('non-finite leaves outside the mask', dict(
      g={'w': F((2,), special=True), 'b': F(), 'n': (F((1, 2)), F((1,), special=True))}, k=real()),
                  run=srun, prop=sprop, functions=FN))

  # weight decay on a subset: the documented use
  def wrun(a):
    tx = optax.masked(optax.add_decayed_weights(a.k), lambda p: tmap(lambda x: x.ndim != 1, p))
    return tx.update(a.g, tx.init(a.p), a.p)[0]

  def wprop(a, o, O):
    return [('leaf %d' % i, O.eq(x, g + a.k * p if np.ndim(p) != 1 else g))
            for i, (x, g, p) in enumerate(zip(leaves(o), leaves(a.g), leaves(a.p)))]
  out.append(Case('masked weight decay', dict(p=tree(), g=tree(), k=real()), run=wrun, prop=wprop, functions=FN))

  # an inner transformation that needs params still complains when there are none
  out.append(Case('missing params reach the inner transformation', dict(g=tree()),
                  run=lambda a: (lambda tx: tx.update(a.g, tx.init(a.g)))(optax.masked(optax.add_decayed_weights(.1), m))[0],
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))
  # bare-array params
  for b in (True, False):
    out.append(Case('array params mask=%s' % b, dict(p=F((2,)), g=F((2,)), k=real()),
                    run=lambda a, b=b: (lambda tx: tx.update(a.g, tx.init(a.p), a.p))(
                        optax.masked(optax.add_decayed_weights(a.k), b))[0],
                    prop=lambda a, o, O, b=b: eqs('u', O, o, a.g + a.k * a.p if b else a.g), functions=FN))
  out += falsy_params('masked', lambda tx: optax.masked(tx, True), FN)
  # a callable mask looks at the tree it masks: updates whose shapes differ from the parameters'
  def drun(a):
    tx = optax.masked(optax.scale(a.k), lambda t: tmap(lambda x: jnp.ndim(x) == 2, t))
    s = tx.init(a.p)
    return tx.update(a.g, s, a.p)[0], tx.update(a.g, s)[0]
  out.append(Case('callable mask of the updates', dict(p=[F((1,)), F((1, 1))], g=[F((1, 1)), F((1,))], k=real()), run=drun,
                  prop=lambda a, o, O: sum([eqs('u', O, x, [a.k * a.g[0], a.g[1]]) for x in o], []), functions=FN))
  return out
