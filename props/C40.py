"""Only the elements count: leaf shapes, leaf numbers and containers do not change what a transformation does."""
import collections

import optax
from props.C37 import LINEAR, NORMAL, WITHP, CLIPS
from props.common import *

BOUNDS = ('elementwise transformations and ready-made optimisers (about 40) on a tree of 12 leaves in nested dicts, lists, tuples, a NamedTuple and empty slots, of ranks 0 to 5 with '
          'size-one axes, an empty leaf and leaves of 130 and 129x130 elements, against a plain vector; layer-wise ones against each leaf alone; norms '
          'against one vector; losses over 1 to 4 batch axes against single elements or rows; two updates each from init (one on the large matrix); the elements are three free reals per tree, repeated over the leaves')
ASSUMPTIONS = ['Elements of the larger leaves repeat the same three free reals (elements do not influence each other: C37).']
FN = ['init and update of every elementwise and layer-wise transformation', 'optax.apply_updates', 'optax.incremental_update', 'optax.global_norm']

# checked on a matrix of 129x130 elements in the quick tier too
QUICK = ('trace', 'ema', 'scale', 'weight decay', 'apply every', 'adam', 'belief', 'yogi', 'radam', 'rss', 'rms', 'stddev', 'clip', 'zero nans', 'finite', 'flatten', 'multi steps',
         'nonnegative', 'masked all')

Pair = collections.namedtuple('Pair', 'count inner_state')
SHAPES = [(), (1,), (3,), (2, 2), (1, 4), (2, 1, 3), (0,), (1, 2, 2, 1), (2, 1, 1, 1, 2), (130,), (3, 1), (1, 1)]
BIG = [(), (1,), (2, 2), (0,), (1, 1), (1,), (), (3,), (1,), (129, 130), (3, 1), ()]


def fill(v, s, k=0):
  """A leaf of shape s whose elements run through those of v, beginning with the k-th."""
  n = int(np.prod(s))
  return v[np.arange(k, k + n) % v.shape[0]].reshape(s)


def nest(ls):
  a, b, c, d, e, f, g, h, i, j, k, l = ls
  return {'z': a, 'a': [b, (c, None), {}], 'm': Pair(d, (e, f)), 'b': {'b': g, 'a': {'x': [h], 'w': i}}, 'q': (j, [], (k,)), 'c': l}


def spread(v, shapes):
  return nest([fill(v, s, k) for k, s in enumerate(shapes)])


def run2(mk, g, p):
  tx = mk()
  s = tx.init(p)
  r = []
  for x in g:
    u, s = tx.update(x, s, p)
    r.append(u)
  return r


def cases():
  out = []
  el = {k: f for k, f in LINEAR.items() if k not in ('centralize', 'masked')}
  for k, f in NORMAL.items():
    if 'sm3' not in k:
      el[k] = lambda f=f: f(1e-3)
  o = optax
  el.update({'clip': CLIPS['clip'], 'zero nans': CLIPS['zero nans'], 'finite': CLIPS['finite'], 'adamw': WITHP['adamw'],
             'nonnegative': lambda: o.keep_params_nonnegative(), 'masked all': lambda: o.masked(o.trace(0.9), lambda t: tmap(lambda _: True, t)),
             'flatten adam': lambda: o.flatten(o.scale_by_adam(eps=1e-3)), 'multi adam': lambda: o.MultiSteps(o.adam(0.1, eps=1e-3), 2).gradient_transformation(),
             'inject adam': lambda: o.inject_hyperparams(o.adam)(learning_rate=lambda c: 0.5 / (1 + c), eps=1e-3)})
  V = lambda: F((3,))
  tol = dict(functions=FN, x64=False, replay_tol=(1e-3, 1e-4))

  def pairs(a, r, O):
    c = []
    for i, (x, y) in enumerate(r):
      c += [(l, O.all(e)) for l, e in eqs('part %d' % i, O, x, y)]
    return c

  for n, shapes in ((2, SHAPES), (1, BIG)):
    for name, mk in el.items():
      def run(a, mk=mk, shapes=shapes):
        got = run2(mk, [spread(g, shapes) for g in a.g], spread(a.p, shapes))
        want = run2(mk, list(a.g), a.p)
        return [(u, spread(v, shapes)) for u, v in zip(got, want)]
      out.append(Case('elements %s%s' % (name, '' if n == 2 else ' (large)'), dict(g=[V() for _ in range(n)], p=V()), run=run, prop=pairs,
                      tier='quick' if n == 2 or name in QUICK else 'thorough', **tol))

  # layer-wise: each leaf as if alone
  layer = {'centralize': LINEAR['centralize'], 'sm3': lambda: o.scale_by_sm3(eps=1e-3), 'trust ratio': WITHP['trust ratio'], 'agc': WITHP['agc'],
           'lamb': WITHP['lamb'], 'fromage': WITHP['fromage']}
  few = [(), (3,), (2, 2), (1, 3), (2, 1, 2), (1, 2, 1, 1), (1,)]

  for name, mk in layer.items():
    shapes = [s for s in few if s] if name == 'sm3' else few if name != 'agc' else [s for s in few if len(s) < 4]

    def lrun(a, mk=mk, shapes=shapes):
      box = lambda ls: {'b': list(ls[:2]), 'a': (Pair(ls[2], None), {'x': tuple(ls[3:])})}
      ls = lambda v: [fill(v, s, k) for k, s in enumerate(shapes)]
      got = run2(mk, [box(ls(g)) for g in a.g], box(ls(a.p)))
      alone = [run2(mk, [fill(g, s, k) for g in a.g], fill(a.p, s, k)) for k, s in enumerate(shapes)]
      return [(u, box([x[i] for x in alone])) for i, u in enumerate(got)]
    out.append(Case('layers %s' % name, dict(g=[V(), V()], p=V()), run=lrun, prop=pairs, **tol))

  # norms over the whole tree: as of one vector
  def nrun(a):
    t = spread(a.g, SHAPES)
    vec = jnp.concatenate([jnp.reshape(x, (-1,)) for x in leaves(t)])
    tx = o.clip_by_global_norm(1.)
    u, v = tx.update(t, tx.init(t))[0], tx.update(vec, tx.init(vec))[0]
    return [(o.global_norm(t), o.global_norm(vec)), (jnp.concatenate([jnp.reshape(x, (-1,)) for x in leaves(u)]), v)]
  out.append(Case('norms', dict(g=V()), run=nrun, prop=pairs, **tol))

  # applying, averaging, periodic copies
  def urun(a):
    sp = lambda v: spread(v, SHAPES)
    return [(o.apply_updates(sp(a.p), sp(a.g)), sp(o.apply_updates(a.p, a.g))),
            (o.incremental_update(sp(a.p), sp(a.g), a.k), sp(o.incremental_update(a.p, a.g, a.k))),
            (o.periodic_update(sp(a.p), sp(a.g), a.n, 3), sp(o.periodic_update(a.p, a.g, a.n, 3)))]
  out.append(Case('updates', dict(g=V(), p=V(), k=F(), n=Int()), run=urun, prop=pairs, **tol))

  # losses: each element, or each row of the last axis, by itself, whatever the batch axes
  el_loss = {'l2': lambda x, y: o.l2_loss(x, y), 'l2 alone': lambda x, y: o.l2_loss(x), 'huber': lambda x, y: o.huber_loss(x, y, 0.5),
             'sigmoid': lambda x, y: o.sigmoid_binary_cross_entropy(x, y)}
  row_loss = {'softmax': lambda x, y: o.softmax_cross_entropy(x, y), 'cosine similarity': lambda x, y: o.cosine_similarity(x, y, 1e-3),
              'cosine distance': lambda x, y: o.cosine_distance(x, y, 1e-3), 'smooth labels': lambda x, y: o.smooth_labels(x, 0.1)}
  for name, f in el_loss.items():
    def elrun(a, f=f):
      base = f(a.x, a.y)
      return [(f(fill(a.x, s), fill(a.y, s)), fill(base, s)) for s in SHAPES]
    out.append(Case('loss %s' % name, dict(x=V(), y=V()), run=elrun, prop=pairs, **tol))
  for name, f in row_loss.items():
    def rrun(a, f=f):
      rows = [f(a.x[i], a.y[i]) for i in range(3)]
      r = []
      for s in ((1,), (3,), (2, 2), (1, 1, 3), (2, 1, 1, 2), (40,), (0,)):
        n = int(np.prod(s))
        ix = np.arange(n) % 3
        r.append((f(a.x[ix].reshape(s + (2,)), a.y[ix].reshape(s + (2,))), jnp.stack(rows)[ix].reshape(s + np.shape(rows[0]))))
      return r
    out.append(Case('loss %s' % name, dict(x=F((3, 2)), y=F((3, 2))), run=rrun, prop=pairs, **tol))

  # lookahead around an elementwise optimiser
  def larun(a):
    def go(sp):
      tx = o.lookahead(o.sgd(0.1, 0.9), 2, 0.5)
      p = o.LookaheadParams.init_synced(sp(a.p))
      s = tx.init(p)
      for g in a.g:
        u, s = tx.update(sp(g), s, p)
        p = o.apply_updates(p, u)
      return p
    u, v = go(lambda v: spread(v, SHAPES)), go(lambda v: v)
    return [(u.fast, spread(v.fast, SHAPES)), (u.slow, spread(v.slow, SHAPES))]
  out.append(Case('lookahead', dict(g=[V(), V(), V()], p=V()), run=larun, prop=pairs, **tol))
  return out
