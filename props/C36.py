"""Wrappers nest in any order, and neutral settings change nothing."""
import collections

import optax
from props.common import *

BOUNDS = ('every ordered pair of the seven wrappers (MultiSteps, masked, apply_if_finite, maybe_update, flatten, inject_hyperparams, chain with a '
          'windowed sum) and 13 triples, lookahead around each, around an arbitrary (uninterpreted) inner transformation with array and integer state; '
          'all 343 triples in the thorough tier; histories of 3 or 4 updates from init; two leaves (a vector and a scalar), gradients finite or, under apply_if_finite, NaN/Inf; '
          'neutral settings around the same inner transformation')
ASSUMPTIONS = ['The selection of masks and predicates is one fixed choice per wrapper (all choices: C10, C11).']
FN = ['optax.MultiSteps', 'optax.masked', 'optax.apply_if_finite', 'optax.maybe_update', 'optax.flatten', 'optax.inject_hyperparams', 'optax.chain',
      'optax.apply_every', 'optax.lookahead', 'neutral settings of clip, clip_by_global_norm, adaptive_grad_clip, scale, trace, ema, add_decayed_weights, '
      'scale_by_schedule, add_noise']


# The reference: wrappers written from their documentation over lists of leaves, with all counters plain Python numbers.
class R:

  def __init__(self, init, update):
    self.init, self.update = init, update


# A state whose fields are named like those of the wrappers around it: nobody but its owner may look inside.
COUNTS = ('count', 'step', 'mini_step', 'gradient_step', 'steps_since_sync', 'notfinite_count', 'total_notfinite')
Lookalike = collections.namedtuple('Lookalike', COUNTS + ('last_finite', 'inner_state', 'inner_opt_state', 'acc_grads', 'hyperparams', 'fast_state',
                                                          'fast', 'slow', 'grad_acc', 'trace', 'mu', 'nu'))


def lookalike():
  def init(p):
    z = [jnp.zeros_like(x) for x in leaves(p)]
    return Lookalike(*[jnp.int32(3)] * 7, jnp.bool_(False), z, z, z, dict(rate=jnp.float32(7.)), z, z, z, z, z, z, z)

  def update(u, s, p=None):
    x = leaves(u)
    acc = [a + b for a, b in zip(s.trace, x)]
    v = [a + b * s.count for a, b in zip(acc, x)]
    n = Lookalike(*[jnp.int32(5) + getattr(s, c) for c in COUNTS], jnp.logical_not(s.last_finite), acc, x, acc, dict(rate=s.hyperparams['rate'] + 1.),
                  acc, x, acc, x, acc, x, x)
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(u), v), n
  return optax.GradientTransformation(init, update)


def inner():
  """An arbitrary transformation that looks at the leaves only, not at the container they come in."""
  tx = uf_tx('in', True)

  def update(u, s, p=None):
    v, s = tx.update(leaves(u), s, leaves(p))
    return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(u), v), s
  return optax.GradientTransformation(lambda p: tx.init(leaves(p)), update)


def base():
  tx = inner()
  return R(tx.init, lambda u, s, p: tx.update(u, s, p))


def r_multi(t):
  def init(p):
    return 0, [jnp.zeros_like(x) for x in p], t.init(p)

  def update(u, s, p):
    i, acc, inner = s
    acc = [a + x for a, x in zip(acc, u)]
    if i < 1:
      return [jnp.zeros_like(x) for x in u], (i + 1, acc, inner)
    v, inner = t.update([a / 2 for a in acc], inner, p)
    return v, (0, [jnp.zeros_like(x) for x in acc], inner)
  return R(init, update)


def pick(xs):
  return xs[::2]


def r_masked(t):
  def update(u, s, p):
    v, s = t.update(pick(u), s, pick(p))
    out = list(u)
    out[::2] = v
    return out, s
  return R(lambda p: t.init(pick(p)), update)


def choose(c, x, y):
  return tmap(lambda a, b: jnp.where(c, a, b), x, y)


def r_finite(t):
  def update(u, s, p):
    n, inner = s
    ok = True
    for x in u:
      ok = jnp.logical_and(ok, jnp.all(jnp.isfinite(x)))
    n = jnp.where(ok, 0, n + 1)
    do = jnp.logical_or(ok, n > 1)
    v, new = t.update(u, inner, p)
    return choose(do, v, [jnp.zeros_like(x) for x in u]), (n, r_choose(do, new, inner))
  return R(lambda p: (jnp.int32(0), t.init(p)), update)


class Either:
  """A state of the reference whose counters depend on a condition: both versions are carried."""

  def __init__(self, c, a, b):
    self.c, self.a, self.b = c, a, b


def like(x, items):
  return type(x)(*items) if hasattr(x, '_fields') else type(x)(items)


def r_choose(c, x, y):
  if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
    return like(x, [r_choose(c, a, b) for a, b in zip(x, y)])
  if isinstance(x, dict):
    return {k: r_choose(c, x[k], y[k]) for k in x}
  if isinstance(x, int) and isinstance(y, int) and x == y:
    return x
  if isinstance(x, (int, Either)) or isinstance(y, (int, Either)):
    return Either(c, x, y)
  return jnp.where(c, x, y)


def split(f):
  """Runs an update for every concrete counter the state may hold."""
  def find(s):
    if isinstance(s, Either):
      return s
    if isinstance(s, (tuple, list)):
      for x in s:
        e = find(x)
        if e is not None:
          return e
    return None

  def subst(s, e, side):
    if s is e:
      return e.a if side else e.b
    if isinstance(s, Either):
      return Either(s.c, subst(s.a, e, side), subst(s.b, e, side)) if s.c is not e.c else subst(s.a if side else s.b, e, side)
    if isinstance(s, (tuple, list)):
      return like(s, [subst(x, e, side) for x in s])
    return s

  def update(u, s, p):
    e = find(s)
    if e is None:
      return f(u, s, p)
    ua, sa = update(u, subst(s, e, True), p)
    ub, sb = update(u, subst(s, e, False), p)
    return choose(e.c, ua, ub), r_choose(e.c, sa, sb)
  return update


def r_maybe(t):
  def update(u, s, p):
    i, inner = s
    if i % 2:
      return u, (i + 1, inner)
    v, inner = t.update(u, inner, p)
    return v, (i + 1, inner)
  return R(lambda p: (0, t.init(p)), update)


def r_flatten(t):
  def vec(xs):
    return [jnp.concatenate([jnp.reshape(x, (-1,)) for x in xs])]

  def update(u, s, p):
    v, s = t.update(vec(u), s, vec(p))
    out, k = [], 0
    for x in u:
      n = int(np.prod(np.shape(x)))
      out.append(jnp.reshape(v[0][k:k + n], np.shape(x)))
      k += n
    return out, s
  return R(lambda p: t.init(vec(p)), update)


def r_chain(t):
  """scale(-2), the transformation, then sums over windows of two."""
  def init(p):
    return t.init(p), 0, [jnp.zeros_like(x) for x in p]

  def update(u, s, p):
    inner, i, acc = s
    v, inner = t.update([-2 * x for x in u], inner, p)
    acc = [a + x for a, x in zip(acc, v)]
    z = [jnp.zeros_like(x) for x in u]
    return (acc, (inner, 0, z)) if i else (z, (inner, 1, acc))
  return R(init, update)


def r_inject(t):
  """The transformation, then times 1/(1+step) and the constant 3."""
  def update(u, s, p):
    i, inner = s
    v, inner = t.update(u, inner, p)
    return [x * RATE[i] * 3 for x in v], (i + 1, inner)
  return R(lambda p: (0, t.init(p)), update)


def even_mask(tree):
  ls, td = jax.tree_util.tree_flatten(tree)
  return td.unflatten([i % 2 == 0 for i in range(len(ls))])


# inject_hyperparams reads a schedule at count + 1 on updates (pinned by the library's tests)
RATE = [2., 3., 4., 5., 6., 7.]


def a_inject(t):
  def factory(rate, const):
    def update(u, s, p=None):
      v, s = t.update(u, s, p)
      return tmap(lambda x: x * rate * const, v), s
    return optax.GradientTransformation(t.init, update)  # the state of the inner transformation is the inner state
  return optax.inject_hyperparams(factory)(rate=lambda c: c + 1., const=3.)


W = {
    'multi': (lambda t: optax.MultiSteps(t, 2).gradient_transformation(), r_multi),
    'masked': (lambda t: optax.masked(t, even_mask), r_masked),
    'finite': (lambda t: optax.apply_if_finite(t, 1), r_finite),
    'maybe': (lambda t: optax.maybe_update(t, lambda s: s % 2 == 0), r_maybe),
    'flatten': (optax.flatten, r_flatten),
    'inject': (a_inject, r_inject),
    'chain': (lambda t: optax.chain(optax.scale(-2.), t, optax.apply_every(2)), r_chain),
}
TRIPLES = ['multi masked finite', 'masked multi masked', 'finite chain masked', 'maybe flatten multi', 'flatten masked chain', 'inject masked multi',
           'chain inject flatten', 'masked flatten finite', 'multi inject finite', 'inject multi flatten', 'masked maybe inject', 'chain multi maybe', 'finite masked inject']


def tree(**kw):
  return {'a': F((2,), **kw), 'b': F((), **kw)}


def nest(ws):
  tx, ref = inner(), base()
  for w in reversed(ws):
    tx = W[w][0](tx)
    ref = W[w][1](ref)
    ref.update = split(ref.update)
  return tx, ref


def cases():
  out = []

  def nested(ws, steps, tier='quick'):
    fin = 'finite' in ws

    def run(a):
      tx, ref = nest(ws)
      s, r = tx.init(a.p), ref.init(leaves(a.p))
      got, want = [], []
      for i in range(steps):
        g = tmap(lambda x, i=i: x[i], a.g)
        u, s = tx.update(g, s, a.p)
        v, r = ref.update(leaves(g), r, leaves(a.p))
        got.append(u)
        want.append(v)
      return got, want

    def prop(a, o, O):
      r = []
      for i, (u, v) in enumerate(zip(*o)):
        r += eqs('update %d' % i, O, leaves(u), v)
      return r

    def static(a, o):
      r = []
      for i, u in enumerate(o[0]):
        r += same('update %d' % i, u, a.p)
      return r
    out.append(Case('nest %s steps=%d' % ('('.join(ws), steps), dict(
        p=tree(), g={'a': F((steps, 2), special=fin), 'b': F((steps,))}), run=run, prop=prop, static=static, functions=FN, x64=False,
                    replay_tol=(1e-3, 1e-3), tier=tier))
  for x in W:
    for y in W:
      nested([x, y], 4 if {x, y} <= {'multi', 'chain'} else 3)
      for z in W:
        t = ' '.join((x, y, z))
        nested([x, y, z], 4 if t in TRIPLES or 'finite' not in t else 3, 'quick' if t in TRIPLES else 'thorough')

  # around transformations with counters and accumulators of their own
  def around(w, name, mk):
    fin = w == 'finite'

    def run(a):
      tx, real = W[w][0](mk()), mk()

      def one(u, s, p):
        return real.update(u, s, p)
      ref = W[w][1](R(real.init, one))
      ref.update = split(ref.update)
      s, r = tx.init(a.p), ref.init(leaves(a.p))
      got, want = [], []
      for i in range(4):
        g = tmap(lambda x, i=i: x[i], a.g)
        u, s = tx.update(g, s, a.p)
        v, r = ref.update(leaves(g), r, leaves(a.p))
        got.append(u)
        want.append(v)
      return got, want

    def prop(a, o, O):
      r = []
      for i, (u, v) in enumerate(zip(*o)):
        r += eqs('update %d' % i, O, leaves(u), v)
      return r
    out.append(Case('%s(%s' % (w, name), dict(p=tree(), g={'a': F((4, 2), special=fin and name in ('apply every', 'schedule', 'lookalike')), 'b': F((4,))}), run=run, prop=prop, functions=FN, x64=False,
                    replay_tol=(1e-3, 1e-3), tier='quick' if name in ('apply every', 'schedule', 'ema', 'lookalike') else 'thorough'))
  T = {'apply every': lambda: optax.apply_every(2), 'apply every 3': lambda: optax.apply_every(3), 'lookalike': lookalike, 'schedule': lambda: optax.scale_by_schedule(lambda c: c + 1.), 'ema': lambda: optax.ema(0.5),
       'adam': lambda: optax.scale_by_adam(0.5, 0.5, 1e-3), 'clip': lambda: optax.clip_by_global_norm(1.), 'rss': lambda: optax.scale_by_rss(0.1, 1e-3)}
  for w in W:
    for name, mk in T.items():
      around(w, name, mk)

  # lookahead around each wrapper: two periods of two steps
  def ahead(w):
    def run(a):
      tx, ref = W[w][0](inner()), W[w][1](base())
      ref.update = split(ref.update)
      la = optax.lookahead(tx, 2, a.step)
      p = optax.LookaheadParams.init_synced(a.p)
      s = la.init(p)
      fast = slow = leaves(a.p)
      r = ref.init(fast)
      got, want = [], []
      for i in range(4):
        g = tmap(lambda x, i=i: x[i], a.g)
        u, s = la.update(g, s, p)
        p = optax.apply_updates(p, u)
        v, r = ref.update(leaves(g), r, fast)
        fast = [x + y for x, y in zip(fast, v)]
        if i % 2:
          fast = slow = [x + a.step * (y - x) for x, y in zip(slow, fast)]
        got.append((p.fast, p.slow))
        want.append((fast, slow))
      return got, want

    def prop(a, o, O):
      r = []
      for i, (u, v) in enumerate(zip(*o)):
        r += eqs('fast %d' % i, O, leaves(u[0]), v[0]) + eqs('slow %d' % i, O, leaves(u[1]), v[1])
      return r
    out.append(Case('lookahead(%s' % w, dict(p=tree(), g={'a': F((4, 2)), 'b': F((4,))}, step=F()), run=run, prop=prop, functions=FN,
                    x64=False, replay_tol=(1e-3, 1e-3)))
  for w in W:
    ahead(w)

  # neutral settings
  def const(t, k):
    return optax.inject_hyperparams(lambda rate: optax.chain(t, optax.scale(rate)))(rate=k)
  o_ = optax
  N = {
      'chain of one': lambda t: o_.chain(t), 'identity before': lambda t: o_.chain(o_.identity(), t), 'identity after': lambda t: o_.chain(t, o_.identity()),
      'scale 1': lambda t: o_.chain(t, o_.scale(1.)),
      'trace 0': lambda t: o_.chain(t, o_.trace(0.)), 'nesterov 0': lambda t: o_.chain(t, o_.trace(0., nesterov=True)),
      'ema 0': lambda t: o_.chain(t, o_.ema(0.)), 'ema 0 biased': lambda t: o_.chain(t, o_.ema(0., debias=False)),
      'no decay': lambda t: o_.chain(o_.add_decayed_weights(0.), t), 'decay masked out': lambda t: o_.chain(o_.masked(o_.add_decayed_weights(0.5), lambda p: tmap(lambda _: False, p)), t),
      'schedule 1': lambda t: o_.chain(t, o_.scale_by_schedule(o_.constant_schedule(1.))), 'no noise': lambda t: o_.chain(t, o_.add_noise(0., 0.55, 0)),
      'apply every 1': lambda t: o_.chain(t, o_.apply_every(1)), 'one mini-step': lambda t: o_.MultiSteps(t, 1).gradient_transformation(),
      'one mini-step schedule': lambda t: o_.MultiSteps(t, lambda s: 1).gradient_transformation(),
      'mask all': lambda t: o_.masked(t, lambda p: tmap(lambda _: True, p)), 'mask prefix': lambda t: o_.masked(t, True),
      'mask tree': lambda t: o_.masked(t, {'a': True, 'b': True}),
      'finite': lambda t: o_.apply_if_finite(t, 0), 'always': lambda t: o_.maybe_update(t, lambda s: True), 'inject': lambda t: const(t, 1.),
      'inject schedule': lambda t: const(t, lambda s: 1.), 'centralize (vectors)': lambda t: o_.chain(o_.centralize(), t), 'zero nans': lambda t: o_.chain(o_.zero_nans(), t),
  }

  def neutral(name, mk):
    def run(a):
      t = inner()
      tx = mk(t)
      s, r = tx.init(a.p), t.init(a.p)
      got, want = [], []
      for g in a.g:
        u, s = tx.update(g, s, a.p)
        v, r = t.update(g, r, a.p)
        got.append(u)
        want.append(v)
      return got, want

    def prop(a, o, O):
      r = []
      for i, (u, v) in enumerate(zip(*o)):
        r += eqs('update %d' % i, O, u, v)
      return r
    out.append(Case('neutral %s' % name, dict(p=tree(), g=[tree() for _ in range(3)]), run=run, prop=prop, functions=FN, x64=False, replay_tol=(1e-3, 1e-3)))
  for name, mk in N.items():
    neutral(name, mk)

  # complementary masks partition the tree: each leaf goes through exactly one of them
  def crun(a):
    no = lambda p: tmap(lambda x: not x, even_mask(p))
    tx = optax.chain(optax.masked(optax.trace(a.d), even_mask), optax.masked(optax.trace(a.d), no))
    ref = optax.trace(a.d)
    s, r = tx.init(a.p), ref.init(a.p)
    got, want = [], []
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      v, r = ref.update(g, r, a.p)
      got.append(u)
      want.append(v)
    return got, want
  out.append(Case('complementary masks', dict(p=tree(), g=[tree() for _ in range(3)], d=HP()), run=crun,
                  prop=lambda a, o, O: eqs('update', O, o[0], o[1]), functions=FN))

  return out
