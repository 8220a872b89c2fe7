"""Alias optimisers are their documented compositions, with documented defaults."""
import optax
from props.common import *

BOUNDS = ('trees of 3-4 elements; histories of 2 steps (the first from init, the second at an arbitrary step count 0..2^31-1) with arbitrary finite real gradients and parameters '
          '(3 for the closed forms); all float hyperparameters symbolic in their documented ranges; learning rate a '
          'symbolic scalar and an uninterpreted schedule; flags enumerated')
ASSUMPTIONS = ['The primitive transformations themselves are decided by C01-C04, C06, C18-C20.',
               'sm3: leaves of rank >= 1; radam: b2 > 0.6, threshold > 4.']
FN = ['optax.adabelief', 'optax.adagrad', 'optax.adam', 'optax.adamw', 'optax.fromage', 'optax.lamb',
      'optax.noisy_sgd', 'optax.radam', 'optax.rmsprop', 'optax.sgd', 'optax.sm3', 'optax.yogi', 'optax.dpsgd']

LR = object()
ID = dict(b1=unit, b2=lambda: unit(samples=(0.999, 0.9)))


def sched(count):
  from symjax import uf
  return uf.uf('lr', count, np.float32(0))


def seq(stages, a, lr, gs, ps):
  """Apply the stages one after the other, keeping each stage's own state."""
  st = [None if t is LR else t.init(ps) for t in stages]
  out = []
  for i, g in enumerate(gs):
    u = g
    if i:
      st = [s if s is None else with_count(s, a.count) for s in st]
    for k, t in enumerate(stages):
      if t is LR:
        u = tmap(lambda x: -lr(a.count if i else 0) * x, u)
      else:
        u, st[k] = t.update(u, st[k], ps)
    out.append(u)
  return out


def hist(tx, gs, ps, count):
  s = tx.init(ps)
  out = []
  for i, g in enumerate(gs):
    if i:
      s = with_count(s, count)
    u, s = tx.update(g, s, ps)
    out.append(u)
  return out


def variants():
  """name, hyperparameters, alias(lr, a), stages(a), tree kind, schedulable."""
  e8 = lambda: pos((1e-8, 0.1))
  er = lambda: nonneg((0.0, 0.2))
  b2 = ID['b2']
  V = []
  V.append(('adabelief', dict(b1=unit(), b2=b2(), eps=e8()), lambda lr, a: optax.adabelief(lr, a.b1, a.b2, a.eps),
            lambda a: [optax.scale_by_belief(a.b1, a.b2, a.eps, 1e-16), LR]))
  V.append(('adabelief defaults', {}, lambda lr, a: optax.adabelief(lr),
            lambda a: [optax.scale_by_belief(0.9, 0.999, 1e-8, 1e-16), LR]))
  V.append(('adagrad', dict(iv=nonneg((0.1, 0.0)), eps=pos((1e-7, 0.1))), lambda lr, a: optax.adagrad(lr, a.iv, a.eps),
            lambda a: [optax.scale_by_rss(a.iv, a.eps), LR]))
  V.append(('adagrad defaults', {}, lambda lr, a: optax.adagrad(lr), lambda a: [optax.scale_by_rss(0.1, 1e-7), LR]))
  V.append(('adam', dict(b1=unit(), b2=b2(), eps=e8(), eps_root=er()),
            lambda lr, a: optax.adam(lr, a.b1, a.b2, a.eps, a.eps_root),
            lambda a: [optax.scale_by_adam(a.b1, a.b2, a.eps, a.eps_root), LR]))
  V.append(('adam defaults', {}, lambda lr, a: optax.adam(lr), lambda a: [optax.scale_by_adam(0.9, 0.999, 1e-8, 0.), LR]))
  V.append(('adamw', dict(b1=unit(), b2=b2(), eps=e8(), eps_root=er(), wd=real()),
            lambda lr, a: optax.adamw(lr, a.b1, a.b2, a.eps, a.eps_root, a.wd),
            lambda a: [optax.scale_by_adam(a.b1, a.b2, a.eps, a.eps_root), optax.add_decayed_weights(a.wd), LR]))
  V.append(('adamw defaults', {}, lambda lr, a: optax.adamw(lr),
            lambda a: [optax.scale_by_adam(0.9, 0.999, 1e-8, 0.), optax.add_decayed_weights(1e-4), LR]))
  V.append(('lamb', dict(b1=unit(), b2=b2(), eps=e8(), eps_root=er(), wd=real()),
            lambda lr, a: optax.lamb(lr, a.b1, a.b2, a.eps, a.eps_root, a.wd),
            lambda a: [optax.scale_by_adam(a.b1, a.b2, a.eps, a.eps_root), optax.add_decayed_weights(a.wd),
                       optax.scale_by_trust_ratio(0.0), LR]))
  V.append(('lamb defaults', {}, lambda lr, a: optax.lamb(lr),
            lambda a: [optax.scale_by_adam(0.9, 0.999, 1e-6, 0.), optax.add_decayed_weights(0.),
                       optax.scale_by_trust_ratio(0.0), LR]))
  V.append(('noisy_sgd', dict(eta=nonneg((0.01, 0.5)), gamma=pos((0.55, 1.5))),
            lambda lr, a: optax.noisy_sgd(lr, a.eta, a.gamma, 7),
            lambda a: [optax.add_noise(a.eta, a.gamma, 7), LR]))
  V.append(('noisy_sgd defaults', {}, lambda lr, a: optax.noisy_sgd(lr), lambda a: [optax.add_noise(0.01, 0.55, 0), LR]))
  V.append(('radam', dict(b1=unit(), b2=HP(0.6, 1, lo_open=True, hi_open=True, samples=(0.999, 0.9)), eps=e8(), eps_root=er(),
                          th=HP(4, None, lo_open=True, samples=(5.0, 4.5))),
            lambda lr, a: optax.radam(lr, a.b1, a.b2, a.eps, a.eps_root, a.th),
            lambda a: [optax.scale_by_radam(a.b1, a.b2, a.eps, a.eps_root, a.th), LR]))
  V.append(('radam defaults', {}, lambda lr, a: optax.radam(lr),
            lambda a: [optax.scale_by_radam(0.9, 0.999, 1e-8, 0.0, 5.0), LR]))
  for cent in (False, True):
    base_ = lambda a, cent=cent: (optax.scale_by_stddev if cent else optax.scale_by_rms)(a.decay, a.eps, a.iv)
    h = lambda: dict(decay=unit(), eps=pos((1e-3, 0.2)), iv=nonneg((0.0, 0.4)))
    V.append(('rmsprop centered=%s' % cent, h(),
              lambda lr, a, cent=cent: optax.rmsprop(lr, a.decay, a.eps, a.iv, centered=cent),
              lambda a, b=base_: [b(a), LR]))
    for nest in (False, True):
      V.append(('rmsprop centered=%s momentum nesterov=%s' % (cent, nest), dict(m=unit(), **h()),
                lambda lr, a, cent=cent, nest=nest: optax.rmsprop(lr, a.decay, a.eps, a.iv, cent, a.m, nest),
                lambda a, b=base_, nest=nest: [b(a), LR, optax.trace(a.m, nest)]))
  V.append(('rmsprop defaults', {}, lambda lr, a: optax.rmsprop(lr), lambda a: [optax.scale_by_rms(0.9, 1e-8, 0.), LR]))
  V.append(('rmsprop nesterov default', dict(m=unit()), lambda lr, a: optax.rmsprop(lr, momentum=a.m),
            lambda a: [optax.scale_by_rms(0.9, 1e-8, 0.), LR, optax.trace(a.m, False)]))
  V.append(('sgd', {}, lambda lr, a: optax.sgd(lr), lambda a: [LR]))
  for nest in (False, True):
    V.append(('sgd momentum nesterov=%s' % nest, dict(m=real()), lambda lr, a, nest=nest: optax.sgd(lr, a.m, nest),
              lambda a, nest=nest: [optax.trace(a.m, nest), LR]))
  V.append(('sgd nesterov default', dict(m=real()), lambda lr, a: optax.sgd(lr, a.m), lambda a: [optax.trace(a.m, False), LR]))
  V.append(('yogi', dict(b1=unit(), b2=b2(), eps=e8()), lambda lr, a: optax.yogi(lr, a.b1, a.b2, a.eps),
            lambda a: [optax.scale_by_yogi(a.b1, a.b2, a.eps, 0.0, 1e-6), LR]))
  V.append(('yogi defaults', {}, lambda lr, a: optax.yogi(lr), lambda a: [optax.scale_by_yogi(0.9, 0.999, 1e-3, 0.0, 1e-6), LR]))
  V.append(('sm3', dict(m=unit()), lambda lr, a: optax.sm3(lr, a.m), lambda a: [optax.scale_by_sm3(a.m, 1.0, 1e-8), LR]))
  V.append(('sm3 defaults', {}, lambda lr, a: optax.sm3(lr), lambda a: [optax.scale_by_sm3(0.9, 1.0, 1e-8), LR]))
  V.append(('sm3 momentum=None', {}, lambda lr, a: optax.sm3(lr, None), lambda a: [optax.scale_by_sm3(0., 1.0, 1e-8), LR]))
  V.append(('dpsgd', dict(c=pos((1.0, 0.3)), nm=nonneg((1.1, 0.0))), lambda lr, a: optax.dpsgd(lr, a.c, a.nm, 3),
            lambda a: [optax.differentially_private_aggregate(a.c, a.nm, 3), LR]))
  for nest in (False, True):
    V.append(('dpsgd momentum nesterov=%s' % nest, dict(c=pos((1.0, 0.3)), nm=nonneg((1.1, 0.0)), m=unit()),
              lambda lr, a, nest=nest: optax.dpsgd(lr, a.c, a.nm, 3, a.m, nest),
              lambda a, nest=nest: [optax.differentially_private_aggregate(a.c, a.nm, 3), optax.trace(a.m, nest), LR]))
  V.append(('dpsgd nesterov default', dict(m=unit()), lambda lr, a: optax.dpsgd(lr, 1.0, 1.1, 3, a.m),
            lambda a: [optax.differentially_private_aggregate(1.0, 1.1, 3), optax.trace(a.m, False), LR]))
  return V


def cases():
  out = []
  for name, hp, alias, stages in variants():
    kind = name.split()[0]
    for sc in (False, True):
      if sc and kind == 'sm3':
        continue
      if kind == 'sm3':
        tree = lambda: {'w': F((2,)), 'm': F((1, 2))}
      else:
        tree = lambda: {'w': F((2,)), 'n': (F((),),)}
      if kind == 'dpsgd':
        gt = lambda: {'w': F((2, 2)), 'n': (F((2,)),)}
      else:
        gt = tree
      args = dict(p=tree(), g=[gt() for _ in range(2)], count=Int(), **hp)
      if not sc:
        args['lr'] = real((0.1, -0.5))

      def run(a, alias=alias, stages=stages, sc=sc):
        lr = sched if sc else a.lr
        f = (lambda i: sched(jnp.asarray(i, jnp.int32))) if sc else (lambda i: a.lr)
        return hist(alias(lr, a), a.g, a.p, a.count), seq(stages(a), a, f, a.g, a.p)

      def prop(a, o, O):
        r = []
        for i, (x, y) in enumerate(zip(*o)):
          r += eqs('step%d' % i, O, x, y)
        return r
      out.append(Case('%s lr=%s' % (name, 'schedule' if sc else 'scalar'), args, run=run, prop=prop,
                      static=lambda a, o: same('updates', o[0][0], a.p), functions=FN))

  # closed forms at the level of parameters
  def traj(mk):
    def run(a):
      tx = mk(a)
      p, s = a.p, None
      s = tx.init(p)
      ps = []
      for g in a.g:
        u, s = tx.update(g, s, p)
        p = optax.apply_updates(p, u)
        ps.append(p)
      return ps
    return run
  T = ftree_small

  def sgdp(a, o, O):
    r, p = [], a.p
    for i, g in enumerate(a.g):
      p = tmap(lambda x, y: x - a.lr * y, p, g)
      r += eqs('p%d' % i, O, o[i], p)
    return r
  out.append(Case('sgd/trajectory', dict(p=T(), g=[T(), T(), T()], lr=real()), run=traj(lambda a: optax.sgd(a.lr)),
                  prop=sgdp, functions=FN))

  def heavy(nest):
    def prop(a, o, O):
      r, p, v = [], a.p, zeros(a.p)
      for i, g in enumerate(a.g):
        v = tmap(lambda t, y: a.m * t + y, v, g)
        d = tmap(lambda t, y: a.m * t + y, v, g) if nest else v
        p = tmap(lambda x, y: x - a.lr * y, p, d)
        r += eqs('p%d' % i, O, o[i], p)
      return r
    return prop
  for nest in (False, True):
    out.append(Case('momentum/trajectory nesterov=%s' % nest, dict(p=T(), g=[T(), T(), T()], lr=real(), m=real()),
                    run=traj(lambda a, nest=nest: optax.sgd(a.lr, a.m, nest)), prop=heavy(nest), functions=FN))

  def adamw(a, o, O):
    r, p, m, v = [], a.p, zeros(a.p), zeros(a.p)
    for i, g in enumerate(a.g):
      m = tmap(lambda t, y: a.b1 * t + (1 - a.b1) * y, m, g)
      v = tmap(lambda t, y: a.b2 * t + (1 - a.b2) * y * y, v, g)
      c1, c2 = 1 - O.pow(a.b1, i + 1), 1 - O.pow(a.b2, i + 1)
      p = tmap(lambda x, t, y: x - a.lr * ((t / c1) / (O.sqrt(y / c2) + a.eps) + a.wd * x), p, m, v)
      r += eqs('p%d' % i, O, o[i], p)
    return r
  out.append(Case('adamw/trajectory', dict(p=T(), g=[T(), T()], lr=real(), b1=unit(), b2=unit(), eps=pos((1e-8, .1)), wd=real()),
                  run=traj(lambda a: optax.adamw(a.lr, a.b1, a.b2, a.eps, weight_decay=a.wd)), prop=adamw, functions=FN))

  # fromage: w <- (w - lr |w|/|g| g) / sqrt(1 + lr^2), norms floored at min_norm
  def from_(mn):
    def prop(a, o, O):
      u, _ = o
      k = O.sqrt(1 + a.lr * a.lr)
      r = []
      for i, (x, p, g) in enumerate(zip(leaves(u), leaves(a.p), leaves(a.g))):
        pn, gn = O.sqrt(O.sum(p * p)), O.sqrt(O.sum(g * g))
        m = a.mn if mn else O.R(1e-6)
        pn, gn = O.max(pn, m), O.max(gn, m)
        r.append(('new param %d' % i, O.eq(p + x, (p - a.lr * (pn / gn) * g) / k)))
      return r
    return prop
  for mn in (True, False):
    args = dict(p=T(), g=T(), lr=nonneg((0.1, 1.0)))
    if mn:
      args['mn'] = pos((1e-6, 0.5))
    out.append(Case('fromage/update min_norm=%s' % ('symbolic' if mn else 'default'), args,
                    run=lambda a, mn=mn: (lambda tx: tx.update(a.g, tx.init(a.p), a.p))(
                        optax.fromage(a.lr, a.mn) if mn else optax.fromage(a.lr)),
                    prop=from_(mn), functions=FN, static=lambda a, o: same('updates', o[0], a.g)))
  return out
