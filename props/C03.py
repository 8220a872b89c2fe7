"""Second-moment normalisers: rss, rms, stddev."""
import optax
from optax._src import transform
from props.common import *

BOUNDS = ('trees of up to 7 elements; arbitrary finite real gradients; accumulators >= 0 (stddev: nu >= mu^2, shown '
          'inductive); decay symbolic in [0,1), eps > 0 (rss also eps = 0), initial values >= 0; histories of 3 steps')
FN = ['optax.scale_by_rss', 'optax.scale_by_rms', 'optax.scale_by_stddev']


def cases():
  out = []

  # ---- rss
  def rprop(a, o, O):
    u, s = o
    t = tmap(lambda g, x: g * g + x, a.g, a.t)
    w = tmap(lambda g, x: O.where(O.gt(x, 0), g / O.sqrt(O.where(O.gt(x, 0), x + a.eps, 1)), 0), a.g, t)
    return eqs('accumulator', O, s.sum_of_squares, t) + eqs('updates', O, u, w)
  out.append(Case('rss/step', dict(g=ftree(), t=ftree(lo=0), eps=nonneg((1e-7, 0.0, 0.3))),
                  run=lambda a: optax.scale_by_rss(0.1, a.eps).update(a.g, transform.ScaleByRssState(a.t)),
                  static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], transform.ScaleByRssState(a.t)),
                  prop=rprop, functions=FN))

  def rhist(a):
    tx = optax.scale_by_rss(a.iv, a.eps)
    s = s0 = tx.init(a.p)
    us = []
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      us.append(u)
    return us, s, s0

  def rhprop(a, o, O):
    us, s, s0 = o
    t = full(a.p, a.iv)
    r = eqs('init', O, s0.sum_of_squares, t)
    for i, g in enumerate(a.g):
      t = tmap(lambda x, y: x + y * y, t, g)
      w = tmap(lambda g, x: O.where(O.gt(x, 0), g / O.sqrt(O.where(O.gt(x, 0), x + a.eps, 1)), 0), g, t)
      r += eqs('step%d' % i, O, us[i], w)
    return r + eqs('accumulator', O, s.sum_of_squares, t)
  out.append(Case('rss/history', dict(p=ftree_small(), g=[ftree_small() for _ in range(3)],
                                      iv=nonneg((0.1, 0.0)), eps=nonneg((1e-7, 0.0, 0.3))),
                  run=rhist, prop=rhprop, functions=FN))

  # bounded: every component is at most 1 in magnitude
  out.append(Case('rss/bounded', dict(g=F((2,)), t=F((2,), lo=0), eps=nonneg()),
                  run=lambda a: optax.scale_by_rss(0.1, a.eps).update(a.g, transform.ScaleByRssState(a.t))[0],
                  prop=lambda a, o, O: [('|u| <= 1', O.le(O.abs(o), 1)),
                                        ('sign', O.ge(o * a.g, 0))], functions=FN))

  # ---- rms
  def mprop(a, o, O):
    u, s = o
    n = tmap(lambda g, x: a.decay * x + (1 - a.decay) * g * g, a.g, a.n)
    return eqs('nu', O, s.nu, n) + eqs('updates', O, u, tmap(lambda g, x: g / O.sqrt(x + a.eps), a.g, n))
  out.append(Case('rms/step', dict(g=ftree(), n=ftree(lo=0), decay=unit(), eps=pos((1e-8, 0.2))),
                  run=lambda a: optax.scale_by_rms(a.decay, a.eps).update(a.g, transform.ScaleByRmsState(a.n)),
                  static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], transform.ScaleByRmsState(a.n)),
                  prop=mprop, functions=FN))

  # ---- stddev
  def sprop(a, o, O):
    u, s = o
    m = tmap(lambda g, x: a.decay * x + (1 - a.decay) * g, a.g, a.m)
    n = tmap(lambda g, x: a.decay * x + (1 - a.decay) * g * g, a.g, a.n)
    w = tmap(lambda g, x, y: g / O.sqrt(y - x * x + a.eps), a.g, m, n)
    r = eqs('mu', O, s.mu, m) + eqs('nu', O, s.nu, n) + eqs('updates', O, u, w)
    return r

  def sass(a, O):
    return [O.ge(y, x * x) for x, y in zip(leaves(a.m), leaves(a.n))]

  srun = lambda a: optax.scale_by_stddev(a.decay, a.eps).update(a.g, transform.ScaleByRStdDevState(a.m, a.n))
  out.append(Case('stddev/step', dict(g=ftree_small(), m=ftree_small(), n=ftree_small(lo=0), decay=unit(), eps=pos((1e-3, 0.2))),
                  assume=sass, run=srun, prop=sprop, functions=FN,
                  static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], transform.ScaleByRStdDevState(a.m, a.n))))
  out.append(Case('stddev/variance stays nonnegative', dict(g=F(), m=F(), n=F(lo=0), decay=unit(), eps=pos((1e-3, 0.2))),
                  assume=sass, run=srun, functions=FN,
                  prop=lambda a, o, O: [('nu >= mu^2', O.ge(o[1].nu, o[1].mu * o[1].mu)),
                                        ('finite update', O.isfinite(o[0]))]))

  for kind in ('rms', 'stddev'):
    def hist(a, kind=kind):
      tx = getattr(optax, 'scale_by_' + kind)(a.decay, a.eps, a.iv)
      s = s0 = tx.init(a.p)
      us = []
      for g in a.g:
        u, s = tx.update(g, s, a.p)
        us.append(u)
      return us, s, s0

    def hprop(a, o, O, kind=kind):
      us, s, s0 = o
      n, m = full(a.p, a.iv), zeros(a.p)
      r = eqs('init nu', O, s0.nu, n)
      if kind == 'stddev':
        r += eqs('init mu', O, s0.mu, m)
      for i, g in enumerate(a.g):
        n = tmap(lambda x, y: a.decay * x + (1 - a.decay) * y * y, n, g)
        m = tmap(lambda x, y: a.decay * x + (1 - a.decay) * y, m, g)
        w = (tmap(lambda g, y: g / O.sqrt(y + a.eps), g, n) if kind == 'rms' else
             tmap(lambda g, x, y: g / O.sqrt(y - x * x + a.eps), g, m, n))
        r += eqs('step%d' % i, O, us[i], w)
      return r + eqs('nu', O, s.nu, n)
    k = 3 if kind == 'rms' else 2
    out.append(Case(kind + '/history', dict(p=ftree_small(), g=[ftree_small() for _ in range(k)],
                                            decay=unit(), eps=pos((1e-3, 0.2)), iv=nonneg((0.0, 0.4))),
                    run=hist, prop=hprop, functions=FN, static=lambda a, o: same('state', o[1], o[2])))

  # ---- documented defaults
  def ddef(kind, init, upd):
    def run(a):
      tx = getattr(optax, 'scale_by_' + kind)()
      s = tx.init(a.p)
      return tx.update(a.g, s)[0], s

    def prop(a, o, O):
      r = []
      for name, v in init.items():
        r += eqs('default init ' + name, O, getattr(o[1], name), full(a.p, O.R(v)))
      return r + eqs('default update', O, o[0], tmap(lambda g: upd(g, O), a.g))
    out.append(Case(kind + '/defaults', dict(p=ftree_small(), g=ftree_small()), run=run, prop=prop, functions=FN))
  ddef('rss', dict(sum_of_squares=0.1), lambda g, O: g / O.sqrt(g * g + O.R(0.1) + O.R(1e-7)))
  ddef('rms', dict(nu=0.), lambda g, O: g / O.sqrt(O.R(0.1) * g * g + O.R(1e-8)))
  ddef('stddev', dict(nu=0., mu=0.), lambda g, O: g / O.sqrt(O.R(0.1) * g * g - O.R(0.01) * g * g + O.R(1e-8)))
  return out
