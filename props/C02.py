"""Adaptive moment estimators: adam, belief, yogi, radam."""
import optax
from optax._src import transform
from props.common import *

BOUNDS = ('trees of up to 7 elements; arbitrary finite real gradients and first moments, second moments >= 0; '
          'b1, b2 symbolic in [0,1), eps > 0, eps_root >= 0; count 0..2^31-1 (radam: 2^30-2); histories of 3 steps from init; '
          'radam: b2 > 0.6 and threshold > 4 (the region where the rectification is real-valued) plus b2 <= 0.6 '
          '(never rectified)')
FN = ['optax.scale_by_adam', 'optax.scale_by_belief', 'optax.scale_by_yogi', 'optax.scale_by_radam',
      'optax._src.numerics.safe_int32_increment']


def mom(d, m, x):
  return tmap(lambda t, g: d * t + (1 - d) * g, m, x)


def sq(g):
  return tmap(lambda x: x * x, g)


def nu_next(kind, a, O, g, mu, nu):
  if kind in ('adam', 'radam'):
    return mom(a.b2, nu, sq(g))
  if kind == 'belief':
    return mom(a.b2, nu, sq(tmap(lambda x, m: x - m, g, mu)))
  raise ValueError


def yogi_doc(a, O, g, nu):
  """Zaheer et al. 2018: v - (1-b2) sign(v - g^2) g^2."""
  return tmap(lambda x, v: v - (1 - a.b2) * O.sign(v - x * x) * (x * x), g, nu)


def yogi_dev(a, O, g, nu):
  """The recorded deviation: the signed square enters the moment squared."""
  return tmap(lambda x, v: a.b2 * v + (1 - a.b2) * (O.sign(v - x * x) * (x * x)) ** 2, g, nu)


def emit(kind, a, O, mu, nu, c):
  c1, c2 = 1 - O.pow(a.b1, c), 1 - O.pow(a.b2, c)
  ad = tmap(lambda m, v: (m / c1) / (O.sqrt(v / c2 + a.eps_root) + a.eps), mu, nu)
  if kind != 'radam':
    return ad
  p = O.pow(a.b2, c)
  rinf = 2 / (1 - a.b2) - 1
  ro = rinf - 2 * c * p / (1 - p)
  r = O.sqrt((ro - 4) * (ro - 2) * rinf / ((rinf - 4) * (rinf - 2) * ro))
  return tmap(lambda u, m: O.where(O.ge(ro, a.threshold), r * u, m / c1), ad, mu)


def make(kind, a):
  kw = dict(b1=a.b1, b2=a.b2, eps=a.eps, eps_root=a.eps_root)
  if kind == 'radam':
    kw['threshold'] = a.threshold
  if kind == 'yogi' and hasattr(a, 'iv'):
    kw['initial_accumulator_value'] = a.iv
  return getattr(optax, 'scale_by_' + kind)(**kw)


def state(kind, a):
  cls = transform.ScaleByBeliefState if kind == 'belief' else optax.ScaleByAdamState
  return cls(count=a.count, mu=a.mu, nu=a.nu)


def hps(kind):
  d = dict(b1=unit(), b2=unit(samples=(0.999, 0.9, 0.7)), eps=pos((1e-8, 0.1)), eps_root=nonneg((0.0, 0.2)))
  if kind == 'radam':
    d['b2'] = HP(0.6, 1, lo_open=True, hi_open=True, samples=(0.999, 0.9, 0.7))
    d['threshold'] = HP(4, None, lo_open=True, samples=(5.0, 4.5))
  return d


def cnt(kind):
  # 2 * count is an int32 product: beyond 2^30 steps it wraps (b2^count is 0 by then)
  return Int(hi=2**30 - 2) if kind == 'radam' else Int()


def cases():
  out = []
  for kind in ('adam', 'belief', 'radam'):
    def prop(a, o, O, kind=kind):
      u, s = o
      c = sat_inc(a.count, O)
      mu, nu = mom(a.b1, a.mu, a.g), nu_next(kind, a, O, a.g, a.mu, a.nu)
      return (eqs('mu', O, s.mu, mu) + eqs('nu', O, s.nu, nu) + [('count', O.eq(s.count, c))] +
              eqs('updates', O, u, emit(kind, a, O, s.mu, s.nu, c)))
    out.append(Case(kind + '/step', dict(g=ftree(), mu=ftree(), nu=ftree(lo=0), count=cnt(kind), **hps(kind)),
                    run=lambda a, kind=kind: make(kind, a).update(a.g, state(kind, a)),
                    static=lambda a, o, kind=kind: same('updates', o[0], a.g) + same('state', o[1], state(kind, a)),
                    prop=prop, functions=FN))

  # rectification never applies when the variance is never tractable
  def lprop(a, o, O):
    c1 = 1 - O.pow(a.b1, sat_inc(a.count, O))
    return eqs('updates', O, o[0], tmap(lambda m: m / c1, o[1].mu))
  h = hps('radam')
  h['b2'] = HP(0.01, 0.6, samples=(0.5, 0.6, 0.1))
  out.append(Case('radam/low b2', dict(g=ftree_small(), mu=ftree_small(), nu=ftree_small(lo=0), count=Int(hi=1000), **h),
                  run=lambda a: make('radam', a).update(a.g, state('radam', a)),
                  prop=lprop, functions=FN))

  # Yogi: the exact published recursion is a recorded finding; everything else
  # (and that the accumulator follows either the published or the recorded
  # recursion) is decided here.
  def yprop(a, o, O):
    u, s = o
    c = sat_inc(a.count, O)
    doc, dev = yogi_doc(a, O, a.g, a.nu), yogi_dev(a, O, a.g, a.nu)
    r = []
    for i, (x, y, z) in enumerate(zip(leaves(s.nu), leaves(doc), leaves(dev))):
      r.append(('nu/%d' % i, O.or_(O.eq(x, y), O.eq(x, z))))
    return (r + eqs('mu', O, s.mu, mom(a.b1, a.mu, a.g)) + [('count', O.eq(s.count, c))] +
            eqs('updates', O, u, emit('yogi', a, O, s.mu, s.nu, c)))
  ya = lambda: dict(g=ftree(), mu=ftree(), nu=ftree(lo=0), count=Int(), **hps('yogi'))
  yrun = lambda a: make('yogi', a).update(a.g, state('yogi', a))
  out.append(Case('yogi/step', ya(), run=yrun,
                  static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], state('yogi', a)),
                  prop=yprop, functions=FN))
  out.append(Case('yogi/published recursion',
                  dict(g=F(), mu=F(), nu=F(lo=0), count=Int(), **hps('yogi')), run=yrun,
                  prop=lambda a, o, O: eqs('nu', O, o[1].nu, yogi_doc(a, O, a.g, a.nu)),
                  known='yogi-accumulator', functions=FN))

  # histories from init
  for kind in ('adam', 'belief', 'radam', 'yogi'):
    def hist(a, kind=kind):
      tx = make(kind, a)
      s = s0 = tx.init(a.p)
      us, ss = [], []
      for g in a.g:
        u, s = tx.update(g, s, a.p)
        us.append(u)
        ss.append(s)
      return us, ss, s0

    def hprop(a, o, O, kind=kind):
      us, ss, s0 = o
      iv = a.iv if kind == 'yogi' else 0.0
      r = eqs('init mu', O, s0.mu, full(a.p, iv)) + eqs('init nu', O, s0.nu, full(a.p, iv))
      r += [('init count', O.eq(s0.count, 0))]
      mu, nu = full(a.p, iv), full(a.p, iv)
      for i, g in enumerate(a.g):
        if kind == 'yogi':
          nu = ss[i].nu          # its recursion is decided by yogi/step
        else:
          nu = nu_next(kind, a, O, g, mu, nu)
        mu = mom(a.b1, mu, g)
        r += eqs('mu%d' % i, O, ss[i].mu, mu) + eqs('nu%d' % i, O, ss[i].nu, nu)
        r += [('count%d' % i, O.eq(ss[i].count, i + 1))]
        r += eqs('step%d' % i, O, us[i], emit(kind, a, O, mu, nu, i + 1))
      return r
    n = 2 if kind == 'radam' else 3
    args = dict(p=ftree_small(), g=[ftree_small() for _ in range(n)], **hps(kind))
    if kind == 'yogi':
      args['iv'] = pos((1e-6, 0.1))
    out.append(Case(kind + '/history', args, run=hist, prop=hprop, functions=FN,
                    static=lambda a, o: same('state', o[1][-1], o[2])))

  # the first Adam step is the gradient divided by its magnitude
  def fprop(a, o, O):
    return eqs('first', O, o, tmap(lambda g: g / (O.abs(g) + a.eps), a.g))
  out.append(Case('adam/first step', dict(p=ftree_small(), g=ftree_small(), b1=unit(), b2=unit(), eps=pos((1e-8, 0.1))),
                  run=lambda a: (lambda tx: tx.update(a.g, tx.init(a.p))[0])(
                      optax.scale_by_adam(a.b1, a.b2, a.eps)),
                  prop=fprop, functions=FN))

  # documented defaults
  D = dict(adam=dict(b1=.9, b2=.999, eps=1e-8, eps_root=0.), belief=dict(b1=.9, b2=.999, eps=0., eps_root=1e-16),
           yogi=dict(b1=.9, b2=.999, eps=1e-3, eps_root=0.), radam=dict(b1=.9, b2=.999, eps=1e-8, eps_root=0., threshold=5.))
  for kind, kw in D.items():
    def dprop(a, o, O, kind=kind, kw=kw):
      b = NS(**kw)
      b.b1, b.b2, b.eps, b.eps_root = [O.R(kw[k]) if kw[k] != 1e-16 else O.R('1e-16' if O.symbolic else 1e-16) for k in ('b1', 'b2', 'eps', 'eps_root')]
      s = o[1]
      c = sat_inc(a.count, O)
      nu = s.nu if kind == 'yogi' else nu_next(kind, b, O, a.g, a.mu, a.nu)
      return (eqs('mu', O, s.mu, mom(b.b1, a.mu, a.g)) + eqs('nu', O, s.nu, nu) +
              eqs('updates', O, o[0], emit(kind, b, O, s.mu, s.nu, c)))
    out.append(Case(kind + '/defaults', dict(g=ftree_small(), mu=ftree_small(), nu=ftree_small(lo=0), count=cnt(kind)),
                    run=lambda a, kind=kind: getattr(optax, 'scale_by_' + kind)().update(a.g, state(kind, a)),
                    prop=dprop, functions=FN))
  return out
