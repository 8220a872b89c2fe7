"""Steps are bounded, schedules stay in range and move monotonically."""
import optax
from props.common import *

BOUNDS = ('any gradients (and, for RSS, RMS, momentum and averages, any reachable state: hence any number of updates); Adam with its default and two other '
          'decay pairs for histories of 1 to 3 updates; learning rates and decays symbolic; schedules at two counts 0..2^31-2 in order, with step numbers '
          '1..10^9 and all values symbolic, one-cycle and piecewise schedules with 30 steps and fixed boundaries')
ASSUMPTIONS = ['Bounds are statements over exact reals; rounding may exceed them by an ulp.']
FN = ['optax.scale_by_rss', 'optax.scale_by_rms', 'optax.scale_by_adam', 'optax.scale_by_sm3', 'optax.trace', 'optax.ema', 'optax.sgd', 'optax.adagrad',
      'optax.rmsprop', 'optax.lamb', 'optax.fromage', 'optax.adamw', 'optax.lookahead', 'optax.incremental_update', 'optax.MultiSteps', 'every schedule']
TOL = (1e-3, 1e-3)
STEP = lambda: HPI(1, 10**9, samples=(1, 10, 1000))
CNT = lambda: Int(hi=INT_MAX - 1, samples=(0, 1, 9, 10, 11, 1000))


def sq(O, xs):
  t = None
  for x in leaves(xs):
    for v in np.asarray(x, dtype=object).reshape(-1):
      t = v * v if t is None else t + v * v
  return t


def flat(t):
  return [v for x in leaves(t) for v in np.asarray(x, dtype=object).reshape(-1)]


def steps_cases(out):
  g2 = lambda **kw: F((2,), **kw)

  # ---- from any reachable state: hence after any number of updates
  def rss(a):
    tx = optax.scale_by_rss(eps=a.eps)
    return tx.update(a.g, optax.ScaleByRssState(a.acc))
  out.append(Case('rss', dict(g=g2(), acc=g2(lo=0), eps=nonneg()), run=rss, functions=FN,
                  prop=lambda a, o, O: [('at most 1 (%d)' % i, O.implies(O.gt(a.eps + g * g, 0), O.le(u * u, 1)))
                                        for i, (u, g) in enumerate(zip(flat(o[0]), flat(a.g)))] +
                  [('accumulator grows (%d)' % i, O.ge(n, m)) for i, (n, m) in enumerate(zip(flat(o[1].sum_of_squares), flat(a.acc)))]))

  def ada(a):
    tx = optax.adagrad(a.lr, a.acc0, a.eps)
    s = tx.init(a.p)
    r = []
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      r.append(u)
    return r
  out.append(Case('adagrad', dict(p=g2(), g=[g2(), g2()], lr=nonneg(), acc0=nonneg(), eps=pos()), run=ada, functions=FN,
                  prop=lambda a, o, O: [('at most the learning rate (%d)' % i, O.le(u * u, a.lr * a.lr)) for i, u in enumerate(flat(o))] +
                  [('against the gradient (%d)' % i, O.le(u * g, 0)) for i, (u, g) in enumerate(zip(flat(o), flat(a.g)))]))

  def rms(a):
    return optax.scale_by_rms(a.d, a.eps).update(a.g, optax.ScaleByRmsState(a.nu))[0]
  out.append(Case('rms', dict(g=g2(), nu=g2(lo=0), d=unit(), eps=pos()), run=rms, functions=FN,
                  prop=lambda a, o, O: [('at most 1/sqrt(1-decay) (%d)' % i, O.le(u * u * (1 - a.d), 1)) for i, u in enumerate(flat(o))]))

  def rmsprop(a):
    tx = optax.rmsprop(a.lr, a.d, a.eps)
    s = tx.init(a.g[0])
    r = []
    for g in a.g:
      u, s = tx.update(g, s, a.g[0])
      r.append(u)
    return r
  out.append(Case('rmsprop', dict(g=[g2(), g2()], lr=nonneg(), d=unit(), eps=pos()), run=rmsprop, functions=FN,
                  prop=lambda a, o, O: [('at most lr/sqrt(1-decay) (%d)' % i, O.le(u * u * (1 - a.d), a.lr * a.lr)) for i, u in enumerate(flat(o))] +
                  [('against the gradient (%d)' % i, O.le(u * g, 0)) for i, (u, g) in enumerate(zip(flat(o), flat(a.g)))]))

  def sm3(a):
    tx = optax.scale_by_sm3(0., 1.0, a.eps)
    s = tx.init(a.g[0])
    r = []
    for g in a.g:
      u, s = tx.update(g, s, a.g[0])
      r.append(u)
    return r
  out.append(Case('sm3', dict(g=[F((2, 2)), F((2, 2))], eps=pos()), run=sm3, functions=FN,
                  prop=lambda a, o, O: [('at most 1 (%d)' % i, O.le(u * u, 1)) for i, u in enumerate(flat(o))]))

  # ---- momentum and averages: bounded gradients give bounded outputs, from any state within the bound
  for nest in (False, True):
    def tr(a, nest=nest):
      return optax.trace(a.d, nest).update(a.g, optax.TraceState(a.t))

    def trp(a, o, O, nest=nest):
      lim = a.G  # (1 - d) |trace| <= G
      r = []
      for i, (u, t) in enumerate(zip(flat(o[0]), flat(o[1].trace))):
        r += [('trace (%d)' % i, O.and_(O.le(t * (1 - a.d), lim), O.ge(t * (1 - a.d), -lim))),
              ('update (%d)' % i, O.and_(O.le(u * (1 - a.d), lim), O.ge(u * (1 - a.d), -lim)))]
      return r
    out.append(Case('momentum nesterov=%s' % nest, dict(g=g2(), t=g2(), d=unit(), G=F(lo=0)), run=tr, prop=trp, functions=FN,
                    assume=lambda a, O: [O.and_(O.le(v, a.G), O.ge(v, -a.G)) for v in flat(a.g)] +
                    [O.and_(O.le(v * (1 - a.d), a.G), O.ge(v * (1 - a.d), -a.G)) for v in flat(a.t)]))

  for deb in (False, True):
    def em(a, deb=deb):
      tx = optax.ema(a.d, debias=deb)
      s = tx.init(a.g[0])
      r = []
      for g in a.g:
        u, s = tx.update(g, s)
        r.append(u)
      return r

    def emp(a, o, O, deb=deb):
      r = []
      for i, u in enumerate(flat(o)):
        r.append(('within the gradients seen (%d)' % i, O.and_(O.le(u, a.hi), O.ge(u, a.lo))))
      return r
    out.append(Case('ema debias=%s' % deb, dict(g=[F((1,)) for _ in range(3)], d=unit(), lo=F(), hi=F()), run=em, prop=emp, functions=FN,
                    assume=lambda a, O, deb=deb: [O.and_(O.le(a.lo, v), O.le(v, a.hi)) for v in flat(a.g)] + ([] if deb else [O.le(a.lo, 0), O.ge(a.hi, 0)])))

  # ---- Adam: |m^|^2 <= C_t v^ by Cauchy-Schwarz
  for b1, b2 in ((0.9, 0.999), (0.5, 0.9), (0., 0.5)):
    for n in (1, 2, 3):
      from fractions import Fraction as Q
      x, y = Q(str(b1)), Q(str(b2))
      w = [(1 - x) * x**(n - 1 - i) / (1 - x**n) for i in range(n)]
      z = [(1 - y) * y**(n - 1 - i) / (1 - y**n) for i in range(n)]
      cap = sum(p * p / q for p, q in zip(w, z))

      def ad(a, b1=b1, b2=b2):
        tx = optax.adam(a.lr, b1, b2, a.eps)
        s = tx.init(a.g[0])
        for g in a.g:
          u, s = tx.update(g, s)
        return u

      def adp(a, o, O, cap=cap, n=n):
        num, den = cap.numerator, cap.denominator
        c = O.R(num) / O.R(den) if hasattr(O, 'R') else num / den
        r = [('bounded (%d)' % i, O.le(u * u, a.lr * a.lr * c)) for i, u in enumerate(flat(o))]
        if n == 1:
          r += [('against the gradient (%d)' % i, O.le(u * g, 0)) for i, (u, g) in enumerate(zip(flat(o), flat(a.g)))]
        return r
      out.append(Case('adam %s %s step %d' % (b1, b2, n), dict(g=[F((1,)) for _ in range(n)], lr=nonneg(), eps=pos()), run=ad, prop=adp, functions=FN, replay_tol=(1e-3, 1e-6), tier='thorough' if n == 3 and b1 == 0.9 else 'quick'))

  # ---- norms of layer-wise optimisers
  def lamb(a):
    tx = optax.lamb(a.lr, weight_decay=a.wd)
    u, _ = tx.update({'w': a.g, 'n': a.h}, tx.init({'w': a.p, 'n': a.q}), {'w': a.p, 'n': a.q})
    return u
  out.append(Case('lamb', dict(g=g2(), h=F((1,)), p=g2(), q=F((1,)), lr=nonneg(), wd=nonneg()), run=lamb, functions=FN, replay_tol=TOL,
                  assume=lambda a, O: [O.gt(sq(O, a.p), 0), O.gt(sq(O, a.q), 0)],
                  prop=lambda a, o, O: [('layer w moves at most lr * |p|', O.le(sq(O, o['w']), a.lr * a.lr * sq(O, a.p))),
                                        ('layer n moves at most lr * |p|', O.le(sq(O, o['n']), a.lr * a.lr * sq(O, a.q)))]))

  def decay(a):
    tx = optax.adamw(a.lr, weight_decay=a.wd)
    u, _ = tx.update(tmap(jnp.zeros_like, a.p), tx.init(a.p), a.p)
    return optax.apply_updates(a.p, u)
  out.append(Case('adamw without gradients shrinks', dict(p=g2(), lr=nonneg(), wd=nonneg()), run=decay, functions=FN,
                  assume=lambda a, O: [O.le(a.lr * a.wd, 1)],
                  prop=lambda a, o, O: [('not past zero (%d)' % i, O.and_(O.ge(n * p, 0), O.le(n * n, p * p))) for i, (n, p) in enumerate(zip(flat(o), flat(a.p)))]))

  # ---- a gradient step on a quadratic bowl descends
  def bowl(a):
    tx = optax.sgd(a.lr)
    s = tx.init(a.x)
    x = a.x
    r = []
    for _ in range(3):
      u, s = tx.update(jax.grad(lambda z: jnp.sum(0.5 * a.c * z * z))(x), s, x)
      x = optax.apply_updates(x, u)
      r.append(x)
    return r

  def bowlp(a, o, O):
    seq = [a.x] + list(o)
    return [('closer (%d)' % i, O.le(n * n, m * m)) for i, (m, n) in enumerate(zip(flat(seq[:-1]), flat(seq[1:])))]
  out.append(Case('sgd descends a quadratic', dict(x=g2(), c=g2(lo=0), lr=nonneg()), run=bowl, prop=bowlp, functions=FN,
                  assume=lambda a, O: [O.le(a.lr * c, 2) for c in flat(a.c)]))

  # ---- interpolations stay between
  def inc(a):
    return optax.incremental_update({'w': a.new}, {'w': a.old}, a.t)['w']

  def between(O, label, v, x, y):
    return [('%s (%d)' % (label, i), O.and_(O.le(O.min(p, q), r), O.le(r, O.max(p, q)))) for i, (r, p, q) in enumerate(zip(flat(v), flat(x), flat(y)))]
  out.append(Case('incremental update', dict(new=g2(), old=g2(), t=HP(0, 1, samples=(0.1, 0.9))), run=inc, functions=FN,
                  prop=lambda a, o, O: between(O, 'between old and new', o, a.new, a.old)))

  def ahead(a):
    tx = optax.lookahead(optax.sgd(a.lr), 1, a.t)
    p = optax.LookaheadParams(fast=a.fast, slow=a.slow)
    u, _ = tx.update(a.g, tx.init(p), p)
    n = optax.apply_updates(p, u)
    return n.slow, n.fast, a.fast - a.lr * a.g
  out.append(Case('lookahead', dict(fast=g2(), slow=g2(), g=g2(), lr=nonneg(), t=HP(0, 1, samples=(0.1, 0.9))), run=ahead, functions=FN,
                  prop=lambda a, o, O: between(O, 'slow between slow and fast', o[0], a.slow, o[2]) + between(O, 'fast', o[1], a.slow, o[2])))

  def multi(a):
    ms = optax.MultiSteps(optax.identity(), 3)
    s = ms.init(a.g[0])
    for g in a.g:
      u, s = ms.update(g, s)
    return u
  out.append(Case('multi steps', dict(g=[F((1,)) for _ in range(3)], lo=F(), hi=F()), run=multi, functions=FN,
                  assume=lambda a, O: [O.and_(O.le(a.lo, v), O.le(v, a.hi)) for v in flat(a.g)],
                  prop=lambda a, o, O: [('mean between the gradients', O.and_(O.le(a.lo, v), O.le(v, a.hi))) for v in flat(o)]))


def sched_cases(out):
  def add(name, args, mk, prop, assume=None, **kw):
    def run(a):
      f = mk(a)
      return f(a.c), f(a.d)
    out.append(Case('schedule ' + name, dict(args, c=CNT(), d=CNT()), run=run, prop=prop, functions=FN, replay_tol=TOL,
                    assume=lambda a, O: [O.le(a.c, a.d)] + (assume(a, O) if assume else []), **kw))

  def toward(x, y):
    """Moves from x to y without leaving the segment or turning back."""
    def prop(a, o, O):
      p, q = x(a), y(a)
      return [('between', O.and_(O.le(O.min(p, q), o[0]), O.le(o[0], O.max(p, q)))),
              ('forward', O.and_(O.implies(O.le(p, q), O.le(o[0], o[1])), O.implies(O.ge(p, q), O.ge(o[0], o[1]))))]
    return prop

  ends = dict(init=real((1.0, -2.0)), end=real((0.1, 3.0)), steps=STEP())
  ie = toward(lambda a: a.init, lambda a: a.end)
  for p in (1, 2, 3):
    add('polynomial power %d' % p, dict(ends, begin=HPI(-5, 10**9, samples=(-3, 0, 7))), lambda a, p=p: optax.polynomial_schedule(a.init, a.end, p, a.steps, a.begin), ie)
  add('polynomial any power', dict(ends, power=pos((0.5, 2.0))), lambda a: optax.polynomial_schedule(a.init, a.end, a.power, a.steps), ie)
  add('linear', ends, lambda a: optax.linear_schedule(a.init, a.end, a.steps), ie)
  for stair in (False, True):
    add('exponential staircase=%s' % stair, dict(init=pos((1.0, 2.0)), rate=HP(0, 1, lo_open=True, samples=(0.5, 0.9)), steps=STEP(), begin=HPI(0, 10**9, samples=(0, 7))),
        lambda a, stair=stair: optax.exponential_decay(a.init, a.steps, a.rate, a.begin, stair),
        lambda a, o, O: [('positive', O.gt(o[0], 0)), ('at most init', O.le(o[0], a.init)), ('falls', O.ge(o[0], o[1]))], concretize=None)
    add('exponential growth staircase=%s' % stair, dict(init=pos((1.0, 2.0)), rate=HP(1, 4, samples=(1.5, 2.0)), steps=STEP(), end=pos((3., 4.))),
        lambda a, stair=stair: optax.exponential_decay(a.init, a.steps, a.rate, 0, stair, a.end),
        lambda a, o, O: [('at most end', O.le(o[0], a.end)), ('rises', O.le(o[0], o[1]))], concretize=None)
  add('cosine', dict(init=nonneg((1.0, 2.0)), alpha=HP(0, 1, samples=(0.0, 0.1)), steps=STEP()), lambda a: optax.cosine_decay_schedule(a.init, a.steps, a.alpha),
      toward(lambda a: a.init, lambda a: a.alpha * a.init))

  def hump(lo0, peak, lo1, top):
    """Rises from lo0 to peak until the step top, then falls to lo1."""
    def prop(a, o, O):
      t, x, y = top(a), lo0(a), lo1(a)
      return [('at most the peak', O.le(o[0], peak(a))), ('at least the lower end', O.ge(o[0], O.min(x, y))),
              ('rises', O.implies(O.le(a.d, t), O.le(o[0], o[1]))), ('falls', O.implies(O.ge(a.c, t), O.ge(o[0], o[1])))]
    return prop
  below = lambda *ks: lambda a, O: [O.le(getattr(a, k), a.peak) for k in ks]
  add('warmup cosine', dict(init=nonneg((0.0, 0.1)), peak=pos((1.0, 2.0)), end=nonneg((0.0, 0.2)), warm=STEP(), cool=STEP()),
      lambda a: optax.warmup_cosine_decay_schedule(a.init, a.peak, a.warm, a.warm + a.cool, a.end),
      hump(lambda a: a.init, lambda a: a.peak, lambda a: a.end, lambda a: a.warm), below('init', 'end'))
  add('warmup exponential', dict(init=nonneg((0.0, 0.1)), peak=pos((1.0, 2.0)), warm=STEP(), steps=STEP(), rate=HP(0, 1, lo_open=True, hi_open=True, samples=(0.5, 0.9)), begin=HPI(0, 10**8, samples=(0, 7))),
      lambda a: optax.warmup_exponential_decay_schedule(a.init, a.peak, a.warm, a.steps, a.rate, a.begin),
      hump(lambda a: a.init, lambda a: a.peak, lambda a: 0, lambda a: a.warm), below('init'), concretize=None)
  add('linear one-cycle', dict(peak=pos((1.0, 2.0)), div=HP(1, None, samples=(25.0, 2.0)), fin=HP(1, None, samples=(1e4, 10.0))),
      lambda a: optax.linear_onecycle_schedule(30, a.peak, 0.3, 0.85, a.div, a.fin),
      hump(lambda a: a.peak / a.div, lambda a: a.peak, lambda a: a.peak / (a.div * a.fin), lambda a: 9))
  add('cosine one-cycle', dict(peak=pos((1.0, 2.0)), div=HP(1, None, samples=(25.0, 2.0)), fin=HP(1, None, samples=(1e4, 10.0))),
      lambda a: optax.cosine_onecycle_schedule(30, a.peak, 0.3, a.div, a.fin),
      lambda a, o, O: [('at most the peak', O.le(o[0], a.peak)), ('at least the final value', O.ge(o[0] * a.div * a.fin, a.peak)), ('rises', O.implies(O.le(a.d, 9), O.le(o[0], o[1]))),
                       ('falls', O.implies(O.ge(a.c, 9), O.ge(o[0], o[1])))])
  sc = lambda: HP(0, 1, samples=(0.5, 0.1))
  down = lambda a, o, O: [('falls', O.ge(o[0], o[1])), ('at most init', O.le(o[0], a.init)), ('at least the last value', O.ge(o[0], a.init * a.x * a.y))]
  pw = dict(init=nonneg((1.0,)), x=sc(), y=sc())
  add('piecewise constant', pw, lambda a: optax.piecewise_constant_schedule(a.init, {3: a.x, 10: a.y}), down)
  for kind in ('linear', 'cosine'):
    add('piecewise ' + kind, pw, lambda a, kind=kind: optax.piecewise_interpolate_schedule(kind, a.init, {3: a.x, 10: a.y}), down)
  add('sgdr', dict(k=[dict(peak=pos((1.0, 2.0)), warm=HPI(1, 10**6, samples=(1, 5)), cool=HPI(1, 10**6, samples=(1, 5))) for _ in range(2)]),
      lambda a: optax.sgdr_schedule([dict(init_value=0., peak_value=k['peak'], warmup_steps=k['warm'], decay_steps=k['warm'] + k['cool'], end_value=0.) for k in a.k]),
      lambda a, o, O: [('never negative', O.ge(o[0], 0)), ('at most the larger peak', O.le(o[0], O.max(a.k[0]['peak'], a.k[1]['peak'])))])


def cases():
  out = []
  steps_cases(out)
  sched_cases(out)
  return out
