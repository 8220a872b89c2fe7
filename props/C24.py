"""Exponential and cosine decay, warm-up schedules, joined schedules and warm restarts."""
import optax
from props.common import *

BOUNDS = ('count 0..2^31-1 symbolic (any real >= 0 and arrays of counts for the plain decays); transition/decay/warm-up steps 1..10^9 symbolic (and <= 0); begin symbolic (any sign); init, '
          'peak, end any reals (peak != 0 for the cosine warm-up); decay_rate > 0 symbolic, staircase both; join: 1-4 '
          'uninterpreted schedules with symbolic increasing boundaries; sgdr: 1-4 cycles (5 thorough) with symbolic lengths')
ASSUMPTIONS = ['exponential_decay with end_value: the clip applies to the whole curve, as documented.']
FN = ['optax.exponential_decay', 'optax.cosine_decay_schedule', 'optax.warmup_cosine_decay_schedule',
      'optax.warmup_exponential_decay_schedule', 'optax.join_schedules', 'optax.sgdr_schedule']
TOL = (1e-3, 1e-3)
STEP = lambda: HPI(1, 10**9, samples=(1, 10, 1000))
CNT = lambda: Int(samples=(0, 1, 9, 10, 11, 1000))


def uf_sched(name):
  def f(count):
    from symjax import uf
    return uf.uf(name, count, np.float32(0))
  return f


def expo(O, a, count, begin, stair, end=None):
  d = count - begin
  p = O.R(d) / O.R(a.steps)
  if stair:
    p = O.floor(p)
  v = O.where(O.le(d, 0), a.init, a.init * O.pow(O.R(a.rate), p))
  if end is not None:
    v = O.where(O.lt(a.rate, 1), O.max(v, end), O.min(v, end))
  return v


def cosine(O, count, init, steps, alpha):
  n = O.min(O.R(count), O.R(steps))
  return init * ((1 - alpha) * (1 + O.cos(O.pi * n / O.R(steps))) / 2 + alpha)


def linear(O, count, init, end, steps):
  n = O.min(O.R(count), O.R(steps))
  return init + (end - init) * n / O.R(steps)


def cases():
  out = []
  rate = pos((0.5, 0.9, 1.5, 1.0))
  for stair in (False, True):
    for end in (False, True):
      for begin in (False, True):
        args = dict(init=real((1.0, -2.0)), rate=rate, steps=STEP(), count=CNT())
        if end:
          args['end'] = real((0.1, 3.0))
        if begin:
          args['begin'] = HPI(-5, 10**9, samples=(-3, 0, 7))

        def run(a, stair=stair):
          kw = {}
          if hasattr(a, 'end'):
            kw['end_value'] = a.end
          if hasattr(a, 'begin'):
            kw['transition_begin'] = a.begin
          return optax.exponential_decay(a.init, a.steps, a.rate, staircase=stair, **kw)(a.count)

        def prop(a, o, O, stair=stair):
          b = O.max(a.begin, 0) if hasattr(a, 'begin') else 0
          e = getattr(a, 'end', None)
          r = [('value', O.eq(o, expo(O, a, a.count, b, stair, e)))]
          if e is None:
            r += [('held at init until the transition begins', O.implies(O.le(a.count, b), O.eq(o, a.init))),
                  ('one factor per period', O.implies(O.eq(O.R(a.count), O.R(b) + O.R(a.steps)), O.eq(o, a.init * a.rate)))]
            if stair:
              r.append(('constant within the first stair', O.implies(O.lt(O.R(a.count), O.R(b) + O.R(a.steps)), O.eq(o, a.init))))
          else:
            r += [('end_value bounds from below', O.implies(O.lt(a.rate, 1), O.ge(o, e))),
                  ('end_value bounds from above', O.implies(O.ge(a.rate, 1), O.le(o, e)))]
          return r
        # a quotient near an integer may round differently in float32: replay away from it
        out.append(Case('exponential staircase=%s end=%s begin=%s' % (stair, end, begin), args, run=run, prop=prop, functions=FN,
                        replay_tol=TOL, concretize=None))
  for n, kw in (('zero steps', dict(transition_steps=0, decay_rate=0.5)), ('negative steps', dict(transition_steps=-2, decay_rate=0.5)),
                ('zero rate', dict(transition_steps=5, decay_rate=0))):
    out.append(Case('exponential disabled: ' + n, dict(init=real(), count=Int()),
                    run=lambda a, kw=kw: optax.exponential_decay(a.init, **kw)(a.count), functions=FN,
                    prop=lambda a, o, O: [('fixed', O.eq(o, a.init))]))

  # fractional counts and arrays of counts
  for stair in (False, True):
    out.append(Case('exponential fractional count staircase=%s' % stair, dict(
        init=real((1.0, -2.0)), rate=rate, steps=STEP(), begin=HPI(-5, 10**9, samples=(-3, 0, 7)), count=HP(0, None, samples=(0.5, 7.25, 12.5))),
                    run=lambda a, stair=stair: optax.exponential_decay(a.init, a.steps, a.rate, a.begin, stair)(a.count), functions=FN,
                    prop=lambda a, o, O, stair=stair: [('value', O.eq(o, expo(O, a, a.count, O.max(a.begin, 0), stair)))],
                    replay_tol=TOL, concretize=None))
  out.append(Case('exponential array of counts', dict(init=real((1.0, -2.0)), rate=rate, steps=STEP(), counts=Int((2,), samples=(0, 1, 10, 1000))),
                  run=lambda a: optax.exponential_decay(a.init, a.steps, a.rate)(a.counts), functions=FN, replay_tol=TOL, concretize=None,
                  prop=lambda a, o, O: [('value %d' % i, O.eq(o[i], expo(O, a, a.counts[i], 0, False))) for i in range(2)]))
  out.append(Case('cosine fractional count', dict(init=real((1.0, -0.3)), alpha=real((0.0, 0.1)), steps=STEP(), count=HP(0, None, samples=(0.5, 7.25))),
                  run=lambda a: optax.cosine_decay_schedule(a.init, a.steps, a.alpha)(a.count), functions=FN, replay_tol=TOL,
                  prop=lambda a, o, O: [('value', O.eq(o, cosine(O, a.count, a.init, a.steps, a.alpha)))]))
  out.append(Case('cosine array of counts', dict(init=real((1.0, -0.3)), alpha=real((0.0, 0.1)), steps=STEP(), counts=Int((2,), samples=(0, 1, 10, 1000))),
                  run=lambda a: optax.cosine_decay_schedule(a.init, a.steps, a.alpha)(a.counts), functions=FN, replay_tol=TOL,
                  prop=lambda a, o, O: [('value %d' % i, O.eq(o[i], cosine(O, a.counts[i], a.init, a.steps, a.alpha))) for i in range(2)]))

  # ---- cosine
  def crun(a):
    return optax.cosine_decay_schedule(a.init, a.steps, a.alpha)(a.count)

  def cprop(a, o, O):
    return [('value', O.eq(o, cosine(O, a.count, a.init, a.steps, a.alpha))),
            ('starts at init', O.implies(O.eq(a.count, 0), O.eq(o, a.init))),
            ('ends at alpha*init', O.implies(O.le(O.R(a.steps), O.R(a.count)), O.eq(o, a.alpha * a.init))),
            ('half way', O.implies(O.eq(2 * O.R(a.count), O.R(a.steps)), O.eq(o, a.init * (1 + a.alpha) / 2)))]
  out.append(Case('cosine', dict(init=real((1.0, -0.3)), alpha=real((0.0, 0.1)), steps=STEP(), count=CNT()), run=crun, prop=cprop,
                  functions=FN, replay_tol=TOL))
  out.append(Case('cosine default alpha', dict(init=real(), steps=STEP(), count=CNT()), functions=FN, replay_tol=TOL,
                  run=lambda a: optax.cosine_decay_schedule(a.init, a.steps)(a.count),
                  prop=lambda a, o, O: [('value', O.eq(o, cosine(O, a.count, a.init, a.steps, 0)))]))

  def cmono(a):
    f = optax.cosine_decay_schedule(a.init, a.steps, a.alpha)
    return f(a.count), f(a.later)
  out.append(Case('cosine decreases within its bounds', dict(init=nonneg((1.0,)), alpha=HP(0, 1, samples=(0.0, 0.1)), steps=STEP(), count=CNT(),
                                                             later=CNT()), run=cmono, functions=FN, replay_tol=TOL,
                  assume=lambda a, O: [O.le(a.count, a.later)],
                  prop=lambda a, o, O: [('not above init', O.le(o[0], a.init)), ('not below alpha*init', O.ge(o[0], a.alpha * a.init)),
                                        ('decreasing', O.ge(o[0], o[1]))]))
  for s in (0, -1):
    out.append(Case('cosine refuses %d steps' % s, dict(init=real(), count=Int()), functions=FN,
                    run=lambda a, s=s: optax.cosine_decay_schedule(a.init, s)(a.count),
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError)))

  # ---- warm-ups
  def wc(a):
    return optax.warmup_cosine_decay_schedule(a.init, a.peak, a.warm, a.warm + a.cool, a.end)(a.count)

  def wprop(a, o, O, end=True):
    e = a.end if end else 0
    d = a.count - O.min(a.count, a.warm)
    return [('value', O.eq(o, O.where(O.lt(a.count, a.warm), linear(O, a.count, a.init, a.peak, a.warm),
                                      cosine(O, d, a.peak, a.cool, e / a.peak)))),
            ('starts at init', O.implies(O.eq(a.count, 0), O.eq(o, a.init))),
            ('peak after warm-up', O.implies(O.eq(a.count, a.warm), O.eq(o, a.peak))),
            ('end value at decay_steps', O.implies(O.le(O.R(a.warm) + O.R(a.cool), O.R(a.count)), O.eq(o, e)))]
  wargs = dict(init=real((0.0, 0.1)), peak=pos((1.0, 2.0)), end=real((0.0, 0.2)), warm=STEP(), cool=STEP(), count=CNT())
  out.append(Case('warmup cosine', wargs, run=wc, prop=wprop, functions=FN, replay_tol=TOL))
  out.append(Case('warmup cosine negative peak', dict(wargs, peak=HP(None, 0, hi_open=True, samples=(-1.0,))), run=wc, prop=wprop, functions=FN,
                  replay_tol=TOL))
  noend = {k: v for k, v in wargs.items() if k != 'end'}
  out.append(Case('warmup cosine default end', noend, functions=FN, replay_tol=TOL,
                  run=lambda a: optax.warmup_cosine_decay_schedule(a.init, a.peak, a.warm, a.warm + a.cool)(a.count),
                  prop=lambda a, o, O: wprop(a, o, O, False)))

  for stair in (False, True):
    for full_ in (False, True):
      eargs = dict(first=real((0.0, 0.1)), init=real((1.0, 2.0)), warm=STEP(), steps=STEP(), rate=rate, count=CNT())
      if full_:
        eargs.update(begin=HPI(0, 10**8, samples=(0, 7)), end=real((0.1, 3.0)))

      def we(a, stair=stair):
        kw = dict(transition_begin=a.begin, end_value=a.end) if hasattr(a, 'end') else {}
        return optax.warmup_exponential_decay_schedule(a.first, a.init, a.warm, a.steps, a.rate, staircase=stair, **kw)(a.count)

      def weprop(a, o, O, stair=stair):
        d = a.count - O.min(a.count, a.warm)
        v = expo(O, a, d, getattr(a, 'begin', 0), stair, getattr(a, 'end', None))
        r = [('value', O.eq(o, O.where(O.lt(a.count, a.warm), linear(O, a.count, a.first, a.init, a.warm), v)))]
        if not hasattr(a, 'end'):
          r.append(('peak after warm-up', O.implies(O.eq(a.count, a.warm), O.eq(o, a.init))))
        return r
      out.append(Case('warmup exponential staircase=%s full=%s' % (stair, full_), eargs, run=we, prop=weprop, functions=FN, replay_tol=TOL))

  # ---- join
  for n in (1, 2, 3, 4, 5):
    args = dict(count=Int(), b=[Int(hi=10**6) for _ in range(n - 1)])

    def jrun(a, n=n):
      return optax.join_schedules([uf_sched('s%d' % i) for i in range(n)], list(a.b))(a.count)

    def jprop(a, o, O, n=n):
      r = []
      pts = [None] + list(a.b)
      for i in range(n):
        off = a.count if i == 0 else a.count - pts[i]
        v = O.uf('s%d' % i, off, np.float32(0))
        c = [] if i == 0 else [O.le(pts[i], a.count)]
        if i + 1 < n:
          c.append(O.lt(a.count, pts[i + 1]))
        r.append(('segment %d' % i, O.implies(O.and_(*c) if c else True, O.eq(o, v))))
      return r
    out.append(Case('join of %d' % n, args, run=jrun, prop=jprop, functions=FN, x64=True,
                    assume=lambda a, O: [O.le(x, y) for x, y in zip(a.b, a.b[1:])]))

  # ---- sgdr
  for n in (1, 2, 3, 4, 5):
    args = dict(count=CNT(), c=[dict(init=real((0.0, 0.1)), peak=pos((1.0, 2.0)), end=real((0.0,)),
                                     warm=HPI(1, 10**6, samples=(1, 5)), cool=HPI(1, 10**6, samples=(1, 5))) for _ in range(n)])

    def srun(a):
      kw = [dict(init_value=k['init'], peak_value=k['peak'], warmup_steps=k['warm'], decay_steps=k['warm'] + k['cool'],
                 end_value=k['end']) for k in a.c]
      return optax.sgdr_schedule(kw)(a.count)

    def sprop(a, o, O, n=n):
      r = []
      start = 0
      for i, k in enumerate(a.c):
        t = a.count - start
        stop = start + k['warm'] + k['cool']
        here = O.le(start, a.count) if i + 1 == n else O.and_(O.le(start, a.count), O.lt(a.count, stop))
        v = O.where(O.lt(t, k['warm']), linear(O, t, k['init'], k['peak'], k['warm']),
                    cosine(O, t - k['warm'], k['peak'], k['cool'], k['end'] / k['peak']))
        r += [('cycle %d' % i, O.implies(here, O.eq(o, v))), ('restart %d' % i, O.implies(O.eq(a.count, start), O.eq(o, k['init'])))]
        start = stop
      return r
    out.append(Case('sgdr %d cycles' % n, args, run=srun, prop=sprop, functions=FN, replay_tol=TOL, tier='quick' if n < 5 else 'thorough'))
  return out
