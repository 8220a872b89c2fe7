"""Constant, polynomial and linear schedules."""
import optax
from props.common import *

BOUNDS = ('count 0..2^31-1 symbolic, any real >= 0, or an array of counts; transition_steps 1..2^31-1 (and <= 0) symbolic, transition_begin any 32-bit integer '
          '(negative counts as zero); init and end any reals; power symbolic > 0 and 1, 2, 3, 0.5')
TOL = (1e-4, 1e-4)  # int32 / int is float32 even with 64-bit floats
FN = ['optax.constant_schedule', 'optax.polynomial_schedule', 'optax.linear_schedule']


def spec(O, a, power, begin=None, end=None, init=None):
  b = O.max(a.begin, 0) if begin is None else begin
  n = O.min(O.max(a.count - b, 0), a.steps)
  frac = 1 - O.R(n) / O.R(a.steps)
  f = {1: frac, 2: frac * frac, 3: frac * frac * frac}.get(power) if isinstance(power, int) else None
  if f is None:
    f = O.pow(frac, power)
  return (a.init - a.end) * f + a.end


def cases():
  out = []
  base = lambda **kw: dict(init=real((1.0, 0.1, -2.0)), end=real((0.0, 0.5)), count=Int(),
                           steps=HPI(1, 2**31 - 1, samples=(1, 10, 1000)), begin=HPI(-5, 2**31 - 1, samples=(-2, 0, 7)), **kw)

  def edges(a, o, O, power=1):
    b = O.max(a.begin, 0)
    r = [('held at init before the transition', O.implies(O.le(a.count, b), O.eq(o, a.init))),
         ('held at end after the transition', O.implies(O.le(b + O.R(a.steps), O.R(a.count)), O.eq(o, a.end))),
         ('between init and end', O.and_(O.le(O.min(a.init, a.end), o), O.le(o, O.max(a.init, a.end))))]
    return r
  for p in (1, 2, 3, 0.5):
    out.append(Case('polynomial power=%s' % p, base(), replay_tol=TOL, run=lambda a, p=p: optax.polynomial_schedule(
        a.init, a.end, p, a.steps, a.begin)(a.count), functions=FN,
                    prop=lambda a, o, O, p=p: [('value', O.eq(o, spec(O, a, p)))] + edges(a, o, O)))
  out.append(Case('polynomial symbolic power', replay_tol=TOL, args=base(power=HP(0, 50, lo_open=True, samples=(1.5, 0.9, 4.0))),
                  run=lambda a: optax.polynomial_schedule(a.init, a.end, a.power, a.steps, a.begin)(a.count), functions=FN,
                  prop=lambda a, o, O: [('value', O.eq(o, spec(O, a, a.power)))] + edges(a, o, O)))
  out.append(Case('linear', base(), replay_tol=TOL, run=lambda a: optax.linear_schedule(a.init, a.end, a.steps, a.begin)(a.count), functions=FN,
                  prop=lambda a, o, O: [('value', O.eq(o, spec(O, a, 1)))] + edges(a, o, O)))
  nb = base()
  nb.pop('begin')
  out.append(Case('linear default begin', nb, replay_tol=TOL, run=lambda a: optax.linear_schedule(a.init, a.end, a.steps)(a.count), functions=FN,
                  prop=lambda a, o, O: [('value', O.eq(o, spec(O, a, 1, begin=0)))]))
  out.append(Case('polynomial default begin', nb, replay_tol=TOL, run=lambda a: optax.polynomial_schedule(a.init, a.end, 2, a.steps)(a.count),
                  functions=FN, prop=lambda a, o, O: [('value', O.eq(o, spec(O, a, 2, begin=0)))]))

  def mono(a):
    f = optax.polynomial_schedule(a.init, a.end, a.p if hasattr(a, 'p') else 1, a.steps, a.begin)
    return f(a.count), f(a.later)
  for p in (1, 2, 3):
    def mrun(a, p=p):
      f = optax.polynomial_schedule(a.init, a.end, p, a.steps, a.begin)
      return f(a.count), f(a.later)
    out.append(Case('monotone power=%s' % p, replay_tol=TOL, args=base(later=Int()), run=mrun, functions=FN,
                    assume=lambda a, O: [O.le(a.count, a.later)],
                    prop=lambda a, o, O: [('decreases', O.implies(O.ge(a.init, a.end), O.ge(o[0], o[1]))),
                                          ('increases', O.implies(O.le(a.init, a.end), O.le(o[0], o[1])))]))
  for n, s in (('zero', 0), ('negative', -3)):
    out.append(Case('disabled: %s transition_steps' % n, dict(init=real(), end=real(), count=Int()),
                    run=lambda a, s=s: (optax.linear_schedule(a.init, a.end, s)(a.count),
                                        optax.polynomial_schedule(a.init, a.end, 2, s, 5)(a.count)), functions=FN,
                    prop=lambda a, o, O: [('fixed', O.and_(O.eq(o[0], a.init), O.eq(o[1], a.init)))]))
  out.append(Case('constant', dict(v=real(), count=Int()), run=lambda a: optax.constant_schedule(a.v)(a.count), functions=FN,
                  prop=lambda a, o, O: [('value', O.eq(o, a.v))]))
  # counts may be fractional (epochs) or arrays (plots)
  fb = dict(base(), count=HP(0, None, samples=(0.5, 4.5, 12.25)))
  for p in (1, 2):
    out.append(Case('polynomial power=%s fractional count' % p, fb, replay_tol=TOL, run=lambda a, p=p: optax.polynomial_schedule(
        a.init, a.end, p, a.steps, a.begin)(a.count), functions=FN,
                    prop=lambda a, o, O, p=p: [('value', O.eq(o, spec(O, a, p)))] + edges(a, o, O)))
  vb = dict(base(), counts=Int((3,)))
  vb.pop('count')
  out.append(Case('array of counts', vb, replay_tol=TOL, functions=FN,
                  run=lambda a: (optax.polynomial_schedule(a.init, a.end, 2, a.steps, a.begin)(a.counts), optax.linear_schedule(
                      a.init, a.end, a.steps, a.begin)(a.counts)),
                  prop=lambda a, o, O: [('value %d at %d' % (p, i), O.eq(o[p % 2][i], spec(O, NS(
                      init=a.init, end=a.end, steps=a.steps, begin=a.begin, count=a.counts[i]), p))) for p in (1, 2) for i in range(3)],
                  static=lambda a, o: [('shape', o[0].shape == o[1].shape == (3,))]))
  return out
