"""Piecewise-constant, piecewise-interpolated and one-cycle schedules."""
import itertools
import optax
from props.common import *

BOUNDS = ('count 0..2^31-1 symbolic (interpolated: 0..2^24), or any real >= 0; boundary sets of size 0-3 enumerated (including 0 and adjacent '
          'steps, given in any order), scales >= 0 and init any real symbolic; one-cycle: transition_steps enumerated '
          '(2, 3, 10, 100, 1000), peak, div_factor > 0, final_div_factor > 0 symbolic, pct values enumerated')
ASSUMPTIONS = ['One-cycle boundaries do not collide (int(pct*steps) distinct).']
FN = ['optax.piecewise_constant_schedule', 'optax.piecewise_interpolate_schedule', 'optax.linear_onecycle_schedule',
      'optax.cosine_onecycle_schedule']
TOL = (2e-4, 2e-4)
SETS = [(5,), (1,), (2, 3), (10, 100), (0, 4), (3, 7, 8), (1, 2, 3)]


def interp(O, kind, a0, a1, pct):
  if kind == 'linear':
    return a0 + (a1 - a0) * pct
  return a1 + (a0 - a1) / 2 * (O.cos(O.pi * pct) + 1)


def pw(O, kind, init, bs, ss, count):
  vals, pts = [init], [0]
  for b, s in zip(bs, ss):
    pts.append(b)
    vals.append(vals[-1] * s)
  o = vals[-1]
  for i in reversed(range(len(bs))):
    n = pts[i + 1] - pts[i]
    if n:
      o = O.where(O.lt(count, pts[i + 1]), interp(O, kind, vals[i], vals[i + 1], (O.R(count) - pts[i]) / n), o)
  return o


def corners(O, kind, f, init, bs, ss):
  return [('x', True)]


def cases():
  out = []
  for bs in SETS:
    n = len(bs)
    args = dict(init=real((1.0, -0.5)), s=[nonneg((0.5, 0.1, 2.0, 0.0)) for _ in bs], count=Int(samples=[b + d for b in bs for d in (-1, 0, 1) if b + d >= 0]))
    for rev in (False, True) if n > 1 else (False,):
      def crun(a, bs=bs, rev=rev):
        d = list(zip(bs, a.s))
        return optax.piecewise_constant_schedule(a.init, dict(d[::-1] if rev else d))(a.count)

      def cprop(a, o, O, bs=bs):
        v = a.init
        for b, s in zip(bs, a.s):
          v = v * O.where(O.le(b, a.count), s, 1)
        return [('product of the passed scales', O.eq(o, v)),
                ('init before the first boundary', O.implies(O.lt(a.count, min(bs)), O.eq(o, a.init)))]
      out.append(Case('constant %s%s' % (bs, ' reversed' * rev), args, run=crun, prop=cprop, functions=FN))
      for kind in ('linear', 'cosine'):
        iargs = dict(args, count=Int(hi=2**24, samples=args['count'].samples))

        def irun(a, bs=bs, rev=rev, kind=kind):
          d = list(zip(bs, a.s))
          return optax.piecewise_interpolate_schedule(kind, a.init, dict(d[::-1] if rev else d))(a.count)

        def iprop(a, o, O, bs=bs, kind=kind):
          r = [('value', O.eq(o, pw(O, kind, a.init, bs, a.s, a.count)))]
          vals = [a.init]
          for s in a.s:
            vals.append(vals[-1] * s)
          r += [('value at boundary %d' % b, O.implies(O.eq(a.count, b), O.eq(o, v))) for b, v in zip(bs, vals[1:])]
          if bs[0]:
            r += [('init at zero', O.implies(O.eq(a.count, 0), O.eq(o, a.init)))]
          r += [('flat after the last boundary', O.implies(O.le(bs[-1], a.count), O.eq(o, vals[-1])))]
          return r
        out.append(Case('interpolate %s %s%s' % (kind, bs, ' reversed' * rev), iargs, run=irun, prop=iprop, functions=FN,
                        replay_tol=TOL))
  # fractional counts
  for bs in ((5,), (2, 3), (1, 4)):
    fargs = dict(init=real((1.0, -0.5)), s=[nonneg((0.5, 0.1, 2.0, 0.0)) for _ in bs], count=HP(0, None, samples=[b + d for b in bs for d in (-0.5, 0.25)]))

    def fprop(a, o, O, bs=bs):
      v = a.init
      for b, s in zip(bs, a.s):
        v = v * O.where(O.le(b, a.count), s, 1)
      return [('product of the passed scales', O.eq(o[0], v)), ('linear', O.eq(o[1], pw(O, 'linear', a.init, bs, a.s, a.count))),
              ('cosine', O.eq(o[2], pw(O, 'cosine', a.init, bs, a.s, a.count)))]

    def frun(a, bs=bs):
      d = dict(zip(bs, a.s))
      return [optax.piecewise_constant_schedule(a.init, d)(a.count)] + [
          optax.piecewise_interpolate_schedule(k, a.init, d)(a.count) for k in ('linear', 'cosine')]
    out.append(Case('fractional count %s' % (bs,), fargs, run=frun, prop=fprop, functions=FN, replay_tol=TOL))
  for n, f in (('constant', lambda a, v: optax.piecewise_constant_schedule(a.init, v)),
               ('linear', lambda a, v: optax.piecewise_interpolate_schedule('linear', a.init, v)),
               ('cosine', lambda a, v: optax.piecewise_interpolate_schedule('cosine', a.init, v))):
    for vn, v in (('none', None), ('empty', {})):
      out.append(Case('%s no boundaries (%s)' % (n, vn), dict(init=real(), count=Int()), run=lambda a, f=f, v=v: f(a, v)(a.count),
                      prop=lambda a, o, O: [('init throughout', O.eq(o, a.init))], functions=FN, replay_tol=TOL))
    out.append(Case('%s negative scale refused' % n, dict(init=real(), s=HP(None, 0, hi_open=True, samples=(-0.5, -1e-6)), t=nonneg(),
                                                          count=Int()),
                    run=lambda a, f=f: f(a, {3: a.t, 5: a.s})(a.count), functions=FN,
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError)))
  out.append(Case('unknown interpolation refused', dict(init=real(), count=Int()), functions=FN,
                  run=lambda a: optax.piecewise_interpolate_schedule('cubic', a.init, {3: 0.5})(a.count),
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError)))

  # ---- one-cycle
  hp = dict(peak=real((1.0, 0.1)), div=pos((25.0, 2.0)), fin=pos((1e4, 10.0)))
  for T in (2, 3, 10, 100, 1000):
    for kind, f, kw in (('linear', optax.linear_onecycle_schedule, {}),
                        ('linear', optax.linear_onecycle_schedule, dict(pct_start=0.4, pct_final=0.8)),
                        ('cosine', optax.cosine_onecycle_schedule, {}),
                        ('cosine', optax.cosine_onecycle_schedule, dict(pct_start=0.5))):
      ps, pf = kw.get('pct_start', 0.3), kw.get('pct_final', 0.85)
      bs = (int(ps * T), int(pf * T), T) if kind == 'linear' else (int(ps * T), T)
      if len(set(bs)) != len(bs):
        continue
      def orun(a, f=f, kw=kw, T=T):
        return f(T, a.peak, div_factor=a.div, final_div_factor=a.fin, **kw)(a.count)

      def oprop(a, o, O, kind=kind, bs=bs):
        i = a.peak / a.div
        vals = [i, a.peak] + ([i] if kind == 'linear' else []) + [i / a.fin]
        pts = (0,) + bs
        e = vals[-1]
        for j in reversed(range(len(bs))):
          n = pts[j + 1] - pts[j]
          if n:
            e = O.where(O.lt(a.count, pts[j + 1]), interp(O, kind, vals[j], vals[j + 1], (O.R(a.count) - pts[j]) / n), e)
        r = [('value', O.eq(o, e)), ('peak at the peak step', O.implies(O.eq(a.count, bs[0]), O.eq(o, a.peak))),
             ('final value', O.implies(O.le(bs[-1], a.count), O.eq(o, i / a.fin)))]
        if bs[0]:
          r.append(('initial value', O.implies(O.eq(a.count, 0), O.eq(o, i))))
        return r
      out.append(Case('one-cycle %s T=%d %s' % (kind, T, kw or ''), dict(hp, count=Int(hi=2**24, samples=[max(0, b + d) for b in bs for d in (-1, 0, 1)])),
                      run=orun, prop=oprop, functions=FN, replay_tol=TOL))
  # defaults
  out.append(Case('one-cycle defaults', dict(peak=real((1.0, 0.1)), count=Int(hi=2**24)), functions=FN, replay_tol=TOL,
                  run=lambda a: (optax.linear_onecycle_schedule(100, a.peak)(a.count), optax.cosine_onecycle_schedule(100, a.peak)(a.count),
                                 optax.linear_onecycle_schedule(100, a.peak, 0.3, 0.85, 25., 1e4)(a.count),
                                 optax.cosine_onecycle_schedule(100, a.peak, 0.3, 25., 1e4)(a.count)),
                  prop=lambda a, o, O: [('linear', O.eq(o[0], o[2])), ('cosine', O.eq(o[1], o[3]))]))
  for T in (0, -5):
    for n, f in (('linear', optax.linear_onecycle_schedule), ('cosine', optax.cosine_onecycle_schedule)):
      out.append(Case('one-cycle %s refuses %d steps' % (n, T), dict(peak=real(), count=Int()), run=lambda a, f=f, T=T: f(T, a.peak)(a.count),
                      prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))
  return out
