"""inject_hyperparams: scheduled and overridable hyperparameters."""
import optax
from optax._src import schedule as sch
from symjax import uf
from symjax import fv as _fv
from props.common import *

BOUNDS = ('arbitrary (uninterpreted) factory with two numeric hyperparameters, a flag, a callable and a None option; schedules '
          'uninterpreted functions of the count; count 0..2^31-1; any values in state.hyperparams; histories of 3 steps; '
          'equivalence with the plain factory for adam, sgd, trace, scale, clip, add_noise')
ASSUMPTIONS = ['Update i (1-based) reads schedules at i, as the stable tests pin; init reads them at 0.']
FN = ['optax.inject_hyperparams', 'optax._src.numerics.safe_int32_increment']


def sched(name, k=1):
  return lambda count: uf.uf(name, count, np.float32(0))


SEEN = []


def factory(x, y=0.25, flag=True, fn=None, opt=None):
  """An arbitrary transformation of its hyperparameters."""
  SEEN.append((flag, fn, opt))

  def init(params):
    return uf.uf('F:init', (params, x, y), (np.zeros((2,), np.float32),))

  def update(updates, state, params=None):
    ins = (updates, state, x, y) + (() if params is None else (params,))
    return uf.uf('F', ins, (updates, state))
  return optax.GradientTransformation(init, update)


S = lambda: (np.zeros((2,), np.float32),)
like = lambda t: tmap(lambda v: np.zeros(np.shape(v), np.float32), t)


def F_init(O, p, x, y):
  return O.uf('F:init', (p, x, y), S())


def F_upd(O, g, s, x, y, p=None):
  return O.uf('F', (g, s, x, y) + (() if p is None else (p,)), (like(g), S()))


def U(O, name, c):
  return O.uf(name, c, np.float32(0))


def cases():
  out = []
  tree = lambda: {'w': F((2,)), 'b': F(())}
  wrap = optax.inject_hyperparams(factory)
  make = {
      'both numeric': (lambda a: wrap(a.x, y=a.y), lambda O, a, c: (a.x, a.y)),
      'x scheduled': (lambda a: wrap(sched('sx'), a.y), lambda O, a, c: (U(O, 'sx', c), a.y)),
      'y scheduled': (lambda a: wrap(a.x, y=sched('sy')), lambda O, a, c: (a.x, U(O, 'sy', c))),
      'both scheduled': (lambda a: wrap(y=sched('sy'), x=sched('sx')), lambda O, a, c: (U(O, 'sx', c), U(O, 'sy', c))),
      'default y': (lambda a: wrap(a.x), lambda O, a, c: (a.x, 0.25)),
      'default y, x scheduled': (lambda a: wrap(sched('sx')), lambda O, a, c: (U(O, 'sx', c), 0.25)),
  }
  for n, (mk, val) in make.items():
    for wp in (False, True):
      args = dict(g=tree(), p=tree(), x=real((0.1, 2.0)), y=real((0.3, 1.0)), count=Int(), inner=(F((2,)),), hx=F(()), hy=F(()))

      def run(a, mk=mk, wp=wp):
        tx = mk(a)
        s0 = tx.init(a.p)
        st = sch.InjectHyperparamsState(a.count, dict(x=a.hx, y=a.hy), a.inner)
        u, s = tx.update(a.g, st, a.p) if wp else tx.update(a.g, st)
        return dict(c0=s0.count, h0=s0.hyperparams, i0=s0.inner_state, u=u, c=s.count, h=s.hyperparams, i=s.inner_state)

      def prop(a, o, O, n=n, wp=wp, val=val):
        x0, y0 = val(O, a, 0 if not O.symbolic else _iv(0))
        c1 = sat_inc(a.count, O)
        xs, ys = 'x scheduled' in n or 'both sch' in n, 'y scheduled' in n or 'both sch' in n
        vx, vy = val(O, a, c1)
        x = vx if xs else a.hx       # numeric hyperparameters come from the state: overrides count
        y = vy if ys else a.hy       # scheduled ones ignore what the state says
        u, st = F_upd(O, a.g, a.inner, x, y, a.p if wp else None)
        return ([('count starts at zero', O.eq(o['c0'], 0)), ('init x', O.eq(o['h0']['x'], x0)), ('init y', O.eq(o['h0']['y'], y0)),
                 ('count', O.eq(o['c'], c1)), ('x', O.eq(o['h']['x'], x)), ('y', O.eq(o['h']['y'], y))] +
                eqs('inner init', O, o['i0'], F_init(O, a.p, x0, y0)) + eqs('updates', O, o['u'], u) + eqs('inner state', O, o['i'], st))
      out.append(Case('%s params=%s' % (n, wp), args, run=run, prop=prop, functions=FN,
                      static=lambda a, o: [('hyperparameter names', sorted(o['h0']) == ['x', 'y'] == sorted(o['h'])),
                                           ('count type', spec_of(o['c']) == ((), 'int32') == spec_of(o['c0']))]))

  def hist(a):
    tx = wrap(sched('sx'), a.y)
    s = tx.init(a.p)
    hs = [s.hyperparams['x']]
    us = []
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      hs.append(s.hyperparams['x'])
      us.append(u)
    return hs, us

  def hprop(a, o, O):
    r = []
    iv = _iv if O.symbolic else (lambda k: k)
    st = F_init(O, a.p, U(O, 'sx', iv(0)), a.y)
    for i, x in enumerate(o[0]):
      r.append(('schedule read at %d' % i, O.eq(x, U(O, 'sx', iv(i)))))
    for i, g in enumerate(a.g):
      u, st = F_upd(O, g, st, U(O, 'sx', iv(i + 1)), a.y, a.p)
      r += eqs('step %d' % i, O, o[1][i], u)
    return r
  out.append(Case('history', dict(g=[tree() for _ in range(3)], p=tree(), y=real()), run=hist, prop=hprop, functions=FN))

  # override between steps
  def over(a):
    tx = wrap(sched('sx'), a.y)
    s = tx.init(a.p)
    h = dict(s.hyperparams)
    h['y'], h['x'] = a.newy, a.newy
    u, s = tx.update(a.g, s._replace(hyperparams=h), a.p)
    u2, s2 = tx.update(a.g, s, a.p)
    return u, u2, s.hyperparams, s2.hyperparams

  def oprop(a, o, O):
    iv = _iv if O.symbolic else (lambda k: k)
    st = F_init(O, a.p, U(O, 'sx', iv(0)), a.y)
    u, st = F_upd(O, a.g, st, U(O, 'sx', iv(1)), a.newy, a.p)
    u2, st = F_upd(O, a.g, st, U(O, 'sx', iv(2)), a.newy, a.p)
    return eqs('first', O, o[0], u) + eqs('second', O, o[1], u2) + [
        ('override persists', O.and_(O.eq(o[2]['y'], a.newy), O.eq(o[3]['y'], a.newy))),
        ('schedule wins', O.and_(O.eq(o[2]['x'], U(O, 'sx', iv(1))), O.eq(o[3]['x'], U(O, 'sx', iv(2)))))]
  out.append(Case('manual override', dict(g=tree(), p=tree(), y=real(), newy=F(())), run=over, prop=oprop, functions=FN))

  # whatever kind of number it is given as (int, float, NumPy or jax array; by default too), a numeric hyperparameter is in
  # the state and can be overwritten there
  def numfac(i=3, f=0.5, n=np.float32(0.25), j=None, k=-1):
    h = lambda: (i, f, n, j, k)
    return optax.GradientTransformation(lambda p: (), lambda u, s, p=None: (tmap(lambda x: x * i + f * n + j * k, u), s))

  for given in (True, False):
    def kinds(a, given=given):
      tx = optax.inject_hyperparams(numfac)(**(dict(i=7, f=1.5, n=np.array(2.0, np.float32), j=jnp.asarray(4.0), k=0) if given else dict(j=jnp.asarray(4.0))))
      s = tx.init(a.g)
      u0, _ = tx.update(a.g, s)
      u1, s1 = tx.update(a.g, s._replace(hyperparams={k: a.h[k] if k in a.h else v for k, v in s.hyperparams.items()}))
      return u0, u1, s.hyperparams, s1.hyperparams

    def kprop(a, o, O, given=given):
      i, f, n, j, k = (7, 1.5, 2, 4, 0) if given else (3, 0.5, 0.25, 4, -1)
      h = a.h
      return (eqs('as given', O, o[0], tmap(lambda x: x * i + f * n + j * k, a.g)) +
              eqs('overwritten', O, o[1], tmap(lambda x: x * h['i'] + h['f'] * h['n'] + h['j'] * h['k'], a.g)) +
              [('state reports %s' % x, O.eq(o[2][x], v)) for x, v in dict(i=i, f=f, n=n, j=j, k=k).items() if x in o[2]] +
              [('override persists %s' % x, O.eq(o[3][x], h[x])) for x in h if x in o[3]])
    out.append(Case('kinds of numbers%s' % ('' if given else ', defaults'), dict(g=tree(), h={x: F(()) for x in 'ifnjk'}), run=kinds, prop=kprop,
                    functions=FN, x64=False,
                    static=lambda a, o: [('every numeric hyperparameter is in the state', sorted(o[2]) == list('fijkn') == sorted(o[3]))]))

  # flags, static arguments, None
  marker = lambda z: z

  def options(a):
    del SEEN[:]
    tx = optax.inject_hyperparams(factory, static_args='fn')(a.x, flag=False, fn=marker, opt=None)
    s = tx.init(a.p)
    _, s2 = tx.update(a.g, s, a.p)
    ok = len(SEEN) >= 2 and all(f is False and fn is marker and o is None for f, fn, o in SEEN)
    tx = optax.inject_hyperparams(factory, static_args=['fn', 'opt'])(a.x, fn=marker, opt='text')
    del SEEN[:]
    tx.init(a.p)
    ok2 = len(SEEN) >= 1 and all(f is True and fn is marker and o == 'text' for f, fn, o in SEEN)
    return s.hyperparams, s2.hyperparams, np.bool_(ok), np.bool_(ok2)
  out.append(Case('flags and static arguments pass through', dict(g=tree(), p=tree(), x=real()), run=options, functions=FN,
                  prop=lambda a, o, O: [('seen', O.and_(o[2], o[3])), ('x', O.and_(O.eq(o[0]['x'], a.x), O.eq(o[1]['x'], a.x)))],
                  static=lambda a, o: [('only numeric names', sorted(o[0]) == ['x', 'y'] == sorted(o[1]))]))
  out.append(Case('static_args must be parameters', dict(x=real()), functions=FN,
                  run=lambda a: optax.inject_hyperparams(factory, static_args='nope')(a.x).init({'w': jnp.zeros(2)}),
                  prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError)))
  static_sched = lambda count: count * 0

  def static(a):
    def fac(x, z):
      return optax.scale_by_schedule(z) if callable(z) else optax.scale(x)
    tx = optax.inject_hyperparams(fac, static_args=('z',))(a.x, static_sched)
    return tx.update(a.g, tx.init(a.p))[0]
  out.append(Case('a static schedule reaches the factory as it is', dict(g=tree(), p=tree(), x=real()), run=static, functions=FN,
                  prop=lambda a, o, O: eqs('zero', O, o, tmap(lambda g: 0 * g, a.g))))

  # transparent for real factories
  eq = {
      'scale': (optax.scale, dict(step_size=real())),
      'trace': (optax.trace, dict(decay=unit())),
      'clip': (optax.clip, dict(max_delta=pos())),
      'ema': (optax.ema, dict(decay=unit(samples=(0.9, 0.5)))),
      'adam': (optax.adam, dict(learning_rate=real(), b1=unit(samples=(0.9, 0.5)), b2=unit(samples=(0.99, 0.9)), eps=pos((1e-3, 1e-2)))),
      'sgd': (optax.sgd, dict(learning_rate=real(), momentum=unit())),
      'rmsprop': (optax.rmsprop, dict(learning_rate=real(), decay=unit(samples=(0.9, 0.5)), eps=pos((1e-3, 1e-2)))),
      'weight decay': (optax.add_decayed_weights, dict(weight_decay=real())),
  }
  for n, (f, hp) in eq.items():
    def erun(a, f=f, hp=hp):
      kw = {k: getattr(a, k) for k in hp}
      res = []
      for tx in (optax.inject_hyperparams(f)(**kw), f(**kw)):
        s = tx.init(a.p)
        us = []
        for g in a.g:
          u, s = tx.update(g, s, a.p)
          us.append(u)
        res.append(us)
      return res
    out.append(Case('transparent: ' + n, dict(g=[tree() for _ in range(2)], p=tree(), **hp), run=erun, functions=FN,
                    prop=lambda a, o, O: eqs('updates', O, *o), static=lambda a, o: same('updates', *o)))

  # a scheduled learning rate
  def lr(a):
    tx = optax.inject_hyperparams(optax.sgd)(learning_rate=sched('lr'))
    s = tx.init(a.p)
    us = []
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      us.append(u)
    return us

  def lprop(a, o, O):
    iv = _iv if O.symbolic else (lambda k: k)
    r = []
    for i, g in enumerate(a.g):
      r += eqs('step %d' % i, O, o[i], tmap(lambda x: -U(O, 'lr', iv(i + 1)) * x, g))
    return r
  out.append(Case('sgd with a scheduled rate', dict(g=[tree() for _ in range(3)], p=tree()), run=lr, prop=lprop, functions=FN))

  # dtypes follow the parameters
  for dt in ('float32', 'float16', 'bfloat16'):
    def drun(a, dt=dt):
      tx = optax.inject_hyperparams(optax.scale)(a.x) if dt else None
      p = {'w': a.p.astype(dt)}
      s = tx.init(p)
      u, s2 = tx.update({'w': a.g.astype(dt)}, s, p)
      t2 = optax.inject_hyperparams(optax.scale)(sched('sx'))
      q = t2.init(p)
      v, q2 = t2.update({'w': a.g.astype(dt)}, q, p)
      return s.hyperparams, s2.hyperparams, u, q.hyperparams, q2.hyperparams, v
    out.append(Case('dtype ' + dt, dict(p=F((2,)), g=F((2,)), x=real()), run=drun, functions=FN, x64=False, replay_tol=(0.05, 0.05),
                    static=lambda a, o, dt=dt: [('dtype %d' % i, str(v.dtype) == dt) for i, t in enumerate(o) for v in leaves(t)],
                    prop=lambda a, o, O: [('update', O.eq(o[2]['w'], a.x * a.g))]))
  return out


def _iv(k):
  return _fv.IV(k)
