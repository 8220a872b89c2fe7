"""lookahead: fast steps, periodic synchronisation of slow and fast parameters."""
import optax
from props.common import *

BOUNDS = ('arbitrary (uninterpreted) fast optimiser; sync_period 1..5 and symbolic (1..1000) for the counter; '
          'slow_step_size any real; any state and fast/slow parameters (fast possibly NaN/Inf between '
          'synchronisations); histories of 2*period steps from init')
FN = ['optax.lookahead', 'optax.LookaheadParams.init_synced']


def spec(O, a, u, fast, slow, sync, alpha):
  lf = tmap(lambda f, x: f + x, fast, u)
  ns = tmap(lambda s, l: s + alpha * (l - s), slow, lf)
  nf = tsel(O, sync, ns, lf)
  return nf, tsel(O, sync, ns, slow)


def cases():
  out = []
  T = lambda **kw: {'w': F((2,), **kw), 'b': (F((), **kw),)}
  for k in (1, 2, 3, 5, 'symbolic'):
    for reset in (False, True):
      args = dict(g=T(), fast=T(), slow=T(), s=uf_state(True), c=Int(hi=(0 if k == 1 else k - 1) if k != 'symbolic' else 999), alpha=real((0.5, 1.0)))
      if k == 'symbolic':
        args['k'] = HPI(1, 1000, samples=(1, 2, 6))

      def run(a, k=k, reset=reset):
        tx = optax.lookahead(uf_tx('fast', True), a.k if k == 'symbolic' else k, a.alpha, reset_state=reset)
        p = optax.LookaheadParams(fast=a.fast, slow=a.slow)
        u, s = tx.update(a.g, optax.LookaheadState(a.s, a.c), p)
        return u.fast, u.slow, s

      def prop(a, o, O, k=k, reset=reset):
        uf_, us, s = o
        kk = a.k if k == 'symbolic' else k
        sync = O.eq(a.c, kk - 1)
        u, st = uf_upd(O, 'fast', a.g, a.s, a.fast)
        nf, ns = spec(O, a, u, a.fast, a.slow, sync, a.alpha)
        r = eqs('fast', O, tmap(lambda x, y: x + y, a.fast, uf_), nf)
        r += eqs('slow', O, tmap(lambda x, y: x + y, a.slow, us), ns)
        r += [('synchronised %d' % i, O.implies(sync, O.eq(f + x, s_ + y))) for i, (f, x, s_, y) in enumerate(
            zip(leaves(a.fast), leaves(uf_), leaves(a.slow), leaves(us)))]
        r += [('counter', O.eq(s.steps_since_sync, O.where(sync, 0, a.c + 1)))]
        want = tsel(O, sync, uf_init(O, 'fast', a.fast, True), st) if reset else st
        return r + eqs('fast state', O, s.fast_state, want)
      out.append(Case('step period=%s reset=%s' % (k, reset), args, run=run, prop=prop, functions=FN,
                      assume=(lambda a, O: [O.lt(a.c, a.k)]) if k == 'symbolic' else None,
                      static=lambda a, o: same('fast', o[0], a.fast) + same('slow', o[1], a.slow) +
                      same('state', o[2], optax.LookaheadState(a.s, a.c))))

  # between synchronisations the slow parameters are untouched even when the fast ones blow up
  def brun(a):
    tx = optax.lookahead(optax.scale(-1.0), 3, 0.5)
    u, s = tx.update(a.g, optax.LookaheadState(optax.EmptyState(), a.c), optax.LookaheadParams(a.fast, a.slow))
    return u.fast, u.slow
  out.append(Case('non-finite fast parameters', dict(g=T(special=True), fast=T(special=True), slow=T(), c=Int(hi=1)), run=brun,
                  prop=lambda a, o, O: eqs('slow update', O, o[1], zeros(a.slow)) +
                  eqs('fast update', O, o[0], tmap(lambda g: -1 * g, a.g)), functions=FN))

  # the reset leaves nothing of a fast state that blew up
  def rrun(a):
    tx = optax.lookahead(optax.trace(0.5), a.k, 0.5, reset_state=True)
    st = optax.LookaheadState(optax.TraceState(a.fast), a.c)
    return tx.update(a.g, st, optax.LookaheadParams(a.slow, a.slow))[1].fast_state.trace
  out.append(Case('reset of a non-finite fast state', dict(g=T(), fast=T(special=True), slow=T(), c=Int(hi=4), k=HPI(1, 5, samples=(1, 2, 3))), run=rrun,
                  functions=FN, assume=lambda a, O: [O.lt(a.c, a.k)],
                  prop=lambda a, o, O: eqs('fast state', O, o, tmap(
                      lambda g, f: O.where(O.eq(a.c, a.k - 1), 0, g + 0.5 * f), a.g, a.fast))))

  # histories with real parameters applied
  for k in (1, 2, 3):
    for reset in (False, True):
      def hist(a, k=k, reset=reset):
        tx = optax.lookahead(uf_tx('fast'), k, a.alpha, reset)
        p = optax.LookaheadParams.init_synced(a.p)
        s = tx.init(p)
        ps = []
        for g in a.g:
          u, s = tx.update(g, s, p)
          p = optax.apply_updates(p, u)
          ps.append((p.fast, p.slow, s.steps_since_sync))
        return ps

      def hprop(a, o, O, k=k, reset=reset):
        fast, slow, st = a.p, a.p, uf_init(O, 'fast', a.p)
        r = []
        for i, g in enumerate(a.g):
          f0 = fast
          u, st = uf_upd(O, 'fast', g, st, fast)
          sync = (i + 1) % k == 0
          if sync:
            lf = tmap(lambda f, x: f + x, fast, u)
            slow = tmap(lambda s, l: s + a.alpha * (l - s), slow, lf)
            fast = slow
            if reset:
              st = uf_init(O, 'fast', f0)
          else:
            fast = tmap(lambda f, x: f + x, fast, u)
          r += eqs('fast %d' % i, O, o[i][0], fast) + eqs('slow %d' % i, O, o[i][1], slow)
          r += [('counter %d' % i, O.eq(o[i][2], (i + 1) % k))]
          fast, slow = (o[i][0], o[i][1])   # continue from the (equal) observed parameters
        return r
      S = lambda: {'w': F((1,)), 'b': (F(),)}
      out.append(Case('history period=%d reset=%s' % (k, reset), dict(p=S(), g=[S() for _ in range(2 * k if k < 3 else 4)], alpha=real((0.5, 1.0))),
                      run=hist, prop=hprop, functions=FN))

  # init accepts plain parameters and LookaheadParams alike
  def irun(a):
    tx = optax.lookahead(uf_tx('fast'), 2, 0.5)
    return tx.init(optax.LookaheadParams(fast=a.p, slow=a.q)), tx.init(a.p)
  out.append(Case('init', dict(p=T(), q=T()), run=irun, functions=FN,
                  prop=lambda a, o, O: eqs('fast state', O, o[0].fast_state, uf_init(O, 'fast', a.p)) +
                  eqs('plain', O, o[1].fast_state, uf_init(O, 'fast', a.p)) +
                  [('counter', O.eq(o[0].steps_since_sync, 0)), ('plain counter', O.eq(o[1].steps_since_sync, 0))]))
  out.append(Case('init_synced', dict(p=T()), run=lambda a: tuple(optax.LookaheadParams.init_synced(a.p)), functions=FN,
                  prop=lambda a, o, O: eqs('fast', O, o[0], a.p) + eqs('slow', O, o[1], a.p)))
  for k in (0, -1):
    out.append(Case('period %d refused' % k, dict(p=T()), run=lambda a, k=k: optax.lookahead(optax.sgd(.1), k, .5).init(a.p),
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))
  return out
