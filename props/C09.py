"""MultiSteps: gradient accumulation over k mini-steps."""
import optax
from props.common import *

BOUNDS = ('arbitrary (uninterpreted) inner optimiser; k an uninterpreted schedule of the gradient step (any 1 <= k <= 10^6) or an '
          'int 1..4; any mini_step < k, gradient_step 0..2^31-2, accumulator and inner state; gradients and accumulator '
          'finite, or element-wise NaN/Inf; histories of k+1..2k steps from init')
ASSUMPTIONS = ['mini_step/gradient_step do not reach 2^31-1 (int32, non-saturating).']
FN = ['optax.MultiSteps.init', 'optax.MultiSteps.update', 'optax.MultiSteps.has_updated',
      'optax.MultiSteps.gradient_transformation']


def ksched(step):
  from symjax import uf
  return 1 + jnp.abs(uf.uf('k', step, np.int32(0)))


def kspec(O, step):
  return 1 + O.abs(O.uf('k', step, np.int32(0)))


def cases():
  out = []
  for mean in (True, False):
    for wp in (True, False):
      for special in (False, True):
        args = dict(g=dict(b=F((2,), special=special), a=(F((), special=special),)),
                    acc=dict(b=F((2,), special=special), a=(F((), special=special),)), s=uf_state(True),
                    p=dict(b=F((2,)), a=(F(),)), mini=Int(hi=1000, near=None), gs=Int(hi=INT_MAX - 1, samples=(0, 1, 2)))

        def run(a, mean=mean, wp=wp):
          ms = optax.MultiSteps(uf_tx('in', True), ksched, use_grad_mean=mean)
          s = optax.MultiStepsState(a.mini, a.gs, a.s, a.acc)
          u, n = ms.update(a.g, s, a.p) if wp else ms.update(a.g, s)
          return u, n, ms.has_updated(s), ms.has_updated(n)

        def prop(a, o, O, mean=mean, wp=wp):
          u, n, h0, h1 = o
          k = kspec(O, a.gs)
          tot = tmap(lambda x, y: x + y, a.acc, a.g)
          eff = tmap(lambda x: x / k, tot) if mean else tot
          iu, is_ = uf_upd(O, 'in', eff, a.s, a.p if wp else None)
          mid = O.lt(a.mini, k - 1)
          r = eqs('updates', O, u, tsel(O, mid, zeros(a.g), iu))
          r += eqs('inner state', O, n.inner_opt_state, tsel(O, mid, a.s, is_))
          r += eqs('accumulator', O, n.acc_grads, tsel(O, mid, tot, zeros(a.g)))
          r += [('mini_step', O.eq(n.mini_step, O.where(mid, a.mini + 1, 0))),
                ('gradient_step', O.eq(n.gradient_step, O.where(mid, a.gs, a.gs + 1))),
                ('has_updated before', O.eq(h0, O.and_(O.eq(a.mini, 0), O.gt(a.gs, 0)))),
                ('has_updated after', O.eq(h1, O.not_(mid)))]
          return r
        out.append(Case('step mean=%s params=%s special=%s' % (mean, wp, special), args, run=run, prop=prop, functions=FN,
                        assume=lambda a, O: [O.lt(a.mini, kspec(O, a.gs)), O.le(O.uf('k', a.gs, np.int32(0)), 10**6),
                                             O.ge(O.uf('k', a.gs, np.int32(0)), -10**6)], x64=False,
                        static=lambda a, o: same('updates', o[0], a.g) + same(
                            'state', o[1], optax.MultiStepsState(a.mini, a.gs, a.s, a.acc))))

  T = lambda: dict(b=F((2,)), a=(F(),))
  for k in (1, 2, 3, 4):
    for mean in (True, False):
      n = k + 1 if k > 2 else 2 * k

      def hist(a, k=k, mean=mean):
        ms = optax.MultiSteps(uf_tx('in', True), k, mean)
        tx = ms.gradient_transformation()
        s = tx.init(a.p)
        us, ss, hs = [], [s], [ms.has_updated(s)]
        for g in a.g:
          u, s = tx.update(g, s, a.p)
          us.append(u)
          ss.append(s)
          hs.append(ms.has_updated(s))
        return us, ss, hs

      def hprop(a, o, O, k=k, mean=mean):
        us, ss, hs = o
        inner = uf_init(O, 'in', a.p, True)
        r = eqs('init inner', O, ss[0].inner_opt_state, inner) + eqs('init acc', O, ss[0].acc_grads, zeros(a.p))
        r += [('not updated at start', O.not_(hs[0])), ('mini 0', O.eq(ss[0].mini_step, 0)),
              ('gradient step 0', O.eq(ss[0].gradient_step, 0))]
        for i, g in enumerate(a.g):
          if (i + 1) % k:
            r += eqs('mid %d' % i, O, us[i], zeros(a.p)) + eqs('mid inner %d' % i, O, ss[i + 1].inner_opt_state, inner)
            r += [('no update %d' % i, O.not_(hs[i + 1]))]
          else:
            win = a.g[i + 1 - k:i + 1]
            eff = tmap(lambda *x: sum(x[1:], x[0]) / (k if mean else 1), *win)
            u, inner = uf_upd(O, 'in', eff, inner, a.p)
            r += eqs('emit %d' % i, O, us[i], u) + eqs('emit inner %d' % i, O, ss[i + 1].inner_opt_state, inner)
            r += [('updated %d' % i, hs[i + 1])]
          r += [('gradient step %d' % i, O.eq(ss[i + 1].gradient_step, (i + 1) // k)),
                ('mini step %d' % i, O.eq(ss[i + 1].mini_step, (i + 1) % k))]
        return r
      out.append(Case('history k=%d mean=%s' % (k, mean), dict(p=T(), g=[T() for _ in range(n)]), run=hist, prop=hprop,
                      functions=FN))

  # k mini-batches of a linear optimiser = one step on the averaged gradient
  def grun(a):
    ms = optax.MultiSteps(optax.adam(a.lr), 3)
    s = ms.init(a.p)
    for g in a.g:
      u, s = ms.update(g, s, a.p)
    ref = optax.adam(a.lr)
    w, _ = ref.update(tmap(lambda x, y, z: (x + y + z) / 3, *a.g), ref.init(a.p), a.p)
    return u, w
  out.append(Case('three mini-batches = one large batch', dict(p=T(), g=[T(), T(), T()], lr=pos()), run=grun,
                  prop=lambda a, o, O: eqs('update', O, o[0], o[1]), functions=FN))
  out += falsy_params('MultiSteps', lambda tx: optax.MultiSteps(tx, 1).gradient_transformation(), FN)
  return out
