"""SM3: cover-based second-moment accumulation."""
import functools
import optax
from optax._src import transform
from props.common import *

BOUNDS = ('leaves: vector (2), matrices (2,3), (2,1), tensor (2,2,2); arbitrary finite real gradients; cover '
          'accumulators >= 0; b1 in [0,1), b2 in [0,1]; eps >= 0; histories of 2 steps from init')
ASSUMPTIONS = ['Leaves of rank >= 1 (rank 0 is a recorded finding).']
FN = ['optax.scale_by_sm3']


def _ax(v, i, nd):
  return np.reshape(v, [1] * i + [-1] + [1] * (nd - i - 1))


def spec(O, a, g, cov, nu, one):
  """-> (update, covers, cell accumulators)."""
  c0 = O.where(one, O.R(1), 1 - a.b2) if one is not False else 1 - a.b2
  if g.ndim < 2:
    acc = c0 * g * g + a.b2 * np.asarray(cov[0])
    new = [acc]
  else:
    low = functools.reduce(lambda p, q: O.min(p, q), [_ax(np.asarray(v), i, g.ndim) for i, v in enumerate(cov)])
    acc = c0 * g * g + a.b2 * low
    new = []
    for i in range(g.ndim):
      m = np.moveaxis(acc, i, 0).reshape(g.shape[i], -1)
      new.append(functools.reduce(lambda p, q: O.max(p, q), [m[:, k] for k in range(m.shape[1])]))
  u = a.b1 * nu + (1 - a.b1) * O.where(O.gt(acc, 0), g / O.sqrt(O.where(O.gt(acc, 0), acc + a.eps, 1)), 0)
  return u, new, acc


def cases():
  out = []
  shapes = {'vector': (2,), 'matrix': (2, 3), 'column': (2, 1), 'tensor': (2, 2, 2)}
  for nm, sh in shapes.items():
    args = lambda sh=sh: dict(g=[F(sh)], cov=[[F((d,), lo=0) for d in sh]], nu=[F(sh)],
                              b1=unit(), b2=HP(0, 1, samples=(1.0, 0.9, 0.5)), eps=nonneg((1e-8, 0.0, 0.2)))

    def prop(a, o, O):
      u, s = o
      one = O.eq(a.b2, 1)
      w, cov, acc = spec(O, a, np.asarray(a.g[0]), a.cov[0], np.asarray(a.nu[0]), one)
      r = [('update', O.eq(u[0], w)), ('momentum', O.eq(s.nu[0], w))]
      for i, c in enumerate(cov):
        r.append(('cover %d' % i, O.eq(s.mu[0][i], c)))
      return r
    out.append(Case('sm3/step ' + nm, args(),
                    run=lambda a: optax.scale_by_sm3(a.b1, a.b2, a.eps).update(a.g, transform.ScaleBySM3State(a.cov, a.nu)),
                    static=lambda a, o: same('updates', o[0], a.g) + same('state', o[1], transform.ScaleBySM3State(a.cov, a.nu)),
                    prop=prop, functions=FN))

    # covering invariant: every cover dominates the sum of squares below it
    if nm != 'tensor':
      def iass(a, O):
        g = a.v[0]
        return [O.le(g, np.broadcast_to(_ax(c, i, g.ndim), g.shape)) for i, c in enumerate(a.cov[0])]

      def iprop(a, o, O):
        s = o
        t = a.v[0] + a.g[0] * a.g[0]
        return [('cover %d dominates' % i, O.le(t, np.broadcast_to(_ax(np.asarray(c), i, t.ndim), t.shape)))
                for i, c in enumerate(s.mu[0])] + \
               [('cover %d nonnegative' % i, O.ge(c, 0)) for i, c in enumerate(s.mu[0])]
      ar = args()
      ar.pop('b2')
      ar['v'] = [F(sh, lo=0)]
      out.append(Case('sm3/covers dominate sums of squares ' + nm, ar, assume=iass,
                      run=lambda a: optax.scale_by_sm3(a.b1, 1.0, a.eps).update(
                          a.g, transform.ScaleBySM3State(a.cov, a.nu))[1],
                      prop=iprop, functions=FN))

  # histories over a mixed tree, default b2 = 1
  def hist(a):
    tx = optax.scale_by_sm3(a.b1, eps=a.eps)
    s = s0 = tx.init(a.p)
    us = []
    for g in a.g:
      u, s = tx.update(g, s, a.p)
      us.append(u)
    return us, s, s0

  def hprop(a, o, O):
    us, s, s0 = o
    b = NS(b1=a.b1, b2=O.R(1), eps=a.eps)
    r = []
    for k in ('v', 'm'):
      sh = np.shape(a.p[k])
      cov = [full(np.zeros((d,)), O.R(0)) for d in sh]
      for i, d in enumerate(sh):
        r.append(('init cover', O.eq(s0.mu[k][i], cov[i])))
      nu = full(np.zeros(sh), O.R(0))
      for i, g in enumerate(a.g):
        nu, cov, _ = spec(O, b, np.asarray(g[k]), cov, nu, O.eq(O.R(1), 1))
        r.append(('step%d %s' % (i, k), O.eq(us[i][k], nu)))
      for i, c in enumerate(cov):
        r.append(('cover %s %d' % (k, i), O.eq(s.mu[k][i], c)))
    return r
  t = lambda: {'v': F((2,)), 'm': F((1, 2))}
  out.append(Case('sm3/history', dict(p=t(), g=[t(), t()], b1=unit(), eps=pos((1e-8, 0.1))),
                  run=hist, prop=hprop, functions=FN, static=lambda a, o: same('state', o[1], o[2])))

  # documented defaults
  def ddef(a, o, O):
    g = a.g
    acc = g * g
    return [('default', O.eq(o, O.R(0.1) * O.where(O.gt(acc, 0), g / O.sqrt(O.where(O.gt(acc, 0), acc + O.R(1e-8), 1)), 0)))]
  out.append(Case('sm3/defaults', dict(g=F((2,))),
                  run=lambda a: (lambda tx: tx.update(a.g, tx.init(a.g))[0])(optax.scale_by_sm3()), prop=ddef, functions=FN))

  out.append(Case('sm3/rank-0 leaf', dict(g=F()),
                  run=lambda a: (lambda tx: tx.update(a.g, tx.init(a.g))[0])(optax.scale_by_sm3()),
                  prop=lambda a, o, O: [('reached', True)], known='sm3-scalar', functions=FN))
  return out
