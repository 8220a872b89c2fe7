"""chain: sequential composition."""
import optax
from props.common import *

BOUNDS = ('chains of 1-4 arbitrary (uninterpreted) transformations, some used twice; trees with vector, scalar and matrix leaves; params '
          'given or None; inductive step from any state, and 2-step histories from init')
FN = ['optax.chain', 'optax.identity']


def cases():
  out = []
  names = ['A', 'B', 'C', 'D']
  for pat in ('A', 'AB', 'ABC', 'ABCD', 'AA', 'ABA', 'ABAB'):
    n, names_ = len(pat), list(pat)
    for wp in (True, False):
      def run(a, wp=wp, names=names_):
        members = {k: uf_tx(k) for k in names}  # a repeated letter is the very same object
        tx = optax.chain(*[members[k] for k in names])
        s = tx.init(a.p)
        us = []
        for g in a.g:
          u, s = tx.update(g, s, a.p) if wp else tx.update(g, s)
          us.append(u)
        return us, list(s)

      def prop(a, o, O, n=n, wp=wp, names=names_):
        us, s = o
        st = [uf_init(O, k, a.p) for k in names[:n]]
        r = []
        for i, g in enumerate(a.g):
          u = g
          for j, k in enumerate(names[:n]):
            u, st[j] = uf_upd(O, k, u, st[j], a.p if wp else None)
          r += eqs('step%d' % i, O, us[i], u)
        r += [('state count', len(s) == n)]
        for j in range(min(n, len(s))):
          r += eqs('state %d' % j, O, s[j], st[j])
        return r
      out.append(Case('chain/history %s params=%s' % (pat, wp), dict(p=ctree(), g=[ctree(), ctree()]), run=run,
                      prop=prop, functions=FN))

  # from any state
  def srun(a):
    tx = optax.chain(*[uf_tx(k) for k in names[:3]])
    u, s = tx.update(a.g, a.s, a.p)
    return u, list(s)

  def sprop(a, o, O):
    u = a.g
    r = []
    for j, k in enumerate(names[:3]):
      u, s = uf_upd(O, k, u, a.s[j], a.p)
      r += eqs('state %d' % j, O, o[1][j], s)
    return r + eqs('updates', O, o[0], u)
  out.append(Case('chain/any state', dict(p=ctree(), g=ctree(), s=[uf_state() for _ in range(3)]), run=srun, prop=sprop,
                  functions=FN))

  # nesting and identity do not change the composition
  def nrun(a):
    A, B, C = [uf_tx(k) for k in names[:3]]
    res = []
    for tx in (optax.chain(A, B, C), optax.chain(optax.chain(A, B), C), optax.chain(A, optax.chain(B, C)),
               optax.chain(optax.identity(), A, B, optax.identity(), C)):
      s = tx.init(a.p)
      u1, s = tx.update(a.g, s, a.p)
      u2, s = tx.update(a.h, s, a.p)
      res.append((u1, u2))
    return res

  def nprop(a, o, O):
    r = []
    for i in range(1, 4):
      r += eqs('variant %d' % i, O, o[i], o[0])
    return r
  out.append(Case('chain/associative', dict(p=ctree(), g=ctree(), h=ctree()), run=nrun, prop=nprop, functions=FN))

  # a state with the wrong number of entries is refused
  for n, m in ((2, 1), (2, 3), (1, 2), (3, 2), (1, 0)):
    out.append(Case('chain/state length %d for %d' % (m, n), dict(p=ctree(), g=ctree(), s=[uf_state() for _ in range(m)]),
                    run=lambda a, n=n: optax.chain(*[uf_tx(k) for k in names[:n]]).update(a.g, a.s, a.p)[0],
                    prop=lambda a, o, O: [('must be refused', False)], exc=raises(ValueError), functions=FN))

  # a transformation that needs params receives them, and complains when they are missing
  def wrun(a):
    tx = optax.chain(optax.scale(a.k), optax.add_decayed_weights(a.w), optax.scale(a.l))
    return tx.update(a.g, tx.init(a.p), a.p)[0]
  out.append(Case('chain/params reach every stage', dict(p=ftree_small(), g=ftree_small(), k=real(), w=real(), l=real()),
                  run=wrun, prop=lambda a, o, O: eqs('updates', O, o, tmap(lambda g, p: a.l * (a.k * g + a.w * p), a.g, a.p)),
                  functions=FN))
  out += falsy_params('chain', lambda tx: optax.chain(optax.identity(), tx), FN)
  return out
