"""Numeric hyperparameters may be traced arrays."""
import optax
from props.common import *

BOUNDS = ('every ready-made optimiser and parametrised transformation with all its numeric hyperparameters symbolic float32 scalars in their '
          'documented ranges; trees with a matrix and a vector leaf; arbitrary finite real gradients and parameters; two updates from init')
ASSUMPTIONS = ['scale_by_sm3 is left out: whether its b2 equals one selects the accumulation rule when the transformation is built.',
               'Flags, dtypes and masks stay Python values.']
FN = ['optax.* factories with traced hyperparameters', 'optax.inject_hyperparams']

r, u, n = (lambda: F(())), (lambda: F((), lo=0, hi=1, hi_open=True)), (lambda: F((), lo=0))
po = lambda: F((), lo=0, lo_open=True)
LR = dict(learning_rate=r)
ADAM = dict(b1=u, b2=u, eps=po)
FACT = {
    'sgd': dict(LR, momentum=u), 'adam': dict(LR, eps_root=n, **ADAM), 'adamw': dict(LR, eps_root=n, weight_decay=r, **ADAM),
    'adagrad': dict(LR, initial_accumulator_value=n, eps=po), 'adabelief': dict(LR, **ADAM), 'fromage': dict(LR, min_norm=po),
    'lamb': dict(LR, eps_root=n, weight_decay=r, **ADAM), 'noisy_sgd': dict(LR, eta=n, gamma=n), 'radam': dict(LR, eps_root=n, threshold=po, **ADAM),
    'rmsprop': dict(LR, decay=u, eps=po, initial_scale=n, momentum=u), 'sm3': dict(LR, momentum=u), 'yogi': dict(LR, **ADAM),
    'dpsgd': dict(LR, l2_norm_clip=po, noise_multiplier=n, momentum=u),
    'trace': dict(decay=u), 'ema': dict(decay=u), 'scale_by_adam': dict(eps_root=n, **ADAM), 'scale_by_belief': dict(eps_root=n, **ADAM),
    'scale_by_yogi': dict(eps_root=n, initial_accumulator_value=n, **ADAM), 'scale_by_radam': dict(eps_root=n, threshold=po, **ADAM),
    'scale_by_rss': dict(initial_accumulator_value=n, eps=po), 'scale_by_rms': dict(decay=u, eps=po, initial_scale=n),
    'scale_by_stddev': dict(decay=u, eps=po, initial_scale=n), 'scale': dict(step_size=r), 'add_decayed_weights': dict(weight_decay=r),
    'scale_by_trust_ratio': dict(min_norm=n), 'add_noise': dict(eta=n, gamma=n), 'apply_every': dict(k=lambda: Int(lo=1, hi=100)),
    'clip': dict(max_delta=n), 'clip_by_global_norm': dict(max_norm=po), 'adaptive_grad_clip': dict(clipping=po, eps=po),
}
for _k in ('noisy_sgd', 'add_noise', 'dpsgd'):
  FACT[_k]['seed'] = Int


def cases():
  out = []
  for name, hp in FACT.items():
    tree = lambda: {'w': F((2, 1)), 'n': F((2,))}
    grads = (lambda: {'w': F((2, 2, 1)), 'n': F((2, 2))}) if name == 'dpsgd' else tree

    def run(a, name=name, hp=hp):
      f = getattr(optax, name)
      kw = {k: getattr(a, k) for k in hp}
      res = []
      for mk in (f, optax.inject_hyperparams(f)):
        tx = mk(**kw)
        s = tx.init(a.p)
        us = []
        for g in a.g:
          g, s = tx.update(g, s, a.p)
          us.append(g)
        res.append(us)
      return res

    out.append(Case(name, dict(g=[grads(), grads()], p=tree(), **{k: v() for k, v in hp.items()}), run=run, functions=FN, x64=False, jit=True,
                    prop=lambda a, o, O: eqs('injected', O, o[1], o[0]), replay_tol=(1e-3, 1e-3)))
  return out
