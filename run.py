#!/opt/venv/bin/python
"""Runs one property's check:  run.py C02 [--tier quick|thorough] [--case substr] [-v]

Exit 0: every obligation discharged.  Exit 1: a violation reproduced on the
real code (a `VIOLATION property=.. replay=..` line).  Exit 2: inconclusive.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONWARNINGS'] = 'ignore'
os.environ['PYTHONHASHSEED'] = '0'

_MOD = None
_CASES = None


def _load(prop, tier):
  global _MOD, _CASES
  import symjax.env  # noqa  pylint: disable=unused-import,import-outside-toplevel
  _MOD = importlib.import_module('props.' + prop)
  _CASES = [c for c in _MOD.cases() if tier == 'thorough' or c.tier == 'quick']


def _init(prop, tier):
  try:
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
  except Exception:  # pylint: disable=broad-except
    pass
  _load(prop, tier)


def _work(arg):
  i, seed, tier = arg
  from symjax.harness import Checker, CaseResult  # pylint: disable=import-outside-toplevel
  import gc
  gc.collect()
  _CASES[i].origin = (_MOD.__name__.split('.')[-1], tier)
  try:
    if hasattr(_CASES[i], 'ms'):
      from symjax.fp import FPChecker  # pylint: disable=import-outside-toplevel
      r = FPChecker(_CASES[i], seed, tier).check()
    else:
      r = Checker(_CASES[i], seed, tier).check()
  except BaseException as e:  # pylint: disable=broad-except
    r = CaseResult(_CASES[i].name)
    r.status = 'error'
    r.messages.append('worker: %r' % e)
  r.known = _CASES[i].known
  r.functions = list(_CASES[i].functions)
  r.prop_note = _CASES[i].note
  return i, r


def main():
  if sys.argv[1:] == ['--setup']:
    _load('C28', 'quick')
    import z3  # noqa  pylint: disable=unused-import,import-outside-toplevel
    print('ready: optax imported from the working tree, solver %s' % z3.get_version_string())
    return
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--case', default=None)
  ap.add_argument('-v', action='store_true')
  ap.add_argument('-j', type=int, default=0)
  ap.add_argument('--only-run', default=None)
  a = ap.parse_args()
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  _load(a.prop, tier)
  if a.only_run:
    import pickle  # pylint: disable=import-outside-toplevel
    from symjax.harness import run_concrete  # pylint: disable=import-outside-toplevel
    case, = [c for c in _CASES if c.name == a.case]
    with open(a.only_run, 'rb') as f:
      run_concrete(case, pickle.load(f), False, 1e-2, 1e-2)
    return
  idx = [i for i, c in enumerate(_CASES) if not a.case or a.case in c.name]
  n = a.j or min(8, max(1, (len(idx) + 1) // 2))
  args = [(i, seed, tier) for i in idx]
  results = {}
  limit = 840 if tier == 'quick' else 7200
  if n == 1:
    for x in args:
      i, r = _work(x)
      results[i] = r
  else:
    ctx = mp.get_context('spawn')
    with ctx.Pool(n, _init, (a.prop, tier)) as pool:
      it = pool.imap_unordered(_work, args, chunksize=1)
      for _ in args:
        try:
          i, r = it.next(timeout=max(1, limit - (time.time() - t0)))
        except mp.TimeoutError:
          break
        except Exception as e:  # a lost worker  pylint: disable=broad-except
          print('worker failed: %r' % e)
          continue
        results[i] = r
      pool.terminate()
  wall = time.time() - t0
  code = report(a, tier, seed, idx, results, wall)
  sys.stdout.flush()
  os._exit(code)


def report(a, tier, seed, idx, results, wall):
  prop = a.prop
  viol, errs, known = [], [], []
  for i in idx:
    r = results.get(i)
    if r is None:
      errs.append('%s: not finished within the time limit' % _CASES[i].name)
      continue
    if r.known:
      if r.status == 'violation':
        known.append(r)
      elif r.status == 'error':
        errs += r.messages
      continue
    if r.status == 'violation':
      viol.append(r)
    elif r.status == 'error':
      errs += r.messages or ['%s: error' % r.name]
    if a.v:
      print('%-40s %-9s obl %d/%d paths %d %.1fs q=%d %s %s' % (
          r.name, r.status, r.proved, r.obligations, r.paths, r.wall,
          r.stats.get('z3_queries', 0), r.note, r.concretized or ''))
  rs = [r for r in results.values()]
  tot = lambda k: sum(r.stats.get(k, 0) for r in rs)
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
  bounds = getattr(_MOD, 'BOUNDS', '')
  cov = {
      'explanation': (
          'Symbolic execution of the jaxprs of the real functions, regenerated from the working tree; '
          'each obligation holds for all values of the symbolic inputs within the stated bounds iff the '
          'SMT solver refutes its negation.'),
      'functions_encoded': sorted({f for r in rs for f in r.functions}),
      'bounds': bounds,
      'cases': len(rs),
      'python_paths': sum(r.paths for r in rs),
      'jaxpr_equations_encoded': sum(r.eqns for r in rs),
      'primitives': sorted({p for r in rs for p in r.prims}),
      'obligations': sum(r.obligations for r in rs if not r.known),
      'discharged': sum(r.proved for r in rs if not r.known),
      'z3_queries': tot('z3_queries'), 'cvc5_queries': tot('cvc5_queries'),
      'unsat': tot('unsat'), 'sat': tot('sat'), 'unknown': tot('unknown'),
      'closed_after_normal_form': tot('normal_form'),
      'closed_identical_after_encoding': tot('identical'),
      'case_splits': tot('splits'),
      'solver_s': round(tot('solver_s'), 2),
      'reachability_witnesses': sum(1 for r in rs if r.witness),
      'translation_validated_points': sum(r.validated for r in rs),
      'concretised_hyperparameters': {r.name: r.concretized for r in rs if r.concretized},
      'notes': [r.name + ': ' + r.note for r in rs if r.note],
      'samples': [{'case': r.name, 'obligations': r.labels[:6], 'wall_s': round(r.wall, 2)} for r in rs[:12]],
  }
  ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'assumptions': getattr(_MOD, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(viol)}
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, sort_keys=True, default=str)
  kf = []
  try:
    with open(os.path.join(HERE, 'known_findings.json')) as f:
      kf = json.load(f)['findings']
  except (OSError, ValueError, KeyError):
    pass
  listed = {(k['property'], k['id']): k for k in kf if k.get('status') == 'known'}
  for r in known:
    k = listed.get((prop, r.known))
    if k:
      print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    else:
      viol.append(r)
  if viol:
    for n, r in enumerate(viol):
      path = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, n))
      with open(path, 'w') as f:
        json.dump(r.replay, f, indent=1)
      print('  ' + ' | '.join(r.messages)[:1500])
      print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
  if errs:
    for e in errs:
      print('INCONCLUSIVE: ' + e[:2500])
    return 2
  print('OK property=%s tier=%s cases=%d obligations=%d z3=%d solver=%.1fs wall=%.1fs' % (
      prop, tier, len(rs), cov['obligations'], cov['z3_queries'], cov['solver_s'], wall))
  return 0


COMMON_ASSUMPTIONS = [
    'Floating-point rounding, overflow, underflow and the sign of zero are abstracted (exact reals plus explicit NaN/Inf flags) unless a case says otherwise; 32-bit integers wrap.',
    'JAX primitives (XLA kernels, vmap/grad/jit transforms that produce the jaxpr) behave as documented; PRNG draws are opaque functions of their key.',
    'Float literals are read as their shortest float32 decimal.',
]

if __name__ == '__main__':
  main()
