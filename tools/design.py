"""Fills the generated tables of DESIGN.md from props, evidence, known_findings.json and tools/seeds.json.

The text between <!-- name --> and <!-- /name --> is replaced; run after all checks.
"""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
'C01': 'recurrences over arbitrary state and count; debias by 1 - decay^t; histories from init',
'C02': 'the published recurrences over arbitrary mu, nu, count; RAdam rectification and threshold; histories from init',
'C03': 'accumulator recurrences and normalisation over arbitrary accumulators; zero accumulators; histories',
'C04': 'min over per-axis covers, max back into them, cover invariant, momentum, over arbitrary covers',
'C05': 'updates of the ready-made optimiser = those of the documented chain built from primitives, all hyperparameters symbolic, two steps',
'C06': 'emitted = schedule(count) * update for an uninterpreted schedule; counter successor incl. 2^31-1 for every counting transformation',
'C07': 'composition of uninterpreted members: inputs, states, params and order of every member; init; identity',
'C08': 'transition relation of the wrapper over an uninterpreted inner optimiser, all NaN/Inf patterns, any counters; IEEE case for huge finite norms',
'C09': 'transition relation over uninterpreted inner optimiser and k-schedule, any mini step; whole windows from init; NaN/Inf windows',
'C10': 'selected leaves = inner (uninterpreted) on the list of selected leaves; others bit-identical; every mask of the small trees, prefixes, callables',
'C11': 'transition relation over an uninterpreted inner optimiser and predicate of the step',
'C12': 'inner (uninterpreted, position dependent) sees the row-major concatenation; output split back',
'C13': 'slow/fast recurrences over uninterpreted fast optimiser, any step in the period, NaN/Inf fast parameters; histories over periods; reset',
'C14': 'window sums, any count, NaN/Inf in an earlier window; histories',
'C15': 'nearest point of the interval incl. Inf/NaN; joint norm bound, common factor, untouched below the bound',
'C16': 'per-unit norm rescaling for ranks 0-4, unit independence, refusals',
'C17': 'p + u = max(p + u0, 0); NaN positions exactly; flag per leaf; state freshness',
'C18': 'per-example joint clipping, sum, one draw per leaf key, division by batch; key freshness as term disequality',
'C19': 'draw * sqrt(eta / t^gamma), key freshness over leaves and steps, counter',
'C20': 'formulas per leaf; IEEE float32 case for identity/scale; trust ratio zero cases',
'C21': 'formulas per leaf in the parameter dtype (16-bit and integer parameters with rounding symbols); period test for any step',
'C22': 'closed formula for symbolic count, steps, begin, power, ends; fractional and array counts',
'C23': 'piecewise products, interpolation per interval, one-cycle landmarks, symbolic boundaries and scales',
'C24': 'closed formulas with symbolic lengths; join over uninterpreted schedules; restart chains',
'C25': 'updates, state and reported values = those of the factory called with schedule(count)/state values; overrides in between; static args',
'C26': 'closed formulas, gradients, geometry (Cauchy-Schwarz, symmetry, scale invariance)',
'C27': 'closed formulas, gradients, shift invariance, float32 range analysis for overflow',
'C28': 'max(|x|, m), gradient cases, sqrt of sum of squares, saturating successor on all int32',
'C29': 'symbolic Hessian/gradient of polynomial and cosine losses, computed independently by the term differentiator',
'C30': 'closed form per sample and parameter for uninterpreted/polynomial f, draws as opaque functions of keys; shapes',
'C31': 'Taylor expansion and expectation, averaging recurrence, algebraic decomposition of the jacobians, coefficient formula',
'C32': 'loop summaries: one-iteration transition relations, exit conditions, inverse-root identities for p = 1..16',
'C33': 'two calls, fresh instance, jit, scan and vmap agree term by term; static structure/shape/dtype facts; 16-bit dtypes; second model through one instance',
'C34': 'tracing with all numeric hyperparameters abstract succeeds; injected = plain updates',
'C35': 'jax.grad of the real unrolled updates equals jax.grad of the documented formula, symbolically; both derivatives finite',
'C36': 'reference wrappers written from the documentation (plain Python counters) nested in the same way around the same uninterpreted inner; neutral settings against the bare inner',
'C37': 'two symbolic runs of the same code related by sign, factor, linear combination, foreign elements or order (2-safety)',
'C38': 'inequalities over any gradients and invariant states; order of the real schedule at two symbolic counts, with monotonicity axioms of pow and cos',
'C40': 'the same real code on a plain vector (or leaf by leaf, row by row), its results distributed over the tree',
'C39': 'closed-form Gaussian log-density and scores; samples as affine functions of the opaque draws; index-wise helpers',
}


def put(txt, name, body):
  a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
  i, j = txt.index(a) + len(a), txt.index(b)
  return txt[:i] + '\n' + body + '\n' + txt[j:]


def main():
  seeds = json.load(open(HERE + '/tools/seeds.json'))
  metas = {os.path.basename(os.path.dirname(p)): json.load(open(p)) for p in sorted(glob.glob(HERE + '/seeded/*/meta.json'))}
  rows = ['| id | oracle (asserted over symbolic inputs) | bounds | quick | caught |', '|---|---|---|---|---|']
  titles = {d['id']: d for d in map(json.loads, open(HERE + '/properties.jsonl'))}
  for i in sorted(titles):
    mod = ast.parse(open('%s/props/%s.py' % (HERE, i)).read())
    b = next(ast.literal_eval(n.value) for n in mod.body if isinstance(n, ast.Assign) and n.targets[0].id == 'BOUNDS')
    e = json.load(open('%s/evidence/%s.json' % (HERE, i)))
    cov = e['coverage']
    mine = [s for s, m in metas.items() if m['property'] == i]
    got = [s for s in mine if seeds.get(s, {}).get(i) == 'caught']
    rows.append('| %s %s | %s | %s | %d cases, %d obligations, %d queries, %.0f s | %d/%d |' % (
        i, titles[i]['title'], ORACLE[i], b, cov['cases'], cov['obligations'], cov.get('z3_queries', 0), e['wall_s'], len(got), len(mine)))
  fixed = ['* ' + re.sub(r'^fixed: property=(C\d+) (\w{8})\w*', r'**\1** `\2`', l) for l in json.load(open(HERE + '/known_findings.json'))['fixed']]
  srows = ['| change | property | needs | breaks | verdict |', '|---|---|---|---|---|']
  for s, m in metas.items():
    srows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], seeds.get(s, {}).get(m['property'], 'not run')))
  p = HERE + '/DESIGN.md'
  txt = open(p).read()
  for n, body in (('TABLE', rows), ('FIXED', fixed), ('SEEDS', srows)):
    txt = put(txt, n, '\n'.join(body))
  open(p, 'w').write(txt)


main()
