"""Evaluates planted bugs in scratch copies of /repo.

  tools/seeds.py valid ID...   apply, run the stable tests and the demo on both trees
  tools/seeds.py check ID...   run the check of the seed's property (or all with --all) on the patched copy
Results accumulate in /verif/tools/seeds.json.
"""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DB = os.path.join(HERE, 'tools', 'seeds.json')


def sh(cmd, **kw):
  return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def load():
  return json.load(open(DB)) if os.path.exists(DB) else {}


def save(sid, **kw):
  with open('/tmp/seeds.lock', 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    db = load()
    db.setdefault(sid, {}).update(kw)
    json.dump(db, open(DB, 'w'), indent=1, sort_keys=True)


def main():
  mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
  ids = ids or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(HERE + '/seeded/*/meta.json'))
  stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
  for sid in ids:
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    work = tempfile.mkdtemp(prefix='seed_')
    try:
      repo = work + '/repo'
      shutil.copytree('/repo', repo, symlinks=True)
      r = sh(['git', 'apply', d + '/patch.diff'], cwd=repo)
      if r.returncode:
        print(sid, 'DOES NOT APPLY', r.stdout)
        continue
      if mode == 'valid':
        base = sh(['bash', d + '/demo.sh'], cwd='/repo')
        bad = sh(['bash', d + '/demo.sh'], cwd=repo)
        t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo)
        open(work + '/test.sh', 'w').write(t)
        sh(['bash', work + '/test.sh', work + '/out.json'])
        got = set(json.load(open(work + '/out.json'))['passed'])
        lost = sorted(stable - got)
        ok = base.returncode == 0 and bad.returncode != 0 and not lost
        print(sid, 'valid' if ok else 'INVALID', 'demo %d/%d' % (base.returncode, bad.returncode), 'lost', len(lost), lost[:3], flush=True)
        if base.returncode:
          print(base.stdout[-600:])
        elif bad.returncode:
          print('   ', bad.stdout.strip().splitlines()[-1][:150])
        save(sid, valid=ok, lost=lost[:5], demo=[base.returncode, bad.returncode])
      else:
        props = [meta['property']]
        if '--all' in sys.argv:
          props = ['C%02d' % i for i in range(1, 40)]
        for p in props:
          t0 = time.time()
          r = sh([HERE + '/run.py', p], env=dict(os.environ, VERIF_REPO=repo), cwd=HERE)
          v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
          res = 'caught' if r.returncode == 1 and v else 'missed' if r.returncode == 0 else 'inconclusive'
          if len(props) == 1 or res != 'missed':
            print(sid, p, res, '%.0fs' % (time.time() - t0), flush=True)
          if res != 'caught' and len(props) == 1:
            print('\n'.join(l[:300] for l in r.stdout.splitlines()[-6:]))
          save(sid, property=meta['property'], **{p: res})
    finally:
      shutil.rmtree(work, ignore_errors=True)


main()
