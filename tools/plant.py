"""Plants a bug: plant.py ID PROP FILE <<< JSON{old,new,needs,breaks,demo}.

Makes seeded/ID from a textual edit, then confirms in a scratch copy that the
existing stable tests pass, that the demo passes without and fails with the
change, and reports whether the property's quick check catches it.
`plant.py --verify ID` repeats the confirmation.
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.environ.get('PLANT_VERIF', '/verif')
R = os.environ.get('PLANT_REPO', '/repo')
BASE = '11bd60b'  # the original tree; later commits are repairs


def sh(cmd, **k):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(pid, prop, edits, needs, breaks, demo):
  d = f'{V}/seeded/{pid}'
  os.makedirs(d, exist_ok=True)
  w = f'/tmp/plant_{pid}'
  shutil.rmtree(w, ignore_errors=True)
  shutil.copytree(R, w, symlinks=True)
  for f, old, new in edits:
    p = f'{w}/putting_dune/{f}'
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
  open(f'{d}/patch.diff', 'w').write(sh(f'git -C {w} diff').stdout)
  open(f'{d}/demo.py', 'w').write(demo)
  open(f'{d}/demo.sh', 'w').write(
      '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\n'
      'export JAX_PLATFORMS=cpu TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg '
      'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
      'exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
  json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
            open(f'{d}/meta.json', 'w'), indent=1)
  for f, old, new in edits:
    own = sh(f'git blame -s {BASE}..HEAD -- putting_dune/{f}', cwd=R).stdout
    s = open(f'{R}/putting_dune/{f}').read()
    at = s[:s.index(old)].count('\n')
    for i, line in enumerate(own.split('\n')[at:at + old.count('\n')]):
      text = old.split('\n')[i]
      if not line.startswith('^') and text not in new.split('\n'):
        print('OWN LINE', pid, line)
  shutil.rmtree(w)


def verify(pid, tests=True, checks=True):
  d = f'{V}/seeded/{pid}'
  meta = json.load(open(f'{d}/meta.json'))
  w = f'/tmp/plant_{pid}'
  shutil.rmtree(w, ignore_errors=True)
  shutil.copytree(R, w, symlinks=True)
  out = [pid, meta['property']]
  r = sh(f'bash {d}/demo.sh', cwd=w)
  out.append('demo-clean ok' if r.returncode == 0 else
             'DEMO-CLEAN FAILS ' + (r.stdout + r.stderr)[-800:])
  r = sh(f'git apply {d}/patch.diff', cwd=w)
  if r.returncode:
    out.append('PATCH FAILS ' + r.stderr)
  r = sh(f'bash {d}/demo.sh', cwd=w)
  out.append('demo-bug fails ok' if r.returncode != 0 else
             'DEMO-BUG PASSES')
  if r.returncode:
    out.append('(' + (r.stdout + r.stderr).strip().split('\n')[-1][:150] + ')')
  if tests:
    os.makedirs(f'{w}_vp', exist_ok=True)
    for f in ('test.sh', 'env.sh'):
      s = open(f'/opt/vp/{f}').read().replace('/repo', w).replace(
          '. /opt/vp/env.sh', f'. {w}_vp/env.sh')
      open(f'{w}_vp/{f}', 'w').write(s)
    r = sh(f'bash {w}_vp/test.sh {w}_vp/out.json')
    try:
      res = json.load(open(f'{w}_vp/out.json'))
      base = json.load(open('/opt/vp/BASELINE.json'))
      bl = base.get('pass', base.get('passed', base.get('stable')))
      got = set(res.get('passed', res.get('pass', [])))
      miss = [t for t in bl if t not in got]
      out.append('tests ok' if not miss else f'TESTS FAIL {miss[:5]}')
    except Exception as e:  # pylint: disable=broad-except
      out.append(f'tests? {e!r} {r.stdout[-300:]} {r.stderr[-300:]}')
    shutil.rmtree(f'{w}_vp', ignore_errors=True)
  if checks:
    r = sh(f'VERIF_REPO={w} bash check.sh {meta["property"]}', cwd=V)
    hit = r.returncode == 1 and f'VIOLATION property={meta["property"]}' in r.stdout
    out.append('CAUGHT' if hit else f'MISSED exit={r.returncode} '
               + r.stdout[-600:])
  shutil.rmtree(w, ignore_errors=True)
  print(' | '.join(out), flush=True)


if __name__ == '__main__':
  if sys.argv[1] == '--verify':
    for x in sys.argv[2:]:
      verify(x)
  else:
    ns = {}
    exec(open(sys.argv[1]).read(), ns)  # pylint: disable=exec-used
    for b in ns['BUGS']:
      make(*b)
      verify(b[0])
