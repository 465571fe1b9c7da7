"""Says which seeded bugs remove lines added by our repairs (base..HEAD)."""
import os, re, subprocess, sys
R = '/repo'; BASE = '11bd60b'
def run(c):
  return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=R).stdout
added = {}
f = None
for l in run(f'git diff -U0 {BASE} HEAD').split('\n'):
  if l.startswith('+++ b/'):
    f = l[6:]
  elif l.startswith('@@'):
    m = re.search(r'\+(\d+)(?:,(\d+))?', l)
    s, n = int(m[1]), int(m[2] or 1)
    added.setdefault(f, set()).update(range(s, s + n))
d0 = sys.argv[1] if len(sys.argv) > 1 else '/verif/seeded'
for d in sorted(os.listdir(d0)):
  f = None
  hits = []
  removed = 0
  for l in open(f'{d0}/{d}/patch.diff').read().split('\n'):
    if l.startswith('+++ b/'):
      f = l[6:]
    elif l.startswith('@@'):
      n = int(re.search(r'-(\d+)', l)[1]); 
    elif l.startswith('-') and not l.startswith('---'):
      removed += 1
      if n in added.get(f, ()):
        hits.append((f, n))
      n += 1
    elif l.startswith(' '):
      n += 1
  print(d, removed, hits or '')
