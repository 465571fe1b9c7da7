"""Runs the checks of one property and writes its evidence."""

import argparse
import concurrent.futures
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
  sys.path.insert(0, HERE)

from symex import setup_repo  # pylint: disable=g-import-not-at-top

KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')


class Case:

  def __init__(self, name, fn, quick, thorough, budget, max_paths, timeouts,
               validate, extra, bounds):
    self.name = name
    self.fn = fn
    self.quick = quick
    self.thorough = thorough
    self.budget = budget
    self.max_paths = max_paths
    self.timeouts = timeouts
    self.validate = validate
    self.extra = extra
    self.bounds = bounds


_REG = []


def case(name=None, quick=({},), thorough=None, budget=600, max_paths=200000,
         timeouts=(10, 40, 40), validate=40, extra=None, bounds=''):
  """Registers a harness; quick/thorough are lists of parameter dicts."""

  def d(fn):
    _REG.append(Case(name or fn.__name__, fn, list(quick),
                     list(thorough if thorough is not None else quick),
                     budget, max_paths, timeouts, validate, extra,
                     bounds or (fn.__doc__ or '').strip()))
    return fn
  return d


def load(prop):
  setup_repo.init()
  _REG.clear()
  mod = importlib.import_module('checks.' + prop.lower())
  return mod, [c for c in _REG if c.fn.__module__ == mod.__name__]


# ----------------------------------------------------------------------------


class Hang(BaseException):
  """A run did not come back in time."""


def _alarm(seconds):
  def h(signum, frame):
    raise Hang()
  signal.signal(signal.SIGALRM, h)
  signal.setitimer(signal.ITIMER_REAL, seconds)


def _no_alarm():
  signal.setitimer(signal.ITIMER_REAL, 0)


CONCRETE_LIMIT = 60  # seconds; real runs take milliseconds
DEADLINE = [None]


def run_concrete(cs, params, model):
  """One concrete run on the unpatched code."""
  _alarm(CONCRETE_LIMIT)
  try:
    return _run_concrete(cs, params, model)
  except Hang:
    return {'status': 'hang', 'labels': [], 'observed': [],
            'failed': [('does not terminate', 'the real code did not return '
                        f'within {CONCRETE_LIMIT} s')]}
  finally:
    _no_alarm()


def _run_concrete(cs, params, model):
  from symex import core, harness, patch
  core._CTX = None
  h = harness.ConcH(model)
  extra = []
  try:
    with patch.Fresh(False):
      cs.fn(h, **params)
  except harness.AssumeFailed:
    return {'status': 'assume', 'labels': h.labels, 'failed': h.failed,
            'observed': []}
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.format_exc(limit=-4)
    return {'status': 'exception', 'labels': h.labels,
            'failed': h.failed + [('uncaught exception',
                                   f'{type(e).__name__}: {e}\n{tb}')],
            'observed': []}
  return {'status': 'violation' if h.failed else 'ok', 'labels': h.labels,
          'failed': h.failed, 'observed': h.observed}


def _num(v):
  import numpy as np
  try:
    if isinstance(v, (bool, np.bool_)):
      return float(v)
    return float(v)
  except Exception:  # pylint: disable=broad-except
    return None


def _eval_obs(h, model):
  """Evaluates observed symbolic values under the path's model."""
  from symex import arr, core
  out = []
  for n, v in h.observed:
    try:
      o = arr.to_obj(v) if not hasattr(v, '_s') else arr.to_obj(v._s)
      vals = []
      for e in o.flat:
        if core.is_sym(e):
          if isinstance(e, core.SymBool):
            import z3
            vals.append(1.0 if z3.is_true(model.eval(
                e.t, model_completion=True)) else 0.0)
          else:
            if core._has_ang(e):
              vals.append(None)
              continue
            t = e.sq if isinstance(e, core.SymReal) and (
                e.sq is not None) else core.term(e, True)
            x = core.float_of(model.eval(t, model_completion=True))
            if isinstance(e, core.SymReal) and e.sq is not None:
              x = max(x, 0.0) ** 0.5
            vals.append(x)
        else:
          vals.append(_num(e))
      out.append((n, vals))
    except BaseException:  # pylint: disable=broad-except
      out.append((n, None))
  return out


STOP = None


def _confirm(cs, params, st, viol, confirmed, spurious):
  """Replays solver counterexamples on the unpatched code."""
  for v in viol:
    ok = None
    for m in v['models']:
      st.replays += 1
      r = run_concrete(cs, params, m)
      if r['failed']:
        ok = (m, list(r['failed']))
        break
    if ok:
      for lab, info in ok[1]:
        confirmed.append({'label': lab, 'info': info, 'model': ok[0],
                          'via': 'solver counterexample for ' + v['label']})
    else:
      spurious.append(v)


def explore(cs, params, seed, verbose=False):
  """Symbolic exploration of one case, then concrete validation."""
  from symex import core, harness, patch
  t0 = time.time()
  st = core.Stats()
  work = [[]]
  crashes, viol, witnesses, unknowns, gaps = [], [], [], [], []
  concretised = {}
  labels = {}
  notes = set()
  funcs = {}
  npaths = 0
  samples = []
  exhausted = False
  deadline = t0 + cs.budget
  if DEADLINE[0]:
    deadline = min(deadline, DEADLINE[0])
  viol_per_label = {}

  def prof(frame, event, arg):
    if event == 'call':
      co = frame.f_code
      if co.co_filename.startswith(setup_repo.REPO):
        funcs[(co.co_filename[len(setup_repo.REPO) + 1:],
               getattr(co, 'co_qualname', co.co_name))] = 1

  extra = cs.extra(params) if cs.extra else ()
  t_viol = 0
  confirmed, spurious = [], []
  known = {k['label'] for k in known_findings()
           if k.get('kind') == 'finding' and k.get('case') == cs.name}
  while True:
   with patch.Patched(extra):
     while work:
       if npaths >= cs.max_paths or time.time() > deadline:
         exhausted = True
         break
       if STOP is not None and STOP.is_set():
         exhausted = 'stopped after violations'
         break
       if viol and not t_viol:
         t_viol = time.time()
       if t_viol and time.time() > t_viol + 10:
         break
       prefix = work.pop()
       c = core.Ctx(prefix, st, seed, cs.timeouts, deadline)
       core._CTX = c
       h = harness.SymH(c)
       from symex import jaxshim
       jaxshim.RANDOM['impl'] = None
       status = 'ok'
       exc = None
       if npaths < 6:
         sys.setprofile(prof)
       _alarm(max(20.0, deadline + 15 - time.time()))
       try:
         with patch.Fresh(True):
           cs.fn(h, **params)
       except Hang:
         status = 'gap'
         exc = 'symbolic path did not come back'
         exhausted = True
       except core.PathAbort:
         status = 'abort'
       except core.SolverUnknown as e:
         status = 'unknown'
         unknowns.append(str(e))
       except core.Unsupported as e:
         status = 'gap'
         exc = f'Unsupported: {e}'
         if verbose:
           traceback.print_exc()
       except core.BudgetExceeded:
         exhausted = True
         status = 'budget'
       except Exception as e:  # pylint: disable=broad-except
         status = 'crash'
         exc = f'{type(e).__name__}: {e}'
         if verbose:
           traceback.print_exc()
       finally:
         sys.setprofile(None)
         _no_alarm()
       npaths += 1
       work.extend(c.pending)
       notes.update(c.notes)
       try:
         for v in h.cex:
           k = v['label']
           viol_per_label[k] = viol_per_label.get(k, 0) + 1
           viol.append(v)
         if status == 'abort':
           st.pruned += 1
         elif status in ('ok', 'gap', 'crash'):
           m = c._get_model()
           if m is None:
             unknowns.append('final path condition')
           else:
             models = [h.extract(m)]
             if status == 'ok':
               st.paths += 1
               for l in h.labels:
                 labels[l] = labels.get(l, 0) + 1
               if c.concretised:
                 st.concretised_paths += 1
                 for w in set(c.concretised):
                   concretised[w] = concretised.get(w, 0) + 1
                 models += h.alternatives(core.z3.BoolVal(True), models[0])
                 for mm in models:
                   witnesses.append((mm, list(h.labels), None))
               else:
                 if len(witnesses) < 4000:
                   witnesses.append((models[0], list(h.labels),
                                     _eval_obs(h, m)))
               if len(samples) < 3:
                 samples.append({'inputs': models[0],
                                 'path_conditions': [str(p)[:160]
                                                     for p in c.pc[-4:]],
                                 'decisions': len(c.trace),
                                 'asserts': h.labels[:8]})
             else:
               models += h.alternatives(core.z3.BoolVal(True), models[0])
               crashes.append({'exc': exc, 'models': models,
                               'status': status, 'labels': list(h.labels)})
       except core.PathAbort:
         st.pruned += 1
       except core.SolverUnknown as e:
         unknowns.append(str(e))
       except core.BudgetExceeded:
         exhausted = True
       finally:
         core._CTX = None
       if any(v >= 4 for v in viol_per_label.values()) or len(crashes) >= 25:
         exhausted = 'stopped after violations'
         break
   core._CTX = None
   _confirm(cs, params, st, viol, confirmed, spurious)
   viol.clear()
   if any(v['label'] not in known for v in confirmed):
     if STOP is not None:
       STOP.set()
     if work and not exhausted:
       exhausted = 'stopped after violations'
   t_viol = 0
   if not work or exhausted:
     break
  core._CTX = None

  # ---- concrete phase on the unpatched code
  for cr in crashes:
    ok = None
    for m in cr['models']:
      st.replays += 1
      r = run_concrete(cs, params, m)
      if r['failed']:
        ok = (m, r['failed'])
        break
    if ok:
      for lab, info in ok[1]:
        confirmed.append({'label': lab, 'info': info, 'model': ok[0],
                          'via': 'path ended with ' + str(cr['exc'])})
    else:
      gaps.append(cr['exc'])
      st.concretised_paths += 1
  # witnesses: conformance of the encoding with the real code
  nv = 0
  step = max(1, len(witnesses) // max(1, cs.validate))
  mism = []
  for i in range(0, len(witnesses), step):
    m, labs, obs = witnesses[i]
    st.replays += 1
    r = run_concrete(cs, params, m)
    if r['failed']:
      for lab, info in r['failed']:
        confirmed.append({'label': lab, 'info': info, 'model': m,
                          'via': 'path witness'})
      continue
    if r['status'] == 'ok' and (obs is None or r['labels'] == labs):
      nv += 1
      if obs is not None:
        for (n, vals), (n2, v2) in zip(obs, r['observed']):
          if vals is None:
            continue
          from symex import arr
          if hasattr(v2, 'total_seconds'):
            v2 = v2.total_seconds()
          w2 = [_num(e) for e in arr.to_obj(v2).flat]
          st.obs_compared += 1
          good = len(w2) == len(vals) and all(
              a is None or b is None or abs(a - b) <= 1e-5 * (
                  1 + abs(a)) for a, b in zip(vals, w2))
          if not good:
            st.obs_mismatch += 1
            mism.append({'what': n, 'encoded': vals[:6], 'real': w2[:6],
                         'inputs': m})
    else:
      mism.append({'what': 'labels', 'encoded': labs[:30],
                   'real': r['labels'][:30], 'status': r['status'],
                   'inputs': m})
  st.validated += nv
  if STOP is not None and any(v['label'] not in known for v in confirmed):
    STOP.set()
  return {
      'case': cs.name, 'params': params, 'paths': st.paths,
      'pruned': st.pruned, 'runs': npaths, 'decisions': st.decisions,
      'queries': st.queries, 'solver_s': round(st.solver_s, 3),
      'asserts': st.asserts, 'asserts_unsat': st.asserts_unsat,
      'validated': nv, 'replays': st.replays,
      'obs_compared': st.obs_compared, 'mismatch': mism[:5],
      'n_mismatch': len(mism), 'unknown': unknowns, 'gaps': gaps,
      'concretised': concretised, 'concretised_paths': st.concretised_paths,
      'exhausted': exhausted, 'confirmed': confirmed,
      'spurious': [{'label': s['label'], 'model': s['models'][0]}
                   for s in spurious][:5],
      'labels': labels, 'functions': sorted('%s:%s' % f for f in funcs),
      'notes': sorted(notes), 'samples': samples,
      'wall_s': round(time.time() - t0, 2), 'bounds': cs.bounds,
  }


def _worker(args):
  prop, ci, params, seed, verbose = args
  try:
    return explore(_CASES[ci], params, seed, verbose)
  except BaseException as e:  # pylint: disable=broad-except
    return {'case': _CASES[ci].name, 'params': params,
            'engine_error': f'{type(e).__name__}: {e}\n'
                            + traceback.format_exc()}


_CASES = []


def known_findings():
  out = []
  if os.path.exists(KNOWN):
    for line in open(KNOWN):
      line = line.strip()
      if line and not line.startswith('#'):
        out.append(json.loads(line))
  return out


def _pool(tasks, cases):
  """Runs the tasks on all cores; a violation ends the other tasks soon."""
  global STOP
  ctx = multiprocessing.get_context('fork')
  STOP = ctx.Event()
  results = {}
  _rounds(ctx, tasks, range(len(tasks)), 8, results, cases)
  # When one process dies (out of memory, say), the others of its pool are
  # ended, too: give each of their tasks a pool of its own.
  for k in [k for k, r in sorted(results.items()) if r.get('died')]:
    if not any(r.get('confirmed') for r in results.values()):
      _rounds(ctx, tasks, [k], 1, results, cases)
  return [results[k] for k in sorted(results)]


def _rounds(ctx, tasks, which, workers, results, cases):
  """Runs some of the tasks."""
  ex = concurrent.futures.ProcessPoolExecutor(
      max_workers=min(workers, len(which)), mp_context=ctx)
  try:
    futs = {ex.submit(_worker, tasks[k]): k for k in which}
    left = set(futs)
    stop_at = None
    while left:
      done, left = concurrent.futures.wait(
          left, timeout=2, return_when=concurrent.futures.FIRST_COMPLETED)
      for f in done:
        k = futs[f]
        try:
          results[k] = f.result()
        except BaseException as e:  # pylint: disable=broad-except
          results[k] = {'case': cases[tasks[k][1]].name,
                        'params': tasks[k][2], 'died': True,
                        'engine_error': f'worker died: {e!r}'}
      if STOP.is_set() and stop_at is None:
        stop_at = time.time() + 30
      have = any(r.get('confirmed') for r in results.values())
      if stop_at and time.time() > stop_at and have and left:
        for p in list(ex._processes.values()):
          p.kill()
        break
  finally:
    ex.shutdown(wait=False, cancel_futures=True)


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--case')
  ap.add_argument('--serial', action='store_true')
  ap.add_argument('-v', '--verbose', action='store_true')
  a = ap.parse_args(argv)
  prop = a.prop.upper()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  DEADLINE[0] = t0 + (600 if a.tier == 'quick' else 7200)

  if a.replay:
    rec = json.load(open(a.replay))
    _, cases = load(prop)
    cs = {c.name: c for c in cases}[rec['case']]
    r = run_concrete(cs, rec['params'], rec['model'])
    print('replay:', r['status'])
    for lab, info in r['failed']:
      print('  FAILED', lab, '--', info)
    sys.exit(1 if r['failed'] else 0)

  mod, cases = load(prop)
  global _CASES
  _CASES = cases
  tasks = []
  for i, c in enumerate(cases):
    if a.case and a.case != c.name:
      continue
    for p in (c.thorough if a.tier == 'thorough' else c.quick):
      tasks.append((prop, i, p, seed, a.verbose))
  results = []
  if a.serial or len(tasks) == 1:
    results = [_worker(t) for t in tasks]
  else:
    results = _pool(tasks, cases)
  code = report(prop, mod, cases, results, a, seed, t0)
  sys.stdout.flush()
  sys.exit(code)


def report(prop, mod, cases, results, a, seed, t0):
  """Prints the verdict, writes evidence; returns the exit code."""
  known = [k for k in known_findings()
           if k.get('property') == prop and k.get('kind') == 'finding']
  rdir = os.path.join(HERE, 'evidence', 'replays')
  os.makedirs(rdir, exist_ok=True)
  errors = []
  undecided = []
  new_viol = []
  seen_known = {}
  done = set()
  for r in results:
    tag = f"{r['case']}{r['params'] or ''}"
    if 'engine_error' in r:
      errors.append(f'{tag}: engine error: {r["engine_error"]}')
      continue
    for v in r['confirmed']:
      k = None
      for kf in known:
        if kf['case'] == r['case'] and kf['label'] == v['label'] and (
            'params' not in kf or kf['params'] == r['params']):
          k = kf
      if k is not None:
        seen_known[k['id']] = k
        continue
      key = (r['case'], v['label'])
      if key in done:
        continue
      done.add(key)
      new_viol.append((r, v))
    if r['spurious']:
      undecided.append(f'{tag}: counterexample did not replay on the real code: '
                    f'{r["spurious"][:2]}')
    if r['unknown']:
      undecided.append(f'{tag}: solver unknown: {r["unknown"][:3]}')
    if r['exhausted'] is True:
      undecided.append(f'{tag}: budget exhausted after {r["runs"]} paths')
    if not r['paths'] and not r['confirmed'] and not r['exhausted'] and (
        not r['concretised_paths']):
      errors.append(f'{tag}: vacuous (no feasible path reached the end)')
    if r['paths'] and not r['asserts']:
      errors.append(f'{tag}: vacuous (no assertion reached)')
  status = 0
  n = 0
  env = dict(os.environ)
  for r, v in new_viol[:12]:
    path = os.path.join(rdir, f'{prop}-{n}.json')
    n += 1
    with open(path, 'w') as f:
      json.dump({'property': prop, 'case': r['case'], 'params': r['params'],
                 'label': v['label'], 'info': v['info'], 'model': v['model'],
                 'via': v['via']}, f, indent=1)
    if n <= 3:
      p = subprocess.run(
          [sys.executable, '-m', 'symex.run', prop, '--replay', path],
          cwd=HERE, env=env, capture_output=True, text=True)
      if p.returncode != 1:
        errors.append(f'{r["case"]}: violation of "{v["label"]}" did not '
                      f'replay in a fresh process: {p.stdout[-500:]} '
                      f'{p.stderr[-500:]}')
        continue
    print(f'VIOLATION property={prop} replay={path}')
    print(f'  case={r["case"]} params={r["params"]} check="{v["label"]}" '
          f'({v["via"]})')
    print('  ' + v['info'][:600].replace('\n', '\n  '))
    status = 1
  for k in known:
    if k['id'] in seen_known:
      print(f'KNOWN-FINDING: property={prop} {k["what"]}')
  good = [r for r in results if 'engine_error' not in r]
  tot = lambda k: sum(r[k] for r in good)
  samples = []
  for r in good:
    for s in r['samples'][:1]:
      samples.append({'case': r['case'], 'params': r['params'], **s})
  funcs = sorted({f for r in good for f in r['functions']})
  cov = {
      'states': tot('paths'),
      'transitions': tot('decisions'),
      'traces_validated_against_impl': tot('validated'),
      'samples': samples[:6],
      'exhaustive': False,
      'explanation': (
          'states = feasible symbolic paths of the real functions, each '
          'standing for all inputs satisfying its path condition; transitions '
          '= branch decisions put to the solver; every assertion on every '
          'path was decided by the solver (unsat = holds for all values in '
          'the stated bounds).'),
      'functions_encoded': funcs,
      'bounds': {f"{r['case']}{r['params'] or ''}": r['bounds'] for r in good},
      'queries_discharged': tot('queries'),
      'solver_seconds': round(tot('solver_s'), 2),
      'assertions': tot('asserts'),
      'assertions_proved_on_path': tot('asserts_unsat'),
      'infeasible_paths_pruned': tot('pruned'),
      'concrete_replays': tot('replays'),
      'observed_values_compared': tot('obs_compared'),
      'encoding_mismatches': tot('n_mismatch'),
      'paths_only_sampled': tot('concretised_paths'),
      'sampled_reasons': sorted({w for r in good for w in list(
          r['concretised']) + r['gaps']})[:20],
      'undecided': [u[:400] for u in undecided[:20]],
      'all_paths_explored': all(not r['exhausted'] for r in good),
      'labels_reached': sorted({l for r in good for l in r['labels']}),
      'cases': [{k: r[k] for k in ('case', 'params', 'paths', 'runs',
                                   'queries', 'solver_s', 'wall_s',
                                   'asserts')} for r in good],
      'encoding_notes': sorted({x for r in good for x in r['notes']}),
  }
  ev = {
      'property': prop, 'tier': a.tier, 'seed': seed,
      'level': getattr(mod, 'LEVEL', 'model_checking'), 'coverage': cov,
      'assumptions': COMMON_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS',
                                                       [])),
      'wall_s': round(time.time() - t0, 2), 'violations': len(new_viol),
  }
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  if os.environ.get('VERIF_STRICT'):
    errors += undecided
    undecided = []
  if status == 0 and errors:
    status = 2
  for e in undecided[:20]:
    print('note: UNDECIDED ' + e[:1500])
  for e in errors[:20]:
    print(('ERROR ' if status == 2 else 'note ') + e[:1500])
  mm = [m for r in good for m in r['mismatch']]
  if mm:
    print('note: encoding/real mismatches:', cov['encoding_mismatches'],
          json.dumps(mm[:2], default=str)[:1500])
  if cov['paths_only_sampled']:
    print('note: paths covered by solver-chosen samples only:',
          cov['paths_only_sampled'], cov['sampled_reasons'][:6])
  print(f'{prop} {a.tier}: exit={status} paths={cov["states"]} '
        f'decisions={cov["transitions"]} asserts={cov["assertions"]} '
        f'queries={cov["queries_discharged"]} '
        f'solver={cov["solver_seconds"]}s validated='
        f'{cov["traces_validated_against_impl"]} wall={ev["wall_s"]}s')
  if a.verbose:
    for r in good:
      print('  ', r['case'], r['params'], 'paths', r['paths'], 'runs',
            r['runs'], 'q', r['queries'], 'wall', r['wall_s'], 'labels',
            r['labels'])
  return status


COMMON_ASSUMPTIONS = [
    'Python floats and numpy float arrays are modelled as real numbers; '
    'equalities are asserted up to the tolerance written in each harness '
    '(rounding inside that tolerance is outside the claim).',
    'Container sizes (atoms, images, steps, seeds) are bounded as stated per '
    'case; within a bound all scalar values are symbolic.',
    'Library calls (numpy, shapely Point, timedelta, protobuf messages, '
    'sklearn nearest neighbours, numpy Generator) follow their documented '
    'contract as encoded in /verif/symex; path witnesses are replayed against '
    'the real libraries.',
]


if __name__ == '__main__':
  # keep a single module identity for the case registry
  from symex import run as _run
  _run.main()
