"""C24: from transitions to the data that rates are learnt from."""

import contextlib
import io

import numpy as np
from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import train_rate_learner as trl

SI, C = constants.SILICON, constants.CARBON

# Sites of the material: the dopant, its three neighbours (of slightly
# different lengths, not in angular order), their six further neighbours and
# some more.
SITES = [(0.0, 0.0), (-0.70, 1.23), (1.42, 0.0), (-0.72, -1.26),
         (2.13, 1.24), (2.12, -1.22), (0.0, 2.46), (-2.13, 1.22),
         (-2.12, -1.24), (0.01, -2.45), (1.43, 2.47), (-2.85, 0.02)]
CCW = [2, 1, 3]  # neighbours counter-clockwise
FOURFOLD = [(0.0, 0.0), (1.8, 0.0), (0.0, 1.82), (-1.84, 0.0), (0.0, -1.86)]


def grid(h, sites, si, f, shift=(0.0, 0.0)):
  """Atoms in the image of field of view f; si: indices of the dopants."""
  ll, w, t = f.lower_left, f.width, f.height
  rows = [[(x + shift[0] - ll.x) / w, (y + shift[1] - ll.y) / t]
          for x, y in sites]
  return mu.AtomicGrid(h.array(rows).reshape(len(rows), 2),
                       h.int_array([SI if k in si else C
                                    for k in range(len(sites))]))


def view(h, name, size):
  """A field of view (of one size, anywhere)."""
  x, y = h.real(f'{name}.x', -20, 20), h.real(f'{name}.y', -20, 20)
  return mu.MicroscopeFieldOfView(
      lower_left=h.Point(x, y), upper_right=h.Point(x + size[0], y + size[1]))


def control(h, name, bx, by, f):
  return mu.BeamControl(
      h.Point((bx - f.lower_left.x) / f.width, (by - f.lower_left.y) / f.height),
      h.td(h.real(f'{name}.dwell', 0, 100)),
      voltage_kv=h.real(f'{name}.kv', 40, 200),
      current_na=h.real(f'{name}.na', 0.01, 1))


def mirrored(sites):
  return [(x, -y) for x, y in sites]


def transition(h, name, before=SITES, after=SITES, si=(0,), to=(0,), n=1,
               shift=(0.0, 0.0)):
  f, g = view(h, f'{name}.f', (20.0, 25.0)), view(h, f'{name}.g', (16.0, 16.0))
  bx, by = h.real(f'{name}.bx', -4, 4), h.real(f'{name}.by', -4, 4)
  cs = tuple(control(h, f'{name}.c{k}', bx, by, f) for k in range(n))
  return mu.Transition(grid_before=grid(h, before, si, f),
                       grid_after=grid(h, after, to, g, shift),
                       fov_before=f, fov_after=g, controls=cs), (bx, by)


class Args:
  neighbor_distance_cutoff = constants.CARBON_BOND_DISTANCE_ANGSTROMS / 2


def run(h, ts, cutoff=None):
  args = Args()
  if cutoff is not None:
    args.neighbor_distance_cutoff = cutoff
  with contextlib.redirect_stdout(io.StringIO()):
    return trl.transitions_to_datapoints(ts, args)


def judge(h, d, c, beam, to, mirror):
  """d: the datapoint; to: the site the dopant moved to."""
  bx, by = beam
  sites = mirrored(SITES) if mirror else SITES
  around = CCW[::-1] if mirror else CCW
  dist = [(sites[k][0] - bx) ** 2 + (sites[k][1] - by) ** 2 for k in around]
  for i in range(3):
    for j in range(i):
      h.apart(dist[i], dist[j], 1e-3)
  at = [k for k in range(3) if all(h.branch(dist[k] < dist[j])
                                   for j in range(3) if j != k)]
  h.check(len(at) == 1, 'one neighbour is nearest to the beam')
  want = 0 if to == 0 else (around.index(to) - at[0]) % 3 + 1
  h.check(h.eq(d['next_state'], want),
          'the neighbour moved to, counter-clockwise from the one nearest to '
          'the beam; none when the dopant stayed')
  h.check(h.close(d['seconds_between'], c.dwell_time.total_seconds(), 1e-5),
          'the time is the dwell time')
  h.check(h.and_(h.close(d['current'], c.current_na, 1e-9),
                 h.close(d['voltage'], c.voltage_kv, 1e-9)),
          'current and voltage of the command')
  nx, ny = sites[around[at[0]]]
  l = (nx * nx + ny * ny) ** 0.5
  p = d['beam_pos'].reshape(2)
  h.check(h.and_(h.close(p[0] * l, nx * bx + ny * by, 1e-4),
                 h.close(p[1] * l, nx * by - ny * bx, 1e-4)),
          'the beam relative to the dopant, nearest neighbour to the right')


@case(quick=[dict(to=t, mirror=m) for t in range(4) for m in (False, True)], timeouts=(20, 60), budget=300,
      bounds='beam anywhere within 4 A of the dopant in any field of view of one '
             'size, dopant staying or moving to each neighbour, the material '
             'seen up to 0.25 A displaced in another field of view afterwards; any '
             'dwell time, current and voltage')
def label(h, to, mirror):
  sites = mirrored(SITES) if mirror else SITES
  dx, dy = h.real('dx', -0.25, 0.25), h.real('dy', -0.25, 0.25)
  t, beam = transition(h, 't', sites, sites, to=(to,), shift=(dx, dy))
  out = run(h, [t])
  h.check(len(out) == 1, 'one datapoint')
  judge(h, out[0], t.controls[0], beam, to, mirror)


def bad(h, kind):
  """Transitions that say nothing about rates."""
  if kind == 'no command':
    return transition(h, kind, n=0)[0]
  if kind == 'two commands':
    return transition(h, kind, n=2)[0]
  if kind == 'no dopant before':
    return transition(h, kind, si=())[0]
  if kind == 'two dopants before':
    return transition(h, kind, si=(0, 5))[0]
  if kind == 'no dopant after':
    return transition(h, kind, to=())[0]
  if kind == 'two dopants after':
    return transition(h, kind, to=(1, 6))[0]
  if kind == 'far move':
    return transition(h, kind, to=(6,))[0]
  if kind == 'fourfold':
    s = FOURFOLD + [(3.5 * x + 0.1 * y, 3.4 * y) for x, y in SITES[4:10]]
    return transition(h, kind, before=s, after=s)[0]
  if kind == 'edge':  # a neighbour of the dopant is missing
    s = [p for k, p in enumerate(SITES) if k != 2]
    return transition(h, kind, before=s, after=s)[0]
  if kind == 'displaced':
    return transition(h, kind, shift=(3.9, -3.8))[0]
  if kind == 'rearranged':
    s = SITES[:1] + [(x * 1.8, y * 1.8) for x, y in SITES[1:]]
    return transition(h, kind, after=s)[0]
  if kind == 'few atoms':
    return transition(h, kind, before=SITES[:7], after=SITES[:7])[0]
  if kind == 'few atoms after':
    return transition(h, kind, after=SITES[:3])[0]
  raise ValueError(kind)


KINDS = ('no command', 'two commands', 'no dopant before', 'two dopants before',
         'no dopant after', 'two dopants after', 'far move', 'fourfold', 'edge',
         'displaced', 'rearranged', 'few atoms', 'few atoms after')


@case(quick=[dict(kind=k) for k in KINDS], timeouts=(20, 60), budget=300,
      bounds='each reason to leave out a transition, between two usable ones, in '
             'any fields of view')
def selection(h, kind):
  a, ba = transition(h, 'a', to=(2,))
  b, bb = transition(h, 'b', to=(0,))
  out = run(h, [a, bad(h, kind), b])
  h.check(len(out) == 2, 'only usable transitions give data')
  for d, t in zip(out, (a, b)):
    h.check(h.close(d['voltage'], t.controls[0].voltage_kv, 1e-9),
            'data in the order of the transitions')
  h.check(h.not_(h.eq(out[0]['next_state'], 0)) and
          h.eq(out[1]['next_state'], 0), 'data in the order of the transitions')


@case(quick=[dict(moved=m, to=t) for m, t in (((1,), 0), ((2, 3), 0),
                                              ((1, 3), 2))],
      thorough=[dict(moved=m, to=t) for m in ((1,), (2,), (3,), (2, 3), (1, 3),
                                              (1, 2))
                for t in range(4)], timeouts=(20, 60), budget=300,
      bounds='one or two neighbours moved away from the dopant '
             'by up to 3 A each; cutoff of 0.05 to 1 A, at least 1e-3 from the '
             'mean displacement')
def cutoff(h, moved, to):
  cut = h.real('cutoff', 0.05, 1)
  after, total = list(SITES[:4]), 0
  for k in moved:
    s, (x, y) = h.real(f's{k}', 0, 3), SITES[k]
    l = (x * x + y * y) ** 0.5
    after[k] = (x + s * x / l, y + s * y / l)
    # The dopant's own site is the nearest one once it has moved further.
    total = total + h.ite(s < l, s, l)
  after += [(12.0, 11.0), (-13.0, 11.5), (12.5, -12.0)]
  h.apart(total / 4, cut, 1e-3)
  t, _ = transition(h, 't', after=after, to=(to,))
  out = run(h, [t], cut)
  h.check(h.iff(len(out) == 1, total / 4 <= cut),
          'left out when the neighbourhood moved by more than the cutoff, on '
          'average')


@case(bounds='no transitions')
def nothing(h):
  h.check(run(h, []) == [], 'nothing from nothing')


@case(quick=[dict(n=n, cur=c, vol=v, dwell=d) for n, c, v, d in (
    (1, False, False, False), (2, True, False, False), (2, False, True, False),
    (2, True, True, False), (3, True, True, True), (2, False, False, True))],
      bounds='n datapoints of any values')
def stack(h, n, cur, vol, dwell):
  ds = [trl.DataPoint(next_state=h.int(f's{k}', 0, 3),
                      beam_pos=h.reals(f'b{k}', 2, -5, 5),
                      seconds_between=h.real(f't{k}', 0, 100),
                      current=h.real(f'c{k}', 0, 1),
                      voltage=h.real(f'v{k}', 40, 200)) for k in range(n)]
  kw = {}
  if cur:
    kw['use_current'] = True
  if vol:
    kw['use_voltage'] = True
  if dwell:
    kw['dwell_time_in_context'] = True
  out = trl.stack_data(ds, **kw)
  h.check(out['rates'].shape == (n, 3) and
          out['next_state'].shape == (n,) and out['dt'].shape == (n,) and
          out['position'].shape == (n, 2), 'shapes')
  keys = ['current'] * cur + ['voltage'] * vol + ['seconds_between'] * dwell
  if not keys:
    h.check(out['context'] is None, 'no context')
  else:
    h.check(out['context'].shape == (n, len(keys)), 'shape of the context')
  for k, d in enumerate(ds):
    h.check(h.and_(h.eq(out['next_state'][k], d['next_state']),
                   h.close(out['dt'][k], d['seconds_between'], 1e-6),
                   h.arr_close(out['position'][k], d['beam_pos'], 1e-6)),
            'each datapoint keeps its values')
    for j, key in enumerate(keys):
      h.check(h.close(out['context'][k][j], d[key], 1e-6),
              'context: current, then voltage, then dwell time')
