"""C11: beam actions relative to the dopant."""

from symex.run import case
from checks import common
from checks.c10 import clip, one_control
from putting_dune import action_adapters as aa
from putting_dune import constants
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON


def setup(h, n, si, frame):
  """Observation with the dopant(s) at the given indices."""
  z = [SI if i in si else C for i in range(n)]
  g = common.grid(h, 'g', n, -0.5, 1.5, numbers=z)
  f, lx, ly, w, ht = common.fov(h, minw=2.0, maxw=100.0)
  o = mu.MicroscopeObservation(grid=g, fov=f, controls=(),
                               elapsed_time=h.td(0.0))
  cls = (aa.RelativeToSiliconActionAdapter if frame == 'unit' else
         aa.RelativeToSiliconMaterialFrameActionAdapter)
  return cls, g, o, w, ht


@case(quick=[dict(frame=f, dwell=d) for f in ('unit', 'angstrom')
             for d in ('default', 'fixed', 'range')],
      thorough=[dict(frame=f, dwell=d, n=4) for f in ('unit', 'angstrom')
                for d in ('default', 'fixed', 'range')],
      bounds='dopant among n atoms anywhere in -0.5..1.5 of a field of view '
             'with sides 2..100 A; action components within -5..5; maximum '
             'distance 0.1..10 A; dwell limits 0.1..20 s')
def relative(h, frame, dwell, n=2):
  k = h.pick('si', range(n))
  cls, g, o, w, ht = setup(h, n, (k,), frame)
  kw = {}
  reach = constants.CARBON_BOND_DISTANCE_ANGSTROMS
  lo = hi = 1.5
  if dwell != 'default':
    lo = h.real('lo', 0.1, 10)
    hi = lo if dwell == 'fixed' else lo + h.real('span', 0.1, 10)
    a, b = h.td(lo), h.td(hi)
    kw['dwell_time_range'] = (a, b)
    lo, hi = a.total_seconds(), b.total_seconds()
    reach = h.real('reach', 0.1, 10)
    kw['max_distance_angstroms'] = reach
  ad = cls(**kw)
  ad.reset()
  act = h.reals('a', 3 if dwell == 'range' else 2, -5, 5)
  was = [act[i] for i in range(act.shape[0])]
  before = [g.atom_positions[k, 0], g.atom_positions[k, 1]]
  out = ad.get_action(o, act)
  if frame == 'unit':
    dx, dy = (clip(h, was[i], -1.0, 1.0) * reach for i in range(2))
  else:
    dx, dy = was[0], was[1]
  d = lo
  if dwell == 'range':
    d = lo + clip(h, was[2]) * (hi - lo)
  one_control(h, out, clip(h, before[0] + dx / w), clip(h, before[1] + dy / ht),
              d)
  h.check(h.all(h.close(act[i], was[i], 0) for i in range(len(was))),
          'the action is left alone')
  h.check(h.and_(h.close(g.atom_positions[k, 0], before[0], 0),
                 h.close(g.atom_positions[k, 1], before[1], 0)),
          'the observation is left alone')


@case(quick=[dict(frame=f, si=s) for f in ('unit', 'angstrom')
             for s in ((), (0, 1), (0, 1, 2))],
      bounds='3 atoms, none or several of them silicon')
def ambiguous(h, frame, si):
  cls, g, o, w, ht = setup(h, 3, si, frame)
  h.check_raises(RuntimeError, 'not exactly one dopant: refused',
                 cls().get_action, o, h.reals('a', 2, -1, 1))


@case(quick=[dict(frame=f) for f in ('unit', 'angstrom')],
      bounds='concrete specs')
def specs(h, frame):
  cls = (aa.RelativeToSiliconActionAdapter if frame == 'unit' else
         aa.RelativeToSiliconMaterialFrameActionAdapter)
  s = cls().action_spec
  h.check(s.shape == (2,) and (s.minimum == -1).all() and
          (s.maximum == 1).all(), 'two components with a fixed dwell time')
  s = cls(dwell_time_range=(h.dt.timedelta(seconds=1.0),
                            h.dt.timedelta(seconds=2.0))).action_spec
  h.check(s.shape == (3,) and list(s.minimum) == [-1, -1, 0] and
          list(s.maximum) == [1, 1, 1], 'a third component for the dwell time')
