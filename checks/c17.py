"""C17: the event record of a simulation."""

from symex.run import case
from checks import common
from checks.simlib import Images, Log, Mat
from putting_dune import microscope_utils as mu
from putting_dune import simulator
from putting_dune import simulator_observers as so

T = so.SimulatorEventType


@case(quick=[dict(n=n, image=i, jumps=j) for n in (0, 1, 2)
             for i in (False, True) for j in ((0, 1, 2) if n == 1 else (1,))],
      thorough=[dict(n=n, image=i, jumps=j) for n in (0, 1, 2, 3)
                for i in (False, True) for j in (0, 1, 2, 3)
                if n * j <= 4], budget=500,
      bounds='a reset, a step of n commands with the given number of '
             'transitions each, and a second reset, on the '
             'materials of C16; the reference recorder sees the same run')
def record(h, n, image, jumps):
  im = Images()
  with common.swap((simulator.imaging, 'generate_stem_image', im.generate),
                   (simulator.imaging, 'sample_image_parameters', im.sample)):
    m = Mat(h, jumps=jumps)
    ev, log = so.EventObserver(), Log()
    sim = simulator.PuttingDuneSimulator(
        m, image_duration=h.td(h.real('dur', 0.1, 10)), observers=[ev, log])
    h.check(ev.events == [], 'nothing recorded before the first reset')
    rng = h.rng()
    sim.reset(rng, return_image=image)
    compare(h, ev, log)
    cs = [mu.BeamControl(common.pt(h, f'c{i}', -1, 2),
                         h.td(h.real(f'd{i}', 0, 100))) for i in range(n)]
    sim.step_and_image(rng, cs, return_image=image)
    compare(h, ev, log)
    old = ev.events
    kept = list(old)
    log.events = []
    sim.reset(rng, return_image=image)
    compare(h, ev, log)
    h.check(len(old) == len(kept) and all(
        x is y for x, y in zip(old, kept)),
            'a record taken earlier is left as it was')


def compare(h, ev, log):
  """The record holds exactly the events seen by the reference, in order."""
  want = [e for e in log.events if e[0] != 'fov']
  h.check(len(ev.events) == len(want), 'number of events')
  for e, w in zip(ev.events, want):
    d = e.event_data
    if w[0] == 'reset':
      h.check(e.event_type == T.RESET, 'reset recorded')
      h.check(common.same_grid(h, d['grid'], w[1], 0), 'material at reset')
      h.check(common.same_fov(h, d['fov'], w[2], 0), 'view at reset')
    elif w[0] == 'control':
      h.check(e.event_type == T.APPLY_CONTROL, 'command recorded')
      h.check(common.same_pt(h, d['position'], w[1].position, 0),
              'beam position')
      h.check(h.close(d['dwell_time'].total_seconds(),
                      w[1].dwell_time.total_seconds(), 0), 'dwell time')
    elif w[0] == 'transition':
      h.check(e.event_type == T.TRANSITION, 'transition recorded')
      h.check(h.close(d['time_since_control_was_applied'].total_seconds(),
                      w[1].total_seconds(), 0), 'time of the transition')
      h.check(common.same_grid(h, d['grid'], w[2], 0), 'state reached')
    elif w[0] == 'image':
      h.check(e.event_type == T.TAKE_IMAGE, 'imaging recorded')
      h.check(h.close(d['duration'].total_seconds(), w[1].total_seconds(), 0),
              'imaging time')
      h.check(common.same_fov(h, d['fov'], w[2], 0), 'view imaged')
    else:
      h.check(e.event_type == T.GENERATED_IMAGE, 'image recorded')
      h.check(d['image'] is w[1], 'the image itself')
