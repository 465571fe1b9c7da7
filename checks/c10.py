"""C10: absolute and incremental beam actions."""

from symex.run import case
from checks import common
from putting_dune import action_adapters as aa

DWELL = 1.5


def clip(h, v, lo=0.0, hi=1.0):
  return h.ite(v < lo, lo, h.ite(v > hi, hi, v))


def one_control(h, out, x, y, dwell=DWELL):
  """Exactly one command at (x, y) for the dwell time."""
  h.check(len(out) == 1, 'exactly one beam command')
  c = out[0]
  h.observe('beam', (c.position.x, c.position.y))
  h.check(h.and_(h.close(c.position.x, x, 1e-6), h.close(c.position.y, y, 1e-6)),
          'beam position')
  h.check(h.and_(c.position.x >= 0, c.position.x <= 1, c.position.y >= 0,
                 c.position.y <= 1), 'beam stays in the field of view')
  h.check(h.close(c.dwell_time.total_seconds(), dwell, 2e-6), 'dwell time')


def obs(h, name='o', n=1):
  return common.observation(h, name, n, 0)


@case(bounds='any action components within -10..10')
def direct(h):
  a = aa.DirectActionAdapter()
  o = obs(h)
  for k in range(2):
    act = h.reals(f'a{k}', 2, -10, 10)
    was = (act[0], act[1])
    one_control(h, a.get_action(o, act), clip(h, was[0]), clip(h, was[1]))
    h.check(h.and_(h.close(act[0], was[0], 0), h.close(act[1], was[1], 0)),
            'the action is left alone')
    if k == 0:
      a.reset()


@case(quick=[dict(steps=3)], thorough=[dict(steps=s) for s in (1, 3, 5)],
      bounds='`steps` actions with components within -3..3, before and after '
             'a reset')
def incremental(h, steps):
  rng = h.rng()
  a = aa.DeltaPositionActionAdapter(rng)
  o = obs(h)
  for ep in range(2):
    if ep:
      k = len(rng.calls)
      a.reset()
      h.check(len(rng.calls) > k, 'a reset draws a new starting position')
    px, py = a.beam_pos[0], a.beam_pos[1]
    h.check(h.and_(px >= 0, px <= 1, py >= 0, py <= 1),
            'starts within the field of view')
    for k in range(steps if ep == 0 else 1):
      act = h.reals(f'a{ep}{k}', 2, -3, 3)
      was = (act[0], act[1])
      px, py = clip(h, px + was[0]), clip(h, py + was[1])
      one_control(h, a.get_action(o, act), px, py)
      h.check(h.and_(h.close(act[0], was[0], 0), h.close(act[1], was[1], 0)),
              'the action is left alone')


@case(bounds='the start position is any point of the unit square')
def start(h):
  """The first zero action keeps the beam where the reset has put it."""
  rng = h.rng()
  a = aa.DeltaPositionActionAdapter(rng)
  lo, hi = rng.calls[-1][1], rng.calls[-1][2]
  h.check(rng.calls[-1][0] in ('uniform',) and lo == 0 and hi == 1,
          'uniform over the unit square')
  out = a.get_action(obs(h), h.array([0.0, 0.0]))
  one_control(h, out, out[0].position.x, out[0].position.y)
  again = a.get_action(obs(h), h.array([0.0, 0.0]))
  one_control(h, again, out[0].position.x, out[0].position.y)


@case(bounds='concrete specs')
def specs(h):
  d = aa.DirectActionAdapter().action_spec
  h.check(d.shape == (2,) and (d.minimum == 0).all() and (d.maximum == 1).all(),
          'absolute actions range over the unit square')
  i = aa.DeltaPositionActionAdapter(h.rng()).action_spec
  h.check(i.shape == (2,) and abs(i.minimum + 0.1).max() < 1e-6 and
          abs(i.maximum - 0.1).max() < 1e-6,
          'incremental actions move at most a tenth')
