"""C13: reward and end of an episode."""

from symex.run import case
from checks import common
from checks.c12 import GoalRng
from putting_dune import constants
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON
A = constants.CARBON_BOND_DISTANCE_ANGSTROMS


def look(h, name, x, y, t, swap=False):
  """Observation of a dopant at material position (x, y) in its own frame."""
  f, lx, ly, w, ht = common.fov(h, name + '.fov', minw=2.0, maxw=100.0)
  pos = [[(x - lx) / w, (y - ly) / ht], [0.25, 0.75]]
  z = [SI, C]
  if swap:
    pos, z = pos[::-1], z[::-1]
  return mu.MicroscopeObservation(
      grid=mu.AtomicGrid(h.array(pos), h.int_array(z)), fov=f, controls=(),
      elapsed_time=h.td(t))


@case(quick=[dict(steps=1), dict(steps=2)],
      thorough=[dict(steps=s) for s in (1, 2, 3)], budget=400,
      bounds='`steps` observations after a reset, each with its own field of '
             'view; dopant anywhere, goal 1..49 A from the first dopant; '
             'distances not within 1e-4 of the goal radius; elapsed 0..10000 s')
def reward(h, steps):
  goal = goals.SingleSiliconGoalReaching()
  sx, sy = h.real('sx', -100, 100), h.real('sy', -100, 100)
  gx, gy = sx + h.real('dx', 1, 30), sy + h.real('dy', -30, 30)
  f, lx, ly, w, ht = common.fov(h, 'f0', minw=2.0, maxw=100.0)
  g0 = mu.AtomicGrid(
      h.array([[(gx - lx) / w, (gy - ly) / ht], [(sx - lx) / w, (sy - ly) / ht]]),
      h.int_array([C, SI]))
  goal.reset(GoalRng(h), mu.MicroscopeObservation(
      grid=g0, fov=f, controls=(), elapsed_time=h.td(0.0)))
  for k in range(steps):
    x, y = gx + h.real(f'u{k}', -30, 30), gy + h.real(f'v{k}', -30, 30)
    t = h.real(f't{k}', 0, 10000)
    d2 = (x - gx) * (x - gx) + (y - gy) * (y - gy)
    h.apart(d2, A * A / 4, 1e-4)
    r = goal.calculate_reward_and_terminal(
        look(h, f'o{k}', x, y, t, swap=bool(k % 2)))
    near = h.branch(d2 < A * A / 4)
    h.check(h.iff(r.is_terminal, near),
            'terminal exactly within half a bond of the goal')
    h.check(not h.branch(r.is_truncated), 'never truncated')
    if near:
      h.check(h.close(r.reward, constants.GAMMA_PER_SECOND ** t, 1e-5),
              'reward is the discount for the elapsed time')
      h.check(h.and_(r.reward > 0, r.reward <= 1), 'reward in (0, 1]')
    else:
      h.check(h.eq(r.reward, 0), 'no reward away from the goal')
    c = goal.current_goal
    h.check(h.and_(h.close(c.x, gx, 1e-5), h.close(c.y, gy, 1e-5)),
            'the goal stays where it is')


@case(bounds='two elapsed times at least 1 s apart')
def faster_is_better(h):
  goal = goals.SingleSiliconGoalReaching()
  goal.goal_position_material_frame = h.array([1.0, 2.0])
  t1 = h.real('t1', 0, 5000)
  t2 = t1 + h.real('dt', 1, 5000)
  a = goal.calculate_reward_and_terminal(look(h, 'a', 1.0, 2.0, t1))
  b = goal.calculate_reward_and_terminal(look(h, 'b', 1.0, 2.0, t2))
  h.check(h.and_(a.is_terminal, b.is_terminal), 'both are at the goal')
  h.check(a.reward >= b.reward, 'reaching the goal sooner pays more')


@case(bounds='no visible dopant')
def lost(h):
  goal = goals.SingleSiliconGoalReaching()
  o = common.observation(h, 'o', 0, 0)
  h.check_raises(graphene.SiliconNotFoundError, 'no dopant: reported',
                 goal.calculate_reward_and_terminal, o)
