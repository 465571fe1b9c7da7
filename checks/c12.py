"""C12: choosing a goal site."""

from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON


class GoalRng:

  def __init__(self, h):
    self.h = h
    self.sizes = []
    self.picks = []

  def choice(self, a, *args, **kw):
    assert not args and not kw
    n = int(a)
    self.sizes.append(n)
    self.picks.append(self.h.pick('choice', range(n)))
    return self.picks[-1]


def scene(h, n, si, name='o'):
  z = [SI if i in si else C for i in range(n)]
  g = common.grid(h, name + 'g', n, 0, 1, numbers=z)
  f, lx, ly, w, ht = common.fov(h, name + 'f', minw=2.0, maxw=100.0)
  o = mu.MicroscopeObservation(grid=g, fov=f, controls=(),
                               elapsed_time=h.td(0.0))
  return o, g.atom_positions, (lx, ly, w, ht)


@case(quick=[dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)],
      bounds='dopant at any index among n visible atoms; field of view with '
             'sides 2..100 A; distances not within 1e-4 A of the limits')
def choose(h, n):
  k = h.pick('si', range(n))
  o, p, (lx, ly, w, ht) = scene(h, n, (k,))
  ok = []
  for i in range(n):
    dx, dy = (p[i, 0] - p[k, 0]) * w, (p[i, 1] - p[k, 1]) * ht
    d2 = dx * dx + dy * dy
    if i != k:
      h.apart(d2, 0.01, 1e-4)
      h.apart(d2, 2500.0, 1e-2)
    ok.append(h.and_(d2 > 0.01, d2 < 2500) if i != k else False)
  sites = [i for i in range(n) if h.branch(ok[i])]
  goal = goals.SingleSiliconGoalReaching()
  rng = GoalRng(h)
  if not sites:
    h.check_raises(RuntimeError, 'no admissible site: refused', goal.reset, rng,
                   o)
    return
  goal.reset(rng, o)
  h.check(rng.sizes == [len(sites)], 'one draw over all admissible sites')
  t = goal.current_goal
  h.observe('goal', (t.x, t.y))
  i = sites[rng.picks[0]]
  h.check(h.and_(h.close(t.x, lx + w * p[i, 0], 1e-5),
                 h.close(t.y, ly + ht * p[i, 1], 1e-5)),
          'the goal is the drawn site, in the material frame')
  m = goal.goal_position_material_frame
  h.check(h.and_(h.close(t.x, m[0], 0), h.close(t.y, m[1], 0)),
          'the goal can be asked for')


@case(quick=[dict(n=3)], bounds='two dopants and one other atom anywhere',
      budget=300)
def several(h, n):
  """Distances count from the most central dopant."""
  o, p, (lx, ly, w, ht) = scene(h, n, (0, 1))
  c2 = [(p[i, 0] - 0.5) * (p[i, 0] - 0.5) + (p[i, 1] - 0.5) * (p[i, 1] - 0.5)
        for i in (0, 1)]
  h.apart(c2[0], c2[1], 1e-4)
  k = 0 if h.branch(c2[0] < c2[1]) else 1
  ok = []
  for i in range(n):
    dx, dy = (p[i, 0] - p[k, 0]) * w, (p[i, 1] - p[k, 1]) * ht
    d2 = dx * dx + dy * dy
    if i != k:
      h.apart(d2, 0.01, 1e-4)
      h.apart(d2, 2500.0, 1e-2)
    ok.append(h.and_(d2 > 0.01, d2 < 2500) if i != k else False)
  sites = [i for i in range(n) if h.branch(ok[i])]
  goal = goals.SingleSiliconGoalReaching()
  rng = GoalRng(h)
  if not sites:
    h.check_raises(RuntimeError, 'no admissible site: refused', goal.reset, rng,
                   o)
    return
  goal.reset(rng, o)
  h.check(rng.sizes == [len(sites)], 'one draw over all admissible sites')
  t = goal.current_goal
  i = sites[rng.picks[0]]
  h.check(h.and_(h.close(t.x, lx + w * p[i, 0], 1e-5),
                 h.close(t.y, ly + ht * p[i, 1], 1e-5)),
          'the goal is the drawn site, in the material frame')


@case(quick=[dict(n=n) for n in (0, 1, 2)], bounds='n atoms, no dopant')
def no_dopant(h, n):
  o, _, _ = scene(h, n, ())
  h.check_raises(graphene.SiliconNotFoundError, 'no dopant: reported',
                 goals.SingleSiliconGoalReaching().reset, GoalRng(h), o)
