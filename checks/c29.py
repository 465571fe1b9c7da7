"""C29: built-in agents and registered experiments."""

import datetime as dt

import dm_env
import numpy as np

from symex.run import case
from checks import common
from putting_dune import action_adapters as aa
from putting_dune import constants
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune.agents import agent_lib
from putting_dune.experiments import experiments
from putting_dune.experiments import registry

SI, C = constants.SILICON, constants.CARBON
A = constants.CARBON_BOND_DISTANCE_ANGSTROMS
K3 = 3 ** 0.5 / 2


def nearest(h, d):
  """Index of the smallest of the values (which are apart)."""
  at = [i for i in range(len(d)) if all(h.branch(d[i] < d[j])
                                        for j in range(len(d)) if j != i)]
  h.check(len(at) == 1, 'one neighbour is nearest to the goal')
  return at[0]


@case(quick=[dict(argmax=a, noise=s, free='goal') for a, s in
             (('default', 0), ('given', 0))] +
      [dict(argmax=a, noise=s, free='neighbor') for a, s in
       (('given', 0), ('given', 1), ('offset', 1))],
      thorough=[dict(argmax=a, noise=s, free=f) for f in ('goal', 'neighbor', 'all')
                for a, s in (('default', 0), ('given', 0), ('given', 1),
                             ('offset', 1))],
      timeouts=(20, 60), budget=300,
      bounds='goal within 5 A of the dopant, or the neighbour at it anywhere in '
             'a 10 A box (thorough: three neighbours and goal anywhere), any '
             'preferred position, offset and noise')
def greedy(h, argmax, noise, free):
  kw, pos = {}, (A, 0.0)
  if argmax != 'default':
    pos = (h.real('ax', -3, 3), h.real('ay', -3, 3))
    kw['argmax'] = h.array(list(pos))
  off = (0.0, 0.0)
  if argmax == 'offset':
    off = (h.real('ox', -1, 1), h.real('oy', -1, 1))
    kw['fixed_offset'] = h.array(list(off))
  if argmax == 'default':
    pos = (1.42, 0.0)
  r = h.rng()
  if noise:
    kw['position_noise_sigma'] = h.real('sigma', 0, 1)
  agent = agent_lib.GreedyAgent(rng=r, **kw)
  nb = [(1.42, 0.0), (-0.71, 1.23), (-0.71, -1.23)]
  goal = (h.real('gx', -5, 5), h.real('gy', -5, 5))
  if free == 'all':
    nb = [(h.real(f'n{i}x', -5, 5), h.real(f'n{i}y', -5, 5)) for i in range(3)]
  elif free == 'neighbor':
    nb[1] = (h.real('nx', -5, 5), h.real('ny', -5, 5))
    goal = nb[1]
  for x, y in nb:
    h.assume(x * x + y * y >= 0.25)
  d = [(x - goal[0]) ** 2 + (y - goal[1]) ** 2 for x, y in nb]
  for i in range(3):
    for j in range(i):
      h.apart(d[i], d[j], 1e-3)
  obs = h.array([h.real('sx', -50, 50), h.real('sy', -50, 50)] +
                [v for p in nb for v in p] + list(goal))
  out = agent.step(dm_env.TimeStep(dm_env.StepType.MID, 0.0, 1.0, obs))
  k = nearest(h, d)
  x, y = pos[0] + off[0], pos[1] + off[1]
  if noise:
    z = [c for c in r.calls if c[0] == 'normal']
    h.check(len(z) == 1, 'noise is drawn once')
  if not noise:
    nx, ny = nb[k]
    l = h.np.sqrt(nx * nx + ny * ny)
    h.check(out.shape == (2,), 'a position')
    h.check(h.and_(h.close(out[0] * l, x * nx - y * ny, 1e-3),
                   h.close(out[1] * l, x * ny + y * nx, 1e-3)),
            'the preferred position, turned towards the neighbour nearest to '
            'the goal')
  else:
    # turned back, only the noise is left
    nx, ny = nb[k]
    l = h.np.sqrt(nx * nx + ny * ny)
    s = kw['position_noise_sigma']
    bx = (out[0] * nx + out[1] * ny) - x * l
    by = (out[1] * nx - out[0] * ny) - y * l
    m = (6 * s + 1e-3) * l
    h.check(h.and_(bx <= m, -bx <= m, by <= m, -by <= m),
            'the noise is scaled by its standard deviation')


@case(quick=[dict(steps=3)], thorough=[dict(steps=6)],
      bounds='three (thorough six) steps of one agent, each towards any of the '
             'three neighbours, with any preferred position and offset')
def repeated(h, steps):
  """An agent acts on what it sees, whatever it did before."""
  pos = [h.real('ax', -3, 3), h.real('ay', -3, 3)]
  off = [h.real('ox', -1, 1), h.real('oy', -1, 1)]
  given = h.array(list(pos)), h.array(list(off))
  agent = agent_lib.GreedyAgent(rng=h.rng(), argmax=given[0],
                                fixed_offset=given[1])
  nb = [(A, 0.0), (-0.5 * A, K3 * A), (-0.5 * A, -K3 * A)]
  for n in range(steps):
    k = h.pick(f'k{n}', range(3)) if n < 3 else n % 3
    v = [0.5, 0.5] + [x for p in nb for x in p] + [2 * x for x in nb[k]]
    obs = h.array(v)
    out = agent.step(dm_env.transition(0.0, obs))
    x, y = pos[0] + off[0], pos[1] + off[1]
    c, s = nb[k][0] / A, nb[k][1] / A
    h.check(h.and_(h.close(out[0], x * c - y * s, 1e-4),
                   h.close(out[1], x * s + y * c, 1e-4)),
            'the preferred position, turned towards the neighbour, every time')
    h.check(h.arr_close(obs, h.array(v), 0), 'what it sees is left as it was')
  h.check(h.and_(h.arr_close(given[0], h.array(pos), 0),
                 h.arr_close(given[1], h.array(off), 0)),
          'what it was given is left as it was')


class Table:
  """An arbitrary transition function."""

  def __init__(self, h):
    self.h, self.points, self.values = h, [], []

  def __call__(self, x):
    self.points.append((float(x[0]), float(x[1])))
    v = self.h.real(f'v{len(self.values)}', 0, 1)
    self.values.append(v)
    # what the other neighbours get must not matter
    return self.h.array([v, self.h.real('o', 0, 2), 2.0])


@case(quick=[dict(n=2, per_dim=False), dict(n=3, per_dim=False),
             dict(n=2, per_dim=True)],
      thorough=[dict(n=n, per_dim=p) for n in (2, 3, 4) for p in (False, True)],
      timeouts=(20, 60), budget=300,
      bounds='a grid of 2x2 or 3x3 (thorough 4x4) beam positions with any '
             'transition rates; bounds common to or different in x and y')
def search(h, n, per_dim):
  lo, hi = ([-1.0, -2.0], [1.0, 3.0]) if per_dim else ([-1.0] * 2, [1.0] * 2)
  t = Table(h)
  kw = dict(low=np.array(lo), high=np.array(hi)) if per_dim else dict(
      low=-1.0, high=1.0)
  res = 2.0 / (n + 0.5)
  agent = agent_lib.GreedyAgent(rng=h.rng(), transition_function=t,
                                argmax_resolution=res, **kw)
  for k in range(2):
    c = sorted({p[k] for p in t.points})
    h.check(abs(c[0] - lo[k]) < 1e-6 and abs(c[-1] - hi[k]) < 1e-6,
            'the search spans the bounds')
    h.check(all(b - a <= 2.6 * res for a, b in zip(c, c[1:])),
            'at about the resolution asked for')
  h.check(len(set(t.points)) == len(t.points) == len(
      {p[0] for p in t.points}) * len({p[1] for p in t.points}),
          'every position of the grid once')
  obs = h.array([0.0, 0.0, 1.42, 0.0, -0.71, 1.23, -0.71, -1.23, 3.0, 0.0])
  out = agent.step(dm_env.restart(obs))
  # only positions that are best are acceptable
  h.check(h.any(h.and_(h.close(out[0], p[0], 1e-5), h.close(out[1], p[1], 1e-5),
                       *[v >= w for w in t.values])
                for p, v in zip(t.points, t.values)),
          'the position with the highest rate towards the neighbour')


@case(bounds='neither a position nor a function')
def unset(h):
  h.check_raises(ValueError, 'nothing to be greedy about is refused',
                 agent_lib.GreedyAgent, rng=h.rng(), argmax=None)


@case(quick=[dict(bounds='scalar'), dict(bounds='vector')],
      bounds='any bounds, any draw')
def uniform(h, bounds):
  n = 3
  lo = [h.real(f'l{i}', -5, 5) for i in range(n)]
  hi = [lo[i] + h.real(f'w{i}', 0, 5) for i in range(n)]
  if bounds == 'scalar':
    lo, hi = [lo[0]] * n, [hi[0]] * n
    agent = agent_lib.UniformRandomAgent(h.rng(), lo[0], hi[0], (n,))
  else:
    agent = agent_lib.UniformRandomAgent(h.rng(), h.array(lo), h.array(hi), (n,))
  agent.set_mode(agent_lib.AgentMode.EVAL)
  a = agent.step(dm_env.restart(None))
  h.check(a.shape == (n,), 'shape of the action')
  h.check(h.all(h.and_(a[i] >= lo[i] - 1e-6, a[i] <= hi[i] + 1e-6)
                for i in range(n)), 'actions within the bounds')


RANDOM = ('relative_random', 'relative_random_long',
          'relative_random_extra_long')
GREEDY = {'greedy_on_neighbor': (1.42, 0.0),
          'greedy_short_of_neighbor': (0.58, 0.0),
          'greedy_on_neighbor_offset_horizontally': (1.42, 0.42)}
LIMITS = {'relative_random': (1.5, 1.5, A), 'relative_random_long': (1, 5, 2 * A),
          'relative_random_extra_long': (1, 5, 3 * A)}


def scene(h, turn, size=None):
  """A dopant with three bonded neighbours in any view; a goal."""
  if size:
    w, ht = size
    lx, ly = h.real('lx', -1000, 1000), h.real('ly', -1000, 1000)
    f = mu.MicroscopeFieldOfView(h.Point(lx, ly), h.Point(lx + w, ly + ht))
  else:
    f, lx, ly, w, ht = common.fov(h, minw=15.0, maxw=40.0)
  sx, sy = h.real('sx', 5, 10), h.real('sy', 5, 10)
  c, s = ((1.0, 0.0), (-1.0, 0.0))[turn]
  nb = [(A * c, A * s), (A * (-c / 2 - s * K3), A * (-s / 2 + c * K3)),
        (A * (-c / 2 + s * K3), A * (-s / 2 - c * K3))]
  # slightly different lengths, so that their order is fixed
  nb = [(x * (1 + 0.001 * i), y * (1 + 0.001 * i)) for i, (x, y) in enumerate(nb)]
  rows = [[sx / w, sy / ht]] + [[(sx + x) / w, (sy + y) / ht] for x, y in nb]
  g = mu.AtomicGrid(h.array(rows), h.int_array([SI, C, C, C]))
  o = mu.MicroscopeObservation(grid=mu.AtomicGridMicroscopeFrame(g), fov=f,
                               controls=(), elapsed_time=h.td(0.0))
  goal = goals.SingleSiliconGoalReaching()
  gx, gy = h.real('gx', -5, 5), h.real('gy', -5, 5)
  goal.goal_position_material_frame = h.array([lx + sx + gx, ly + sy + gy])
  return o, goal, nb, (gx, gy), (sx, sy, w, ht)


def act(h, name, o, goal):
  e = registry.create_microscope_experiment(name)
  parts = e.get_adapters_and_goal()
  agent = e.get_agent(h.rng(), parts)
  parts.action_adapter.reset()
  parts.feature_constructor.reset()
  x = parts.feature_constructor.get_features(o, goal)
  action = agent.step(dm_env.restart(x))
  out = parts.action_adapter.get_action(o, action)
  h.check(len(out) == 1, 'one command')
  return out[0], action, parts


@case(quick=[dict(name=n, size=s) for n, s in
             zip(RANDOM, ((15.0, 40.0), (40.0, 15.0), (15.0, 20.0)))],
      thorough=[dict(name=n, size=s) for n in RANDOM
                for s in ((15.0, 40.0), (40.0, 15.0), (15.0, 20.0), None)],
      timeouts=(20, 60), budget=300,
      bounds='dopant with three neighbours anywhere in a field of view (15, 20 '
             'or 40 A wide and high anywhere; thorough any size between), any '
             'draws')
def random_experiment(h, name, size):
  o, goal, nb, g, (sx, sy, w, ht) = scene(h, 0, size)
  c, action, parts = act(h, name, o, goal)
  spec = parts.action_adapter.action_spec
  h.check(action.shape == spec.shape, 'the action is of the expected shape')
  lo, hi, reach = LIMITS[name]
  t = c.dwell_time.total_seconds()
  h.check(h.and_(t >= lo - 1e-5, t <= hi + 1e-5), 'dwell time within the limits')
  x, y = c.position.x, c.position.y
  h.check(h.and_(x >= 0, x <= 1, y >= 0, y <= 1), 'within the field of view')
  dx, dy = x * w - sx, y * ht - sy
  m = reach + 1e-4
  h.check(h.and_(dx <= m, -dx <= m, dy <= m, -dy <= m),
          'within reach of the dopant')


@case(quick=[dict(name=n, turn=t) for n, t in zip(GREEDY, (0, 1, 0))],
      thorough=[dict(name=n, turn=t) for n in GREEDY for t in (0, 1)],
      timeouts=(20, 60), budget=300,
      bounds='dopant with three neighbours anywhere in a field of view of 15 to '
             '40 A, goal anywhere within 5 A')
def greedy_experiment(h, name, turn):
  o, goal, nb, (gx, gy), (sx, sy, w, ht) = scene(h, turn)
  d = [(x - gx) ** 2 + (y - gy) ** 2 for x, y in nb]
  for i in range(3):
    for j in range(i):
      h.apart(d[i], d[j], 1e-3)
  c, action, parts = act(h, name, o, goal)
  k = nearest(h, d)
  nx, ny = nb[k]
  l = (nx * nx + ny * ny) ** 0.5
  ax, ay = GREEDY[name]
  bx, by = (ax * nx - ay * ny) / l, (ax * ny + ay * nx) / l
  h.check(h.and_(h.close(c.position.x * w, sx + bx, 1e-3),
                 h.close(c.position.y * ht, sy + by, 1e-3)),
          'the beam is put where the neighbour nearest to the goal is reached '
          'best')
  h.check(h.close(c.dwell_time.total_seconds(), 5.0, 1e-6), 'dwell time')


@case(bounds='every registered experiment')
def registered(h):
  for table, make in ((registry._MICROSCOPE_EXPERIMENTS,
                       registry.create_microscope_experiment),
                      (registry._TRAIN_EXPERIMENTS,
                       registry.create_train_experiment),
                      (registry._EVAL_EXPERIMENTS,
                       registry.create_eval_experiment)):
    h.check_raises(ValueError, 'unknown names are refused', make, 'no such')
    for name in table:
      e = make(name)
      h.check(e is table[name], 'the experiment of that name')
      a, b = e.get_adapters_and_goal(), e.get_adapters_and_goal()
      h.check(a.action_adapter is not b.action_adapter and a.goal is not b.goal,
              'no state is shared between uses')
      if hasattr(e, 'get_simulator_config'):
        s, t = e.get_simulator_config(), e.get_simulator_config()
        h.check(s.material is not t.material, 'every use has its own material')
        h.check(s.image_duration.total_seconds() > 0, 'images take time')
      if 'images' in name:
        h.check(a.feature_constructor.requires_image,
                'image experiments use images')
  own = experiments.EvalExperiment('agent', 'parts', 'simulator')
  old = registry._EVAL_EXPERIMENTS
  try:
    registry.register_eval_experiment('mine', own)
    h.check(registry.create_eval_experiment('mine') is own, 'registered')
    name = next(iter(old))
    registry.register_eval_experiment(name, own)
    h.check(registry.create_eval_experiment(name) is old[name],
            'existing experiments are not replaced')
    h.check(all(registry.create_eval_experiment(n) is old[n] for n in old),
            'the others stay')
  finally:
    registry._EVAL_EXPERIMENTS = old
