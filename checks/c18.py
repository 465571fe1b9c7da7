"""C18: the environment protocol."""

import numpy as np

import dm_env
from symex.run import case
from checks import common
from checks.simlib import Images, Mat
from putting_dune import constants
from putting_dune import goals
from putting_dune import microscope_utils as mu
from putting_dune import putting_dune_environment as pde
from putting_dune import simulator

GAMMA = constants.GAMMA_PER_SECOND


class Adapter:

  def __init__(self, h):
    self.h, self.log, self.asked = h, [], []

  def reset(self):
    self.log.append('reset')

  def get_action(self, observation, action):
    self.asked.append((observation, action))
    h = self.h
    self.out = [mu.BeamControl(common.pt(h, 'beam', 0, 1),
                               h.td(h.real('dwell', 0, 100)))]
    return self.out

  @property
  def action_spec(self):
    return 'action spec'


class Features:

  def __init__(self, image):
    self.requires_image = image
    self.log, self.asked = [], []

  def reset(self):
    self.log.append('reset')

  def get_features(self, observation, goal):
    self.asked.append((observation, goal))
    return ('features', len(self.asked))

  def observation_spec(self):
    return 'observation spec'


class Goal(goals.Goal):

  def __init__(self, h, plan):
    self.h, self.plan, self.log, self.asked = h, list(plan), [], []

  def reset(self, rng, initial_observation):
    self.log.append((rng, initial_observation))

  def calculate_reward_and_terminal(self, observation):
    self.asked.append(observation)
    kind = self.plan[len(self.asked) - 1]
    self.ret = goals.GoalReturn(
        reward=self.h.real('reward', -5, 5), is_terminal=kind in ('T', 'B'),
        is_truncated=kind in ('X', 'B'))
    return self.ret


def make(h, image, plan):
  a, f, g = Adapter(h), Features(image), Goal(h, plan)
  m = Mat(h, quiet=True)
  rngs = []

  def gen(seed=None):
    rngs.append((seed, h.rng()))
    return rngs[-1][1]

  with common.swap((np.random, 'default_rng', gen)):
    env = pde.PuttingDuneEnvironment(
        m, a, f, g, image_duration=h.td(h.real('dur', 0.1, 10)))
    env.seed(h.pick('seed', [3, None]))
  return env, m, a, f, g, rngs


def check_first(h, env, ts, m, a, f, g, rng, n):
  """The time step of the n-th reset."""
  o = env.last_microscope_observation
  h.check(ts.step_type is dm_env.StepType.FIRST, 'a first time step')
  h.check(h.eq(ts.reward, 0), 'no reward at the start')
  h.check(h.close(ts.discount, GAMMA ** o.elapsed_time.total_seconds(), 1e-6),
          'discount of the time to the first image')
  h.check(m.resets == n and a.log == ['reset'] * n and f.log == ['reset'] * n
          and len(g.log) == n, 'every part is reset once')
  h.check(g.log[-1][0] is rng, 'the goal draws from the seeded source')
  h.check(g.log[-1][1] is o and f.asked[-1][0] is o and f.asked[-1][1] is g,
          'goal and features see the first observation')
  h.check(ts.observation == ('features', len(f.asked)), 'features handed out')
  h.check((o.image is not None) == f.requires_image,
          'an image only when needed')


PLANS = ('', 'C', 'CC', 'T', 'CT', 'X', 'CX', 'B')


@case(quick=[dict(plan=p, image=i, auto=a) for p in PLANS for i in (False, True)
             for a in (False, True)],
      thorough=[dict(plan=p, image=i, auto=a) for p in PLANS + ('CCC', 'CCT')
                for i in (False, True) for a in (False, True)],
      bounds='episodes of up to 2 (thorough 3) steps with every pattern of '
             'continuing, terminal and truncated, each followed by two more '
             'steps; any rewards and dwell times; dopant staying within the view')
def protocol(h, plan, image, auto):
  im = Images()
  with common.swap((simulator.imaging, 'generate_stem_image', im.generate),
                   (simulator.imaging, 'sample_image_parameters', im.sample)):
    env, m, a, f, g, rngs = make(h, image, plan + 'CC')
    rng = rngs[-1][1]
    # the first step of a new environment is a reset, whatever the action
    ts = env.step(None) if auto else env.reset()
    check_first(h, env, ts, m, a, f, g, rng, 1)
    h.check(not a.asked, 'no action is taken by a reset')
    for k, kind in enumerate(plan):
      prev = env.last_microscope_observation
      act = ('action', k)
      nf = len(f.asked)
      ts = env.step(act)
      o = env.last_microscope_observation
      h.check(a.asked[-1][0] is prev and a.asked[-1][1] is act and
              len(a.asked) == k + 1,
              'the action is read against the previous observation, once')
      h.check(len(m.applied) == len(a.asked), 'one exposure per step')
      h.check(len(o.controls) == 1 and o.controls[0] is a.out[0],
              'the commands are those of the action')
      h.check(m.applied[-1][0] is rng, 'the seeded random source is used')
      h.check(len(f.asked) == nf + 1 and f.asked[-1][0] is o and
              f.asked[-1][1] is g and ts.observation == (
                  'features', len(f.asked)), 'features of the new observation')
      h.check(len(g.asked) == k + 1 and g.asked[-1] is o,
              'the goal judges the new observation once')
      h.check((o.image is not None) == image, 'an image only when needed')
      h.check(h.close(ts.reward, g.ret.reward, 0), 'reward of the goal')
      d = GAMMA ** o.elapsed_time.total_seconds()
      if kind == 'C':
        h.check(ts.step_type is dm_env.StepType.MID, 'a middle time step')
        h.check(h.close(ts.discount, d, 1e-6), 'discount of the elapsed time')
      elif kind in 'TB':
        h.check(ts.step_type is dm_env.StepType.LAST, 'a last time step')
        h.check(h.eq(ts.discount, 0), 'no future after a terminal step')
      else:
        h.check(ts.step_type is dm_env.StepType.LAST, 'a last time step')
        h.check(h.close(ts.discount, d, 1e-6),
                'a truncated step keeps its discount')
    n = len(a.asked)
    if plan and plan[-1] in 'TXB':
      ts = env.step(('ignored',))
      check_first(h, env, ts, m, a, f, g, rng, 2)
      h.check(len(a.asked) == n, 'the step after the end only resets')
    ts = env.step(('more',))
    h.check(ts.step_type is dm_env.StepType.MID and len(a.asked) == n + 1,
            'then the episode goes on')
    ts = env.reset()
    check_first(h, env, ts, m, a, f, g, rng,
                3 if plan and plan[-1] in 'TXB' else 2)
    h.check(env.action_spec() == 'action spec' and
            env.observation_spec() == 'observation spec',
            'specs are those of the parts')


@case(quick=[dict(times=2)], thorough=[dict(times=3)],
      bounds='environments seeded up to twice (thorough three times), at once '
             'or after an episode was started, with any seeds or none')
def seeding(h, times):
  """Seeding replaces the random source of the environment and its parts."""
  from putting_dune import action_adapters
  rngs = []

  def gen(seed=None):
    rngs.append((seed, h.rng()))
    return rngs[-1][1]

  with common.swap((np.random, 'default_rng', gen)):
    a = action_adapters.DeltaPositionActionAdapter(h.rng('other'))
    g = Goal(h, 'CC')
    env = pde.PuttingDuneEnvironment(Mat(h, quiet=True), a, Features(False),
                                     g)
    for n in range(times):
      # seeded before a reset, or in the middle of an episode as well
      s = None if h.pick('none', [False, True]) else h.int('seed', 0, 1000)
      env.seed(s)
      h.check(rngs[-1][0] is None if s is None else h.eq(rngs[-1][0], s),
              'the seed is used')
      h.check(a.rng is rngs[-1][1], 'adapters draw from the seeded source')
      if n + 1 < times and h.pick('seeded at once again', [False, True]):
        continue
      env.reset()
      h.check(g.log[-1][0] is rngs[-1][1],
              'goals draw from the seeded source')
      h.check(a.rng is rngs[-1][1], 'adapters draw from the seeded source')
      h.check(any(c[0] == 'uniform' and c[3] == 2 for c in rngs[-1][1].calls),
              'the beam is placed by the seeded source')
      env.step(h.array([0.0, 0.0]))
      h.check(env.sim.material.applied[-1][0] is rngs[-1][1],
              'the material draws from the seeded source')


class Refused(Exception):
  pass


@case(quick=[dict(part=p, when=w) for p in ('material', 'adapter', 'goal',
                                            'features')
             for w in ('new', 'ended', 'amid')],
      bounds='a reset which one of the parts refuses, at the start, after an '
             'ended episode or in the middle of one, twice in a row or once, '
             'by a step or a reset; any rewards and dwell times')
def refused_reset(h, part, when):
  """After a reset which failed, a step starts an episode."""
  im = Images()
  with common.swap((simulator.imaging, 'generate_stem_image', im.generate),
                   (simulator.imaging, 'sample_image_parameters', im.sample)):
    env, m, a, f, g, rngs = make(h, False, 'TCC' if when == 'ended' else 'CCC')
    rng = rngs[-1][1]
    if when != 'new':
      env.reset()
      env.step(('action',))
    obj, name = dict(material=(m, 'reset'), adapter=(a, 'reset'),
                     goal=(g, 'reset'), features=(f, 'get_features'))[part]
    fails = []

    def refuse(*args, **k):
      fails.append(args)
      raise Refused()

    asked = len(a.asked)
    setattr(obj, name, refuse)
    by_step = when != 'amid' and h.pick('by step', [False, True])
    for _ in range(h.pick('times', [1, 2])):
      try:
        env.step(('action',)) if by_step or fails else env.reset()
        h.fail('a reset which fails is reported, and tried again by the next step')
      except Refused:
        pass
    delattr(obj, name)
    m.resets, a.log[:], f.log[:], g.log[:] = 0, [], [], []
    ts = env.step(('ignored',))
    h.check(ts.step_type is dm_env.StepType.FIRST and len(a.asked) == asked,
            'a step after a refused reset starts an episode')
    if ts.step_type is dm_env.StepType.FIRST:
      check_first(h, env, ts, m, a, f, g, rng, 1)
      ts = env.step(('more',))
      h.check(ts.step_type is dm_env.StepType.MID and len(a.asked) == asked + 1,
              'then the episode goes on')
