"""C20: driving a microscope with an agent."""

import dm_env
from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_agent as ma
from putting_dune import microscope_utils as mu
from putting_dune.experiments import experiments

GAMMA = constants.GAMMA_PER_SECOND
FIRST, MID, LAST = (dm_env.StepType.FIRST, dm_env.StepType.MID,
                    dm_env.StepType.LAST)


class Agent:

  def __init__(self):
    self.seen = []

  def step(self, time_step):
    self.seen.append(time_step)
    return ('action', len(self.seen))


class Adapter:

  def __init__(self, h):
    self.h, self.resets, self.asked = h, 0, []

  def reset(self):
    self.resets += 1

  def get_action(self, observation, action):
    self.asked.append((observation, action))
    self.out = [common.control(self.h, f'out{len(self.asked)}')]
    return self.out


class Features:

  def __init__(self):
    self.resets, self.asked = 0, []
    self.blind = False

  def reset(self):
    self.resets += 1

  def get_features(self, observation, goal):
    self.asked.append((observation, goal))
    if self.blind:
      raise graphene.SiliconNotFoundError('none')
    return ('features', len(self.asked))


class Goal(goals.Goal):

  def __init__(self, h):
    self.h, self.log, self.asked = h, [], []
    self.kind = 'C'

  def reset(self, rng, initial_observation):
    self.log.append((rng, initial_observation))

  def calculate_reward_and_terminal(self, observation):
    self.asked.append(observation)
    if self.kind == 'M':
      raise graphene.SiliconNotFoundError('none')
    self.ret = goals.GoalReturn(
        reward=self.h.real('reward', -5, 5), is_terminal=self.kind in 'TB',
        is_truncated=self.kind in 'XB')
    return self.ret


def make(h):
  parts = (Agent(), Adapter(h), Features(), Goal(h))
  made = []

  def adapters():
    made.append(experiments.AdaptersAndGoal(*parts[1:]))
    return made[-1]

  asked = []

  def agent(rng, got):
    asked.append((rng, got))
    return parts[0]

  rng = h.rng()
  agent = ma.MicroscopeAgent(
      rng, experiments.MicroscopeExperiment(get_agent=agent,
                                            get_adapters_and_goal=adapters))
  h.check(len(asked) == 1 and asked[0][0] is rng and
          any(asked[0][1] is m for m in made),
          'the agent is built once, from the given source and adapters')
  return agent, parts


PLANS = ('', 'C', 'CC', 'T', 'CT', 'X', 'CX', 'B', 'CB', 'M', 'F', 'MC', 'FC',
         'CM', 'MT', 'FX', 'MM')
MORE = ('CCC', 'CMC', 'MFC', 'CFT', 'CCT', 'MCX', 'CCB')


@case(quick=[dict(plan=p) for p in PLANS],
      thorough=[dict(plan=p + q) for p in PLANS + MORE for q in ('', 'C')],
      bounds='episodes of up to 2 (thorough 4) steps with every pattern of '
             'continuing, terminal, truncated and no dopant (M, F); a reset '
             'and one more step after each; any reward and elapsed time')
def steps(h, plan):
  agent, (inner, adapter, features, goal) = make(h)

  def reset(n):
    rng, o = h.rng(), common.observation(h, f'start{n}', 1, 0)
    seen = len(inner.seen), len(adapter.asked)
    agent.reset(rng, o)
    h.check(adapter.resets == n and features.resets == n and
            len(goal.log) == n, 'every part is reset once')
    h.check(goal.log[-1][0] is rng and goal.log[-1][1] is o,
            'the goal is drawn from the given source and observation')
    h.check(seen == (len(inner.seen), len(adapter.asked)),
            'a reset takes no action')

  def step(k, kind, first):
    o = common.observation(h, f'o{k}', 1, 1)
    goal.kind, features.blind = kind, kind == 'F'
    n, na = len(inner.seen), len(adapter.asked)
    out = agent.step(o)
    h.check(features.asked[-1][0] is o and features.asked[-1][1] is agent.goal
            and agent.goal is goal, 'features of the observation and goal')
    if kind in 'MF':
      h.check(len(inner.seen) == n and len(adapter.asked) == na,
              'without a dopant the agent is not asked')
      h.check(isinstance(out, list) and len(out) == 1 and
              isinstance(out[0], mu.BeamControl),
              'a rescan is one command')
      h.check(h.and_(h.close(out[0].dwell_time.total_seconds(), 0, 0),
                     h.close(out[0].position.x, 0, 0),
                     h.close(out[0].position.y, 0, 0)),
              'a rescan has no dwell time')
      return first
    h.check(goal.asked[-1] is o, 'the goal judges the observation')
    h.check(len(inner.seen) == n + 1, 'the agent is asked once')
    ts = inner.seen[-1]
    h.check(ts.observation == ('features', len(features.asked)),
            'the agent sees the features')
    d = GAMMA ** o.elapsed_time.total_seconds()
    if kind in 'TB':
      h.check(ts.step_type is LAST, 'a terminal step is the last')
      h.check(h.eq(ts.discount, 0), 'no future after a terminal step')
    elif kind == 'X':
      h.check(ts.step_type is LAST, 'a truncated step is the last')
      h.check(h.close(ts.discount, d, 1e-6), 'a truncated step discounts')
    elif first:
      h.check(ts.step_type is FIRST, 'the first step after a reset')
      h.check(ts.reward is None and ts.discount is None,
              'no reward on the first step')
    else:
      h.check(ts.step_type is MID, 'a middle step')
      h.check(h.close(ts.discount, d, 1e-6), 'discounts the elapsed time')
    if ts.step_type is not FIRST:
      h.check(h.close(ts.reward, goal.ret.reward, 0), 'reward of the goal')
    h.check(len(adapter.asked) == na + 1 and adapter.asked[-1][0] is o and
            adapter.asked[-1][1] == ('action', n + 1),
            'the action is read against the observation')
    h.check(out is adapter.out or list(out) == list(adapter.out),
            'the commands are those of the action')
    return False

  reset(1)
  first = True
  for k, kind in enumerate(plan):
    first = step(k, kind, first)
  reset(2)
  step('z', 'C', True)
