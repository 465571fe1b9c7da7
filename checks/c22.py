"""C22: evaluating an agent."""

import math

import dm_env
from symex.run import case
from checks import common
from checks.c21 import Dir
from putting_dune import eval_lib
from putting_dune.agents import agent_lib

FIRST, MID, LAST = (dm_env.StepType.FIRST, dm_env.StepType.MID,
                    dm_env.StepType.LAST)


class Clock:
  """Stand-in for the time module: only the agent takes time."""

  def __init__(self):
    self.now = 0.0

  def perf_counter(self):
    return self.now

  time = monotonic = process_time = perf_counter


class Agent(agent_lib.Agent):

  def __init__(self, h, clock, log):
    self.h, self.clock, self.log = h, clock, log
    self.times = []

  def step(self, time_step):
    h = self.h
    self.times.append(h.real('think', 0, 10))
    self.clock.now = self.clock.now + self.times[-1]
    self.log.append(('agent', time_step))
    return ('action', len(self.times))

  def set_mode(self, mode):
    self.log.append(('mode', mode))


class Obs:

  def __init__(self, h):
    self.elapsed_time = h.td(h.real('elapsed', 0, 10))


class Sim:

  def __init__(self):
    self.observers = []
    self.seen = []

  def add_observer(self, o):
    self.observers.append(o)
    self.seen.append(o)

  def remove_observer(self, o):
    self.observers.remove(o)


class Goal:
  goal_position_material_frame = (1.0, 2.0)


class Env:
  """Ends episodes as the solver likes, at the latest after n steps."""

  def __init__(self, h, log, n):
    self.h, self.log, self.n = h, log, n
    self.sim, self.goal = Sim(), Goal()
    self.k = 0

  def seed(self, seed):
    self.log.append(('seed', seed))

  def _done(self, kind, ts):
    self.last_microscope_observation = Obs(self.h)
    self.log.append((kind, ts, self.last_microscope_observation))
    return ts

  def reset(self):
    self.k = 0
    return self._done('reset', dm_env.TimeStep(
        FIRST, 0.0, self.h.real('d', 0.1, 1), 'features'))

  def step(self, action):
    h = self.h
    self.log.append(('action', action))
    self.k += 1
    kind = h.pick('kind', 'CTX' if self.k < self.n else 'TX')
    return self._done('step', dm_env.TimeStep(
        MID if kind == 'C' else LAST, h.real('r', -5, 5),
        0.0 if kind == 'T' else h.real('d', 0.1, 1), 'features'))


@case(quick=[dict(seeds=s, n=n) for s, n in (((), 1), ((7,), 1), ((7,), 2),
                                             ((3, 9), 1))],
      thorough=[dict(seeds=s, n=n) for s, n in (((7,), 3), ((9, 3), 2),
                                                ((4, 1, 4), 1))],
      budget=300, bounds='up to 2 (thorough 3) seeds, up to 2 (3) steps per '
      'episode, ending in any way or by the timeout at any point; any rewards, '
      'simulated and thinking times')
def evaluate(h, seeds, n):
  clock, log = Clock(), []
  env, agent = Env(h, log, n), Agent(h, clock, log)
  limit = h.real('timeout', 0.5, 40)
  with common.swap((eval_lib, 'time', clock)):
    out = eval_lib.evaluate(agent, env, eval_lib.EvalSuite(seeds),
                            timeout=h.td(limit))
  h.check(len(out) == len(seeds), 'one result per seed')
  h.check(not env.sim.observers, 'no observers left')
  h.check(log and log[0] == ('mode', agent_lib.AgentMode.EVAL),
          'the agent is put into evaluation mode first')
  pos, acts = 1, 0
  for seed, r in zip(seeds, out):
    h.check(r.seed == seed, 'results in the order of the seeds')
    h.check(log[pos] == ('seed', seed) and log[pos + 1][0] == 'reset',
            'the environment is seeded, then reset')
    _, ts, o = log[pos + 1]
    pos += 2
    env_time, agent_time = o.elapsed_time.total_seconds(), 0.0
    reward, k = 0.0, 0
    while pos < len(log) and log[pos][0] == 'agent':
      h.apart(env_time + agent_time, limit, 1e-4)
      h.check(env_time + agent_time <= limit, 'no step after the timeout')
      h.check(ts.step_type is not LAST, 'no step after the end')
      h.check(log[pos][1] is ts, 'the agent sees the latest time step')
      acts += 1
      h.check(log[pos + 1] == ('action', ('action', acts)),
              'the action is applied')
      _, ts, o = log[pos + 2]
      env_time = env_time + o.elapsed_time.total_seconds()
      agent_time = agent_time + agent.times[acts - 1]
      reward = reward + ts.reward
      k += 1
      pos += 3
    if ts.step_type is not LAST:
      h.apart(env_time + agent_time, limit, 1e-4)
      h.check(env_time + agent_time >= limit,
              'an episode runs until its end or the timeout')
    won = ts.step_type is LAST and h.branch(h.eq(ts.discount, 0))
    h.check(bool(r.reached_goal) == won,
            'the goal is reached when the episode ended with no future')
    h.check(r.num_actions_taken == k, 'number of actions')
    h.check(h.close(r.total_reward, reward, 1e-6), 'sum of the rewards')
    if won:
      h.check(h.close(r.agent_seconds_to_goal, agent_time, 1e-4),
              'thinking time')
      h.check(h.close(r.environment_seconds_to_goal, env_time, 1e-4),
              'simulated time')
      h.check(h.close(r.seconds_to_goal, agent_time + env_time, 1e-4),
              'total time')
    else:
      h.check(all(isinstance(x, float) and math.isnan(x) for x in
                  (r.agent_seconds_to_goal, r.environment_seconds_to_goal,
                   r.seconds_to_goal)), 'no time to a goal not reached')
  h.check(pos == len(log), 'nothing else happens')


class Anim:

  def __init__(self, made):
    self.made = made

  def save(self, name):
    with open(name, 'wb') as f:
      f.write(self.made)


class Bin:

  def __init__(self):
    self.data = b''

  def __enter__(self):
    return self

  def __exit__(self, *_):
    return False

  def write(self, b):
    self.data += b


class Videos(Dir):

  def __truediv__(self, name):
    return Videos(self.files, name)

  def mkdir(self, **_):
    pass

  def open(self, mode='r', **_):
    self.files[self.path] = Bin()
    return self.files[self.path]


@case(quick=[dict(seeds=()), dict(seeds=(7, 2))],
      bounds='two seeds, one step each, any outcome')
def videos(h, seeds):
  clock, log = Clock(), []
  env, agent = Env(h, log, 1), Agent(h, clock, log)
  d, made = Videos(), []

  def video(events, goal):
    o = env.sim.seen[-1]
    h.check(list(events) == list(o.events) and
            goal is env.goal.goal_position_material_frame,
            'the video shows the recorded events')
    made.append(b'video %d' % len(made))
    return Anim(made[-1])

  with common.swap((eval_lib, 'time', clock), (eval_lib.epath, 'Path', lambda p: d),
                   (eval_lib.plotting_utils,
                    'generate_video_from_simulator_events', video)):
    eval_lib.evaluate(agent, env, eval_lib.EvalSuite(seeds),
                      timeout=h.td(h.real('timeout', 0.5, 40)),
                      video_save_dir='somewhere')
  h.check(not env.sim.observers, 'no observers left')
  h.check({k: v.data for k, v in d.files.items()} ==
          {f'{s}.gif': m for s, m in zip(seeds, made)} and
          len(made) == len(seeds), 'one video per seed, under its name')


@case(quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=5)],
      bounds='n results, any of which reached the goal, any numbers')
def aggregate(h, n):
  rs = []
  for k in range(n):
    won = h.branch(h.bool(f'won{k}'))
    t = [h.real(f'a{k}', 0, 500), h.real(f'e{k}', 0, 500)] if won else [
        float('nan')] * 2
    rs.append(eval_lib.EvalResult(
        seed=k, reached_goal=won, num_actions_taken=h.int(f'n{k}', 0, 50),
        agent_seconds_to_goal=t[0], environment_seconds_to_goal=t[1],
        total_reward=h.real(f'r{k}', -5, 5)))
  a = eval_lib.aggregate_results(rs)
  won = [r for r in rs if r.reached_goal]
  m = max(len(won), 1)
  h.check(h.close(a.average_num_times_reached_goal, len(won) / n, 1e-9),
          'fraction of the runs that reached the goal')
  for name, get in (
      ('average_num_actions_taken', lambda r: r.num_actions_taken),
      ('average_agent_seconds_to_goal', lambda r: r.agent_seconds_to_goal),
      ('average_environment_seconds_to_goal',
       lambda r: r.environment_seconds_to_goal),
      ('average_total_reward', lambda r: r.total_reward),
      ('average_seconds_to_goal', lambda r: r.seconds_to_goal)):
    want = 0.0
    for r in won:
      want = want + get(r)
    h.check(h.close(getattr(a, name) * m, want, 1e-6),
            'average over the runs that reached the goal')


@case(bounds='the built-in suites')
def suites(h):
  for name, n in (('tiny_eval', 10), ('small_eval', 100),
                  ('medium_eval', 1000), ('big_eval', 10000)):
    h.check(len(set(eval_lib.EVAL_SUITES[name].seeds)) == n == len(
        eval_lib.EVAL_SUITES[name].seeds), 'distinct seeds')
