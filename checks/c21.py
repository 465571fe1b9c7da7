"""C21: the log of a microscope session."""

import pathlib

from symex.run import case
from checks import common
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_agent as ma
from putting_dune import microscope_utils as mu


class File:

  def __init__(self, path):
    self.path, self.rows, self.header = path, [], None
    self.names = None

  def __enter__(self):
    return self

  def __exit__(self, *_):
    return False

  def write(self, text):
    raise AssertionError('raw write: ' + text)


class Dir:
  """A directory which remembers what was written."""

  def __init__(self, files=None, path=''):
    self.files = {} if files is None else files
    self.path = path

  def __truediv__(self, name):
    return Dir(self.files, name)

  def open(self, mode='r', **_):
    assert mode in ('w', 'wt'), mode
    self.files[self.path] = File(self.path)
    return self.files[self.path]


class Writer:
  """Stand-in for csv.DictWriter."""

  def __init__(self, fp, fieldnames, **_):
    self.fp = fp
    fp.names = list(fieldnames)

  def writeheader(self):
    assert self.fp.header is None and not self.fp.rows
    self.fp.header = self.fp.names

  def writerow(self, row):
    assert set(row) == set(self.fp.names), row
    self.fp.rows.append(dict(row))

  def writerows(self, rows):
    for r in rows:
      self.writerow(r)


class ListWriter:
  """Stand-in for csv.writer."""

  def __init__(self, fp, **_):
    self.fp = fp

  def writerow(self, row):
    if self.fp.header is None:
      self.fp.header = self.fp.names = list(row)
    else:
      row = list(row)
      assert len(row) == len(self.fp.names)
      self.fp.rows.append(dict(zip(self.fp.names, row)))

  def writerows(self, rows):
    for r in rows:
      self.writerow(r)


class Goal(goals.SingleSiliconGoalReaching):
  """A goal with a symbolic position, judging as the plan says."""

  def __init__(self, h):
    super().__init__()
    self.h, self.kind = h, 'C'
    self.n = 0

  def reset(self, rng, initial_observation):
    h = self.h
    self.n += 1
    self.goal_position_material_frame = h.array(
        [h.real(f'gx{self.n}', -50, 50), h.real(f'gy{self.n}', -50, 50)])

  def calculate_reward_and_terminal(self, observation):
    if self.kind == 'M':
      raise graphene.SiliconNotFoundError('none')
    if not hasattr(observation, 'reward'):
      object.__setattr__(observation, 'reward', self.h.real('reward', -5, 5))
    return goals.GoalReturn(observation.reward, self.kind == 'T', False)


class Agent:

  def __init__(self, h, goal):
    self.h, self.goal = h, goal
    self.log = []

  def reset(self, rng, observation):
    self.log.append(('reset', rng, observation))
    self.goal.reset(rng, observation)

  def step(self, observation):
    self.log.append(('step', observation))
    return ('commands', len(self.log))


class Plain(goals.Goal):

  def __init__(self, h):
    self.g = Goal(h)

  def reset(self, rng, initial_observation):
    self.g.reset(rng, initial_observation)

  @property
  def kind(self):
    return self.g.kind

  @kind.setter
  def kind(self, v):
    self.g.kind = v

  def calculate_reward_and_terminal(self, observation):
    return self.g.calculate_reward_and_terminal(observation)


def session(h, plan, single=True):
  """Runs a session: R reset; C, T, M steps; W flush; X leave normally."""
  goal = Goal(h) if single else Plain(h)
  agent = Agent(h, goal)
  d = Dir()
  written = []

  def write(path, records):
    written.append((path.path, list(records)))

  with common.swap((ma.epath, 'Path', lambda p: p), (ma.csv, 'DictWriter', Writer), (ma.csv, 'writer', ListWriter),
                   (ma.pdio, 'write_records', write)):
    logger = ma.MicroscopeAgentLogger(agent, logdir=d)
    h.check(logger.__enter__() is logger, 'used as a context')
    episodes = []  # [(goal, [(observation, terminal)])]
    for k, c in enumerate(plan):
      if c == 'R':
        rng, o = h.rng(), common.observation(h, f's{k}', 1, 0)
        logger.reset(rng, o)
        h.check(agent.log[-1] == ('reset', rng, o), 'a reset is passed on')
        episodes.append(((goal if single else goal.g).current_goal, []))
      elif c == 'W':
        logger.flush()
        judge(h, d, written, episodes, single)
      else:
        o = common.observation(h, f'o{k}', 1, 1)
        goal.kind = c
        n = len(agent.log)
        out = logger.step(o)
        h.check(len(agent.log) == n + 1 and agent.log[-1][1] is o and
                out == ('commands', n + 1), 'a step is passed on')
        episodes[-1][1].append((o, c))
    logger.__exit__(None, None, None)
    judge(h, d, written, episodes, single)
    return agent


def judge(h, d, written, episodes, single):
  done = [e for e in episodes if e[1]]
  h.check(written[-1][0].endswith('trajectories.tfrecords'), 'trajectory file')
  ts = written[-1][1]
  h.check(len(ts) == len(done), 'one trajectory per episode with steps')
  for t, (_, obs) in zip(ts, done):
    got = t.observations if isinstance(t, mu.Trajectory) else None
    h.check(got is not None and len(got) == len(obs) and
            all(a is b for a, (b, _) in zip(got, obs)),
            'the observations of the episode, in order')
  f = d.files['steps.csv']
  h.check(f.header is not None, 'steps have a header')
  want = [(i, k + 1, o, c) for i, (_, obs) in enumerate(done)
          for k, (o, c) in enumerate(obs)]
  h.check(len(f.rows) == len(want), 'one row per step')
  for r, (i, k, o, c) in zip(f.rows, want):
    h.check(r['episode'] == i and r['episode_step'] == k,
            'steps are numbered within their episode')
    h.check(h.close(r['elapsed_seconds'], o.elapsed_time.total_seconds(), 1e-6),
            'elapsed time of the step')
    h.check(h.close(r['reward'], 0.0 if c == 'M' else o.reward, 1e-9),
            'reward of the step')
    h.check(bool(r['terminal']) == (c == 'T'), 'end of the step')
  f = d.files['episodes.csv']
  h.check(f.header is not None, 'episodes have a header')
  h.check(len(f.rows) == len(done), 'one row per episode with steps')
  for i, (r, (goal, obs)) in enumerate(zip(f.rows, done)):
    h.check(r['episode'] == i, 'episodes are numbered like their steps')
    h.check(r['episode_steps'] == len(obs), 'steps of the episode')
    total = 0.0
    for o, c in obs:
      total = total + (0.0 if c == 'M' else o.reward)
    h.check(h.close(r['episode_return'], total, 1e-6), 'sum of the rewards')
    if single:
      x, y = r['episode_goal']
      h.check(h.and_(h.close(x, goal.x, 1e-9), h.close(y, goal.y, 1e-9)),
              'the goal of the episode')
    else:
      h.check(r['episode_goal'] is None, 'no position for other goals')


PLANS = ('', 'R', 'RC', 'RCC', 'RRC', 'RCT', 'RCRC', 'RCTRC', 'RCTR', 'RTRTRC',
         'RM', 'RCMRC', 'RMRT', 'RCWC', 'RCWCRC', 'RCTWRC', 'RCW', 'RCRWRC')
MORE = ('RCCCRCTRRCM', 'RCWWCRCW', 'RTRTRTRT', 'RMMRCCWRT', 'RRRCRRC')


@case(quick=[dict(plan=p) for p in PLANS], thorough=[dict(plan=p) for p in
                                                     PLANS + MORE],
      bounds='sessions of up to 6 (thorough 11) resets (R), steps '
             '(continuing C, terminal T, without dopant M) and writes (W); any '
             'rewards, times and goals')
def log(h, plan):
  session(h, plan)


@case(quick=[dict(plan=p) for p in ('RC', 'RCRT')], bounds='other kinds of goal')
def other_goal(h, plan):
  session(h, plan, single=False)


@case(bounds='concrete')
def failure(h):
  """Nothing is written when the session fails."""
  d, written = Dir(), []
  with common.swap((ma.epath, 'Path', lambda p: p), (ma.csv, 'DictWriter', Writer), (ma.csv, 'writer', ListWriter),
                   (ma.pdio, 'write_records',
                    lambda p, r: written.append(p))):
    logger = ma.MicroscopeAgentLogger(Agent(h, Goal(h)), logdir=d)
    logger.reset(h.rng(), common.observation(h, 's', 1, 0))
    logger.step(common.observation(h, 'o', 1, 0))
    logger.__exit__(ValueError, ValueError('x'), None)
    h.check(not written and not d.files, 'no files after a failure')
