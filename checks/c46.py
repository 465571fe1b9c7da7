"""C46: the evaluation program, and the environments it makes."""

import inspect
import re
import types

import dm_env

from symex.run import case
from checks import common
from putting_dune import eval as program
from putting_dune import eval_lib
from putting_dune import putting_dune_environment as pde
from putting_dune import run_helpers
from putting_dune.agents import agent_lib
from putting_dune.agents import tf_eval_agent
from putting_dune.experiments import experiments
from putting_dune.experiments import registry

FIRST, MID = dm_env.StepType.FIRST, dm_env.StepType.MID


class Env:
  """Keeps what it is made of and asked for."""

  def __init__(self, h, made, a, k):
    self.h, self.log, self.observers = h, [], []
    b = SIGNATURE.bind(None, *a, **k)
    b.apply_defaults()
    self.args = b.arguments
    self.sim = types.SimpleNamespace(
        add_observer=self.observers.append,
        remove_observer=self.observers.remove)
    made.append(self)

  def seed(self, seed):
    self.log.append(('seed', seed))

  def reset(self):
    self.log.append('reset')
    return dm_env.TimeStep(FIRST, None, None, 'seen')

  def step(self, action):
    self.log.append(action)
    return dm_env.TimeStep(MID, self.h.real('r', -1, 1), self.h.real('d', 0, 1),
                           'seen')


SIGNATURE = inspect.signature(pde.PuttingDuneEnvironment.__init__)


def parts(h):
  """An experiment; every part is made anew each time it is asked for."""
  made = types.SimpleNamespace(adapters=[], configs=[], agents=[])

  def adapters_and_goal():
    made.adapters.append(experiments.AdaptersAndGoal(
        *[types.SimpleNamespace(what=w) for w in ('action', 'feature', 'goal')]))
    return made.adapters[-1]

  def config():
    made.configs.append(experiments.SimulatorConfig(
        types.SimpleNamespace(what='material'),
        h.td(h.real('duration', 0.1, 100))))
    return made.configs[-1]

  def agent(rng, adapters):
    made.agents.append((types.SimpleNamespace(what='agent'), rng, adapters))
    return made.agents[-1][0]
  return made, experiments.EvalExperiment(agent, adapters_and_goal, config)


def made_right(h, env, made):
  a = env.args
  ok = [x for x in made.adapters if x.goal is a['goal']]
  h.check(len(ok) == 1 and a['action_adapter'] is ok[0].action_adapter and
          a['feature_constructor'] is ok[0].feature_constructor,
          'adapters and goal of the experiment, made together')
  ok = [c for c in made.configs if c.material is a['material']]
  h.check(len(ok) == 1, 'material of the experiment')
  h.check(h.eq(a['image_duration'].total_seconds(),
               ok[0].image_duration.total_seconds()), 'image duration of it')


@case(quick=[dict(n=n, default=d) for n, d in ((0, True), (1, False), (2, False))],
      bounds='up to two observers, step limits up to 4 and the default, any '
             'seed and image duration')
def create(h, n, default):
  made, e = parts(h)
  envs = []
  seed = h.int('seed', 0, 10 ** 6)
  limit = None if default else int(h.int('limit', 1, 4))
  observers = [object() for _ in range(n)]
  with common.swap((pde, 'PuttingDuneEnvironment',
                    lambda *a, **k: Env(h, envs, a, k))):
    env = run_helpers.create_putting_dune_env(
        seed, get_adapters_and_goal=e.get_adapters_and_goal,
        get_simulator_config=e.get_simulator_config,
        **(dict(simulator_observers=observers) if n else {}),
        **({} if default else dict(step_limit=limit)))
  h.check(len(envs) == 1, 'one environment')
  inner, = envs
  made_right(h, inner, made)
  h.check(len(inner.log) == 1 and inner.log[0][0] == 'seed' and
          h.eq(inner.log[0][1], seed), 'seeded as asked for')
  h.check(inner.observers == observers, 'every observer is told of the events')
  h.check(env.sim is inner.sim, 'its simulator')
  ts = env.reset()
  h.check(ts.first() and inner.log[1:] == ['reset'], 'it resets')
  for i in range(limit or 600):
    h.check(not ts.last(), 'no sooner')
    ts = env.step(i)
  h.check(ts.last() and inner.log[2:] == list(range(limit or 600)),
          'episodes end after as many steps as asked for, 600 by default')


FIELDS = {'successful': 'average_num_times_reached_goal',
          'actions': 'average_num_actions_taken',
          'seconds': 'average_seconds_to_goal',
          'agent': 'average_agent_seconds_to_goal',
          'environment': 'average_environment_seconds_to_goal',
          'reward': 'average_total_reward'}


@case(quick=[dict(video=None), dict(video='/nowhere/videos')],
      bounds='any outcome; videos or none')
def main(h, video):
  h.formatting()
  made, e = parts(h)
  envs, asked, runs, seen, lines = [], [], [], [], []
  suite = types.SimpleNamespace(what='suite')
  results = types.SimpleNamespace(what='results')
  outcome = types.SimpleNamespace(
      **{v: h.real(k, 0, 100) for k, v in FIELDS.items()})
  create_ = run_helpers.create_putting_dune_env

  def create_env(*a, **k):
    runs.append((a, k))
    return create_(*a, **k)

  def evaluate(*a, **k):
    b = EVALUATE.bind(*a, **k)
    b.apply_defaults()
    seen.append(list(b.arguments.values())[:3] +
                [b.arguments['video_save_dir']])
    return results

  def aggregate(r):
    h.check(r is results, 'the results of the evaluation')
    return outcome

  def experiment(name):
    asked.append(name)
    return e

  def info(text, *a, **_):
    lines.append((text, a))
  args = program.Args('any', 'my suite', video)
  with common.swap(
      (pde, 'PuttingDuneEnvironment', lambda *a, **k: Env(h, envs, a, k)),
      (registry, 'create_eval_experiment', experiment),
      (run_helpers, 'create_putting_dune_env', create_env),
      (eval_lib, 'EVAL_SUITES', {'my suite': suite, 'other': None}),
      (eval_lib, 'evaluate', evaluate),
      (eval_lib, 'aggregate_results', aggregate),
      (program.logging, 'info', info)):
    program.main(args)
    h.check(asked and set(asked) == {'any'}, 'the experiment named')
    h.check(len(seen) == 1 and len(made.agents) == 1, 'one agent evaluated')
    got, (agent, _, adapters) = seen[0], made.agents[0]
    h.check(got[0] is agent and any(adapters is x for x in made.adapters),
            'the agent of the experiment')
    env, = [x for x in envs if x.sim is got[1].sim]
    made_right(h, env, made)
    h.check(got[2] is suite, 'the suite named')
    h.check(got[3] == video, 'videos where asked for')
    for text, a in lines:
      words = re.findall('[a-z]+', ' '.join(
          [str(text)] + [v for v in a if isinstance(v, str)]).lower())
      said = [k for k in ('agent', 'environment', 'seconds', 'reward',
                          'actions', 'successful') if k in words]
      numbers = [v for v in a if not isinstance(v, str)]
      if said and len(numbers) == 1:
        h.check(h.close(numbers[0], getattr(outcome, FIELDS[said[0]]), 1e-9),
                'each result under its own name')
    bad = program.Args('any', 'no such suite', video)
    _, err = h.call(program.main, bad)
    h.check(err is not None and len(seen) == 1,
            'unknown suites are refused')


EVALUATE = inspect.signature(eval_lib.evaluate)


@case(bounds='any observation of two numbers')
def saved_agent(h):
  paths, seen = [], []

  class Answer:

    def __init__(self, v):
      self.v = v

    def numpy(self):
      return self.v

  def load(path, *_, **__):
    paths.append(path)

    def model(x):
      seen.append(x)
      return Answer([x[0] * 2 + 1, x[1] - 3])
    return model
  with common.swap((tf_eval_agent, 'tf', common.Over(
      tf_eval_agent.tf, saved_model=common.Over(
          tf_eval_agent.tf.saved_model, load=load)))):
    agent = tf_eval_agent.TfEvalAgent('/nowhere/model')
    h.check(paths == ['/nowhere/model'], 'the model named')
    for i in range(2):
      if i:
        agent.set_mode(agent_lib.AgentMode.EVAL)
      x = h.reals(f'x{i}', 2, -5, 5)
      a = agent.step(dm_env.TimeStep(MID, 0.0, 1.0, x))
      h.check(len(seen) == i + 1 and seen[-1] is x,
              'the model sees the observation')
      h.check(h.and_(h.eq(a[0], x[0] * 2 + 1), h.eq(a[1], x[1] - 3)),
              'its answer is the action')
