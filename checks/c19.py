"""C19: limiting the length of episodes."""

import dm_env
from symex.run import case
from putting_dune import run_helpers as rh

FIRST, MID, LAST = (dm_env.StepType.FIRST, dm_env.StepType.MID,
                    dm_env.StepType.LAST)


class Env(dm_env.Environment):
  """Ends episodes where the plan says; restarts after an end."""

  def __init__(self, h, plan):
    self.h, self.plan = h, plan
    self.i = 0
    self.need = True
    self.log = []
    self.extra = 'attribute'

  def _ts(self, kind, first=False):
    h = self.h
    n = len(self.log)
    if first:
      return dm_env.TimeStep(FIRST, 0.0, h.real('d', 0, 1), ('obs', n))
    d = 0.0 if kind == 'T' else h.real('d', 0, 1)
    return dm_env.TimeStep(MID if kind == 'C' else LAST, h.real('r', -5, 5), d,
                           ('obs', n))

  def reset(self):
    self.need = False
    self.log.append('reset')
    self.ts = self._ts('', True)
    return self.ts

  def step(self, action):
    if self.need:
      return self.reset()
    self.log.append(action)
    kind = self.plan[self.i] if self.i < len(self.plan) else 'C'
    self.i += 1
    if kind != 'C':
      self.need = True
    self.ts = self._ts(kind)
    return self.ts

  def observation_spec(self):
    return 'observation spec'

  def action_spec(self):
    return 'action spec'

  def reward_spec(self):
    return 'reward spec'

  def discount_spec(self):
    return 'discount spec'

  def close(self):
    self.log.append('close')


def plans(n):
  if n == 0:
    return ['']
  return [p + k for p in plans(n - 1) for k in 'CTX']


@case(quick=[dict(limit=l, n=5) for l in (None, 1, 2, 3)],
      thorough=[dict(limit=l, n=8) for l in (None, 1, 2, 3, 4)], budget=400,
      max_paths=100000,
      bounds='n calls, each a step or a reset, on an environment that ends '
             'its episodes at any point (terminal or truncated)')
def limit(h, limit, n):
  env = Env(h, [])
  w = rh.StepLimitWrapper(env, step_limit=limit)
  count = 0  # steps of the current episode
  over = True  # the next step is a reset
  for k in range(n):
    if h.pick(f'call{k}', ['step', 'reset']) == 'reset':
      calls = len(env.log)
      ts = w.reset()
      h.check(env.log[calls:] == ['reset'] and ts is env.ts,
              'a reset resets the environment')
      count, over = 0, False
      continue
    if not over:
      env.plan.append(h.pick(f'kind{k}', 'CTX'))
    calls = len(env.log)
    ts = w.step(('action', k))
    if over:
      h.check(env.log[calls:] == ['reset'] and ts.step_type is FIRST,
              'the step after an end starts a new episode')
      count, over = 0, False
      continue
    count += 1
    h.check(env.log[calls:] == [('action', k)], 'one step, the given action')
    h.check(ts.observation is env.ts.observation and
            h.branch(h.close(ts.reward, env.ts.reward, 0)),
            'reward and observation are passed on')
    h.check(h.close(ts.discount, env.ts.discount, 0), 'discount is passed on')
    over = env.plan[-1] != 'C'
    if limit is not None and count >= limit:
      h.check(ts.step_type is LAST, 'cut at the limit')
      over = True
    else:
      h.check(ts.step_type is env.ts.step_type, 'kind of step is passed on')


@case(bounds='concrete')
def forwarding(h):
  env = Env(h, [])
  w = rh.StepLimitWrapper(env, step_limit=3)
  h.check(w.extra == 'attribute' and w.environment is env,
          'other attributes are forwarded')
  h.check(w.observation_spec() == 'observation spec' and
          w.action_spec() == 'action spec' and
          w.reward_spec() == 'reward spec' and
          w.discount_spec() == 'discount spec', 'specs are forwarded')
  w.close()
  h.check(env.log == ['close'], 'closing is forwarded')
