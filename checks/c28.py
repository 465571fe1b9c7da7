"""C28: what an ensemble predicts, and the loss it is trained with."""

import jax
import numpy as np

from symex.run import case
from checks import common
from checks import ratenet
from putting_dune.rate_learning import learn_rates as lr


def softmax(h, row):
  e = [h.np.exp(x) for x in row]
  t = e[0]
  for x in e[1:]:
    t = t + x
  return [x / t for x in e]


def outputs(h, name, n):
  """Rows of directional logits and a total rate."""
  return [[h.real(f'{name}{i}l{k}', -3, 3) for k in range(3)] +
          [h.real(f'{name}{i}t', 0.05, 5)] for i in range(n)]


def neighbor_rates(h, row):
  return [row[3] * p for p in softmax(h, row[:3])]


def predictor(h, per_model, seen):
  """A predictor whose networks give per_model: (models, inputs, 4)."""

  def network(i, x, training):
    seen.append((i, x, training))
    return h.array(per_model[i]).reshape(-1, 4)
  return ratenet.predictor(h, network, len(per_model))


def mean(xs):
  t = xs[0]
  for x in xs[1:]:
    t = t + x
  return t / len(xs)


@case(quick=[dict(models=m, n=n, single=s) for m, n, s in (
    (1, 1, False), (2, 1, False), (3, 2, False), (2, 2, True), (3, 1, True))],
      bounds='up to 3 models, up to 2 inputs, any outputs of the networks')
def apply_model(h, models, n, single):
  per, seen = [outputs(h, f'm{i}', n) for i in range(models)], []
  p = predictor(h, per, seen)
  x = h.reals('x', (n, 4), -5, 5)
  kw = {'model_index': models - 1} if single else {}
  out = p.apply_model(x, key=jax.random.PRNGKey(1), **kw)
  h.check([s[0] for s in seen] == (
      [models - 1] if single else list(range(models))) and
          not any(s[2] for s in seen), 'the trained networks, in evaluation mode')
  h.check(h.all(h.arr_close(s[1], x, 0) for s in seen), 'the given input')
  h.check(out.shape == (n, 3), 'one rate per neighbour and input')
  use = per[-1:] if single else per
  for i in range(n):
    each = [neighbor_rates(h, m[i]) for m in use]
    for k in range(3):
      h.check(h.close(out[i][k], mean([e[k] for e in each]), 1e-4),
              'the mean over models of total rate times direction')


@case(quick=[dict(models=m, fixed=f) for m, f in ((1, 0), (1, 2), (2, 0),
                                                  (2, 2), (3, 1))],
      bounds='up to 3 models, any outputs of the networks, up to 2 inputs fixed')
def packaged(h, models, fixed):
  per, seen = [outputs(h, f'm{i}', 1) for i in range(models)], []
  p = predictor(h, per, seen)
  x = h.reals('x', (1, 4 - fixed), -5, 5)
  f = h.reals('f', fixed, 40, 200) if fixed else None
  plain = lambda fn, *a, **k: fn
  with common.swap((lr.jax2tf, 'convert', plain), (lr.tf, 'function', plain),
                   (lr.jax, 'jit', plain)):
    p.package_model(**({'fixed_context': f} if fixed else {}))
    out, e = h.call(p.packaged_model.__call__, x)
  h.check(e is None, 'any number of models can be packaged', repr(e))
  h.check([s[0] for s in seen] == list(range(models)) and
          not any(s[2] for s in seen), 'all networks, in evaluation mode')
  want = ([] if f is None else list(h.obj(f))) + list(h.obj(x)[0])
  for s in seen:
    got = h.obj(s[1])
    h.check(got.shape == (1, 4) and
            h.all(common.near(h, a, b, 1e-5) for a, b in zip(want, got[0])),
            'the fixed context, then the given input')
  h.check(out.shape == (1, 4), 'one row of logits and a total rate')
  each = [neighbor_rates(h, m[0]) for m in per]
  row = out[0]
  if models == 1:
    got = neighbor_rates(h, [row[k] for k in range(4)])
    for k in range(3):
      h.check(h.close(got[k], each[0][k], 1e-4), 'rates of the model')
  else:
    h.check(h.close(row[3], mean([m[0][3] for m in per]), 1e-4),
            'the total rate is the mean total rate')
    # logits: logarithms of the mean rates, up to a common shift
    logs = [h.np.log(mean([e[k] for e in each])) for k in range(3)]
    for k in (1, 2):
      h.check(h.close(row[k] - row[0], logs[k] - logs[0], 1e-3),
              'directions in proportion to the mean rates')


@case(quick=[dict(states=s, column=c, weights=w) for s, c, w in (
    ((0,), False, False), ((1,), True, False), ((2, 0), False, True),
    ((0, 3), True, True), ((1, 3), True, False), ((2, 0, 1), False, False),
    ((0, 2, 3), True, True))],
      thorough=[dict(states=s, column=c, weights=w) for s in (
          (0,), (1,), (2,), (3,), (0, 0), (1, 2), (3, 0), (0, 2, 3), (1, 1, 0))
                for c in (False, True) for w in (False, True)],
      timeouts=(20, 60),
      bounds='up to 3 transitions to the given states, flat or in columns, any '
             'outputs of the network and weights')
def loss(h, states, column, weights):
  n = len(states)
  rows = outputs(h, 'o', n)
  seen = []

  def apply_fn(params, state, key, context, is_training):
    seen.append((params, state, context, is_training))
    return h.array(rows), 'new state'

  times = [h.real(f't{i}', 0.05, 10) for i in range(n)]
  sh = (lambda a: a.reshape(n, 1)) if column else (lambda a: a)
  ns = sh(h.int_array(list(states)))
  x = h.reals('x', (n, 2), -5, 5)
  kw = {}
  wc = wr = 1
  if weights:
    wc, wr = h.real('wc', 0, 2), h.real('wr', 0, 2)
    kw = dict(class_loss_weight=wc, rate_loss_weight=wr)
  total, (state, rates, rate_loss, class_loss) = lr.batched_loss_fn(
      'params', 'state', apply_fn, ns, sh(h.array(times)), ns != 0, x,
      jax.random.PRNGKey(0), **kw)
  h.check(len(seen) == 1 and seen[0][:2] == ('params', 'state') and
          seen[0][3] is True, 'the network is asked once, in training mode')
  h.check(state == 'new state', 'the new state of the network')
  h.check(rates.shape == (n, 3) and rate_loss.shape == (n,) and
          class_loss.shape == (n,), 'one loss per transition')
  want = []
  for i, s in enumerate(states):
    each = neighbor_rates(h, rows[i])
    for k in range(3):
      h.check(h.close(rates[i][k], each[k], 1e-4),
              'predicted rate per neighbour')
    still = h.np.exp(-(rows[i][3] * times[i]))
    if s:
      still = h.ite(still > 1 - 1e-6, 1 - 1e-6, still)
      wrate = -h.np.log(1 - still)
      e = [h.np.exp(v) for v in rows[i][:3]]
      wclass = h.np.log(e[0] + e[1] + e[2]) - rows[i][s - 1]
    else:
      wrate, wclass = rows[i][3] * times[i], 0.0
    h.check(common.near(h, wrate, rate_loss[i], 1e-3),
            'how unlikely it is to move (or stay) within the time')
    h.check(common.near(h, wclass, class_loss[i], 1e-3),
            'how unlikely the direction is, for transitions only')
    want.append(wclass * wc + wrate * wr)
  h.check(common.near(h, mean(want), total, 2e-3),
          'the mean over the transitions of the weighted losses')


@case(quick=[dict(models=m, n=n) for m, n in ((1, 1), (2, 1), (2, 2))],
      timeouts=(20, 60), bounds='up to 2 teachers, batches of up to 2 random '
      'inputs, any outputs of the networks')
def distill(h, models, n):
  teachers = [outputs(h, f'm{i}', n) for i in range(models)]
  student = outputs(h, 's', n)
  noise = h.reals('z', (n, 2), -3, 3)
  mu_, sd = h.reals('mean', 2, -5, 5), h.reals('std', 2, 0, 5)
  seen = []

  def apply_fn(params, state, key, x, is_training):
    seen.append((x, is_training))
    if not isinstance(params, dict):
      return h.array(student), 'trained'
    return params['o'], state

  jax.clear_caches()
  plain = lambda *a, **k: noise
  ens = {'o': h.array(teachers).reshape(models, n, 4)}
  state = {'s': h.array([0.0] * models)}
  with common.swap((jax.random, 'normal', plain)), jax.disable_jit():
    total, new = lr.distill_loss(
        h.array([0.0]), h.array([0.0]), ens, state, jax.random.PRNGKey(0), n,
        apply_fn, mu_, sd)
  jax.clear_caches()
  h.check(new == 'trained', 'the new state of the student')
  h.check(all(t is False for _, t in seen[:-1]) and seen[-1][1] is True,
          'only the student is trained')
  x = seen[-1][0]
  h.check(x.shape == (n, 2), 'a batch of inputs')
  for i in range(n):
    for k in range(2):
      h.check(h.close(x[i][k], noise[i][k] * sd[k] + mu_[k], 1e-4),
              'inputs are spread like the data')
  want = []
  for i in range(n):
    each = [neighbor_rates(h, t[i]) for t in teachers]
    mine = neighbor_rates(h, student[i])
    e = 0
    for k in range(3):
      d = mine[k] - mean([r[k] for r in each])
      e = e + d * d
    want.append(e)
  h.check(common.near(h, mean(want), total, 1e-3),
          'squared difference to the mean rates of the teachers')
