"""Rate predictors around stand-in networks."""

import jax
import numpy as np

from checks import common
from putting_dune.rate_learning import learn_rates as lr

DEFAULTS = dict(
    num_models=2, hidden_dimensions=[8], batchnorm=True, dropout_rate=0.0,
    use_current=True, use_voltage=True, learning_rate=0.5, weight_decay=0.25,
    epochs=1, batch_size=1, augment_data=False, val_frac=0.0,
    class_loss_weight=0.5, rate_loss_weight=2.0)


def config(**k):
  return lr.config_dict.FrozenConfigDict(dict(DEFAULTS, **k))


def tree(f, *ts):
  t = ts[0]
  if isinstance(t, dict):
    return {k: tree(f, *[x[k] for x in ts]) for k in t}
  if isinstance(t, (list, tuple)):
    return type(t)(tree(f, *xs) for xs in zip(*ts))
  return f(*ts)


def leaves(t):
  out = []
  tree(lambda x: out.append(x), t)
  return out


def vmap(h):
  """jax.vmap by looping over the leading axis."""
  one = lambda l, i: l[i:i + 1].reshape(l.shape[1:])

  def mapped(fn, in_axes=0, out_axes=0, **_):
    assert out_axes == 0

    def g(*args):
      axes = in_axes if isinstance(in_axes, (tuple, list)) else (
          [in_axes] * len(args))
      assert set(axes) <= {0, None}
      n = next(len(leaves(a)[0]) for a, x in zip(args, axes) if x == 0)
      outs = [fn(*[a if x is None else tree(lambda l: one(l, i), a)
                   for a, x in zip(args, axes)]) for i in range(n)]
      return tree(lambda *l: h.np.stack(list(l)), *outs)
    return g
  return mapped


def jit(fn=None, **_):
  return fn if fn is not None else (lambda f: f)


def predictor(h, network, models, **k):
  """A predictor whose model number i gives network(i, inputs, training)."""
  made = []

  def init(rng=None, x=None, **_):
    made.append(rng)
    return {'i': np.array([len(made) - 1])}, {'s': np.array([len(made) - 1])}

  def apply(params, state, rng, x, is_training=True):
    i = int(np.asarray(params['i']).reshape(-1)[0])
    h.check(int(np.asarray(state['s']).reshape(-1)[0]) == i,
            'every model with its own state')
    return network(i, x, is_training), state

  with common.swap((lr, 'get_mlp_fn', lambda *_, **__: (init, apply)),
                   (lr.jax, 'vmap', vmap(h)), (lr.jax, 'jit', jit)):
    return lr.LearnedTransitionRatePredictor(
        config=config(num_models=models, **k))
