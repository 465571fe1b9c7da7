"""C26: symmetric copies of rate-learning data; synthetic data."""

import jax
import math
import numpy as np

from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune.rate_learning import data_utils as du

K3 = 3 ** 0.5 / 2
TURNS = [(1.0, 0.0), (-0.5, K3), (-0.5, -K3)]


def dataset(h, n, extra, column):
  """n datapoints, distinguishable by their (concrete) times."""
  states = [h.int(f's{i}', 0, 3) for i in range(n)]
  rates = h.reals('r', (n, 3), 0, 10)
  pos = h.reals('p', (n, 2), -5, 5)
  times = [1.5 + i for i in range(n)]
  ctx = None if extra is None else h.reals('c', (n, extra), -5, 5)
  sh = (lambda x: x.reshape(n, 1)) if column else (lambda x: x)
  return dict(next_state=sh(h.int_array(states)), dt=sh(h.array(times)),
              rates=rates, position=pos, context=ctx), states


def image(h, s, r, p, turn, mirror):
  """A datapoint turned (and before that mirrored in the x axis)."""
  x, y = p[0], p[1]
  r = [r[0], r[1], r[2]]
  if mirror:
    y = -y
    r = [r[0], r[2], r[1]]
    s = h.ite(h.eq(s, 2), 3, h.ite(h.eq(s, 3), 2, s))
  for _ in range(turn):
    r = [r[2], r[0], r[1]]
    s = h.ite(h.eq(s, 0), 0, h.ite(h.eq(s, 3), 1, s + 1))
  c, sn = TURNS[turn]
  return s, r, (c * x - sn * y, sn * x + c * y)


def same(h, out, i, want):
  s, r, p = want
  return h.and_(h.eq(out['next_state'].reshape(-1)[i], s),
                *[h.close(out['rates'][i][k], r[k], 1e-4) for k in range(3)],
                *[h.close(out['position'][i][k], p[k], 1e-4) for k in range(2)])


@case(quick=[dict(n=n, extra=e, mirror=m, column=c) for n, e, m, c in (
    (1, 1, True, False), (2, 2, True, False), (1, None, True, False),
    (2, 1, False, False), (1, 2, False, True), (2, None, False, True))],
      thorough=[dict(n=n, extra=e, mirror=m, column=c) for n in (1, 2, 3)
                for e in (None, 1, 3) for m in (True, False)
                for c in (True, False) if not (c and m)],
      budget=300, timeouts=(20, 60),
      bounds='up to 2 (thorough 3) datapoints of any state, rates, position '
             'and context of 0 to 2 (3) numbers; with and without mirroring')
def augment(h, n, extra, mirror, column):
  d, states = dataset(h, n, extra, column)
  kw = {} if mirror else {'reflect': False}
  out = du.augment_data(**d, **kw)
  images = [(t, m) for m in ((False, True) if mirror else (False,))
            for t in range(3)]
  total = n * len(images)
  h.check(set(out) == {'next_state', 'dt', 'rates', 'context', 'position'},
          'same fields')
  h.check(out['next_state'].shape == (total,) + d['next_state'].shape[1:] and
          out['dt'].shape == (total,) + d['dt'].shape[1:] and
          out['rates'].shape == (total, 3) and
          out['position'].shape == (total, 2), 'one datapoint per image')
  if extra is None:
    h.check(out['context'] is None, 'no context stays none')
  else:
    h.check(out['context'].shape == (total, extra), 'one context per image')
  times = [float(t) for t in np.asarray(h.obj(out['dt'].reshape(-1)))]
  for i in range(n):
    rows = [k for k in range(total) if abs(times[k] - 1.5 - i) < 1e-4]
    h.check(len(rows) == len(images), 'times are kept')
    wants = [image(h, states[i], d['rates'][i], d['position'][i], t, m)
             for t, m in images]
    for w in wants:
      h.check(h.any(same(h, out, k, w) for k in rows),
              'every image of every datapoint is there')
    for k in rows:
      h.check(h.any(same(h, out, k, w) for w in wants),
              'nothing but images of the datapoint')
      if extra is not None:
        h.check(h.all(h.close(out['context'][k][j], d['context'][i][j], 1e-5)
                      for j in range(extra)), 'the context is kept')


@case(bounds='only three neighbours can be mirrored')
def unsupported(h):
  h.check_raises(NotImplementedError, 'mirroring four neighbours is refused',
                 du.reflect_transition, h.int_array([1]), h.array([1.0]),
                 h.array([1.0, 2.0, 3.0, 4.0]), h.array([1.0, 2.0]),
                 num_states=4)


class Draws:
  """Stand-ins for jax.random: the solver draws."""

  def __init__(self, h):
    self.h = h
    self.once = {}

  def split(self, key, num=2):
    return np.zeros((num, 2), np.uint32)

  def multivariate_normal(self, key, mean, cov, shape=None, dtype=None, **_):
    return self.h.reals('pos', 2, -3, 3)

  def normal(self, key, shape=(), dtype=None):
    return self.h.reals('ctx', shape, -3, 3)

  def choice(self, key, a, shape=(), replace=True, p=None, axis=0):
    i = self.pick('choice', int(a))
    return np.full(shape, i) if shape else i

  def pick(self, name, n):
    """The same choices for both sets."""
    if name not in self.once:
      self.once[name] = self.h.pick(name, range(n))
    return self.once[name]

  def randint(self, key, shape, minval, maxval, dtype=None):
    assert shape == ()
    return int(minval) + self.pick('turn', int(maxval) - int(minval))

  def uniform(self, key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    u = self.h.reals('u', shape, 1e-3, 1)
    return minval + (maxval - minval) * u


@case(budget=300, timeouts=(20, 60),
      bounds='one datapoint per set, any draws of the random source')
def synthetic(h):
  jax.clear_caches()
  d = Draws(h)
  names = ('split', 'multivariate_normal', 'normal', 'choice', 'randint',
           'uniform')
  with common.swap(*[(jax.random, k, getattr(d, k)) for k in names]):
    train, test = du.generate_synthetic_data(1, 0, context_dim=1)
  jax.clear_caches()
  top = constants.SIGR_PRIOR_MAX_RATE
  for s in (train,):
    r, p = s['rates'][0], s['position'][0]
    h.check(s['rates'].shape == (1, 3) and s['position'].shape == (1, 2) and
            s['context'].shape == (1, 1), 'shapes')
    for k in range(3):
      h.check(h.and_(r[k] >= 0, r[k] <= top + 1e-5), 'rate within [0, peak]')
    lean = [c * p[0] + sn * p[1] for c, sn in TURNS]
    for k in range(3):
      j = (k + 1) % 3
      h.check(h.implies(lean[k] >= lean[j] + 1e-3, r[k] >= r[j] - 1e-6),
              'the neighbour the beam leans towards is favoured')
      h.check(h.implies(lean[j] >= lean[k] + 1e-3, r[j] >= r[k] - 1e-6),
              'the neighbour the beam leans towards is favoured')
    t = s['dt'].reshape(-1)[0]
    h.check(h.and_(t >= 0, t <= 5), 'time within the range')
    n = s['next_state'].reshape(-1)[0]
    h.check(h.and_(n >= 0, n <= 3), 'a valid state')
