"""C27: training and test sets for learning rates."""

import itertools

import jax
import numpy as np

from symex.run import case
from checks import common
from putting_dune.rate_learning import data_utils as du
from putting_dune.rate_learning import learn_rates as lr


class Draws:
  """jax.random: every sequence of draws is possible."""

  def __init__(self, h):
    self.h = h
    self.drawn = []

  def split(self, key, num=2):
    return np.zeros((num, 2), np.uint32)

  def choice(self, key, a, shape=(), replace=True, p=None, axis=0):
    n = int(a)
    k = int(np.prod(shape))
    if replace:
      r = [self.h.pick('draw', range(n)) for _ in range(k)]
    else:
      r = self.order(n, k)
    self.drawn.append(r)
    return np.array(r, dtype=np.int64).reshape(shape)

  def order(self, n, k):
    """k of n things; of more than five, all but the first two in order."""
    if n <= 5:
      return list(self.h.pick('order', list(itertools.permutations(range(n), k))))
    first = list(self.h.pick('order', list(itertools.permutations(range(n), 2))))
    return (first + [i for i in range(n) if i not in first])[:k]

  def permutation(self, key, x, axis=0, independent=False):
    n = int(x) if not hasattr(x, 'shape') or not x.shape else len(x)
    r = self.order(n, n)
    self.drawn.append(r)
    i = np.array(r, dtype=np.int64)
    return i if not hasattr(x, 'shape') or not x.shape else x[i]

  def randint(self, key, shape, minval, maxval, dtype=None):
    n = int(np.prod(shape))
    r = [self.h.pick('draw', range(int(minval), int(maxval)))
         for _ in range(n)]
    self.drawn.append(r)
    return np.array(r, dtype=np.int64).reshape(shape)

  def swapped(self):
    return common.swap(*[(jax.random, k, getattr(self, k)) for k in (
        'split', 'choice', 'permutation', 'randint')])


def dataset(h, n, context=2, rates=True):
  """n datapoints; their times (concrete) tell them apart."""
  d = {'next_state': h.int_array([h.int(f's{i}', 0, 3) for i in range(n)]),
       'dt': h.array([1.5 + i for i in range(n)]),
       'rates': h.reals('r', (n, 3), 0, 10),
       'position': h.reals('p', (n, 2), -5, 5)}
  if context:
    d['context'] = h.reals('c', (n, context), -5, 5)
  return d


def rows(h, data):
  """Which datapoints, in order."""
  return [int(round(float(t) - 1.5)) for t in
          np.asarray(h.obj(data['dt'])).reshape(-1)]


def intact(h, data, part, label):
  """Every row of part is one whole datapoint."""
  who = rows(h, part)
  h.check(set(part) == set(data), label + ': same fields')
  for k in data:
    h.check(part[k].shape == (len(who),) + data[k].shape[1:],
            label + ': shapes')
    for j, i in enumerate(who):
      h.check(h.arr_close(part[k][j], data[k][i], 1e-5),
              label + ': whole datapoints')
  return who


@case(quick=[dict(n=n, f=f) for n, f in ((1, 0.1), (3, 0.0), (3, 0.5), (4, 0.3),
                                         (4, 0.75), (3, 1.0))],
      thorough=[dict(n=n, f=f) for n in (1, 2, 3, 4, 5)
                for f in (0.0, 0.1, 0.34, 0.5, 0.8, 0.99, 1.0)], budget=600,
      max_paths=400, bounds='up to 4 (thorough 5) datapoints of any values in '
      'any order of drawing')
def split(h, n, f):
  data, d = dataset(h, n), Draws(h)
  with d.swapped():
    train, test = du.split_dataset(data, jax.random.PRNGKey(0), f)
  a, b = intact(h, data, train, 'training'), intact(h, data, test, 'test')
  h.check(sorted(a + b) == list(range(n)),
          'every datapoint is in exactly one of the sets, once')
  h.check(len(b) == int(n * f), 'the test set has its share')


@case(quick=[dict(n=n) for n in (1, 2, 3)],
      thorough=[dict(n=n) for n in (1, 2, 3, 4)], budget=600, max_paths=400,
      bounds='up to 3 (thorough 4) datapoints of any values, any draws')
def bootstrap(h, n):
  data, d = dataset(h, n), Draws(h)
  with d.swapped():
    train, test = du.bootstrap_dataset(data, jax.random.PRNGKey(0))
  a, b = intact(h, data, train, 'training'), intact(h, data, test, 'test')
  h.check(len(a) == n, 'as many training datapoints as there are')
  h.check(set(a) <= set(range(n)) and
          sorted(b) == sorted(set(range(n)) - set(a)),
          'the test set holds exactly what was not drawn, once each')
  drawn = [i for r in d.drawn for i in r]
  h.check(sorted(a) == sorted(drawn), 'the training set is what was drawn')


@case(quick=[dict(n=2, mode='bootstrap', augment=False),
             dict(n=2, mode='bootstrap', augment=True),
             dict(n=3, mode='split', augment=False),
             dict(n=2, mode='split', augment=True),
             dict(n=2, mode='all', augment=True),
             dict(n=2, mode='all', augment=False),
             dict(n=2, mode='split', augment=True, context='none'),
             dict(n=2, mode='bootstrap', augment=False, context='none'),
             dict(n=2, mode='all', augment=False, context='absent'),
             dict(n=2, mode='all', augment=True, context='absent')],
      thorough=[dict(n=n, mode=m, augment=a) for n in (2, 3)
                for m in ('bootstrap', 'split', 'all') for a in (False, True)
                if (n, m) != (3, 'bootstrap')],
      budget=600, max_paths=400, timeouts=(20, 60),
      bounds='two splits of up to 3 datapoints of any values, any draws')
def splits(h, n, mode, augment, context='one'):
  k = int(context == 'one')
  data, d = dataset(h, n, k), Draws(h)
  if context == 'none':
    data['context'] = None
  kw = dict(bootstrap=mode == 'bootstrap', augment_data=augment)
  if mode != 'bootstrap':
    kw['test_fraction'] = 0.5 if mode == 'split' else 0.0
  with d.swapped():
    train, test = lr.create_dataset_splits(data, 2, jax.random.PRNGKey(0), **kw)
  times = 6 if augment else 1
  sizes = []
  for name, part in (('training', train), ('test', test)):
    h.check(set(part) == (set(data) | {'context'}) - {'position'},
            'the position becomes part of the context')
    h.check(all(v.shape[0] == 2 for v in part.values()), 'one set per split')
    sizes.append({v.shape[1] for v in part.values()})
    h.check(len(sizes[-1]) == 1, 'as many of each field')
    h.check(part['context'].shape[2] == k + 2, 'context, then position')
  seen = []
  for s in range(2):
    who = [rows(h, {'dt': part['dt'][s]}) for part in (train, test)]
    seen.append(who)
    a = who[0]
    if mode == 'bootstrap':
      h.check(len(a) == n * times, 'size of the training set')
      h.check(not set(a) & set(who[1]), 'no image of a datapoint is both '
              'trained and tested on')
    elif mode == 'split':
      half = int(n * 0.5)
      h.check(len(a) == (n - half) * times and
              len(who[1]) == half * times, 'sizes')
      h.check(not set(a) & set(who[1]), 'no image of a datapoint is both '
              'trained and tested on')
      h.check(set(a) | set(who[1]) == set(range(n)), 'nothing is lost')
    else:
      h.check(sorted(a) == sorted(list(range(n)) * times) and
              sorted(who[1]) == sorted(a), 'all data is used for both')
    for name, part, w in (('training', train, a), ('test', test, who[1])):
      for i in set(w):
        js = [j for j in range(len(w)) if w[j] == i]
        h.check(len(js) % times == 0, 'all images of a datapoint'
                if mode != 'bootstrap' or name == 'training' else
                'whole datapoints')
        for j in js:
          c = part['context'][s][j]
          if k:
            h.check(h.close(c[0], data['context'][i][0], 1e-5), 'the context')
          x, y = c[k], c[k + 1]
          p = data['position'][i]
          if augment:
            h.check(h.close(x * x + y * y, p[0] * p[0] + p[1] * p[1], 1e-3),
                    'the position, turned')
          else:
            h.check(h.and_(h.close(x, p[0], 1e-5), h.close(y, p[1], 1e-5)),
                    'the position after the context')
            h.check(h.eq(part['next_state'][s][j], data['next_state'][i]),
                    'the state')
            h.check(h.arr_close(part['rates'][s][j], data['rates'][i], 1e-5),
                    'the rates')
  if mode == 'bootstrap':
    lens = [(n - len(set(w[0]))) * times for w in seen]
    h.check(all(len(w[1]) == min(lens) for w in seen),
            'as much test data as every split has')
