"""C38: training, distilling, saving and loading rate models."""

import inspect
import itertools
import json
import types

import jax
import numpy as np

from symex.run import case
from checks import common
from checks import ratenet
from checks.ratenet import DEFAULTS, config, leaves, tree
from putting_dune import constants
from putting_dune import microscope_utils
from putting_dune.rate_learning import learn_rates as lr


def plain(fn):
  """The function below jax.jit."""
  return getattr(fn, '__wrapped__', fn)


class Config(dict):
  """A configuration which also reads as attributes."""

  __getattr__ = dict.__getitem__

  def to_json_best_effort(self):
    return json.dumps(self)


class World:
  """Networks, optimizers and libraries; gradients are arbitrary.

  A network gives a row of outputs per input: its parameters w plus its inputs,
  less what its state m says, in training mode plus 1; its state counts.
  """

  def __init__(self, h, models=2, dim=2):
    self.h, self.dim = h, dim
    self.asked, self.steps, self.inits = [], [], []
    self.optims = []
    self.keys = itertools.count()

  # networks
  def init_fn(self, rng=None, x=None, **_):
    h, k = self.h, len(self.inits)
    key = tuple(int(v) for v in np.asarray(rng).reshape(-1))
    for old in self.inits:
      if old[0] == key:
        return old[2:]
    p = {'w': h.reals(f'w{k}', (4,), 0.5, 3)}
    for old in self.inits:
      h.apart(p['w'][0], old[2]['w'][0], 1e-2)
    s = {'m': h.reals(f'm{k}', (1,), -1, 1)}
    self.inits.append((key, x, p, s))
    return p, s

  def apply_fn(self, params, state, rng, x, is_training=True):
    h = self.h
    x = h.obj(x)
    rows = x.reshape(-1, x.shape[-1])
    out = []
    for r in rows:
      t = (1.0 if is_training else 0.0) - state['m'][0]
      for k, v in enumerate(r):
        t = t + v * 0.125 * (k + 1)
      out.append([params['w'][k] + t * (k + 1) * 0.25 for k in range(3)] +
                 [params['w'][3] + 0.0])
    self.asked.append((params, state, rng, x, is_training))
    new = {'m': state['m'] + 0.5} if is_training else state
    return h.array(out).reshape(x.shape[:-1] + (4,)), new

  # gradients
  def value_and_grad(self, fn, argnums=0, has_aux=False, **_):
    def g(*a, **k):
      value = fn(*a, **k)
      h, n = self.h, len(self.steps)
      grad = tree(lambda p: h.reals(f'g{n}', np.shape(p), -1, 1), a[argnums])
      self.steps.append(dict(params=a[argnums], value=value, grad=grad,
                             asked=self.asked[-1],
                             drawn=getattr(self, 'drawn', None)))
      return value, grad
    return g

  def optim(self, learning_rate, weight_decay=0.0, **_):
    w = self

    class Optim:
      """Steps against the gradient, further each time; its state counts."""

      def init(self, params):
        return {'t': w.h.array([0.0])}

      def update(self, grad, state, params=None):
        far = learning_rate * (1.0 + state['t'][0] * 0.5)
        u = tree(lambda g, p: g * -far - p * (far * weight_decay), grad,
                 params)
        return u, {'t': state['t'] + 1.0}
    o = Optim()
    self.optims.append(o)
    return o

  # random sources: keys are told apart by numbers
  def split(self, key, num=2):
    return np.array([[7, next(self.keys)] for _ in range(int(num))], np.uint32)

  def permutation(self, key, x, *_, **__):
    n = int(x) if not np.shape(x) else len(x)
    # of more than five, all but the first two in order
    r = list(self.h.pick('order', list(
        itertools.permutations(range(n), n if n <= 5 else 2))))
    i = np.array(r + [k for k in range(n) if k not in r])
    return i if not np.shape(x) else np.array([int(v) for v in x])[i]

  def normal(self, key, shape=(), dtype=None):
    z = self.h.reals('z', tuple(shape), -3, 3)
    self.drawn = z
    return z

  def scan(self, f, init, xs, length=None, **_):
    n = length if xs is None else len(leaves(xs)[0])
    carry, ys = init, []
    for i in range(n):
      carry, y = f(carry, None if xs is None else tree(lambda a: a[i], xs))
      ys.append(y)
    return carry, (None if ys[0] is None else
                   tree(lambda *l: self.h.np.stack(list(l)), *ys))

  def swapped(self, *more):
    fns = [(lr, n, plain(getattr(lr, n))) for n in (
        'train_epoch', 'train_model', 'distill_train_epoch', 'distill_loss')
           if hasattr(getattr(lr, n, None), '__wrapped__')]
    return common.swap(
        (lr, 'get_mlp_fn', lambda *a, **k: (self.init_fn, self.apply_fn)),
        (lr.jax, 'value_and_grad', self.value_and_grad),
        (lr.jax, 'vmap', ratenet.vmap(self.h)), (lr.jax, 'jit', ratenet.jit),
        (lr.jax.lax, 'scan', self.scan),
        (lr.jax.random, 'split', self.split),
        (lr.jax.random, 'permutation', self.permutation),
        (lr.jax.random, 'normal', self.normal),
        (lr.optax, 'apply_updates',
         lambda p, u: tree(lambda a, b: a + b, p, u)),
        (lr.optax, 'adamw', self.optim), *fns, *more)


def same_tree(h, a, b, tol=1e-5):
  x, y = leaves(a), leaves(b)
  return len(x) == len(y) and h.all(h.arr_close(p, q, tol)
                                    for p, q in zip(x, y))


def dataset(h, n, name='', context=2):
  """n datapoints, told apart by their context."""
  c = h.reals(f'{name}c', (n, context), -2, 2)
  for i in range(n):
    for j in range(i):
      h.apart(c[i][0], c[j][0], 1e-2)
  states = (2, 0, 3, 1)
  return {'next_state': h.int_array([states[(i + len(name)) % 4]
                                     for i in range(n)]),
          'dt': h.array([1.5 + i for i in range(n)]), 'context': c}


def stepped(h, step, before=0, rate=0.5, decay=0.25):
  """Where a step leads, after the given number of earlier steps."""
  rate = rate * (1.0 + before * 0.5)
  return tree(lambda p, g: p - g * rate - p * (rate * decay), step['params'],
              step['grad'])


@case(quick=[dict(n=1, batch=1), dict(n=3, batch=1), dict(n=3, batch=2),
             dict(n=4, batch=2)],
      thorough=[dict(n=4, batch=1), dict(n=5, batch=2), dict(n=4, batch=4)],
      max_paths=200, timeouts=(20, 60),
      bounds='up to 4 (thorough 5) datapoints of any values in any order of '
             'drawing, in batches of up to 2 (4); any gradients')
def epoch(h, n, batch):
  w, data = World(h), dataset(h, n)
  params, state = w.init_fn(np.array([0, 0]))
  cw, rw = h.real('cw', 0.1, 2), h.real('rw', 0.1, 2)
  with w.swapped():
    opt = lr.optax.adamw(0.5, weight_decay=0.25)
    out = lr.train_epoch(
        params, state, opt.init(params), opt, w.apply_fn, batch,
        jax.random.PRNGKey(0), data,
        Config(class_loss_weight=cw, rate_loss_weight=rw, batch_size=batch))
    p, s, o = out[:3]
    h.check(len(w.steps) == n // batch, 'as many steps as full batches')
    used = []
    for k, step in enumerate(w.steps):
      sp, ss, _, x, training = step['asked']
      h.check(training is True, 'training mode')
      h.check(h.and_(same_tree(h, sp, params), same_tree(h, ss, state)),
              'from where the last step went')
      h.check(x.shape == (batch, 2), 'a full batch')
      value, aux = step['value']
      who = [next((i for i in range(n) if h.branch(
          h.arr_close(x[j], data['context'][i], 1e-3))), None)
             for j in range(batch)]
      h.check(None not in who, 'the datapoints given')
      h.check(len(set(who)) == batch and not set(who) & set(used),
              'none twice in an epoch')
      used += who
      ns = data['next_state'][np.array(who)]
      want, waux = lr.batched_loss_fn(
          sp, ss, w.apply_fn, ns, data['dt'][np.array(who)], ns != 0, x,
          jax.random.PRNGKey(0), True, cw, rw)
      h.check(h.close(value, want, 1e-4), 'the loss asked for')
      params, state = stepped(h, step, k), {'m': state['m'] + 0.5}
    h.check(h.and_(same_tree(h, p, params), same_tree(h, s, state)),
            'what was learned is returned')
    h.check(h.close(o['t'][0], float(n // batch), 1e-6),
            'the state of the optimizer too')


@case(quick=[dict(epochs=1, models=1), dict(epochs=2, models=1),
             dict(epochs=1, models=2)],
      thorough=[dict(epochs=3, models=2), dict(epochs=2, models=3)],
      max_paths=300, timeouts=(20, 60),
      bounds='up to 2 (thorough 3) models and epochs, two datapoints to train '
             'with and one to test with per model, any gradients')
def models(h, epochs, models):
  w = World(h)
  train = [dataset(h, 2, f'a{i}') for i in range(models)]
  test = [dataset(h, 1, f'b{i}') for i in range(models)]
  stack = lambda ds: {k: h.np.stack([d[k] for d in ds]) for k in ds[0]}
  cfg = Config(DEFAULTS, epochs=epochs, batch_size=2, num_models=models)
  with w.swapped():
    opt = lr.optax.adamw(0.5, weight_decay=0.25)
    p, s, o, metrics = lr.train_multiple_models(
        stack(train), stack(test), jax.random.PRNGKey(0), models, opt,
        w.apply_fn, w.init_fn, cfg)
    starts = []
    h.check(len(w.steps) == epochs * models, 'every model, every epoch')
    for m in range(models):
      steps = w.steps[m * epochs:(m + 1) * epochs]
      first = steps[0]['params']
      mine = [k for k, i in enumerate(w.inits) if same_init(h, i, first)]
      h.check(len(mine) >= 1, 'from initial parameters')
      starts.append(mine[0])
      for e, step in enumerate(steps):
        x = step['asked'][3]
        ok = [h.and_(h.arr_close(x[i], train[m]['context'][0], 1e-3),
                     h.arr_close(x[1 - i], train[m]['context'][1], 1e-3))
              for i in range(2)]
        h.check(h.or_(*ok), 'on its own data')
        if e:
          h.check(same_tree(h, step['params'], stepped(h, steps[e - 1], e - 1)),
                  'going on from the epoch before')
        new = stepped(h, step, e)
        state = {'m': step['asked'][1]['m'] + 0.5}
        for name, d in (('test', test[m]), ('train', train[m])):
          want, (_, _, rate, cls) = lr.batched_loss_fn(
              new, state, w.apply_fn, d['next_state'], d['dt'],
              d['next_state'] != 0, d['context'], jax.random.PRNGKey(0),
              is_training=False)
          got = metrics[f'{name}_loss'][m][e]
          h.check(h.close(got, want, 1e-4), f'the {name} loss after each epoch')
          h.check(h.close(metrics[f'{name}_rate_loss'][m][e], h.np.mean(rate),
                          1e-4), f'the {name} loss of rates')
          h.check(h.close(metrics[f'{name}_class_loss'][m][e], h.np.mean(cls),
                          1e-4), f'the {name} loss of directions')
      h.check(h.and_(h.arr_close(p['w'][m], new['w'], 1e-5),
                     h.arr_close(s['m'][m], state['m'], 1e-5)),
              'every model is returned in its place')
    h.check(len(set(starts)) == models, 'every model starts elsewhere')


def same_init(h, init, params):
  return h.branch(same_tree(h, init[2], params))


def predictor(w, **k):
  return lr.LearnedTransitionRatePredictor(
      init_key=np.array([1, len(w.inits)], np.uint32), config=config(**k))


def rates(h, row):
  e = [h.np.exp(x) for x in row[:3]]
  t = e[0] + e[1] + e[2]
  return [row[3] * x / t for x in e]


@case(quick=[dict(epochs=1, batches=1, batch=1, context=2),
             dict(epochs=2, batches=1, batch=1, context=0),
             dict(epochs=1, batches=2, batch=1, context=1),
             dict(epochs=1, batches=1, batch=2, context=1)],
      thorough=[dict(epochs=2, batches=2, batch=2, context=2)],
      timeouts=(20, 60),
      bounds='two models, up to 2 epochs of up to 2 batches of up to 2 points, '
             'any data, draws and gradients')
def distill(h, epochs, batches, batch, context):
  w = World(h)
  data = {'position': h.reals('p', (2, 2), -5, 5),
          'dt': h.array([1.0, 2.0]), 'next_state': h.int_array([1, 2])}
  if context:
    data['context'] = h.reals('c', (2, context), -5, 5)
  else:
    data['context'] = None
  cols = ([data['context']] if context else []) + [data['position']]
  cols = [(c[0][k], c[1][k]) for c in cols for k in range(c.shape[1])]
  for a, b in cols:
    h.apart(a, b, 1e-1)
  with w.swapped():
    p = predictor(w, use_current=context > 0, use_voltage=context > 1)
    teachers, tstates = p.params, p.state
    metrics = p.distill(data, config=config(
        batch_size=batch, epochs=epochs, batches_per_epoch=batches))
    h.check(len(w.steps) == epochs * batches, 'as many steps as asked for')
    last = None
    losses = []
    for k, step in enumerate(w.steps):
      if last is not None:
        h.check(h.and_(same_tree(h, step['params'], last['w']),
                       same_tree(h, step['asked'][1], last['m'])),
                'from where the last step went')
      sp, ss, _, x, training = step['asked']
      h.check(training is True and x.shape == (batch, len(cols)),
              'the student, on a batch')
      z = h.obj(step['drawn']).reshape(batch, len(cols))
      want = 0.0
      for i in range(batch):
        for j, (a, b) in enumerate(cols):
          mean, std = (a + b) / 2, abs(a - b) / 2
          h.check(h.close(x[i][j], z[i][j] * std + mean, 1e-3),
                  'spread like the data: context, then position')
        row = h.array([x[i]]).reshape(1, len(cols))
        student = rates(h, w.apply_fn(sp, ss, None, row, True)[0][0])
        each = [rates(h, w.apply_fn(
            tree(lambda l: l[m], teachers), tree(lambda l: l[m], tstates), None,
            row, False)[0][0]) for m in range(2)]
        for q in range(3):
          d = student[q] - (each[0][q] + each[1][q]) / 2
          want = want + d * d / batch
      h.check(h.close(step['value'][0], want, 1e-3),
              'towards what the models predict on average')
      losses.append(want)
      last = {'w': stepped(h, step, k), 'm': {'m': ss['m'] + 0.5}}
    h.check(p.params['w'].shape == (1, 4) and
            h.branch(h.arr_close(p.params['w'][0], last['w']['w'], 1e-4)) and
            h.branch(h.arr_close(p.state['m'][0], last['m']['m'], 1e-4)),
            'the student alone takes their place')
    row = h.reals('x', (1, len(cols)), -2, 2)
    out = p.apply_model(row, key=np.array([0, 0]))
    one = rates(h, w.apply_fn(last['w'], last['m'], None, row, False)[0][0])
    h.check(h.all(h.close(out[0][k], one[k], 1e-4) for k in range(3)),
            'and predicts')
    for e in range(epochs):
      m = losses[e * batches:(e + 1) * batches]
      h.check(h.close(metrics['distill_loss'][e], sum(m[1:], m[0]) / batches,
                      1e-3), 'the loss of every epoch')


class Disk:
  """Files, saved models and serialized trees, by path."""

  def __init__(self, h, world):
    self.h, self.w = h, world
    self.files, self.models = {}, {}
    self.tables = []

  def path(self, *parts):
    disk = self

    class Path:

      def __init__(self, p):
        self.p = p

      def __truediv__(self, o):
        return Path(self.p.rstrip('/') + '/' + str(o))

      def __fspath__(self):
        return self.p

      __str__ = __fspath__

      def as_posix(self):
        return self.p

      def mkdir(self, *_, **__):
        pass

      def exists(self):
        return self.p in disk.files

      is_file = exists

      def read_text(self, *_, **__):
        return disk.files[self.p]

      def write_text(self, text, *_, **__):
        disk.files[self.p] = text

      def read_bytes(self):
        return disk.files[self.p]

      write_bytes = write_text

      def open(self, mode='r', *_, **__):
        path = self.p
        if 'r' in mode and path not in disk.files:
          raise FileNotFoundError(path)

        class File:

          def __enter__(self):
            return self

          def __exit__(self, *_):
            return False

          def read(self):
            return disk.files[path]

          def write(self, what):
            disk.files[path] = what

          def close(self):
            pass
        return File()
    return Path('/'.join(str(getattr(p, 'p', p)) for p in parts))

  def to_bytes(self, t):
    self.tables.append(tree(lambda x: x, t))
    return f'bytes {len(self.tables) - 1}'

  def from_bytes(self, target, data):
    kind, k = str(data).split()
    assert kind == 'bytes'
    t = self.tables[int(k)]
    assert set(t) == set(target), 'the fields differ'
    return tree(lambda x: x, t)

  def save_model(self, module, path, *_, **__):
    # what is saved does not change with the predictor any more
    p = self.predictor
    params, state = p.params, p.state
    fn = module.__call__
    spec = self.spec

    class Call:

      def __init__(self):
        self.concrete_functions = [types.SimpleNamespace(
            structured_input_signature=((spec,), {}))]

      def __call__(self, x):
        old = p.params, p.state
        p.params, p.state = params, state
        try:
          return fn(x)
        finally:
          p.params, p.state = old
    self.models[str(path)] = types.SimpleNamespace(__call__=Call())

  def load_model(self, path, *_, **__):
    return self.models[str(path)]

  def function(self, fn=None, input_signature=None, **_):
    self.spec, = input_signature
    size = self.spec.shape

    def call(x):
      assert tuple(x.shape) == tuple(size), ('inputs', x.shape, size)
      return fn(x)
    return call

  def swapped(self):
    return self.w.swapped(
        (lr, 'epath', common.Over(lr.epath, Path=self.path)),
        (lr, 'flax', common.Over(lr.flax, serialization=common.Over(
            lr.flax.serialization, to_bytes=self.to_bytes, from_bytes=self.from_bytes))),
        (lr, 'jax2tf', common.Over(lr.jax2tf, convert=lambda f, **_: f)),
        (lr, 'tf', common.Over(
            lr.tf, Module=types.SimpleNamespace, function=self.function,
            TensorSpec=lambda shape, dtype=None, name=None:
                types.SimpleNamespace(shape=tuple(shape)),
            saved_model=common.Over(lr.tf.saved_model, save=self.save_model,
                                    load=self.load_model))))


A = constants.CARBON_BOND_DISTANCE_ANGSTROMS
SPOT = [[0.0, 0.0], [A, 0.0], [-A / 2, A * 0.75 ** 0.5],
        [-A / 2, -A * 0.75 ** 0.5]]


def predicted(h, p, beam=(0.4, 0.9), **k):
  g = microscope_utils.AtomicGrid(h.array(SPOT), h.int_array([14, 6, 6, 6]))
  return p.predict(g, h.Point(*beam), h.array([0.0, 0.0]), np.array([1, 2, 3]),
                   **k)


def same_rates(h, a, b):
  return h.all(h.close(x, y, 1e-4) for x, y in zip(h.obj(a).reshape(-1),
                                                   h.obj(b).reshape(-1)))


@case(quick=[dict(fixed=f, config_too=c, models=m) for f, c, m in (
    (False, True, 2), (True, True, 2), (True, False, 1), (False, False, 1))],
      bounds='up to two models with any parameters and states; current and '
             'voltage as inputs or fixed')
def saved(h, fixed, config_too, models):
  w = World(h)
  disk = Disk(h, w)
  with disk.swapped():
    p = predictor(w, num_models=models, batch_size=7)
    disk.predictor = p
    params, state = p.params, p.state
    kv, na = h.real('kv', 40, 200), h.real('na', 0.1, 1)
    before = predicted(h, p, voltage_kv=kv, current_na=na)
    x = h.reals('x', (1, 4), -2, 2)
    rows = p.apply_model(x, key=np.array([0, 0]))
    kw = {'fixed_context': h.array([na, kv])} if fixed else {}
    p.save('/models/a', step=3, **kw)
    # a later model in the same place under another step
    p.params = tree(lambda v: v + 1.0, params)
    p.state = tree(lambda v: v + 0.25, state)
    later = p.apply_model(x, key=np.array([0, 0]))
    p.save('/models/b')
    q = predictor(w, num_models=models)
    q.load('/models/a', step=3, load_config=config_too)
    h.check(h.and_(same_tree(h, q.params, params), same_tree(h, q.state, state)),
            'the networks are as they were saved, with their states')
    h.check(same_rates(h, q.apply_model(x, key=np.array([0, 0])), rows),
            'and predict the same')
    if fixed:
      kw = dict(voltage_kv=kv + 3, current_na=na + 1)
    else:
      kw = dict(voltage_kv=kv, current_na=na)
    out, e = h.call(predicted, h, q, **kw)
    h.check(e is None, 'a saved model predicts', repr(e))
    h.check(same_rates(h, out, before),
            'the same rates as before it was saved')
    h.check(q.config.batch_size == (7 if config_too else 1) and
            list(q.config.hidden_dimensions) == [8],
            'the configuration comes along if asked for')
    r = predictor(w, num_models=models)
    mine, ms = r.params, r.state
    r.load('/models/a', step=3, load_params=False)
    h.check(h.and_(same_tree(h, r.params, mine), same_tree(h, r.state, ms)),
            'networks stay unless asked for')
    h.check(r.config.batch_size == 7, 'the configuration is loaded')
    r.load('/models/b')
    h.check(same_rates(h, r.apply_model(x, key=np.array([0, 0])), later),
            'every place holds its own model')
    missing, e = h.call(r.load, '/models/a', step=1)
    h.check(e is not None, 'a step that was not saved cannot be loaded')


@case(quick=[dict(models=1, augment=False), dict(models=2, augment=False),
             dict(models=1, augment=True)],
      max_paths=300, timeouts=(20, 60),
      bounds='up to two models trained for an epoch on all of two datapoints of '
             'any values, predicting before and after')
def train(h, models, augment):
  w = World(h)
  disk = Disk(h, w)
  data = dict(dataset(h, 2), position=h.reals('p', (2, 2), -2, 2),
              rates=h.array([[0.0] * 3] * 2))
  size = 12 if augment else 2

  signature = inspect.signature(lr.batched_loss_fn)

  def forward(*a, **k):
    # losses are left to the case of models; here what is fed to them counts
    params, state, fn, _, _, _, x, key, *more = signature.bind(
        *a, **k).arguments.values()
    training = more[0] if more else True
    out, state = fn(params, state, key, x, training)
    return 0.0, (state, out, h.array([0.0]), h.array([0.0]))
  more = [(lr, 'batched_loss_fn', forward)] if augment else []
  with disk.swapped(), common.swap(*more):
    p = predictor(w, num_models=models, batch_size=size, augment_data=augment)
    if models == 1 and not augment:
      predicted(h, p)
    if augment:
      order = list(range(size))
      w.permutation = lambda key, x, *_, **__: np.array(order)
      lr.jax.random.permutation = w.permutation
    metrics = p.train(data, np.array([5, 5]), bootstrap=False)
    h.check(len(w.steps) == models, 'every model')
    for m, step in enumerate(w.steps):
      new = stepped(h, step)
      h.check(h.and_(h.arr_close(p.params['w'][m], new['w'], 1e-4),
                     h.arr_close(p.state['m'][m], step['asked'][1]['m'] + 0.5,
                                 1e-4)), 'the predictor holds what was learned')
      x = h.obj(step['asked'][3])
      h.check(x.shape == (size, 4), 'all images of all datapoints'
              if augment else 'all datapoints')
      who = [[i for i in range(2) if h.branch(h.arr_close(
          x[j][:2], data['context'][i], 1e-3))] for j in range(size)]
      h.check(sorted(who) == sorted([[0], [1]] * (size // 2)),
              'as often as each other')
      for j, (i,) in enumerate(who):
        if not augment:
          h.check(h.arr_close(x[j][2:], data['position'][i], 1e-3),
                  'context and position')
      if models > 1 or augment:
        continue
      h.check(h.close(metrics['train_loss'][m][0],
                      metrics['train_rate_loss'][m][0] +
                      metrics['train_class_loss'][m][0], 1e-3),
              'losses are reported per model and epoch')
    if models > 1 or augment:
      return
    after = predicted(h, p)
    q = predictor(w, num_models=models)
    q.params, q.state = p.params, p.state
    h.check(same_rates(h, after, predicted(h, q)),
            'predictions follow what was learned last')
