"""C43: training runs of the image and graph networks, also interrupted ones."""

import contextlib
import dataclasses
import inspect
import itertools
import types
import typing

from etils import epath
import numpy as np

from symex.run import case
from checks import common
from putting_dune.atom_detection import train as at
from putting_dune.graph_alignment import train as gt
from putting_dune.image_alignment import train as it

PROGRAMS = {'atoms': at, 'images': it, 'graphs': gt}


NETWORK = inspect.signature(gt.graph_model.graph_network_neighbor_list)


class Crash(Exception):
  pass


class Stats:
  """Metrics: the values seen since they were empty."""

  def __init__(self, values=()):
    self.values = tuple(values)

  @classmethod
  def empty(cls):
    return cls()

  def compute(self):
    n = len(self.values)
    return {k: Number(sum(v[k] for v in self.values) / n)
            for k in (self.values[0] if n else ())}


class Number:

  def __init__(self, v):
    self.v = v

  def item(self):
    return self.v


class State:
  """A training state."""

  def __init__(self, **k):
    vars(self).update(k)

  @classmethod
  def create(cls, *, apply_fn, params, tx, metrics, **_):
    return cls(step=0, params=params, opt_state=(), metrics=metrics)

  def replace(self, **k):
    return State(**{**vars(self), **k})


class Disk:
  """Checkpoints as orbax keeps them."""

  def __init__(self, world, options):
    self.w, self.options = world, options
    self.kept, self.metrics = world.kept, world.kept_metrics

  def latest_step(self):
    return max(self.kept) if self.kept else None

  def all_steps(self, *_):
    return sorted(self.kept)

  def best_step(self):
    """The last of those with metrics, in order of rising quality."""
    seen = sorted((s for s in sorted(self.kept) if s in self.metrics),
                  key=lambda s: self.options.best_fn(self.metrics[s]),
                  reverse=self.options.best_mode == 'min')
    return seen[-1] if seen else None

  def save(self, step, items, metrics=None, **_):
    step = int(step)
    if self.kept and step <= max(self.kept):
      return False
    for k in items.params:
      self.w.h.check(not self.w.graphs or not set('/~') & set(k),
                     'names fit for a checkpoint')
    self.w.tick('save')
    self.w.epochs[step] = (list(self.w.trained), list(self.w.evaluated))
    self.w.trained, self.w.evaluated = [], []
    self.kept[step] = items
    if metrics is not None:
      self.metrics[step] = metrics
    self.w.tick('saved')
    return True

  def restore(self, step, items=None, restore_kwargs=None, **_):
    kept = self.kept[step]
    if items is None:
      return {k: v for k, v in vars(kept).items() if k != 'apply_fn'}
    if set(items.params) != set(kept.params):
      raise KeyError(sorted(set(items.params) - set(kept.params)))
    self.w.restored.append(step)
    return items.replace(step=kept.step, params=dict(kept.params),
                         opt_state=kept.opt_state)

  def wait_until_finished(self):
    pass

  def close(self):
    pass


class World:
  """Everything around the training loop, and where it crashes."""

  def __init__(self, h, kind, crashes=()):
    self.h, self.kind, self.graphs = h, kind, kind == 'graphs'
    self.mod = PROGRAMS[kind]
    self.kept, self.kept_metrics, self.epochs = {}, {}, {}
    names = ('a/~/b', 'c') if self.graphs else ('a',)
    self.p0 = {n: h.real(f'p{n[0]}', -1, 1) for n in names}
    self.values = {k: [h.real(f'{k}{i}', -1, 1) for i in range(3)]
                   for k in ('train', 'test')}
    self.crashes = list(crashes)
    self.clock = 0
    self.start()

  def start(self):
    """A new process."""
    self.evaluated, self.trained = [], []
    self.restored, self.written = [], []

  def tick(self, what):
    """Anything which may be the last thing to happen."""
    t, self.clock = self.clock, self.clock + 1
    if self.crashes:
      if self.h.branch(self.h.eq(self.crashes[0], t)):
        self.crashes.pop(0)
        raise Crash(what)

  # what a step does: the parameter moves towards the batch
  def train_step(self, state, batch, *_, do_grad_step=True, **__):
    if not do_grad_step:
      return self.eval_step(state, batch)
    self.tick('train')
    (name,), (v,) = batch['name'], batch['value']
    self.h.check(name == 'train', 'trained on training data')
    self.trained.append(v)
    seen = dict(accuracy=v, total_loss=v, loss=v)
    return state.replace(
        step=state.step + 1,
        params={n: p * 0.5 + v for n, p in state.params.items()},
        metrics=Stats(state.metrics.values + (seen,)))

  def eval_step(self, first, batch, *_, state=None, **__):
    self.tick('eval')
    (name,), (v,) = batch['name'], batch['value']
    self.h.check(name == 'test', 'tested on test data')
    who = first if state is None else state
    value = sum(who.params.values()) + v
    self.evaluated.append(value)
    seen = dict(accuracy=value, total_loss=value, loss=value)
    if state is None:
      return first.replace(metrics=Stats(first.metrics.values + (seen,)))
    return Stats(first.values + (seen,))

  def dataset(self, config=None, seed=None, **_):
    self.data_config = config
    world = self

    class Data:
      element_spec = {}

      def __init__(self, name):
        self.name = name

      def as_numpy_iterator(self):
        return ({'name': [self.name], 'value': [world.value(self.name, i)],
                 'images': np.zeros((1, 2, 2, 2)),
                 'positions': np.zeros((1, 2, 1, 3)),
                 'features': np.zeros((1, 2, 1, 3))}
                for i in itertools.count())
    return Data('train'), Data('test')

  def value(self, name, i):
    return self.values[name][i % len(self.values[name])]

  def options(self, best_fn=None, best_mode='max', **_):
    return types.SimpleNamespace(best_fn=best_fn, best_mode=best_mode)

  def manager(self, directory, checkpointers=None, options=None, **_):
    self.directory = str(directory)
    self.last = Disk(self, options)
    return self.last

  def swapped(self):
    w, m, null = self, self.mod, contextlib.nullcontext
    name = {'atoms': 'atom_detection_dataset',
            'images': 'image_alignment_dataset',
            'graphs': 'graph_alignment_dataset'}[self.kind]
    params = lambda *_: dict(w.p0)
    model = types.SimpleNamespace(init=params, apply=None)

    def network(*a, **k):
      w.network = NETWORK.bind(*a, **k).arguments
      return types.SimpleNamespace(
          update=None, allocate=lambda *_: types.SimpleNamespace(
              max_occupancy=3)), params, None

    class Progress:

      def __init__(self, *_, **__):
        pass

      def timed(self, *_):
        return null()

      def __call__(self, *_):
        pass
    items = [
        (m, 'metric_writers', common.Over(
            m.metric_writers, create_default_writer=lambda *_, **__: None,
            ensure_flushes=lambda *_: null(),
            write_values=lambda writer, step, metrics: w.written.append(
                (step, metrics)))),
        (m, 'checkpoint', common.Over(
            m.checkpoint, CheckpointManager=self.manager, PyTreeCheckpointer=lambda *_: None,
            CheckpointManagerOptions=self.options,
            ArrayRestoreArgs=lambda **_: None)),
        (getattr(m, name), 'make_dataset', self.dataset),
        (m, 'periodic_actions', common.Over(m.periodic_actions,
                                            ReportProgress=Progress)),
        (m, 'etqdm', common.Over(m.etqdm, tqdm=lambda x, **_: x)),
        (m, 'TrainState', State), (m, 'train_step', self.train_step),
        (m.optax, 'adamw', lambda *_, **__: None),
        (m.optax, 'warmup_cosine_decay_schedule', lambda *_, **__: None),
        (m, 'make_batch_sharding', lambda *_: (
            (None, {}, {}, {}) if w.kind == 'images' else {})),
        (m.jax, 'device_put', lambda x, *_, **__: x),
        (m.jax, 'jit', lambda f, **_: f),
        (m.jax, 'spmd_mode', lambda *_: null()),
        (m.jax.tree_util, 'tree_map', tree_map),
    ]
    if self.graphs:
      items += [(m, 'Metrics', Stats),
                (m, 'space', common.Over(
                    m.space, periodic=lambda side, **_: (('in', side), None))),
                (m.graph_model, 'graph_network_neighbor_list', network),
                (m.graph_model, 'create_sparse_neighbor_list',
                 lambda *_, **__: None)]
    else:
      items += [(m, 'eval_step', self.eval_step)]
      items += [(m.unet, 'UNet' if w.kind == 'atoms' else 'GlobalLocalUNet',
                 lambda *_, **__: model)]
      if w.kind == 'atoms':
        items += [(m, 'TrainMetrics', Stats), (m, 'EvalMetrics', Stats)]
      else:
        items += [(m, 'Metrics', Stats),
                  (m, 'multihost_utils', common.Over(
                      m.multihost_utils, host_local_array_to_global_array=lambda a, *_: a))]
    return common.swap(*items)


def tree_map(f, *trees):
  """Over states and dictionaries; batches stay, anything else is a leaf."""
  t = trees[0]
  if type(t) is dict and 'value' in t:
    return t
  if isinstance(t, State):
    return t.replace(**{k: tree_map(f, *[getattr(s, k) for s in trees])
                        for k in ('step', 'params', 'opt_state')})
  if isinstance(t, Stats):
    return t
  if type(t) is dict:
    return {k: tree_map(f, *[s[k] for s in trees]) for k in t}
  if type(t) is tuple:
    return tuple(tree_map(f, *s) for s in zip(*trees))
  return f(*trees)


def configure(kind, **k):
  """The configuration of a program, with defaults for what is not given."""
  c = types.SimpleNamespace(to_dict=lambda: {})
  for f in dataclasses.fields(PROGRAMS[kind].Config):
    setattr(c, f.name, f.default)
  vars(c).update(workdir=epath.Path('/nowhere/work'),
                 data_dir=epath.Path('/nowhere/data'), seed=3, **k)
  return c


def float_of(x):
  return x.item() if hasattr(x, 'item') else x


def best_is_best(h, w, manager):
  key = 'eval/total_loss' if w.graphs else 'eval/accuracy'
  best = manager.best_step()
  h.check(best in w.kept_metrics, 'there is a best checkpoint')
  if best not in w.kept_metrics:
    return
  for s in w.kept_metrics:
    a, b = w.kept_metrics[best][key], w.kept_metrics[s][key]
    h.check(a <= b + 1e-6 if w.graphs else a >= b - 1e-6,
            'the best checkpoint is the one which did best on test data')


def mean(xs):
  return sum(xs) / len(xs)


@case(quick=[dict(kind=k, epochs=e, crashes=c) for k in PROGRAMS
             for e, c in ((3, 0), (3, 1), (2, 2))],
      thorough=[dict(kind=k, epochs=4, crashes=c) for k in PROGRAMS
                for c in (1, 2)], timeouts=(20, 60), max_paths=1500,
      bounds='up to 3 (thorough 4) epochs of one or two batches of any size, '
             'tested on one or two, ended after any step of training, testing '
             'or saving up to twice')
def run(h, kind, epochs, crashes):
  e = int(h.int('epochs', 1, epochs))
  size = h.int('size', 1, 64)
  rest = h.int('rest', 0, 63)
  h.assume(rest < size)
  n = int(h.int('n', 1, 2 if crashes < 2 else 1))
  m = int(h.int('m', 1, 2 if not crashes else 1))
  last = e * (n + m + 2)
  at_ = [h.int(f'crash{i}', 0, last * (i + 1)) for i in range(crashes)]
  for a, b in zip(at_, at_[1:]):
    h.assume(a < b)
  w = World(h, kind, at_)
  c = configure(kind, epochs=e, batch_size=size,
                train_steps_per_epoch=size * n + rest,
                eval_steps_per_epoch=size * m + rest)
  if w.graphs:
    c.box_size, c.r_cutoff = h.real('box', 10, 500), h.real('cutoff', 1, 10)
  state = None
  with w.swapped():
    for _ in range(crashes + 1):
      w.start()
      begin = max(w.kept) if w.kept else 0
      before = w.clock
      try:
        state = w.mod.train(c)
      except Crash:
        continue
      w.crashes = []
      h.check(w.clock - before == (e - begin) * (n + m + 2),
              'an interrupted run goes on after the last epoch kept')
      break
    h.check(state is not None, 'the run ends')
    h.check(sorted(w.kept) == list(range(1, e + 1)),
            'a checkpoint of every epoch')
    p = w.p0
    for s in range(1, e + 1):
      kept, (xs, ys) = w.kept[s], w.epochs[s]
      h.check(int(kept.step) == s * n and len(xs) == n and len(ys) == m,
              'as many full batches an epoch as configured')
      want = list(p.values())
      for x in xs:
        want = [v * 0.5 + x for v in want]
      got = list(kept.params.values())
      h.check(len(got) == len(want) and h.and_(*[
          h.close(a, b, 1e-9) for a, b in zip(got, want)]),
              'each epoch begins where the last one ended')
      tests = [sum(want) + v for v in w.values['test']]
      for y in ys:
        h.check(h.or_(*[h.close(y, v, 1e-9) for v in tests]),
                'tested after the epoch')
      metrics = w.kept_metrics.get(s)
      h.check(metrics is not None, 'metrics of the epoch')
      if metrics is None:
        return
      k = 'total_loss' if kind == 'graphs' else 'accuracy'
      h.check(h.and_(h.close(metrics['train/' + k], mean(xs), 1e-9),
                     h.close(metrics['eval/' + k], mean(ys), 1e-9)),
              'metrics of this epoch')
      p = kept.params
    h.check(int(state.step) == e * n and h.and_(*[
        h.close(a, b, 0) for a, b in zip(state.params.values(), p.values())]),
            'the state after the last epoch is the result')
    h.check(set(state.params) == set(w.p0), 'under its own names')
    d = w.data_config
    h.check(h.eq(d.batch_size, size) and d.data_dir == '/nowhere/data',
            'batches as large as configured, of the data configured')
    if kind == 'images':
      h.check(d.image_size == c.image_size and d.final_only == c.final_step_only,
              'images as configured')
    if w.graphs:
      g = w.network
      h.check(h.and_(h.close(g['r_cutoff'], c.r_cutoff, 1e-4),
                     h.close(float_of(g['box_size']), c.box_size, 1e-4),
                     *[h.close(x, c.box_size, 1e-4)
                       for x in h.obj(g['displacement_fn'][1]).flat]),
              'neighbors as configured')
      h.check(g['sequence_length'] == 2, 'sequences as long as the data')
    h.check(w.directory == '/nowhere/work', 'kept where configured')
    best_is_best(h, w, w.last)
    # once more
    w.start()
    before = w.clock
    again = w.mod.train(c)
    h.check(w.clock == before, 'a finished run is not trained further')
    h.check(int(again.step) == e * n and set(again.params) == set(w.p0) and
            h.and_(*[h.close(a, b, 0) for a, b in zip(
                again.params.values(), state.params.values())]),
            'and has its result')


class Moments(typing.NamedTuple):
  count: typing.Any
  mu: typing.Any
  nu: typing.Any


class Nothing(typing.NamedTuple):
  pass


@case(quick=[dict(n=0), dict(n=2)], thorough=[dict(n=4)],
      bounds='up to two (thorough 4) layers with any parameters and moments')
def names(h, n):
  layers = ['net/~/linear', 'net/linear_1', '~', 'plain'][:n]

  def values(name):
    return {k: {'w': h.reals(name + str(i), 2, -5, 5)}
            for i, k in enumerate(layers)}
  params, count = values('p'), h.int('count', 0, 1000)
  chain = (Nothing(), Moments(count, values('mu'), values('nu')), (),
           Nothing())
  state = State(step=count, params=params, opt_state=chain, metrics=Stats())
  there = gt.sanitize_state_keys(state)
  back = gt.sanitize_state_keys(
      there, (('dummy_slash', '/'), ('dummy_tilde', '~')))

  def same(a, b, keys):
    h.check(sorted(a) == sorted(keys), 'every layer is kept')
    for new, old in zip(keys, layers):
      h.check(set(a[new]) == {'w'} and h.arr_close(a[new]['w'], b[old]['w'], 0),
              'with its own values')
  clean = [k.replace('/', 'dummy_slash').replace('~', 'dummy_tilde')
           for k in layers]
  for s, keys in ((there, clean), (back, layers), (state, layers)):
    same(s.params, params, keys)
    moments = s.opt_state[1]
    same(moments.mu, chain[1].mu, keys)
    same(moments.nu, chain[1].nu, keys)
    h.check(h.and_(h.eq(moments.count, count), h.eq(s.step, count)),
            'counts are kept')
    h.check(len(s.opt_state) == 4 and [type(x) for x in s.opt_state] ==
            [type(x) for x in chain], 'the optimizer keeps its parts')
  h.check(not any(set('/~') & set(k) for k in there.params),
          'names fit for a checkpoint')
