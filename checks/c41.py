"""C41: what the image and graph networks are trained on, and with what loss."""

import inspect

import jax
import numpy as np

from symex.run import case
from checks import common
from checks import ratenet
from putting_dune import constants
from putting_dune.atom_detection import dataset as ad
from putting_dune.atom_detection import train as at
from putting_dune.graph_alignment import dataset as gd
from putting_dune.graph_alignment import train as gt
from putting_dune.image_alignment import dataset as ia
from putting_dune.image_alignment import train as it

SI, C = constants.SILICON, constants.CARBON


LISTS = inspect.signature(gt.graph_model.create_sparse_neighbor_list)


def plain(fn):
  """The function below jax.jit."""
  return getattr(fn, '__wrapped__', fn)


class Metrics:
  """Keeps the outputs it is given, in order."""

  def __init__(self, seen=()):
    self.seen = tuple(seen)

  def single_from_model_output(self, **infos):
    return Metrics([infos])

  def merge(self, other):
    return Metrics(self.seen + other.seen)


class State:

  def __init__(self, **k):
    vars(self).update(k)

  def replace(self, **k):
    return State(**{**vars(self), **k})

  def apply_gradients(self, grads, **k):
    return self.replace(params=('stepped', self.params, grads), **k)


class Grad:
  """jax.grad: any gradient; keeps what is differentiated."""

  def __init__(self):
    self.values, self.params = [], []

  def __call__(self, fn, argnums=0, has_aux=False, **_):
    def g(*a, **k):
      value, aux = fn(*a, **k)
      self.values.append(value)
      self.params.append(a[argnums])
      return ('gradient', len(self.values)), aux
    return g

  def value_and_grad(self, fn, argnums=0, has_aux=False, **_):
    def g(*a, **k):
      value, aux = fn(*a, **k)
      self.values.append(value)
      self.params.append(a[argnums])
      return (value, aux), ('gradient', len(self.values))
    return g


def swapped(h, mod, grad):
  def cross_entropy(logits, labels, axis=-1, where=None):
    return -mod.jnp.sum(labels * mod.jax.nn.log_softmax(logits, axis=-1),
                        axis=-1)
  items = [(mod.jax, 'grad', grad), (mod.jax, 'vmap', ratenet.vmap(h)),
           (mod.jax, 'value_and_grad', grad.value_and_grad)]
  if hasattr(mod.optax, 'softmax_cross_entropy') and h.symbolic:
    items.append((mod.optax, 'softmax_cross_entropy', cross_entropy))
  return common.swap(*items)


def cross_entropy(h, logits, label):
  e = [h.np.exp(x) for x in logits]
  return h.np.log(e[0] + e[1] + e[2]) - logits[label]


def mean(xs):
  xs = list(xs)
  t = xs[0]
  for x in xs[1:]:
    t = t + x
  return t / len(xs)


def right(h, logits, label):
  """1 where the label is the most probable class."""
  return h.ite(h.and_(*[logits[label] > logits[k] for k in range(3)
                        if k != label]), 1.0, 0.0)


def pixels(h, name, n):
  """Logits without ties."""
  out = [[h.real(f'{name}{i}_{k}', -3, 3) for k in range(3)] for i in range(n)]
  for row in out:
    for a in range(3):
      for b in range(a):
        h.apart(row[a], row[b], 1e-3)
  return out


def one_hot(h, labels):
  return [[1.0 if k == l else 0.0 for k in range(3)] for l in labels]


def stepped(h, state, new, grad, train, old):
  """The state after a step; returns the metrics of the step."""
  if train:
    h.check(grad.params == ['params'] and
            new.params == ('stepped', 'params', ('gradient', 1)),
            'one step along the gradient at the present parameters')
  else:
    h.check(new.params == 'params' and not grad.values,
            'evaluation leaves the network as it is')
  h.check(new.metrics.seen[:1] == (old,) and len(new.metrics.seen) == 2,
          'the metrics of the batch are added to the earlier ones')
  return new.metrics.seen[1]


@case(quick=[dict(train=t, labels=l) for t, l in (
    (True, (0, 2)), (False, (1, 2)), (True, (1, 1)), (False, (0, 1)))],
      thorough=[dict(train=t, labels=(a, b)) for t in (True, False)
                for a in range(3) for b in range(3)],
      timeouts=(20, 60, 60),
      bounds='two images of one pixel each, any outputs of the network')
def atom_detection(h, train, labels):
  rows = pixels(h, 'l', 2)
  x = h.reals('x', (2, 1, 1, 1), 0, 1)
  seen = []

  def apply_fn(params, image):
    seen.append((params, image))
    return h.array([[rows[len(seen) - 1]]])
  old = {'accuracy': 0.5}
  batch = {'image': x, 'mask': h.array(one_hot(h, labels)).reshape(2, 1, 1, 3)}
  state = State(apply_fn=apply_fn, params='params', metrics=Metrics([old]))
  grad = Grad()
  with swapped(h, at, grad):
    if train:
      new = plain(at.train_step)(state, batch)
    else:
      m = plain(at.eval_step)(state.metrics, batch, state=state)
      new = state.replace(metrics=m)
  infos = stepped(h, state, new, grad, train, old)
  h.check(len(seen) == 2 and all(s[0] == 'params' for s in seen) and
          h.and_(*[h.arr_close(s[1], x[i], 0) for i, s in enumerate(seen)]),
          'the network sees every image')
  h.check(h.close(infos['accuracy'],
                  mean(right(h, r, l) for r, l in zip(rows, labels)), 1e-4),
          'accuracy: the share of pixels whose most probable class is right')
  if train:
    want = mean(cross_entropy(h, r, l) for r, l in zip(rows, labels))
    h.check(h.close(infos['loss'], want, 1e-4) and
            h.close(grad.values[0], want, 1e-4), 'the mean cross entropy')


@case(quick=[dict(train=t, final=f, wide=w, labels=l) for t, f, w, l in (
    (True, True, False, (2, 1, 0, 1)), (True, False, True, (0, 1, 2, 2)),
    (False, True, True, (1, 0, 2, 1)), (False, False, False, (2, 2, 1, 0)))],
      thorough=[dict(train=t, final=f, wide=w, labels=l) for t in (True, False)
                for f in (True, False) for w in (True, False) for l in (
                    (0, 0, 0, 0), (1, 1, 1, 1), (2, 2, 2, 2), (0, 1, 2, 0),
                    (1, 2, 0, 1), (2, 0, 1, 2))],
      timeouts=(20, 60, 60),
      bounds='two sequences of two images of one pixel, or one of two pixels, '
             'any outputs of the network, drifts and weight')
def image_alignment(h, train, final, wide, labels):
  b, n = (1, 2) if wide else (2, 1)
  # rows and labels: by sequence, then pixel, then time
  rows = pixels(h, 'l', 4)
  drift = [[h.real(f'd{i}{k}', -2, 2) for k in range(2)] for i in range(2 * b)]
  pred = [[h.real(f'p{i}{k}', -2, 2) for k in range(2)] for i in range(2 * b)]
  w = h.real('w', 0, 3)
  x = h.reals('x', (b, 1, n, 2), 0, 1)
  seen = []

  def apply_fn(params, images):
    i = len(seen)
    seen.append((params, images))
    mine = rows[2 * n * i:2 * n * (i + 1)]
    return (h.array([[mine[2 * k] + mine[2 * k + 1] for k in range(n)]]),
            h.array(pred[2 * i] + pred[2 * i + 1]))
  old = {'accuracy': 0.5}
  batch = {'images': x,
           'mask': h.array(one_hot(h, labels)).reshape(b, 1, n, 2, 3),
           'drift': h.array(drift).reshape(b, 2, 2)}
  state = State(apply_fn=apply_fn, params='params', metrics=Metrics([old]))
  grad = Grad()
  with swapped(h, it, grad):
    if train:
      new = plain(it.train_step)(state, batch, w, final)
    else:
      new = plain(it.eval_step)(state, batch, final)
  infos = stepped(h, state, new, grad, train, old)
  h.check(len(seen) == b and all(s[0] == 'params' for s in seen) and
          h.and_(*[h.arr_close(s[1], x[i], 0) for i, s in enumerate(seen)]),
          'the network sees every sequence')
  ce = [cross_entropy(h, r, l) for r, l in zip(rows, labels)]
  acc = [right(h, r, l) for r, l in zip(rows, labels)]
  sq = [(d[0] - p[0]) ** 2 + (d[1] - p[1]) ** 2 for d, p in zip(drift, pred)]
  err = [h.np.sqrt(s) for s in sq]
  last = lambda xs: mean(xs[1::2])
  use = last if final else mean
  for name, want in (('accuracy', acc), ('loss', ce), ('drift_loss', sq),
                     ('drift_error', err)):
    h.check(h.close(infos[name], use(want), 1e-4), f'reported {name}')
    h.check(h.close(infos['final_step_' + name], last(want), 1e-4),
            f'reported {name} of the last images')
  if train:
    h.check(h.close(grad.values[0], use(ce) + w * use(sq), 1e-3),
            'trained on the cross entropy and the weighted drift error')


class Image:
  """tf.image over symbolic values."""

  def __init__(self, h):
    self.h = h

  def resize(self, x, size, method='bilinear', **_):
    assert method == 'nearest', method
    x = self.h.array(x)
    a = x.ndim - 3
    for axis, n in zip((a, a + 1), size):
      m = x.shape[axis]
      at = [min(int((i + 0.5) * m / int(n)), m - 1) for i in range(int(n))]
      x = x[(slice(None),) * axis + (np.array(at),)]
    return x

  def convert_image_dtype(self, x, dtype=None, **_):
    x = self.h.array(x)
    return x if np.dtype(x.dtype).kind == 'f' else x / 255.0


class Tf:
  """The tensorflow functions used, over symbolic values."""

  float32, int32, uint8 = np.float32, np.int32, np.uint8

  def __init__(self, h):
    self.h, self.np, self.image = h, h.np, Image(h)

  def __getattr__(self, name):
    return getattr(self.np, name)

  def equal(self, a, b):
    return a == b

  def transpose(self, a, perm=None):
    return self.np.transpose(a, perm)

  def cast(self, a, dtype):
    return a.astype(dtype)

  def squeeze(self, a, axis=None):
    return self.np.squeeze(a, axis=axis)

  def one_hot(self, a, depth, axis=-1, **_):
    assert axis in (-1, a.ndim)
    return (a[..., None] == np.arange(depth)) * 1.0


def value(x):
  return x.numpy() if hasattr(x, 'numpy') else x


def atoms(h, name, shape):
  """A mask of carbon, silicon and nothing; and the classes."""
  kinds = np.empty(shape, dtype=object)
  mask = np.empty(shape, dtype=object)
  for k in np.ndindex(*shape):
    i = h.int(name + ''.join(map(str, k)), 0, 2)
    kinds[k] = i
    mask[k] = h.ite(i == 0, 0, h.ite(i == 1, C, SI))
  return kinds, h.array(mask).astype(np.uint8)


def tf_for(h, mod):
  return common.swap(*([(mod, 'tf', Tf(h))] if h.symbolic else []))


@case(quick=[dict(size=2, grow=1), dict(size=1, grow=2), dict(size=2, grow=2)],
      bounds='images up to 2x2, kept or doubled in size, any values and atoms')
def atom_detection_data(h, size, grow):
  kinds, mask = atoms(h, 'm', (size, size, 1))
  x = h.reals('x', (size, size, 1), 0, 1).astype(np.float32)
  feats = {'image': x, 'mask': mask}
  with tf_for(h, ad):
    for t in (ad.ResizeImage(image_size=size * grow),
              ad.RemapAndOneHotMask(num_classes=3)):
      feats = t.map(feats)
  image, out = value(feats['image']), value(feats['mask'])
  n = size * grow
  h.check(image.shape == (n, n, 1) and out.shape == (n, n, 3), 'sizes')
  for i in range(n):
    for j in range(n):
      h.check(h.close(image[i, j, 0], x[i // grow, j // grow, 0], 1e-5),
              'the image in its new size')
      h.check(h.and_(*[h.eq(out[i, j, k] == 1, kinds[i // grow, j // grow, 0]
                            == k) for k in range(3)]),
              'each pixel is labelled: nothing, carbon or silicon')


@case(quick=[dict(size=2, grow=1, last=False), dict(size=1, grow=2, last=True),
             dict(size=2, grow=2, last=False), dict(size=2, grow=1, last=True),
             dict(size=2, grow=1, last=True, pixels='bytes')],
      bounds='sequences of two images up to 2x2, kept or doubled in size, any '
             'values, atoms and drifts')
def image_alignment_data(h, size, grow, last, pixels='floats'):
  kinds, mask = atoms(h, 'm', (2, size, size, 1))
  if pixels == 'bytes':
    x = h.array([h.int(f'x{i}', 0, 255) for i in range(2 * size * size)])
    x, unit = x.reshape(2, size, size, 1).astype(np.uint8), 1 / 255
  else:
    x, unit = h.reals('x', (2, size, size, 1), 0, 1).astype(np.float32), 1
  d = h.reals('d', (2, 2), -3, 3)
  feats = {'images': x, 'mask': mask, 'drift': d}
  steps = [ia.SelectFinalTimestep()] if last else []
  steps += [ia.ResizeImage(image_size=size * grow),
            ia.RemapAndOneHotMask(num_classes=3)]
  with tf_for(h, ia):
    for t in steps:
      feats = t.map(feats)
  image, out, drift = (value(feats[k]) for k in ('images', 'mask', 'drift'))
  n = size * grow
  times = [1] if last else [0, 1]
  h.check(image.shape == (n, n, 2) and out.shape == (n, n, len(times), 3),
          'images and masks of the sequence')
  h.check(h.arr_close(drift, d[times], 1e-5), 'the drift of those images')
  for i in range(n):
    for j in range(n):
      a, b = i // grow, j // grow
      for t in range(2):
        h.check(h.close(image[i, j, t], x[t, a, b, 0] * unit, 1e-5),
                'all images in their order')
      for s, t in enumerate(times):
        h.check(h.and_(*[h.eq(out[i, j, s, k] == 1, kinds[t, a, b, 0] == k)
                         for k in range(3)]),
                'each pixel is labelled: nothing, carbon or silicon')


@case(quick=[dict(steps=s, start=b, learn=l) for s, b, l in (
    (2, 1, True), (3, 1, False), (2, 0, True))],
      thorough=[dict(steps=s, start=b, learn=l) for s in (2, 3) for b in (
          0, 1, 2) if b < s for l in (True, False)],
      timeouts=(20, 60, 60),
      bounds='two graphs of up to three steps and two points, any outputs of '
             'the network, labels and weight, any of the points of the last '
             'step padding')
def graph_alignment(h, steps, start, learn):
  n = 2
  pos = h.reals('x', (2, steps, n, 3), -5, 5)
  real = [[[h.branch(h.bool(f'real{g}{i}')) if t == steps - 1 else
            bool((g + t + i) % 3) for i in range(n)] for t in range(steps)]
          for g in range(2)]
  feats = h.array([[[[1.0 if real[g][t][i] else 0.0, 0.25 * i + t]
                     for i in range(n)] for t in range(steps)]
                   for g in range(2)])
  r = lambda name, *shape: h.reals(name, shape, -2, 2)
  gl, gp = r('gl', 2, steps, 2), r('gp', 2, steps, 2)
  ll, lp = r('ll', 2, steps, n, 2), r('lp', 2, steps, n, 2)
  w = h.real('w', 0, 3)
  seen, lists = [], []

  class Neighbors:

    def __init__(self, at):
      self.at, self.updated = at, None

    def update(self, at):
      self.updated = at
      return self

  def neighbor_list(*a, **k):
    b = LISTS.bind(*a, **k).arguments
    lists.append((b['capacity'], b['update_fn'], b['cell_list_capacity']))
    return Neighbors(b['initial_position'])

  def apply_fn(params, at, neighbor, nodes):
    i = len(seen)
    seen.append((params, at, neighbor, nodes))
    return gp[i], lp[i]
  old = {'total_loss': 0.5}
  state = State(params='params', metrics=Metrics([old]))
  batch = dict(positions=pos, features=feats, global_labels=gl, local_labels=ll,
               _id=np.array([1, 2]))
  grad = Grad()
  with swapped(h, gt, grad), common.swap(
      (gt.graph_model, 'create_sparse_neighbor_list', neighbor_list)):
    new = plain(gt.train_step)(
        state, batch, apply_fn, 'update', w, loss_start_timestep=start,
        neighbor_list_capacity=64, do_grad_step=learn)
  infos = stepped(h, state, new, grad, learn, old)
  h.check(len(seen) == 2 and all(s[0] == 'params' for s in seen),
          'the network sees every graph')
  for g, (_, at, neighbor, nodes) in enumerate(seen):
    h.check(h.and_(h.arr_close(at, pos[g].reshape(-1, 3), 0),
                   h.arr_close(nodes, feats[g].reshape(-1, 2), 0)),
            'all points of all steps are its nodes')
    h.check(neighbor.updated is not None and
            h.arr_close(neighbor.updated, pos[g].reshape(-1, 3), 0) and
            lists[g] == (64, 'update', None), 'with the edges between them')
  sq = lambda a, b: (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2
  use = range(start, steps)
  glob = mean(mean(sq(gl[g, t], gp[g, t]) for g in range(2)) for t in use)
  loc = mean(mean(mean(sq(ll[g, t, i], lp[g, t, i]) if real[g][t][i] else 0.0
                       for i in range(n)) for g in range(2)) for t in use)
  h.check(h.close(infos['global_loss'], glob, 1e-3), 'the global loss')
  h.check(h.close(infos['local_loss'], loc, 1e-3),
          'the local loss: padding does not count')
  h.check(h.close(infos['total_loss'], glob + w * loc, 1e-3),
          'the weighted sum of both')
  if learn:
    h.check(h.close(grad.values[0], glob + w * loc, 1e-3), 'is minimised')
  h.check(h.close(infos['global_error'], mean(
      h.np.sqrt(sq(gl[g, t], gp[g, t])) for g in range(2)
      for t in range(steps)), 1e-3), 'the mean global error')


@case(quick=[dict(kind=k, final=f) for k, f in (
    ('atoms', False), ('images', False), ('images', True), ('graphs', False))],
      bounds='any seed, batch size, image size and start; up to four processes')
def sources(h, kind, final):
  """Examples come from the sets named, prepared in order."""
  mod = {'atoms': ad, 'images': ia, 'graphs': gd}[kind]
  size, batch = h.int('size', 1, 512), h.int('batch', 1, 256)
  start, seed = h.int('start', 0, 10 ** 6), h.int('seed', 0, 10 ** 6)
  count = int(h.int('count', 1, 4))
  index = int(h.int('index', 0, count - 1))
  made = []

  class Loader:

    def __init__(self, **k):
      self.k = k

    def as_dataset(self, start_index=0):
      made.append((self.k, start_index))
      return self

  shard = lambda *a, **k: ('shard', k.get('drop_remainder', a and a[0]))
  k = dict(data_dir='/nowhere/data', start_index=start, batch_size=batch)
  if kind != 'graphs':
    k['image_size'] = size
  if kind == 'images':
    k['final_only'] = final
  config = {'atoms': 'AtomDetectionDatasetConfig',
            'images': 'ImageAlignmentDatasetConfig',
            'graphs': 'GraphAlignmentDatasetConfig'}[kind]
  with common.swap(
      (mod, 'grain', common.Over(mod.grain, ShardByJaxProcess=shard,
                                 load_from_tfds=lambda **k: Loader(**k))),
      (jax, 'process_count', lambda *_: count),
      (jax, 'process_index', lambda *_: index)):
    train, test = mod.make_dataset(config=getattr(mod, config)(**k), seed=seed)
  name = {'atoms': 'atom_detection', 'images': 'image_alignment',
          'graphs': 'graph_alignment'}[kind]
  h.check(train is not test and len(made) == 2, 'two sets')
  for ds, split in ((train, 'train'), (test, 'test')):
    k = ds.k
    h.check(k['name'] == name and k['split'] == split and
            k['data_dir'] == '/nowhere/data', 'the sets named')
    h.check(h.and_(h.eq(k['batch_size'], batch), h.eq(k['seed'], seed)),
            'batches and seed as asked for')
    h.check(k['shuffle'] is True and tuple(k['shard_options'])[0] == 'shard',
            'shuffled, and shared among processes')
    steps = list(k['transformations'])
    want = {'atoms': ['ResizeImage', 'RemapAndOneHotMask'], 'graphs': [],
            'images': ['SelectFinalTimestep'] * final + [
                'ResizeImage', 'RemapAndOneHotMask']}[kind]
    h.check([type(s).__name__ for s in steps] == want, 'prepared in order')
    for s in steps:
      if hasattr(s, 'image_size'):
        h.check(h.eq(s.image_size, size), 'images of the size asked for')
      if hasattr(s, 'num_classes'):
        h.check(h.eq(s.num_classes, 3), 'three classes')
    s, = [s for k_, s in made if k_ is k]
    if kind == 'images':
      h.check(h.and_(h.eq(s % count, index), h.eq(s // count, start // count)),
              'each process begins with its own of the examples asked for')
    else:
      h.check(h.eq(s, start), 'from the example asked for')
