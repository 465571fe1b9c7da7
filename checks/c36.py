"""C36: record files and the pipelines between them."""

import collections
import pathlib
import shutil
import tempfile
import types

from etils import epath

from symex.run import case
from checks import common
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import align_trajectories
from putting_dune.pipeline import train_rate_learner as trl
from putting_dune.pipeline import trajectories_to_transitions as ttt


class Disk:
  """Stands in for TensorFlow's record files; contents may be symbolic."""

  def __init__(self):
    self.files = collections.OrderedDict()
    disk = self

    class Writer:

      def __init__(self, path, options=None):
        del options
        self.name = str(path)
        self.closed = False
        disk.files[self.name] = []

      def write(self, record):
        assert not self.closed, 'written after closing'
        assert not isinstance(record, mu.ProtoModel), 'an object, not bytes'
        disk.files[self.name].append(record)

      def flush(self):
        pass

      def close(self):
        self.closed = True

      def __enter__(self):
        return self

      def __exit__(self, *_):
        self.close()
        return False

    class Reader:

      def __init__(self, paths, *_, **__):
        if isinstance(paths, (list, tuple)):
          self.names = [str(p) for p in paths]
        else:
          self.names = [str(paths)]

      def as_numpy_iterator(self):
        for n in self.names:
          if n not in disk.files:
            raise FileNotFoundError(n)
          yield from list(disk.files[n])

      def __iter__(self):
        for r in self.as_numpy_iterator():
          yield types.SimpleNamespace(numpy=lambda r=r: r)

    self.tf = types.SimpleNamespace(
        io=types.SimpleNamespace(TFRecordWriter=Writer),
        data=types.SimpleNamespace(TFRecordDataset=Reader))

  def swapped(self):
    return common.swap((pdio, 'tf', self.tf))


def trajectory(h, name, n, image='none', controls=1):
  return mu.Trajectory([
      common.observation(h, f'{name}.{i}', n=1, n_controls=controls, image=image,
                         lo=0, hi=1) for i in range(n)])


def same_trajectory(h, a, b, label=''):
  h.check(isinstance(b, mu.Trajectory) and
          len(a.observations) == len(b.observations),
          label + 'as many observations')
  for x, y in zip(a.observations, b.observations):
    common.same_obs(h, x, y, 1e-6, label)


@case(quick=[dict(lengths=(), path='str'), dict(lengths=(2,), path='epath'),
             dict(lengths=(1, 0, 2), path='pathlib'),
             dict(lengths=(1, 1), path='lazy')],
      thorough=[dict(lengths=(2, 1, 3, 0, 1), path='str')],
      bounds='up to 3 (thorough 5) trajectories of up to 2 (3) observations '
             'with any contents')
def records(h, lengths, path):
  disk = Disk()
  name = {'str': str, 'lazy': str, 'epath': epath.Path,
          'pathlib': pathlib.Path}[path]('/data/some.dir/x.tfrecords')
  ts = [trajectory(h, f't{i}', n, 'yes' if i == 0 else 'none')
        for i, n in enumerate(lengths)]
  with disk.swapped():
    pdio.write_records(name, iter(ts) if path == 'lazy' else ts)
    h.check(list(disk.files) == ['/data/some.dir/x.tfrecords'],
            'one file, the one asked for')
    out = list(pdio.read_records(name, mu.Trajectory))
    h.check(len(out) == len(ts), 'every record once')
    for a, b in zip(ts, out):
      same_trajectory(h, a, b)
    raw = list(pdio.read_records(name))
    h.check(len(raw) == len(ts), 'every record once, as it is')
    for a, b in zip(ts, raw):
      same_trajectory(h, a, mu.Trajectory.from_proto_string(b), 'raw: ')
    # records as they are can be copied, and a second writing replaces
    pdio.write_records('/data/y.tfrecords', raw)
    pdio.write_records(name, raw[:1])
    again = list(pdio.read_records('/data/y.tfrecords', mu.Trajectory))
    h.check(len(again) == len(ts), 'a copy has as many')
    for a, b in zip(ts, again):
      same_trajectory(h, a, b, 'copy: ')
    h.check(len(list(pdio.read_records(name))) == min(1, len(ts)),
            'writing replaces what was there')


@case(quick=[dict(name=n) for n in ('/d/x.riegeli', '/d/x', '/d/tfrecords',
                                    '/d.tfrecords/x.csv')],
      bounds='other file names')
def unknown(h, name):
  disk = Disk()
  t = trajectory(h, 't', 1)
  with disk.swapped():
    h.check_raises(ValueError, 'files of unknown kind are not written',
                   pdio.write_records, name, [t])
    h.check(not disk.files, 'nothing is written')
    h.check_raises(ValueError, 'files of unknown kind are not read',
                   lambda: list(pdio.read_records(name, mu.Trajectory)))


@case(quick=[dict(lengths=(0, 1)), dict(lengths=(2,)), dict(lengths=(3, 1, 2))],
      thorough=[dict(lengths=(4, 3)), dict(lengths=(2, 2, 2, 2))],
      bounds='up to 3 (thorough 4) trajectories of up to 3 (4) observations '
             'with any contents')
def transitions(h, lengths):
  disk = Disk()
  ts = [trajectory(h, f't{i}', n, 'yes') for i, n in enumerate(lengths)]
  with disk.swapped():
    pdio.write_records('/a.tfrecords', ts)
    ttt.main(ttt.Args(source_path='/a.tfrecords', target_path='/b.tfrecords'))
    out = list(pdio.read_records('/b.tfrecords', mu.Transition))
    src = list(pdio.read_records('/a.tfrecords', mu.Trajectory))
  h.check(len(src) == len(ts), 'the source is left alone')
  want = [(t.observations[i], t.observations[i + 1]) for t in ts
          for i in range(len(t.observations) - 1)]
  h.check(len(out) == len(want), 'every pair of observations in a row')
  for q, (a, b) in zip(out, want):
    h.check(h.and_(common.same_grid(h, q.grid_before, a.grid),
                   common.same_grid(h, q.grid_after, b.grid),
                   common.same_fov(h, q.fov_before, a.fov),
                   common.same_fov(h, q.fov_after, b.fov)),
            'before and after, in order')
    h.check(common.same_controls(h, q.controls, a.controls),
            'the commands given in between')
    h.check(h.and_(common.same_image(h, q.image_before, a.image),
                   common.same_image(h, q.image_after, b.image)), 'images')


class Scratch:
  """A real directory with empty files: only names are read from it."""

  def __init__(self, names):
    self.names = names

  def __enter__(self):
    self.path = tempfile.mkdtemp(prefix='verif_c36_')
    for n in self.names:
      with open(f'{self.path}/{n}', 'w', encoding='utf-8'):
        pass
    return self

  def __exit__(self, *_):
    shutil.rmtree(self.path)
    return False


class Net:
  """Stands in for the image aligner."""

  def __init__(self, h):
    self.h, self.seen = h, []

  def reset(self, history_length=None, *_, **__):
    self.seen.append(('reset', history_length))

  def __call__(self, image, fov):
    k = len(self.seen)
    g = mu.AtomicGridMicroscopeFrame(
        common.grid(self.h, f'found{k}', 1, 0, 1))
    d = self.h.reals('shift', (2,), -5, 5)
    self.seen.append((image, fov, g, d))
    return g, d, None


@case(quick=[dict(files=(('a.tfrecords', (1,)),), directory=False, relabel=False),
             dict(files=(('a.tfrecords', (2, 1)),), directory=True, relabel=True),
             dict(files=(('a.tfrecords', (1,)), ('b.tfrecords', (1, 2)),
                         ('notes.txt', ())), directory=True, relabel=False)],
      bounds='up to 2 files of up to 2 trajectories of up to 2 observations, '
             'any drift')
def aligned(h, files, directory, relabel):
  disk, net, made = Disk(), Net(h), []
  step = h.real('step', 0.1, 1)

  def from_path(*a, **k):
    made.append((a, k))
    return net
  with Scratch([n for n, _ in files]) as d, disk.swapped(), common.swap(
      (align_trajectories.alignment.ImageAligner, 'from_path', from_path),
      (align_trajectories.etqdm, 'tqdm', lambda x, *a, **k: x)):
    ts = {}
    for n, lengths in files:
      if n.endswith('.tfrecords'):
        ts[n] = [trajectory(h, f'{n[0]}{i}', k, 'yes')
                 for i, k in enumerate(lengths)]
        pdio.write_records(f'{d.path}/{n}', ts[n])
    source = epath.Path(d.path)
    if not directory:
      source = source / files[0][0]
    align_trajectories.main(align_trajectories.Args(
        source_path=source, target_path=epath.Path('/out.tfrecords'),
        aligner_path=epath.Path('/model'), history_length=3,
        alignment_iterations=1, base_step_size=step, hybrid=True,
        relabel=relabel))
    out = list(pdio.read_records('/out.tfrecords', mu.Trajectory))
  h.check(len(made) == 1 and epath.Path('/model') in made[0][0] + tuple(
      made[0][1].values()) and made[0][1].get('hybrid') is True,
          'the aligner asked for')
  h.check(len(out) == sum(len(v) for v in ts.values()), 'every trajectory once')
  # files may come in any order; their trajectories stay in order
  left = {n: list(v) for n, v in ts.items()}
  calls = list(net.seen)
  k = 0
  while any(left.values()):
    if k >= len(out):
      h.fail('a trajectory is missing')
    q = out[k]
    n = next((n for n, v in left.items() if v and
              len(v[0].observations) == len(q.observations) and
              matches(h, v[0], q)), None)
    h.check(n is not None, 'each trajectory is one of those read, in order')
    t = left[n].pop(0)
    h.check(calls and isinstance(calls[0][0], str) and h.eq(calls[0][1], 3),
            'every trajectory afresh, with the history asked for')
    block, calls = calls[1:1 + len(t.observations)], calls[1 + len(
        t.observations):]
    sx, sy = 0.0, 0.0
    for o, r, (image, _, g, s) in zip(t.observations, q.observations, block):
      h.check(h.branch(common.same_image(h, image, o.image)), 'its own images')
      sx, sy = sx + s[0], sy + s[1]
      h.check(h.and_(common.near(h, r.fov.lower_left.x, o.fov.lower_left.x - sx,
                                 1e-5),
                     common.near(h, r.fov.lower_left.y, o.fov.lower_left.y - sy,
                                 1e-5)), 'its own drift')
      h.check(common.same_grid(h, r.grid, g if relabel else o.grid),
              'atoms found in its images' if relabel else 'its own atoms')
    k += 1


def matches(h, t, q):
  return all(h.branch(common.same_image(h, a.image, b.image))
             for a, b in zip(t.observations, q.observations))


@case(quick=[dict(how='file'), dict(how='directory'), dict(how='list'),
             dict(how='none')],
      bounds='up to 2 files of up to 2 trajectories')
def load(h, how):
  disk = Disk()
  files = {'a.tfrecords': (1, 2), 'b.tfrecords': (1,)}
  if how == 'file':
    files = {'a.tfrecords': (1, 2)}
  with Scratch(files) as d, disk.swapped():
    ts = {}
    for n, lengths in files.items():
      ts[n] = [trajectory(h, f'{n[0]}{i}', k, 'yes')
               for i, k in enumerate(lengths)]
      pdio.write_records(f'{d.path}/{n}', ts[n])
    p = epath.Path(d.path)
    if how == 'file':
      p = p / 'a.tfrecords'
    elif how == 'list':
      p = [p / 'b.tfrecords', p / 'a.tfrecords']
    elif how == 'none':
      p = []
    out = trl.load_trajectories_from_records(p)
  if how == 'none':
    h.check(not out, 'no files, no trajectories')
    return
  a, b = ts['a.tfrecords'], ts.get('b.tfrecords', [])
  h.check(len(out) == len(a) + len(b), 'every trajectory once')
  orders = [a] if how == 'file' else [b + a] if how == 'list' else [a + b, b + a]
  want = next((o for o in orders if all(
      len(x.observations) == len(y.observations) and matches(h, x, y)
      for x, y in zip(o, out))), None)
  h.check(want is not None, 'in order')
  for x, y in zip(want, out):
    same_trajectory(h, x, y)
