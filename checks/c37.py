"""C37: uploading the data of a microscope."""

import io
import json
import math
import os
import pathlib
import shutil
import tempfile
import types

import numpy as np

from symex.run import case
from checks import common
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import upload_microscope_data as umd


class Run:
  """What a microscope saved: n frames, of which some have no dopant."""

  def __init__(self, h, name, n, without=(), padding=0, scale=2, atoms=2,
               readout='ADF readouttime', size=4):
    self.h, self.n, self.without = h, n, set(without)
    self.size, self.scale = size, scale
    self.labels = size // scale
    total = n + padding
    self.raw = h.reals(name + '.raw', (total, size, size), 0, 1)
    self.label = np.zeros((total, self.labels, self.labels))
    self.fov = h.real(name + '.fov', 1, 4)
    # coordinates in pixels of the label image; every atom is somewhere else
    self.xy = [[(h.real(f'{name}.x{t}.{i}', 0, self.labels),
                 h.real(f'{name}.y{t}.{i}', 0, self.labels))
                for i in range(atoms)] for t in range(n)]
    for row in self.xy:
      for i in range(atoms):
        for j in range(i):
          h.apart(row[i][0], row[j][0], 1e-2)
    self.dopant = [h.pick(f'{name}.dopant{t}', range(atoms))
                   if t == 0 else t % atoms for t in range(n)]
    self.beam = [(h.real(f'{name}.bx{t}', 0, self.labels),
                  h.real(f'{name}.by{t}', 0, self.labels)) for t in range(n)]
    self.dwell = [h.real(f'{name}.dwell{t}', 0.1, 10) for t in range(n)]
    self.shift = [(h.real(f'{name}.sx{t}', -2, 2), h.real(f'{name}.sy{t}', -2, 2))
                  for t in range(n)]
    self.meta = {'metadata': {}}
    for t in range(n):
      v = {'All coordinates': {'0': [[x, y, 0.0] for x, y in self.xy[t]]},
           'All parameters': {'image_parameters': [self.fov, 7.0]}}
      if t not in self.without:
        v['Blast coordinates'] = {
            'Dopants': [list(self.xy[t][self.dopant[t]])]}
        v['Beam location'] = list(self.beam[t])
        v['Beam dwelltime'] = self.dwell[t]
        v['ADF intensities'] = [0.5, 0.25]
        v['Pixelshifts'] = list(self.shift[t])
      # the readout time is only known to one of the frames
      if readout and t == 1:
        v[readout] = 0.125
      self.meta['metadata'][str(t)] = v

  def check(self, traj):
    h = self.h
    h.check(isinstance(traj, mu.Trajectory) and
            len(traj.observations) == self.n, 'one observation per frame')
    sx = sy = 0.0
    for t, o in enumerate(traj.observations):
      p = o.grid.atom_positions
      h.check(p.shape == (len(self.xy[t]), 2), 'every atom')
      for i, (x, y) in enumerate(self.xy[t]):
        h.check(h.and_(h.close(p[i][0], x / self.labels, 1e-5),
                       h.close(p[i][1], y / self.labels, 1e-5)),
                'atoms in the frame of the microscope')
        z = 14 if t not in self.without and i == self.dopant[t] else 6
        h.check(h.eq(o.grid.atomic_numbers[i], z),
                'dopants are silicon, all others carbon')
      if t not in self.without:
        sx = sx + self.shift[t][0] * 10 * self.fov / self.size
        sy = sy + self.shift[t][1] * 10 * self.fov / self.size
      ll, ur = o.fov.lower_left, o.fov.upper_right
      h.check(h.and_(h.close(ll.x, sx, 1e-4), h.close(ll.y, sy, 1e-4),
                     h.close(ur.x, sx + 10 * self.fov, 1e-4),
                     h.close(ur.y, sy + 10 * self.fov, 1e-4)),
              'views in Angstrom, moved by all shifts up to then')
      if t in self.without:
        h.check(len(o.controls) == 0, 'no command without a dopant')
        h.check(h.close(o.elapsed_time.total_seconds(), 2.0, 1e-5),
                'the time of an image')
      else:
        h.check(len(o.controls) == 1, 'one command')
        c = o.controls[0]
        bx, by = self.beam[t]
        h.check(h.and_(h.close(c.position.x, bx / self.labels, 1e-5),
                       h.close(c.position.y, by / self.labels, 1e-5)),
                'the beam in the frame of the microscope')
        h.check(h.close(c.dwell_time.total_seconds(), self.dwell[t], 1e-5),
                'its dwell time')
        h.check(h.close(o.elapsed_time.total_seconds(), self.dwell[t] + 2.0,
                        1e-5), 'the times of the command and the image')
      h.check(h.arr_close(o.image, self.raw[t], 1e-6), 'its own image')


class Files:
  """What np.load and json.loads see of the runs, by directory."""

  def __init__(self, runs):
    self.runs = {str(k): v for k, v in runs.items()}

  def load(self, path, *_, **__):
    d, name = os.path.split(str(path))
    r = self.runs[d]
    if name == 'ADF-stack-000.ndata1':
      return {'data': r.raw, 'metadata.json': 'wrong file'}
    assert name == 'Label-stack-000.ndata1', name
    return {'data': r.label, 'metadata.json': r}

  def loads(self, text, *_, **__):
    return json.loads(json.dumps(text)) if isinstance(text, str) else text.meta

  def swapped(self):
    return common.swap(
        (umd.np, 'load', self.load),
        (umd, 'json', common.Over(umd.json, loads=self.loads)))


@case(quick=[dict(n=4, without=(), padding=0, scale=2),
             dict(n=4, without=(1, 3), padding=2, scale=1),
             dict(n=5, without=(0,), padding=1, scale=2)],
      thorough=[dict(n=6, without=(2,), padding=3, scale=4),
                dict(n=8, without=(0, 1, 7), padding=0, scale=2)],
      bounds='runs of 4 or 5 (thorough 8) frames of 4x4 pixels with two atoms '
             'anywhere, any beam positions, dwell times, pixel shifts and one '
             'width of the view')
def convert(h, n, without, padding, scale):
  r = Run(h, 'r', n, without, padding, scale)
  with Files({'/run': r}).swapped():
    data = umd.load_dataset(pathlib.Path('/run'))
  h.check(data[0].shape == (n, 4, 4), 'images that were not taken are left out')
  r.check(umd.convert_dataset_to_proto(*data))


@case(bounds='a run without a readout time')
def unreadable(h):
  r = Run(h, 'r', 4, readout=None)
  with Files({'/run': r}).swapped():
    h.check_raises(ValueError, 'data without readout times is refused',
                   umd.load_dataset, pathlib.Path('/run'))


class Cloud:
  """Stands in for the storage of Google Cloud."""

  def __init__(self):
    self.written, self.uploads = {}, []

  def swapped(self):
    cloud = self

    class Writer:

      def __init__(self, fp, *_, **__):
        self.fp, self.records = fp, []
        cloud.written[id(fp)] = (fp, self.records)

      def write_record(self, record):
        self.records.append(record)
        self.fp.write(b'record')

      def close(self):
        pass

      def __enter__(self):
        return self

      def __exit__(self, *_):
        return False

    class Blob:

      def __init__(self, bucket, name):
        self.bucket, self.name = bucket, name

      def upload_from_file(self, fp, rewind=False, **_):
        records = cloud.written[id(fp)][1]
        if fp.tell() and not rewind:
          records = ['cut off']
        cloud.uploads.append((self.bucket, self.name, list(records)))

    class Bucket:

      def __init__(self, name):
        self.name = name

      def blob(self, name, **_):
        return Blob(self.name, name)

    class Client:

      def get_bucket(self, name, **_):
        return Bucket(name)

      bucket = get_bucket

    class Bar:

      def __init__(self, xs, **_):
        self.xs = xs

      def __iter__(self):
        return iter(self.xs)

      def set_postfix_str(self, *_, **__):
        pass

    return common.swap(
        (umd, 'storage', common.Over(umd.storage, Client=Client)),
        (umd, 'riegeli', common.Over(umd.riegeli, RecordWriter=Writer)),
        (umd, 'tqdm', common.Over(umd.tqdm, tqdm=Bar)))


DIRS = ('Graphene/Scan 1', 'Graphene/Run-1.5nm', 'Graphene/Run-1.2nm', 'b')


@case(quick=[dict(dirs=(3,), bad=()), dict(dirs=(1, 2), bad=()),
             dict(dirs=(0, 3), bad=(0,)), dict(dirs=(0, 3), bad=(3,)),
             dict(dirs=(), bad=())],
      thorough=[dict(dirs=(0, 1, 2, 3), bad=(1,))],
      bounds='up to 2 (thorough 4) runs of 4 frames, with or without readout '
             'times')
def upload(h, dirs, bad):
  tmp = tempfile.mkdtemp(prefix='verif_c37_')
  try:
    runs, cloud = {}, Cloud()
    for d in dirs:
      path = os.path.join(tmp, DIRS[d])
      os.makedirs(path)
      for f in ('ADF-stack-000.ndata1', 'Label-stack-000.ndata1'):
        with open(os.path.join(path, f), 'w', encoding='utf-8'):
          pass
      runs[path] = Run(h, f'r{d}', 4, without=(2,),
                       readout=None if d in bad else 'ADF readouttime')
    err = io.StringIO()
    with Files(runs).swapped(), cloud.swapped(), common.swap(
        (umd.sys, 'stderr', err)):
      args = umd.Args(directory=pathlib.Path(tmp), bucket='there')
      try:
        umd.main(args)
        ended = None
      except SystemExit as e:
        ended = e.code
  finally:
    shutil.rmtree(tmp)
  if not dirs:
    h.check(ended not in (None, 0) and not cloud.uploads,
            'nothing found is reported as a failure')
    return
  h.check(ended is None, 'the upload ends normally')
  good = [p for p, r in runs.items() if os.path.relpath(p, tmp) not in
          [DIRS[d] for d in bad]]
  h.check(len(cloud.uploads) == len(good), 'every readable run, once')
  names = [u[1] for u in cloud.uploads]
  h.check(len(set(names)) == len(names), 'under a name of its own')
  left = dict(cloud_runs(runs, good))
  for bucket, name, records in cloud.uploads:
    h.check(bucket == 'there', 'to the bucket asked for')
    h.check(str(name).endswith('.riegeli'), 'as a record file')
    h.check(len(records) == 1, 'one record, from its start')
    t = mu.Trajectory.from_proto_string(records[0])
    key = next((k for k in left if tag(str(name)) == tag(k)), None)
    h.check(key is not None, 'the name tells the directory')
    left.pop(key).check(t)
  h.check(not left, 'nothing is missing')
  if bad:
    h.check(err.getvalue() != '', 'unreadable runs are reported')


def cloud_runs(runs, good):
  for p in good:
    for d in DIRS:
      if p.endswith('/' + d):
        yield d, runs[p]


def tag(name):
  """What is left of a name whatever way it is written."""
  name = name[:-len('.riegeli')] if name.endswith('.riegeli') else name
  return ''.join(c for c in name.lower() if c.isalnum())


