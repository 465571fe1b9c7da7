"""C45: models fetched are whole, whatever interrupts fetching them."""

import contextlib
import io
import os
import shutil
import tempfile
import types
import urllib.error
import urllib.request
import zipfile

from etils import epath
import numpy as np

from symex.run import case
from checks import common
from putting_dune import alignment
from putting_dune import atom_detector
from putting_dune.experiments import registry

KINDS = ('atoms', 'images', 'agent')
NAMES = {'atoms': 'atom-detection-model', 'images': 'image-alignment-model',
         'agent': 'ppo_simple_images_tf'}
REAL = {n: getattr(os, n) for n in (
    'mkdir', 'rename', 'replace', 'unlink', 'remove', 'rmdir')}
REAL_OPEN = zipfile.ZipFile.open


class Crash(BaseException):
  """The process ends here."""


class Lost(OSError):
  """Something fails and says so."""


def files(version):
  return {'saved_model.pb': f'graph {version}',
          'variables/variables.index': f'index {version}',
          f'variables/part-{version}': f'numbers {version}'}


def archive(name, version):
  b = io.BytesIO()
  with zipfile.ZipFile(b, 'w') as z:
    z.writestr(f'{name}/', '')
    for k, v in files(version).items():
      z.writestr(f'{name}/{k}', v)
  return b.getvalue()


def tree(d):
  found = {}
  for at, _, names in os.walk(d):
    for n in names:
      with open(os.path.join(at, n), 'rb') as f:
        found[os.path.relpath(os.path.join(at, n), d)] = f.read().decode()
  return found


class World:
  """A disk and a network; everything which happens may be the last thing."""

  def __init__(self, h, kind, root):
    self.h, self.kind, self.root = h, kind, root
    self.name = NAMES[kind]
    self.version, self.fetched = 1, 0
    self.stop, self.dead, self.ends = None, False, True
    self.clock = 0

  def run(self, stop=None, ends=True):
    """Fetches; the thing numbered `stop` is the last (or fails)."""
    self.stop, self.ends, self.dead, self.clock = stop, ends, False, 0
    with self.swapped():
      try:
        return self.fetch(), None
      except (Crash, Exception) as e:  # pylint: disable=broad-except
        if not self.clock or not isinstance(
            e, (Crash, OSError, zipfile.BadZipFile)):
          raise
        return None, e

  def fetch(self):
    if self.kind == 'atoms':
      return atom_detector.AtomDetector.from_url('http://a/b.zip').model_path
    if self.kind == 'images':
      p = epath.Path(self.root) / 'packaged.zip'
      with open(p, 'wb') as f:
        f.write(archive(self.name, self.version))
      return alignment.ImageAligner.from_path(
          p, workdir=self.workdir, reload=self.reload).model_path
    creator = registry._TfAgentCreator(self.name, 'http://a/b.zip')  # pylint: disable=protected-access
    return creator(None, None).path

  workdir, reload = None, False

  def tick(self, what):
    if self.dead:
      raise Crash(what)
    t, self.clock = self.clock, self.clock + 1
    if self.stop is not None and self.h.branch(self.h.eq(self.stop, t)):
      self.stop = None
      self.dead = self.ends
      raise (Crash if self.ends else Lost)(what)

  def mine(self, path):
    return not isinstance(path, int) and os.path.abspath(
        os.fspath(path)).startswith(self.root)

  def changed(self, name):
    real = REAL[name]

    def call(path, *a, **k):
      if self.mine(path):
        self.tick(f'{name} {path}')
      return real(path, *a, **k)
    return call

  def opened(self):
    w = self

    def open_(archive_, name, mode='r', *a, **k):
      f = REAL_OPEN(archive_, name, mode, *a, **k)
      if mode == 'r':
        w.tick('read')
        whole = f.read
        parts = []

        def read(n=-1):
          if not parts:
            data = whole()
            cut = len(data) // 2
            parts.extend([data[:cut], data[cut:]] if cut else [data])
            if n is None or n < 0:
              parts[:] = [data]
            got = parts.pop(0)
            parts.append(b'')
            return got
          w.tick('read on')
          return parts.pop(0) if len(parts) > 1 else b''
        if not name_is_dir(name):
          f.read = read
      return f
    return open_

  def answer(self):
    self.tick('asked')
    self.fetched += 1
    return archive(self.name, self.version)

  def urlopen(self, url, *_, **__):
    self.h.check(getattr(url, 'full_url', url) == 'http://a/b.zip',
                 'from the place named')
    data, w = self.answer(), self

    class Answer(io.BytesIO):

      def read(self, *a):
        w.tick('received')
        return super().read(*a)
    return Answer(data)

  def urlretrieve(self, url, filename=None, *_, **__):
    self.h.check(url == 'http://a/b.zip', 'from the place named')
    data = self.answer()
    with open(filename, 'wb') as f:
      f.write(data[:50])
      f.flush()
      self.tick('received')
      f.write(data[50:])
    return filename, {}

  def swapped(self):
    def resource_path(package):
      parts = str(getattr(package, '__name__', package)).split('.')
      return epath.Path(os.path.join(self.root, *parts))
    here = os.path.join(self.root, 'putting_dune', 'experiments')
    for d in (here, os.path.join(self.root, 'work')):
      os.makedirs(d, exist_ok=True)
    self.swap_rmtree()
    return common.swap(
        (epath, 'resource_path', resource_path),
        (registry, '__file__', os.path.join(here, 'registry.py')),
        (registry.tf_eval_agent, 'TfEvalAgent',
         lambda path, *_, **__: types.SimpleNamespace(path=path)),
        (urllib.request, 'urlopen', self.urlopen),
        (urllib.request, 'urlretrieve', self.urlretrieve),
        (zipfile.ZipFile, 'open', self.opened()),
        (shutil, 'rmtree', self.rmtree), (tempfile._shutil, 'rmtree', self.rmtree),  # pylint: disable=protected-access
        *[(os, n, self.changed(n)) for n in REAL])

  def swap_rmtree(self):
    real = shutil.rmtree
    if real is self.rmtree:
      return

    def rmtree(path, *a, **k):
      """Removes bit by bit, unless the process has ended."""
      if self.dead:
        return
      if self.mine(path):
        for at, _, names in list(os.walk(path)):
          for n in names:
            os.unlink(os.path.join(at, n))
      return real(path, *a, **k)
    self.rmtree = rmtree

  rmtree = None


def name_is_dir(name):
  return getattr(name, 'filename', name).endswith('/')


@contextlib.contextmanager
def scratch():
  d = os.path.realpath(tempfile.mkdtemp())
  try:
    yield d
  finally:
    shutil.rmtree(d)


@case(quick=[dict(kind=k, times=1) for k in KINDS],
      thorough=[dict(kind=k, times=2) for k in KINDS],
      max_paths=3000, validate=10,
      bounds='a model of three files, fetched after up to one (thorough two) '
             'attempts which fail, or end, at any step of asking, receiving, '
             'unpacking, moving or removing')
def fetch(h, kind, times):
  stops = [(h.int(f'stop{i}', 0, 60), bool(h.bool(f'ends{i}')))
           for i in range(times)]
  with scratch() as d:
    w = World(h, kind, d)
    if kind == 'images' and bool(h.bool('elsewhere')):
      w.workdir = os.path.join(d, 'work')
    for stop, ends in stops:
      path, _ = w.run(stop, ends)
      if path is not None:
        h.check(tree(path) == files(1), 'a model given is whole')
    path, e = w.run()
    h.check(e is None, 'fetching succeeds after one which did not', repr(e))
    if path is None:
      return
    h.check(os.path.basename(path) == NAMES[kind] and
            (w.workdir is None or str(path).startswith(w.workdir)),
            'kept under its name')
    h.check(tree(path) == files(1), 'the model is whole')
    count, clock = w.fetched, w.clock
    w.version = 2
    again, e = w.run()
    h.check(e is None and str(again) == str(path) and tree(path) == files(1)
            and w.fetched == count, 'a model there is not fetched again')


@case(quick=[dict()], max_paths=3000, validate=10,
      bounds='a model of three files replaced by another; the attempt fails, '
             'or ends, at any step')
def reload(h):
  stop, ends = h.int('stop', 0, 60), bool(h.bool('ends'))
  with scratch() as d:
    w = World(h, 'images', d)
    path, e = w.run()
    h.check(e is None and tree(path) == files(1), 'the model is whole')
    w.version, w.reload = 2, True
    again, _ = w.run(stop, ends)
    if again is not None:
      h.check(tree(again) == files(2), 'reloading gives the new model')
    w.reload = False
    last, e = w.run()
    h.check(e is None and tree(last) in (files(1), files(2)),
            'one of the models, whole')
