"""C44: packaging trained image networks."""

import contextlib
import dataclasses
import os
import shutil
import tempfile
import types
import urllib.request
import zipfile

from etils import epath

from symex.run import case
from checks import common
from putting_dune import alignment
from putting_dune import atom_detector
from putting_dune.atom_detection import save_model as am
from putting_dune.image_alignment import save_model as im

PROGRAMS = {'atoms': am, 'images': im}


@contextlib.contextmanager
def scratch():
  d, here = tempfile.mkdtemp(), os.getcwd()
  try:
    os.chdir(d)
    yield d
  finally:
    os.chdir(here)
    shutil.rmtree(d)


class World:
  """Checkpoints, and a network whose outputs tell which it was made of."""

  def __init__(self, h, kind, params):
    self.h, self.kind, self.mod = h, kind, PROGRAMS[kind]
    self.params = params
    keys = ('eval/accuracy', 'eval/loss', 'eval/drift_error')
    self.metrics = {s: {k: h.real(f'{k[5]}{s}', 0, 1) for k in keys}
                    for s in params}

  def manager(self, directory, checkpointers=None, options=None, **_):
    w = self

    class Manager:

      def best_step(self):
        seen = sorted(w.metrics, key=lambda s: options.best_fn(w.metrics[s]),
                      reverse=options.best_mode == 'min')
        return seen[-1]

      def latest_step(self):
        return max(w.metrics)

      def all_steps(self, *_):
        return sorted(w.metrics)

      def restore(self, step, *_, **__):
        return dict(step=step, params=w.params[step], opt_state=None,
                    metrics=None)
    self.directory = str(directory)
    return Manager()

  def model(self, **k):
    self.sizes = k

    def apply(params, image):
      self.used = params
      return ('outputs', image)
    return types.SimpleNamespace(apply=apply)

  def save(self, module, path, *_, **__):
    path = str(path)
    self.h.check(not os.path.exists(path), 'packed from a place of its own')
    call = module.__call__
    self.spec = call.spec
    self.h.check(call.f('image') == ('outputs', 'image'),
                 'the package predicts')
    os.makedirs(os.path.join(path, 'variables', 'parts'))
    for name, text in FILES.items():
      with open(os.path.join(path, name), 'w') as f:
        f.write(text)

  def swapped(self):
    ns = types.SimpleNamespace
    m = self.mod
    return common.swap(
        (m, 'checkpoint', common.Over(
            m.checkpoint, CheckpointManager=self.manager,
            PyTreeCheckpointer=lambda *_: None,
            CheckpointManagerOptions=options)),
        (m.unet, 'UNet' if self.kind == 'atoms' else 'GlobalLocalUNet',
         self.model),
        (m, 'jax2tf', common.Over(m.jax2tf, convert=lambda f, **_: f)),
        (m.jax, 'jit', lambda f, **_: f),
        (m, 'tf', common.Over(
            m.tf, Module=ns,
            TensorSpec=lambda shape, dtype=None, name=None: tuple(shape),
            function=lambda f, input_signature=None, **_: ns(
                f=f, spec=input_signature),
            saved_model=common.Over(m.tf.saved_model, save=self.save))))


def options(best_fn=None, best_mode='max', **_):
  return types.SimpleNamespace(best_fn=best_fn, best_mode=best_mode)


FILES = {'saved_model.pb': 'graph', 'variables/variables.index': 'index',
         'variables/parts/0': 'numbers'}


@case(quick=[dict(kind=k, relative=r, final=f, there=t, name=n)
             for k, r, f, t, n in (
                 ('atoms', False, True, None, 'a.zip'),
                 ('atoms', True, True, True, None),
                 ('atoms', True, True, False, 'b.zip'),
                 ('images', True, True, None, None),
                 ('images', False, False, True, 'c.zip'),
                 ('images', True, False, False, 'd.zip'))],
      max_paths=400,
      bounds='three checkpoints with any metrics and parameters; new packages, '
             'and ones which are there already')
def package(h, kind, relative, final, there, name):
  h.formatting()
  layer = (lambda v: {'value': v}) if final else (lambda v: v)
  values = {s: h.real(f'v{s}', -5, 5) for s in (1, 2, 3)}
  plain = {s: {'params': {'a': {'kernel': v, 'bias': v + 1}}}
           for s, v in values.items()}
  params = plain if kind == 'atoms' else {
      s: {'params': {'a': {'kernel': layer(v), 'bias': layer(v + 1)}}}
      for s, v in values.items()}
  w = World(h, kind, params)
  with scratch() as d:
    os.mkdir('models')
    c = types.SimpleNamespace(to_dict=lambda: {})
    for f in dataclasses.fields(w.mod.Config):
      setattr(c, f.name, f.default)
    c.workdir = epath.Path('/nowhere/work')
    c.save_path = epath.Path('models' if relative else
                             os.path.join(d, 'models'))
    c.model_name = name
    c.final_step_only, c.sequence_length = final, 4
    if kind == 'atoms':
      c.input_shape = (64, 32, 1)
    else:
      c.image_size = (64, 32)
    c.overwrite = there is True
    if there is not None:
      with open(os.path.join(d, "models", name or "0.zip"), "w"
                        ) as f:
        f.write('older')
    with w.swapped():
      _, e = h.call(w.mod.save, c)
    h.check(os.path.exists(d) and os.path.realpath('.') == os.path.realpath(d),
            'the working directory stays')
    if there is False:
      h.check(e is not None, 'packages are replaced only if asked for')
      with open(os.path.join(d, 'models', name)) as f:
        h.check(f.read() == 'older', 'packages are replaced only if asked for')
      return
    h.check(e is None, 'packaging succeeds', repr(e))
    h.check(w.directory == '/nowhere/work', 'of the checkpoints named')
    found = sorted(set(os.listdir(os.path.join(d, 'models'))) - {'0.zip'})
    h.check(len(found) == 1 and (name is None or found == [name]),
            'one package, under its name')
    with zipfile.ZipFile(os.path.join(d, 'models', found[0])) as z:
      files = {n: z.read(n).decode() for n in z.namelist()
               if not n.endswith('/')}
    tops = {n.split('/')[0] for n in files}
    h.check(len(tops) == 1 and files == {
        f'{list(tops)[0]}/{k}': v for k, v in FILES.items()},
            'the whole model in a directory of its own')
    h.check([tuple(s) for s in w.spec] == [
        (64, 32, 1) if kind == 'atoms' else (64, 32, 4)],
            'for images of the shape configured')
    if kind == 'images':
      h.check(w.sizes == dict(local_output_size=3 if final else 12,
                              global_output_size=2 if final else 6),
              'a network of the size configured')
    used = w.used['params']['a']
    quality = {s: m['eval/accuracy'] if kind == 'atoms' else
               -m['eval/loss'] - m['eval/drift_error']
               for s, m in w.metrics.items()}
    ok = [h.and_(h.close(used['kernel'], v, 0), h.close(used['bias'], v + 1, 0),
                 *[quality[s] >= q - 1e-9 for q in quality.values()])
          for s, v in values.items()]
    h.check(h.or_(*ok), 'the checkpoint which did best')


@case(quick=[dict(kind=k) for k in PROGRAMS], max_paths=50,
      bounds='a package of each kind, with any parameters')
def loaded(h, kind):
  """What is packaged can be loaded."""
  h.formatting()
  params = {1: {'params': {'a': {'kernel': h.real('v', -5, 5)}}}}
  w = World(h, kind, params)
  with scratch() as d:
    c = types.SimpleNamespace(to_dict=lambda: {})
    for f in dataclasses.fields(w.mod.Config):
      setattr(c, f.name, f.default)
    c.workdir, c.save_path = epath.Path('/nowhere/work'), epath.Path(d)
    c.model_name = 'a.zip'
    with w.swapped():
      w.mod.save(c)
    package_ = os.path.join(d, 'a.zip')
    with common.swap(
        (epath, 'resource_path', lambda *_: epath.Path(d) / 'there'),
        (urllib.request, 'urlopen', lambda *_, **__: open(package_, 'rb'))):
      if kind == 'atoms':
        made, e = h.call(atom_detector.AtomDetector.from_url, 'http://a/a.zip')
      else:
        made, e = h.call(alignment.ImageAligner.from_path, epath.Path(package_))
    h.check(e is None, 'packages can be loaded', repr(e))
    if e is None:
      found = {}
      for at, _, names in os.walk(made.model_path):
        for n in names:
          with open(os.path.join(at, n)) as f:
            found[os.path.relpath(os.path.join(at, n), made.model_path)] = (
                f.read())
      h.check(found == FILES, 'the model loaded is the one packaged')
