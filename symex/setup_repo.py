"""Makes /repo importable, with protobuf code regenerated from its .proto."""

import atexit
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
_done = False


def _z3_path():
  for p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if p not in sys.path:
      sys.path.append(p)


def init():
  """Idempotent; call before importing anything from putting_dune."""
  global _done
  if _done:
    return
  _done = True
  sys.dont_write_bytecode = True
  warnings.filterwarnings('ignore')
  _z3_path()
  if REPO in sys.path:
    sys.path.remove(REPO)
  sys.path.insert(0, REPO)
  # sandbox-missing optional dependencies, import-time only
  if importlib.util.find_spec('riegeli') is None:
    sys.modules['riegeli'] = types.ModuleType('riegeli')
  if importlib.util.find_spec('grain') is None:
    grain = types.ModuleType('grain')
    grain.tensorflow = types.ModuleType('grain.tensorflow')
    grain.tensorflow.MapTransform = type('MapTransform', (), {})
    sys.modules['grain'] = grain
    sys.modules['grain.tensorflow'] = grain.tensorflow
  tmp = tempfile.mkdtemp(prefix='verif_pb2_')
  pid = os.getpid()

  def clean():
    if os.getpid() == pid:
      shutil.rmtree(tmp, ignore_errors=True)
  atexit.register(clean)
  inc = None
  for base in sys.path:
    c = os.path.join(base, 'tensorflow', 'include')
    if os.path.isdir(c):
      inc = c
      break
  protos = glob.glob(os.path.join(REPO, 'putting_dune', '*.proto'))
  cmd = ['/usr/bin/protoc', f'-I={REPO}', f'--python_out={tmp}']
  if inc:
    cmd.insert(1, f'-I={inc}')
  try:
    subprocess.run(cmd + protos, check=True, cwd=REPO, capture_output=True)
    gen = os.path.join(tmp, 'putting_dune', 'putting_dune_pb2.py')
    import putting_dune  # pylint: disable=g-import-not-at-top
    spec = importlib.util.spec_from_file_location(
        'putting_dune.putting_dune_pb2', gen)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['putting_dune.putting_dune_pb2'] = mod
    spec.loader.exec_module(mod)
    putting_dune.putting_dune_pb2 = mod
  except (subprocess.CalledProcessError, FileNotFoundError) as e:
    sys.modules.pop('putting_dune.putting_dune_pb2', None)
    print(f'NOTE: protoc failed ({e}); using the existing generated module')
