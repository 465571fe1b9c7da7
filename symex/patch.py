"""Installs the stand-ins into the loaded modules of the code under test."""

import collections
import copy
import datetime
import math
import sys
import types

import numpy as np

from symex import arr
from symex import shims

_STATE = {}
_ABSENT = object()


def _build():
  """id(real object) -> replacement."""
  m = {}
  keep = []

  def put(real, new):
    m[id(real)] = new
    keep.append(real)

  npx = arr.NumpyProxy()
  put(np, npx)
  put(np.linalg, npx.linalg)
  for n in dir(np):
    if n.startswith('_'):
      continue
    a = getattr(np, n)
    if isinstance(a, np.ufunc) or (
        isinstance(a, types.FunctionType) or
        type(a).__name__ in ('builtin_function_or_method',
                             '_ArrayFunctionDispatcher')):
      put(a, getattr(npx, n))
  put(np.linalg.norm, npx.linalg.norm)
  mx = shims.make_math()
  put(math, mx)
  for n in dir(math):
    if callable(getattr(math, n)) and not n.startswith('_'):
      put(getattr(math, n), getattr(mx, n))
  put(datetime, shims.ModProxy(datetime, {'timedelta': shims.timedelta}))
  put(datetime.timedelta, shims.timedelta)

  import shapely
  import shapely.geometry as sg
  pt = shims.make_point_class(sg.Point)
  sgx = shims.ModProxy(sg, {'Point': pt})
  put(sg, sgx)
  put(sg.Point, pt)
  put(shapely, shims.ModProxy(shapely, {'geometry': sgx}))

  import sklearn
  import sklearn.neighbors as sn
  snx = shims.ModProxy(sn, {'NearestNeighbors': shims.NearestNeighbors})
  put(sn, snx)
  put(sn.NearestNeighbors, shims.NearestNeighbors)
  put(sklearn, shims.ModProxy(sklearn, {'neighbors': snx}))

  from absl import logging
  put(logging, shims.NoLog(logging))

  pb2 = sys.modules.get('putting_dune.putting_dune_pb2')
  if pb2 is not None:
    msgs = shims.make_messages(pb2)
    put(pb2, shims.ModProxy(pb2, msgs))
    for n, c in msgs.items():
      put(getattr(pb2, n), c)

  tf = sys.modules.get('tensorflow')
  if tf is not None:
    put(tf, shims.Library(tf, {'make_tensor_proto': shims.make_tensor_proto,
                                'make_ndarray': shims.make_ndarray}))
    try:
      put(tf.make_tensor_proto, shims.make_tensor_proto)
      put(tf.make_ndarray, shims.make_ndarray)
    except AttributeError:
      pass

  cv = sys.modules.get('cv2')
  if cv is not None:
    put(cv, shims.Library(cv, {}))

  st = sys.modules.get('scipy.stats')
  sc = sys.modules.get('scipy')
  if st is not None:
    stx = shims.ModProxy(st, {'multivariate_normal': shims.MVN()})
    put(st, stx)
    put(st.multivariate_normal, shims.MVN())
    put(sc, shims.ModProxy(sc, {'stats': stx}))

  if 'jax' in sys.modules:
    from symex import jaxshim
    jaxshim.install(put, npx)
  _STATE['pt'] = pt
  _STATE['np'] = npx
  _STATE['math'] = mx
  _STATE['map'] = m
  _STATE['keep'] = keep
  return m


def modules():
  return [mod for name, mod in list(sys.modules.items())
          if (name == 'putting_dune' or name.startswith('putting_dune.'))
          and mod is not None and not name.endswith('_pb2')]


def _unjax(v):
  """The function below module-level jax.jit / jax.vmap decorations."""
  if type(v).__name__ == 'PjitFunction':
    w = getattr(v, '__wrapped__', None)
    return None if w is None else (_unjax(w) or w)
  code = getattr(v, '__code__', None)
  if code is None or 'jax' not in code.co_filename:
    return None
  free = {n: c.cell_contents
          for n, c in zip(code.co_freevars, v.__closure__ or ())}
  if code.co_name == 'reraise_with_filtered_traceback':
    return _unjax(free.get('fun'))
  if code.co_name != 'vmap_f':
    return None
  from symex import jaxshim
  fun = free.get('fun')
  if fun is None:
    return None
  return jaxshim.vmap(_unjax(fun) or fun, free.get('in_axes', 0),
                      free.get('out_axes', 0))


class Patched:
  """Context manager: code under test sees the stand-ins."""

  def __init__(self, extra=()):
    self.extra = list(extra)  # (object, attribute, replacement)

  def __enter__(self):
    m = _STATE.get('map') or _build()
    self.undo = []
    for mod in modules():
      for k, v in list(vars(mod).items()):
        if k.startswith('__'):
          continue
        r = m.get(id(v))
        if r is None:
          r = _unjax(v)
        if r is not None:
          self.undo.append((mod, k, v))
          setattr(mod, k, r)
        if isinstance(v, type) and v.__module__ == mod.__name__:
          for ck, cv in list(vars(v).items()):
            if ck.startswith('__'):
              continue
            r = m.get(id(cv))
            if r is not None:
              self.undo.append((v, ck, cv))
              setattr(v, ck, r)
      if 'float' not in vars(mod):
        self.undo.append((mod, 'float', _ABSENT))
        setattr(mod, 'float', shims.Float)
    for o, k, new in self.extra:
      self.undo.append((o, k, getattr(o, k)))
      setattr(o, k, new)
    return self

  def __exit__(self, *exc):
    for o, k, v in reversed(self.undo):
      if v is _ABSENT:
        delattr(o, k)
      else:
        setattr(o, k, v)
    self.undo = []
    return False


_TARGETS = []


def _functions(mod):
  """Functions and methods defined in a module."""
  for v in list(vars(mod).values()):
    v = getattr(v, '__wrapped__', v) if type(v).__name__ == 'PjitFunction' else v
    if isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
      yield v
    elif isinstance(v, type) and v.__module__ == mod.__name__:
      for f in list(vars(v).values()):
        f = getattr(f, '__func__', f)
        f = getattr(f, 'fget', None) or getattr(f, 'func', None) or f
        if isinstance(f, types.FunctionType):
          yield f


MUTABLE = (list, dict, set, collections.deque, np.ndarray)


def _find_targets():
  """Everything mutable that outlives a call of the code under test."""
  out = []
  for mod in modules():
    for k, v in list(vars(mod).items()):
      if not k.startswith('__') and type(v) in MUTABLE:
        out.append(('attr', mod, k, v))
      if hasattr(v, 'cache_clear') and getattr(v, '__module__', '') == mod.__name__:
        out.append(('cache', v, None, None))
      if isinstance(v, type) and v.__module__ == mod.__name__:
        for ck, cv in list(vars(v).items()):
          if not ck.startswith('_') and type(cv) in MUTABLE:
            out.append(('attr', v, ck, cv))
          if hasattr(cv, 'cache_clear'):
            out.append(('cache', cv, None, None))
    for f in _functions(mod):
      if f.__defaults__ and any(type(d) in MUTABLE for d in f.__defaults__):
        out.append(('defaults', f, '__defaults__', f.__defaults__))
      kd = f.__kwdefaults__
      if kd and any(type(d) in MUTABLE for d in kd.values()):
        out.append(('kwdefaults', f, '__kwdefaults__', kd))
  return out


def _fresh(v, symbolic):
  if type(v) not in MUTABLE:
    return v
  if isinstance(v, np.ndarray):
    if symbolic and v.dtype.kind in 'biuf' and v.size <= 64:
      return arr.mk(v.copy()).astype(v.dtype)
    return v.copy()
  return copy.copy(v)


class Fresh:
  """Every run starts from the mutable defaults and globals of a new process."""

  def __init__(self, symbolic):
    self.symbolic = symbolic

  def __enter__(self):
    if not _TARGETS:
      _TARGETS.extend(_find_targets() or [None])
    self.undo = []
    for t in _TARGETS:
      if t is None:
        continue
      kind, o, k, v = t
      if kind == 'cache':
        o.cache_clear()
        continue
      if getattr(o, k) is not v:
        continue  # replaced by a stand-in
      if kind == 'defaults':
        new = tuple(_fresh(d, self.symbolic) for d in v)
      elif kind == 'kwdefaults':
        new = {n: _fresh(d, self.symbolic) for n, d in v.items()}
      else:
        new = _fresh(v, False)
      self.undo.append((o, k, v))
      setattr(o, k, new)
    return self

  def __exit__(self, *exc):
    for o, k, v in reversed(self.undo):
      setattr(o, k, v)
    return False
