"""Stand-ins for jax / jax.numpy: eager symbolic evaluation."""

import types

import numpy as np

from symex import arr
from symex import core
from symex import shims

# set by the harness: provider of non-deterministic values for jax.random
RANDOM = {'impl': None}


class _At:

  def __init__(self, a):
    self.a = a

  def __getitem__(self, idx):
    return _AtIdx(self.a, idx)


class _AtIdx:

  def __init__(self, a, idx):
    self.a, self.idx = a, idx

  def set(self, v, **k):
    r = self.a.copy()
    r[self.idx] = v
    return r

  def add(self, v, **k):
    r = self.a.copy()
    r[self.idx] = r[self.idx] + v
    return r

  def multiply(self, v, **k):
    r = self.a.copy()
    r[self.idx] = r[self.idx] * v
    return r

  def get(self, **k):
    return self.a[self.idx]


arr.SymArray.at = property(_At)


class JnpProxy(types.ModuleType):

  def __init__(self, real, npx):
    super().__init__('jax.numpy')
    self.__dict__['_real'] = real
    self.__dict__['_npx'] = npx
    self.__dict__['_cache'] = {}

  def __getattr__(self, name):
    c = self.__dict__['_cache']
    if name not in c:
      c[name] = self._make(name)
    return c[name]

  def _make(self, name):
    real = self.__dict__['_real']
    npx = self.__dict__['_npx']
    if name == 'linalg':
      return npx.linalg
    if name == 'ndarray':
      return np.ndarray
    if not hasattr(np, name):
      return getattr(real, name)
    v = getattr(npx, name)
    if not callable(v) or isinstance(v, type):
      return v

    def f(*a, **k):
      if not core.active():
        return getattr(real, name)(*a, **k)
      r = v(*a, **k)
      return _lift(r)
    f.__name__ = name
    return f


def _lift(r):
  if isinstance(r, np.ndarray) and not isinstance(r, arr.SymArray):
    return arr.mk(r)
  if isinstance(r, tuple):
    return tuple(_lift(x) for x in r)
  if isinstance(r, list):
    return [_lift(x) for x in r]
  return r


def _is_arr(x):
  return isinstance(x, np.ndarray)


def vmap(fun, in_axes=0, out_axes=0, **kw):
  """Maps by looping over the leading axis of array leaves."""
  import jax

  def g(*args, **kwargs):
    axes = in_axes if isinstance(in_axes, (tuple, list)) else [in_axes] * len(
        args)
    n = None
    for a, ax in list(zip(args, axes)) + [(v, 0) for v in kwargs.values()]:
      if ax is None:
        continue
      for leaf in jax.tree_util.tree_leaves(a):
        if hasattr(leaf, 'shape') and len(leaf.shape):
          n = leaf.shape[ax if isinstance(ax, int) else 0]
          break
      if n is not None:
        break
    outs = []

    def pick(a, ax, i):
      if ax is None:
        return a
      def one(leaf):
        leaf = leaf if isinstance(leaf, arr.SymArray) else arr.mk(leaf)
        return leaf[(slice(None),) * ax + (i, Ellipsis)]
      return jax.tree_util.tree_map(one, a)
    empty = n == 0
    if empty:  # only the shapes matter: apply it to zeros
      n = 1
      grow = lambda ax: lambda leaf: arr.FUNCS['zeros'](
          tuple(1 if k == ax else d for k, d in enumerate(leaf.shape)),
          dtype=arr.ldt_of(leaf))
      args = [a if ax is None else jax.tree_util.tree_map(grow(ax), a)
              for a, ax in zip(args, axes)]
      kwargs = {k: jax.tree_util.tree_map(grow(0), v)
                for k, v in kwargs.items()}
    for i in range(n):
      outs.append(fun(*[pick(a, ax, i) for a, ax in zip(args, axes)],
                      **{k: pick(v, 0, i) for k, v in kwargs.items()}))
    leaves = [jax.tree_util.tree_flatten(o) for o in outs]
    td = leaves[0][1]
    cols = [arr.FUNCS['stack']([l[0][j] for l in leaves], axis=(
        out_axes if isinstance(out_axes, int) else 0))
            for j in range(len(leaves[0][0]))]
    if empty:
      cols = [c[:0] for c in cols]
    return jax.tree_util.tree_unflatten(td, cols)
  return g


def jit(fun=None, **kw):
  if fun is None:
    return lambda f: f
  return fun


class JaxRandom(types.ModuleType):

  def __init__(self, real):
    super().__init__('jax.random')
    self.__dict__['_real'] = real

  def __getattr__(self, name):
    impl = RANDOM['impl']
    if impl is not None and core.active() and hasattr(impl, name):
      return getattr(impl, name)
    return getattr(self.__dict__['_real'], name)


class JaxLax(types.ModuleType):

  def __init__(self, real):
    super().__init__('jax.lax')
    self.__dict__['_real'] = real

  def stop_gradient(self, x):
    return x

  def cond(self, p, t, f, *ops):
    return t(*ops) if bool(p) else f(*ops)

  def select(self, p, a, b):
    return arr.F_where(p, a, b)

  def scan(self, f, init, xs, length=None, **k):
    import jax
    n = length if length is not None else len(
        jax.tree_util.tree_leaves(xs)[0])
    carry, ys = init, []
    for i in range(n):
      x = jax.tree_util.tree_map(lambda l: l[i], xs) if xs is not None else None
      carry, y = f(carry, x)
      ys.append(y)
    if ys and ys[0] is not None:
      ys = jax.tree_util.tree_map(lambda *l: arr.FUNCS['stack'](list(l)), *ys)
    else:
      ys = None
    return carry, ys

  def dynamic_slice_in_dim(self, x, start_index, slice_size, axis=0):
    n = x.shape[axis]
    start = min(max(int(start_index), 0), n - int(slice_size))
    return x[(slice(None),) * (axis % len(x.shape)) +
             (slice(start, start + int(slice_size)),)]

  def dynamic_index_in_dim(self, x, index, axis=0, keepdims=True):
    r = self.dynamic_slice_in_dim(x, index, 1, axis)
    return r if keepdims else r[(slice(None),) * (axis % len(x.shape)) + (0,)]

  def fori_loop(self, lo, hi, body, init):
    for i in range(int(lo), int(hi)):
      init = body(i, init)
    return init

  def __getattr__(self, n):
    return getattr(self.__dict__['_real'], n)


class JaxNN(types.ModuleType):
  """jax.nn over symbolic values."""

  def __init__(self, real, npx):
    super().__init__('jax.nn')
    self.__dict__['_real'] = real
    self.__dict__['_np'] = npx

  def softmax(self, x, axis=-1, where=None, **_):
    if not core.active() or where is not None:
      return self._real.softmax(x, axis=axis, where=where)
    e = self._np.exp(_lift(x))
    return e / e.sum(axis=axis, keepdims=True)

  def log_softmax(self, x, axis=-1, where=None, **_):
    if not core.active() or where is not None:
      return self._real.log_softmax(x, axis=axis, where=where)
    x = _lift(x)
    e = self._np.exp(x)
    return x - self._np.log(e.sum(axis=axis, keepdims=True))

  def logsumexp(self, x, axis=None, keepdims=False, **_):
    if not core.active():
      return self._real.logsumexp(x, axis=axis, keepdims=keepdims)
    return self._np.log(self._np.exp(_lift(x)).sum(axis=axis,
                                                   keepdims=keepdims))

  def one_hot(self, x, num_classes, **k):
    if not core.active():
      return self._real.one_hot(x, num_classes, **k)
    x = _lift(x)
    return (x[..., None] == np.arange(num_classes)) * 1.0

  def __getattr__(self, n):
    return getattr(self.__dict__['_real'], n)


def install(put, npx):
  import jax
  import jax.nn
  import jax.numpy as jnp
  jx = JnpProxy(jnp, npx)
  put(jnp, jx)
  rnd = JaxRandom(jax.random)
  put(jax.random, rnd)
  lax = JaxLax(jax.lax)
  put(jax.lax, lax)
  import jax.scipy.stats as jst
  import jax.scipy as jsc
  jsx = shims.ModProxy(jst, {'multivariate_normal': shims.MVN()})
  put(jst, jsx)
  jscx = shims.ModProxy(jsc, {'stats': jsx})
  nn = JaxNN(jax.nn, npx)
  put(jax.nn, nn)
  put(jsc, jscx)
  put(jax, shims.ModProxy(jax, {
      'numpy': jx, 'random': rnd, 'lax': lax, 'vmap': vmap, 'jit': jit,
      'scipy': jscx, 'nn': nn, 'device_get': lambda x: x, 'device_put': lambda x, *a: x,
  }))
  put(jax.vmap, vmap)
  put(jax.jit, jit)
