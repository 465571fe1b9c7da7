"""Symbolic numpy arrays: an ndarray subclass of z3-wrapping scalars."""

import functools
import itertools
import math
import types

import numpy as np
import z3

from symex import core
from symex.core import (SymBool, SymInt, SymReal, Unsupported, arith, bnot,
                        is_num, is_sym, ite, land, lor, mkbool, smax, smin,
                        term, to_bool_term)

_F8 = np.dtype(np.float64)
_I8 = np.dtype(np.int64)
_B1 = np.dtype(bool)
_OB = np.dtype(object)


def unbox(x):
  if isinstance(x, np.ndarray):
    if x.ndim == 0:
      return unbox(x.item())
    return x
  if isinstance(x, float) and not isinstance(x, np.floating):
    return np.float64(x)
  return x


def is_point(x):
  return getattr(x, '_is_sym_point', False)


def deep_sym(x, depth=4):
  """True if x contains symbolic values (through sequences)."""
  if is_sym(x) or isinstance(x, SymArray) or is_point(x):
    return True
  if depth and isinstance(x, (list, tuple)):
    return any(deep_sym(y, depth - 1) for y in x)
  if depth and isinstance(x, dict):
    return any(deep_sym(y, depth - 1) for y in x.values())
  return False


def to_obj(x):
  """Base object ndarray of anything array-like."""
  if isinstance(x, SymArray):
    return x.view(np.ndarray)
  if isinstance(x, np.ndarray):
    return x if x.dtype == object else x.astype(object)
  if is_point(x):
    return x.__array__()
  if isinstance(x, (list, tuple)):
    if not x:
      return np.empty((0,), dtype=object)
    parts = [to_obj(y) for y in x]
    if len({p.shape for p in parts}) > 1:
      raise ValueError(
          'setting an array element with a sequence. The requested array has '
          'an inhomogeneous shape')
    out = np.empty((len(parts),) + parts[0].shape, dtype=object)
    for i, p in enumerate(parts):
      out[i] = p if p.ndim else p.item()
    return out
  if isinstance(x, (range, map, filter, types.GeneratorType)):
    if isinstance(x, range):
      return to_obj(list(x))
  o = np.empty((), dtype=object)
  try:
    if hasattr(x, '__array__') and not isinstance(x, np.generic):
      return np.asarray(x).astype(object)
  except Exception:  # pylint: disable=broad-except
    pass
  o[()] = x
  return o


def infer_ldt(o, default=_F8):
  """Logical dtype from the elements."""
  kinds = set()
  for e in o.flat:
    if isinstance(e, (SymReal, float, np.floating)):
      return _F8
    if isinstance(e, (SymBool, bool, np.bool_)):
      kinds.add('b')
    elif isinstance(e, (SymInt, int, np.integer)):
      kinds.add('i')
    else:
      return _OB
  if not kinds:
    return default
  return _I8 if 'i' in kinds else _B1


def ldt_of(x):
  if isinstance(x, SymArray):
    return x.ldt
  if isinstance(x, np.ndarray):
    return x.dtype if x.dtype != object else infer_ldt(x)
  if isinstance(x, np.generic):
    return x.dtype
  return infer_ldt(to_obj(x))


def mk(x, ldt=None):
  """SymArray from anything."""
  o = to_obj(x)
  if ldt is None:
    ldt = ldt_of(x) if isinstance(x, np.ndarray) else infer_ldt(o)
  return _view(o, ldt)


def _view(o, ldt):
  r = o.view(SymArray)
  r.ldt = np.dtype(ldt)
  return r


def result(o, ldt=None):
  """Array result or unboxed scalar."""
  if not isinstance(o, np.ndarray):
    return unbox(o)
  if o.ndim == 0:
    return unbox(o.item())
  return _view(o, ldt if ldt is not None else infer_ldt(o))


def cast(x, dt):
  """Casts one scalar to a numpy dtype, as numpy assignment does."""
  dt = np.dtype(dt)
  if dt == object:
    return x
  if dt.kind == 'f':
    if isinstance(x, SymReal):
      return x
    if isinstance(x, (SymInt, SymBool)):
      return core.wrap(z3.simplify(term(x, True)))
    if is_num(x):
      return np.float64(dt.type(x)) if dt.itemsize >= 8 else np.float64(
          dt.type(x)) if _round32() else np.float64(x)
    if x is None:
      return np.float64('nan')
    return np.float64(x)
  if dt.kind in 'iu':
    if isinstance(x, SymReal):
      return x.__trunc__()
    if isinstance(x, SymBool):
      return core.as_int(x)
    if isinstance(x, SymInt):
      return x
    if is_num(x):
      return dt.type(x)
    return x
  if dt.kind == 'b':
    if isinstance(x, SymBool):
      return x
    if is_sym(x):
      return mkbool(to_bool_term(x))
    return bool(x)
  return x


def _round32():
  # concrete float32 constants keep their float64 value: reals model floats.
  return False


_cast_ufunc_cache = {}


def cast_arr(o, dt):
  dt = np.dtype(dt)
  if dt == object:
    return o.copy()
  f = _cast_ufunc_cache.get(dt)
  if f is None:
    f = _cast_ufunc_cache[dt] = np.frompyfunc(lambda e: cast(e, dt), 1, 1)
  r = f(o)
  if not isinstance(r, np.ndarray):
    z = np.empty((), dtype=object)
    z[()] = r
    return z
  return r


def norm_index(idx):
  """Replaces symbolic parts of an index by concrete ones (forking)."""
  if isinstance(idx, tuple):
    return tuple(norm_index(i) for i in idx)
  if isinstance(idx, SymArray):
    o = idx.view(np.ndarray)
    if idx.ldt == bool or (idx.size and all(
        isinstance(e, (bool, np.bool_, SymBool)) for e in o.flat)):
      return np.array([bool(e) for e in o.flat], dtype=bool).reshape(o.shape)
    return np.array([int(e) for e in o.flat], dtype=int).reshape(o.shape)
  if isinstance(idx, SymInt):
    return idx.__index__()
  if isinstance(idx, SymBool):
    return bool(idx)
  if isinstance(idx, list):
    if deep_sym(idx):
      return norm_index(mk(idx))
    return idx
  if isinstance(idx, np.ndarray) and idx.dtype == object:
    return norm_index(mk(idx))
  if isinstance(idx, slice):
    return slice(*[i.__index__() if is_sym(i) else i
                   for i in (idx.start, idx.stop, idx.step)])
  if type(idx).__name__ == 'JArr':
    return norm_index(idx.a)
  return idx


def has_sym_mask(idx):
  return (isinstance(idx, SymArray) and idx.ldt == bool and
          any(isinstance(e, SymBool) for e in idx.view(np.ndarray).flat))


CLAMP = [False]  # as jax.numpy does with indices out of bounds


class SymArray(np.ndarray):
  """Object-dtype array with a logical dtype."""

  def __array_finalize__(self, obj):
    self.ldt = getattr(obj, 'ldt', None) or _F8

  @property
  def dtype(self):
    return self.ldt

  @property
  def itemsize(self):
    return self.ldt.itemsize

  def __getitem__(self, idx):
    idx = norm_index(idx)
    if CLAMP[0] and isinstance(idx, np.ndarray) and idx.dtype.kind in 'iu':
      idx = np.clip(idx, -self.shape[0], self.shape[0] - 1)
    r = self.view(np.ndarray)[idx]
    if isinstance(r, np.ndarray):
      return _view(r, self.ldt)
    return unbox(r)

  def __setitem__(self, idx, val):
    base = self.view(np.ndarray)
    dt = self.ldt
    if has_sym_mask(idx) or (isinstance(idx, tuple) and len(idx) == 1
                             and has_sym_mask(idx[0])):
      m = idx if isinstance(idx, SymArray) else idx[0]
      v = to_obj(val)
      if v.ndim == 0 and m.shape == base.shape[:m.ndim]:
        mm = m.view(np.ndarray)
        for k in itertools.product(*[range(n) for n in m.shape]):
          c = mm[k]
          if base.ndim == m.ndim:
            base[k] = ite(c, cast(v.item(), dt), base[k])
          else:
            sub = base[k]
            for kk in itertools.product(*[range(n) for n in sub.shape]):
              sub[kk] = ite(c, cast(v.item(), dt), sub[kk])
        return
    v = cast_arr(to_obj(val), dt)
    i = norm_index(idx)
    if v.ndim == 0:
      v = v.item()
      tgt = base[i]
      if isinstance(tgt, np.ndarray):
        f = np.empty(tgt.shape, dtype=object)
        f.fill(v)
        base[i] = f
      else:
        base[i] = v
    else:
      base[i] = v if isinstance(base[i], np.ndarray) else v.reshape(-1)[0]

  def __iter__(self):
    for i in range(len(self)):
      yield self[i]

  def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
    return array_ufunc(ufunc, method, *inputs, **kwargs)

  def __array_function__(self, func, types_, args, kwargs):
    return call_function(func, args, kwargs)

  def __bool__(self):
    if self.size == 1:
      return bool(self.reshape(-1)[0])
    if self.size == 0:
      return False
    raise ValueError(
        'The truth value of an array with more than one element is ambiguous. '
        'Use a.any() or a.all()')

  def __float__(self):
    if self.size == 1:
      return float(self.reshape(-1)[0])
    raise TypeError('only length-1 arrays can be converted to Python scalars')

  def __int__(self):
    if self.size == 1:
      return int(self.reshape(-1)[0])
    raise TypeError('only length-1 arrays can be converted to Python scalars')

  def __index__(self):
    if self.size == 1 and self.ldt.kind in 'iu':
      return self.reshape(-1)[0].__index__()
    raise TypeError('only integer scalar arrays can be converted to an index')

  def __array__(self, dtype=None):
    if dtype is None:
      return self.view(np.ndarray)
    dt = np.dtype(dtype)
    if dt == object:
      return self.view(np.ndarray)
    if not any(is_sym(e) for e in self.view(np.ndarray).flat):
      return self.view(np.ndarray).astype(dt)
    return np.array([cast(float(e) if is_sym(e) else e, dt)
                     for e in self.view(np.ndarray).flat],
                    dtype=dt).reshape(self.shape)

  def __contains__(self, x):
    return bool(F_any(self == x))

  def __hash__(self):
    raise TypeError("unhashable type: 'numpy.ndarray'")

  def __repr__(self):
    return f'SymArray(shape={self.shape}, {self.ldt})'

  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)

  def __reduce__(self):
    raise Unsupported('pickling a symbolic array')

  def __deepcopy__(self, memo):
    return self.copy()

  def copy(self, order='C'):
    return _view(self.view(np.ndarray).copy(), self.ldt)

  __copy__ = copy

  def item(self, *args):
    if args:
      return unbox(self.view(np.ndarray).item(*args))
    if self.size != 1:
      raise ValueError('can only convert an array of size 1 to a Python scalar')
    return unbox(self.view(np.ndarray).reshape(-1)[0])

  def tolist(self):
    def f(x):
      return [f(y) for y in x] if isinstance(x, np.ndarray) else x
    return f(self.view(np.ndarray))

  def astype(self, dtype, *a, **k):
    return _view(cast_arr(self.view(np.ndarray), np.dtype(dtype)),
                 np.dtype(dtype))

  def fill(self, v):
    self[...] = v

  def tobytes(self, *a, **k):
    return np.asarray(self, dtype=self.ldt).tobytes()


def _method(name, fname=None):
  def f(self, *a, **k):
    return FUNCS[fname or name](self, *a, **k)
  f.__name__ = name
  return f


for _n in ('sum', 'prod', 'mean', 'std', 'var', 'cumsum', 'cumprod', 'min',
           'max', 'all', 'any', 'argmin', 'argmax', 'argsort', 'round', 'clip',
           'dot', 'nonzero', 'take', 'repeat', 'trace', 'diagonal',
           'searchsorted', 'ptp', 'compress', 'swapaxes', 'conj', 'squeeze'):
  setattr(SymArray, _n, _method(_n))


def _sort_inplace(self, axis=-1, kind=None, order=None):
  self[...] = FUNCS['sort'](self, axis=axis)


SymArray.sort = _sort_inplace

# ----------------------------------------------------------------------------
# scalar kernels


def _ar(op):
  def f(a, b):
    if is_sym(a) or is_sym(b):
      if isinstance(a, SymBool):
        if op == 'add' and isinstance(b, (SymBool, bool, np.bool_)):
          return lor(a, b)
        if op == 'mul' and isinstance(b, (SymBool, bool, np.bool_)):
          return land(a, b)
        a = core.as_int(a)
      elif isinstance(b, SymBool):
        if isinstance(a, (bool, np.bool_)):
          if op == 'add':
            return lor(a, b)
          if op == 'mul':
            return land(a, b)
        b = core.as_int(b)
      r = arith(op, a, b)
      if r is NotImplemented:
        raise TypeError(f'unsupported operand types {type(a)} {type(b)}')
      return r
    np_op = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply,
             'truediv': np.true_divide, 'floordiv': np.floor_divide,
             'mod': np.remainder, 'pow': np.power}[op]
    if not (is_num(a) and is_num(b)):
      import operator
      return getattr(operator, op)(a, b)
    with np.errstate(all='ignore'):
      r = np_op(a, b)
    return r
  return f


def _cm(op):
  import operator
  o = getattr(operator, op)
  def f(a, b):
    if is_sym(a) or is_sym(b):
      if isinstance(a, SymBool) and op in ('eq', 'ne'):
        return o(a, b)
      if isinstance(b, SymBool) and op in ('eq', 'ne'):
        return o(b, a)
      if isinstance(a, SymBool):
        a = core.as_int(a)
      if isinstance(b, SymBool):
        b = core.as_int(b)
      r = core.cmp(op, a, b)
      if r is NotImplemented:
        return o(0, 1) if op == 'ne' else False
      return r
    return bool(o(a, b))
  return f


def _u(fsym, fnum):
  def f(a):
    if is_sym(a):
      return fsym(a)
    with np.errstate(all='ignore'):
      return fnum(a)
  return f


def s_sign(a):
  return ite(a > 0, 1.0, ite(a < 0, -1.0, 0.0)) if isinstance(
      a, SymReal) else ite(a > 0, 1, ite(a < 0, -1, 0))


def s_floor(a):
  return core.wrap(z3.simplify(z3.ToReal(z3.ToInt(term(a, True)))))


def s_ceil(a):
  return core.wrap(z3.simplify(z3.ToReal(-z3.ToInt(-term(a, True)))))


def s_trunc(a):
  t = term(a, True)
  return core.wrap(z3.simplify(
      z3.ToReal(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))))


def s_tan(a):
  return core.sin(a) / core.cos(a)


def s_arccos(a):
  c = core.ctx()
  r = core.sqrt(1 - a * a)
  if bool(lor(a > 1, a < -1)):
    return float('nan')
  return core.mk_angle(a, r, 0.0, 'lo')


def s_arcsin(a):
  if bool(lor(a > 1, a < -1)):
    return float('nan')
  return core.mk_angle(core.sqrt(1 - a * a), a, -math.pi, 'hi')


def s_arctan(a):
  return core.arctan2(a, np.float64(1.0)) if not is_num(a) else np.arctan(a)


def s_isnan(a):
  return False if is_sym(a) else bool(np.isnan(a)) if is_num(a) else False


def s_isinf(a):
  return False if is_sym(a) else bool(np.isinf(a))


def s_isfinite(a):
  return True if is_sym(a) else bool(np.isfinite(a))


def s_not(a):
  return bnot(a) if isinstance(a, (SymBool, bool, np.bool_)) else bnot(
      mkbool(to_bool_term(a)) if is_sym(a) else bool(a))


def s_inv(a):
  if isinstance(a, (SymBool, bool, np.bool_)):
    return bnot(a)
  return -a - 1


def _bb(f, g):
  def h(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(
        b, (SymBool, bool, np.bool_)):
      return f(a, b)
    return g(int(a), int(b))
  return h


def s_xor(a, b):
  return mkbool(z3.Xor(to_bool_term(a), to_bool_term(b)))


def s_hypot(a, b):
  return core.sqrt(a * a + b * b)


def s_deg2rad(a):
  if core._has_ang(a):
    return a
  return a * (math.pi / 180.0)


def s_copysign(a, b):
  m = abs(a)
  return ite(b < 0, -m, m)


def s_heaviside(a, b):
  return ite(a > 0, 1.0, ite(a < 0, 0.0, b))


import operator as _op

UF = {
    np.add: _ar('add'), np.subtract: _ar('sub'), np.multiply: _ar('mul'),
    np.true_divide: _ar('truediv'), np.floor_divide: _ar('floordiv'),
    np.remainder: _ar('mod'), np.power: _ar('pow'),
    np.float_power: _ar('pow'),
    np.less: _cm('lt'), np.less_equal: _cm('le'), np.greater: _cm('gt'),
    np.greater_equal: _cm('ge'), np.equal: _cm('eq'), np.not_equal: _cm('ne'),
    np.maximum: smax, np.minimum: smin, np.fmax: smax, np.fmin: smin,
    np.logical_and: lambda a, b: land(a, b) if (is_sym(a) or is_sym(b)) else bool(a) and bool(b),
    np.logical_or: lambda a, b: lor(a, b) if (is_sym(a) or is_sym(b)) else bool(a) or bool(b),
    np.logical_xor: s_xor, np.logical_not: s_not, np.invert: s_inv,
    np.bitwise_and: _bb(lambda a, b: land(a, b), _op.and_),
    np.bitwise_or: _bb(lambda a, b: lor(a, b), _op.or_),
    np.bitwise_xor: _bb(s_xor, _op.xor),
    np.left_shift: lambda a, b: a * 2 ** int(b),
    np.right_shift: lambda a, b: a // 2 ** int(b),
    np.negative: lambda a: -a, np.positive: lambda a: a,
    np.absolute: abs, np.fabs: abs,
    np.sqrt: _u(core.sqrt, np.sqrt), np.square: _u(core.square, np.square),
    np.cbrt: _u(lambda a: core.power(a, 1 / 3), np.cbrt),
    np.exp: _u(core.exp, np.exp), np.log: _u(core.log, np.log),
    np.exp2: _u(lambda a: core.pow_const_base(2.0, a), np.exp2),
    np.expm1: _u(lambda a: core.exp(a) - 1.0, np.expm1),
    np.log1p: _u(lambda a: core.log(a + 1.0), np.log1p),
    np.log2: _u(lambda a: core.log(a) / math.log(2), np.log2),
    np.log10: _u(lambda a: core.log(a) / math.log(10), np.log10),
    np.reciprocal: lambda a: _ar('truediv')(np.float64(1.0), a),
    np.cos: _u(core.cos, np.cos), np.sin: _u(core.sin, np.sin),
    np.tan: _u(s_tan, np.tan), np.arccos: _u(s_arccos, np.arccos),
    np.arcsin: _u(s_arcsin, np.arcsin), np.arctan: _u(s_arctan, np.arctan),
    np.arctan2: core.arctan2, np.hypot: lambda a, b: s_hypot(a, b) if (
        is_sym(a) or is_sym(b)) else np.hypot(a, b),
    np.floor: _u(s_floor, np.floor), np.ceil: _u(s_ceil, np.ceil),
    np.trunc: _u(s_trunc, np.trunc),
    np.rint: _u(lambda a: core.round_half_even(a, 0), np.rint),
    np.sign: _u(s_sign, np.sign), np.isnan: s_isnan, np.isinf: s_isinf,
    np.isfinite: s_isfinite, np.deg2rad: _u(s_deg2rad, np.deg2rad),
    np.radians: _u(s_deg2rad, np.radians),
    np.rad2deg: _u(lambda a: a * (180.0 / math.pi), np.rad2deg),
    np.degrees: _u(lambda a: a * (180.0 / math.pi), np.degrees),
    np.copysign: s_copysign, np.heaviside: s_heaviside,
    np.conjugate: lambda a: a, np.signbit: lambda a: a < 0,
    np.fmod: lambda a, b: a - b * s_trunc(a / b) if (
        is_sym(a) or is_sym(b)) else np.fmod(a, b),
}

_BOOL_UF = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal,
            np.not_equal, np.logical_and, np.logical_or, np.logical_xor,
            np.logical_not, np.isnan, np.isinf, np.isfinite, np.signbit}
_FLOAT_UF = {np.true_divide, np.sqrt, np.exp, np.log, np.cos, np.sin, np.tan,
             np.arctan2, np.arccos, np.arcsin, np.arctan, np.hypot,
             np.log1p, np.expm1, np.log2, np.log10, np.exp2, np.deg2rad,
             np.rad2deg, np.degrees, np.radians, np.cbrt, np.fabs}
_frompy = {}


def _fp(ufunc):
  f = _frompy.get(ufunc)
  if f is None:
    fn = UF[ufunc]
    f = _frompy[ufunc] = np.frompyfunc(fn, ufunc.nin, 1)
  return f


def _out_ldt(ufunc, inputs):
  if ufunc in _BOOL_UF:
    return _B1
  arr = []
  weak = []
  for i in inputs:
    if isinstance(i, SymArray):
      arr.append(i.ldt)
    elif isinstance(i, np.ndarray):
      arr.append(ldt_of(i))
    elif isinstance(i, np.generic):
      weak.append(i.dtype)
    elif is_sym(i):
      weak.append(i.dtype)
    else:
      weak.append(ldt_of(i))
  dt = None
  if arr:
    dt = np.result_type(*arr)
    order = 'biuf'
    for w in weak:
      if w.kind in order and dt.kind in order and order.index(
          w.kind) > order.index(dt.kind):
        dt = np.result_type(dt, _F8 if w.kind == 'f' else _I8)
  elif weak:
    dt = np.result_type(*weak)
  if dt is None or dt == object:
    return None
  if ufunc in _FLOAT_UF and dt.kind != 'f':
    return _F8
  return dt


def array_ufunc(ufunc, method, *inputs, **kw):
  if not core.active():
    raise Unsupported('symbolic value outside a run')
  out = kw.pop('out', None)
  where = kw.pop('where', True)
  dtype = kw.pop('dtype', None)
  kw.pop('casting', None)
  kw.pop('order', None)
  kw.pop('subok', None)
  kw.pop('signature', None)
  if isinstance(out, tuple) and out and out[0] is None:
    out = None
  if ufunc is np.matmul:
    r = F_matmul(*inputs)
  elif method == '__call__':
    if ufunc in (np.divmod,):
      return (np.floor_divide(*inputs), np.remainder(*inputs))
    if ufunc is np.modf:
      t = np.trunc(inputs[0])
      return inputs[0] - t, t
    if ufunc not in UF:
      return _concretise_call(ufunc, inputs, {})
    arrs = [to_obj(i) for i in inputs]
    ldt = _out_ldt(ufunc, inputs)
    if all(a.ndim == 0 for a in arrs):
      rr = UF[ufunc](*[unbox(a.item()) for a in arrs])
      r = unbox(rr)
      if dtype is not None:
        r = cast(r, dtype)
      if where is not True:
        w = to_obj(where)
        base = to_obj(out[0]) if out is not None else to_obj(0.0)
        r = mk(to_obj(r)) if w.ndim else ite(unbox(w.item()), r,
                                             unbox(base.item()))
    else:
      if where is not True:
        w = np.broadcast_to(
            to_obj(where), np.broadcast_shapes(
                to_obj(where).shape, *[a.shape for a in arrs]))
        arrs = [np.broadcast_to(a, w.shape) for a in arrs]
        o = to_obj(out[0]).copy() if out is not None else np.full(
            w.shape, np.float64(0.0), dtype=object)
        for k in itertools.product(*[range(n) for n in w.shape]):
          if isinstance(w[k], SymBool):
            if bool(w[k]):
              o[k] = UF[ufunc](*[a[k] for a in arrs])
          elif w[k]:
            o[k] = UF[ufunc](*[a[k] for a in arrs])
        r = _view(o, ldt or infer_ldt(o))
      else:
        o = _fp(ufunc)(*arrs)
        r = result(o, ldt)
      if dtype is not None and isinstance(r, SymArray):
        r = r.astype(dtype)
  elif method == 'reduce':
    x = inputs[0]
    axis = kw.get('axis', 0)
    keep = kw.get('keepdims', False)
    if ufunc is np.add:
      r = F_sum(x, axis=axis, keepdims=keep)
    elif ufunc is np.logical_and:
      r = F_all(x, axis=axis, keepdims=keep)
    elif ufunc is np.logical_or:
      r = F_any(x, axis=axis, keepdims=keep)
    else:
      r = _reduce(x, UF[ufunc], axis, keep, kw.get('initial', _NOINIT))
  elif method == 'accumulate':
    r = _accumulate(inputs[0], UF[ufunc], kw.get('axis', 0))
  elif method == 'outer':
    a, b = [to_obj(i) for i in inputs]
    r = array_ufunc(ufunc, '__call__',
                    mk(a.reshape(a.shape + (1,) * b.ndim)), mk(b))
  elif method == 'at':
    a, idx, b = inputs
    idx = norm_index(idx)
    ia = np.arange(a.size).reshape(a.shape)[idx].reshape(-1)
    bb = np.broadcast_to(to_obj(b), np.shape(
        np.arange(a.size).reshape(a.shape)[idx])).reshape(-1)
    flat = a.view(np.ndarray).reshape(-1)
    for i, v in zip(ia, bb):
      flat[i] = UF[ufunc](flat[i], v)
    return None
  else:
    raise Unsupported(f'ufunc method {method}')
  if out is not None:
    tgt = out[0] if isinstance(out, tuple) else out
    tgt[...] = r
    return tgt
  return r


_NOINIT = object()


def _axes(axis, ndim):
  if axis is None:
    return tuple(range(ndim))
  if isinstance(axis, (int, np.integer, SymInt)):
    axis = (int(axis),)
  res = []
  for a in axis:
    a = int(a)
    if a < -ndim or a >= ndim:
      raise np.AxisError(a, ndim)
    res.append(a % ndim)
  return tuple(res)


def _reduce(x, fn, axis=None, keepdims=False, initial=_NOINIT, empty=None,
            ldt=None):
  o = to_obj(x)
  if o.ndim == 0:
    o = o.reshape(1)
    axis = (0,)
    scalar = True
  axes = _axes(axis, o.ndim)
  rest = [i for i in range(o.ndim) if i not in axes]
  shp = [o.shape[i] for i in rest]
  t = np.transpose(o, rest + list(axes)).reshape(
      tuple(shp) + (int(np.prod([o.shape[i] for i in axes], dtype=int)),))
  res = np.empty(tuple(shp), dtype=object)
  for k in itertools.product(*[range(n) for n in shp]):
    row = list(t[k])
    if initial is not _NOINIT and initial is not None and initial is not np._NoValue:
      row = [initial] + row
    if not row:
      if empty is None:
        raise ValueError(
            'zero-size array to reduction operation which has no identity')
      res[k] = empty
    else:
      res[k] = functools.reduce(fn, row)
  if keepdims and keepdims is not np._NoValue:
    res = res.reshape([1 if i in axes else o.shape[i] for i in range(o.ndim)])
  return result(res, ldt)


def _accumulate(x, fn, axis=0):
  o = to_obj(x)
  if axis is None:
    o = o.reshape(-1)
    axis = 0
  m = np.moveaxis(o, axis, 0)
  r = np.empty(m.shape, dtype=object)
  for i in range(m.shape[0]):
    if i == 0:
      r[i] = m[i]
    else:
      v = np.frompyfunc(fn, 2, 1)(r[i - 1], m[i])
      r[i] = v
  return result(np.moveaxis(r, 0, axis))


# ----------------------------------------------------------------------------
# numpy functions

FUNCS = {}


def reg(*names):
  def d(f):
    for n in names:
      FUNCS[n] = f
    return f
  return d


def _kd(k):
  return bool(k) and k is not np._NoValue


@reg('sum', 'nansum')
def F_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=_NOINIT,
          where=True):
  if isinstance(a, (types.GeneratorType, map)):
    a = list(a)
  o = to_obj(a)
  if where is not True:
    o = to_obj(F_where(where, a, 0.0))
  f = np.frompyfunc(lambda e: core.as_int(e) if isinstance(e, SymBool) else (
      int(e) if isinstance(e, (bool, np.bool_)) else e), 1, 1)
  o = to_obj(f(o))
  ldt = ldt_of(a)
  if ldt == bool:
    ldt = _I8
  r = _reduce(o, UF[np.add], axis, keepdims, initial,
              empty=np.float64(0.0) if ldt.kind == 'f' else 0, ldt=ldt)
  return _put(out, r)


def _put(out, r):
  if out is not None:
    if isinstance(out, tuple):
      out = out[0]
    out[...] = r
    return out
  return r


@reg('prod', 'product')
def F_prod(a, axis=None, dtype=None, out=None, keepdims=False,
           initial=_NOINIT, where=True):
  return _put(out, _reduce(a, UF[np.multiply], axis, keepdims, initial,
                           empty=np.float64(1.0)))


def _count(o, axis):
  return int(np.prod([o.shape[i] for i in _axes(axis, o.ndim)], dtype=int))


@reg('mean', 'nanmean')
def F_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
  o = to_obj(a)
  if where is not True:
    return F_sum(F_where(where, a, 0.0), axis, keepdims=keepdims) / F_sum(
        np.broadcast_to(where, o.shape), axis, keepdims=keepdims)
  n = _count(o, axis) if o.ndim else 1
  if n == 0:
    return np.float64('nan')
  s = F_sum(a, axis, keepdims=keepdims)
  return _put(out, s / np.float64(n) if not isinstance(s, SymInt) else
              s / np.float64(n))


@reg('average')
def F_average(a, axis=None, weights=None, returned=False, keepdims=False):
  if weights is None:
    return F_mean(a, axis, keepdims=keepdims)
  w = mk(weights)
  a = mk(a)
  if w.ndim == 1 and a.ndim > 1 and axis is not None:
    shp = [1] * a.ndim
    shp[axis] = -1
    w = w.reshape(shp)
  w = mk(np.broadcast_to(to_obj(w), a.shape))
  return F_sum(a * w, axis, keepdims=keepdims) / F_sum(w, axis,
                                                       keepdims=keepdims)


@reg('var', 'nanvar')
def F_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
  a = mk(a)
  m = F_mean(a, axis, keepdims=True) if axis is not None else F_mean(a)
  d = a - m
  n = _count(to_obj(a), axis) - ddof
  return F_sum(d * d, axis, keepdims=keepdims) / np.float64(n)


@reg('std', 'nanstd')
def F_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
  return F_map(core.sqrt, F_var(a, axis, ddof=ddof, keepdims=keepdims))


def F_map(f, x):
  if not isinstance(x, np.ndarray):
    return unbox(f(x))
  return result(np.frompyfunc(f, 1, 1)(to_obj(x)))


@reg('all', 'alltrue')
def F_all(a, axis=None, out=None, keepdims=False, where=True):
  o = to_obj(a)
  def fold(x, y):
    if x is False or y is False:
      return False
    return land(x, y)
  o = np.frompyfunc(_asb, 1, 1)(o)
  return _put(out, _reduce(to_obj(o), fold, axis, keepdims, empty=True,
                           ldt=_B1))


@reg('any', 'sometrue')
def F_any(a, axis=None, out=None, keepdims=False, where=True):
  o = to_obj(a)
  def fold(x, y):
    if x is True or y is True:
      return True
    return lor(x, y)
  o = np.frompyfunc(_asb, 1, 1)(o)
  return _put(out, _reduce(to_obj(o), fold, axis, keepdims, empty=False,
                           ldt=_B1))


def _asb(e):
  if isinstance(e, SymBool):
    return e
  if is_sym(e):
    return mkbool(to_bool_term(e))
  return bool(e)


@reg('count_nonzero')
def F_count_nonzero(a, axis=None, keepdims=False):
  o = to_obj(a)
  return F_sum(mk(to_obj(np.frompyfunc(_asb, 1, 1)(o)), _B1), axis,
               keepdims=keepdims)


@reg('min', 'amin', 'nanmin')
def F_min(a, axis=None, out=None, keepdims=False, initial=_NOINIT, where=True):
  return _put(out, _reduce(a, smin, axis, keepdims, initial, ldt=ldt_of(a)))


@reg('max', 'amax', 'nanmax')
def F_max(a, axis=None, out=None, keepdims=False, initial=_NOINIT, where=True):
  return _put(out, _reduce(a, smax, axis, keepdims, initial, ldt=ldt_of(a)))


@reg('ptp')
def F_ptp(a, axis=None, **k):
  return F_max(a, axis) - F_min(a, axis)


def _arg(a, axis, better, keepdims=False):
  o = to_obj(a)
  if axis is None:
    o = o.reshape(-1)
    axis = 0
  axis = _axes(axis, o.ndim)[0]
  if o.shape[axis] == 0:
    raise ValueError('attempt to get argmin of an empty sequence')
  m = np.moveaxis(o, axis, -1)
  res = np.empty(m.shape[:-1], dtype=object)
  for k in itertools.product(*[range(n) for n in m.shape[:-1]]):
    row = m[k]
    bi, bv = 0, row[0]
    for i in range(1, len(row)):
      c = better(row[i], bv)
      if isinstance(c, SymBool):
        bi = ite(c, i, bi)
        bv = ite(c, row[i], bv) if not _lazy(row[i], bv) else _lz(c, row[i],
                                                                  bv)
      elif c:
        bi, bv = i, row[i]
    res[k] = bi
  if _kd(keepdims):
    res = np.expand_dims(res, axis)
  return result(res, _I8)


def _lazy(a, b):
  return (isinstance(a, SymReal) and a.sq is not None and
          isinstance(b, SymReal) and b.sq is not None)


def _lz(c, a, b):
  return SymReal(None, sq=z3.If(c.t, a.sq, b.sq))


@reg('argmin', 'nanargmin')
def F_argmin(a, axis=None, out=None, keepdims=False):
  return _arg(a, axis, UF[np.less], keepdims)


@reg('argmax', 'nanargmax')
def F_argmax(a, axis=None, out=None, keepdims=False):
  return _arg(a, axis, UF[np.greater], keepdims)


def order_of(row):
  """Stable ascending order of a row of scalars (forks on comparisons)."""
  idx = []
  for i, v in enumerate(row):
    j = len(idx)
    while j > 0 and bool(UF[np.less](v, row[idx[j - 1]])):
      j -= 1
    idx.insert(j, i)
  return idx


@reg('argsort')
def F_argsort(a, axis=-1, kind=None, order=None):
  o = to_obj(a)
  if axis is None:
    o = o.reshape(-1)
    axis = -1
  m = np.moveaxis(o, axis, -1)
  res = np.empty(m.shape, dtype=int)
  for k in itertools.product(*[range(n) for n in m.shape[:-1]]):
    res[k] = order_of(list(m[k]))
  return np.moveaxis(res, -1, axis)


@reg('sort')
def F_sort(a, axis=-1, kind=None, order=None):
  o = to_obj(a)
  if axis is None:
    o = o.reshape(-1)
    axis = -1
  i = F_argsort(mk(o), axis)
  return _view(np.take_along_axis(o, i, axis), ldt_of(a))


@reg('argpartition')
def F_argpartition(a, kth, axis=-1, **k):
  return F_argsort(a, axis)


@reg('partition')
def F_partition(a, kth, axis=-1, **k):
  return F_sort(a, axis)


@reg('lexsort')
def F_lexsort(keys, axis=-1):
  keys = [to_obj(k) for k in keys]
  n = keys[0].shape[-1]
  idx = list(range(n))
  for k in keys:
    row = [k[i] for i in idx]
    idx = [idx[j] for j in order_of(row)]
  return np.array(idx)


@reg('unique')
def F_unique(a, return_index=False, return_inverse=False, return_counts=False,
             axis=None, **kw):
  o = to_obj(a)
  if axis is not None:
    rows = [o[i] for i in range(o.shape[0])]
    def lt(x, y):
      for p, q in zip(x.flat, y.flat):
        if bool(UF[np.less](p, q)):
          return True
        if bool(UF[np.less](q, p)):
          return False
      return False
  else:
    rows = list(o.reshape(-1))
    lt = lambda x, y: bool(UF[np.less](x, y))
  idx = []
  for i, v in enumerate(rows):
    j = len(idx)
    while j > 0 and lt(v, rows[idx[j - 1]]):
      j -= 1
    idx.insert(j, i)
  groups = []
  for i in idx:
    if groups and not lt(rows[groups[-1][0]], rows[i]):
      groups[-1].append(i)
    else:
      groups.append([i])
  first = [g[0] for g in groups]
  vals = _view(to_obj([rows[i] for i in first]) if groups else
               np.empty((0,), dtype=object), ldt_of(a))
  out = [vals]
  if return_index:
    out.append(np.array([min(g) for g in groups], dtype=int))
  if return_inverse:
    inv = np.empty(len(rows), dtype=int)
    for gi, g in enumerate(groups):
      for i in g:
        inv[i] = gi
    out.append(inv)
  if return_counts:
    out.append(np.array([len(g) for g in groups], dtype=int))
  return out[0] if len(out) == 1 else tuple(out)


@reg('where')
def F_where(cond, x=None, y=None):
  if x is None and y is None:
    return F_nonzero(cond)
  c, a, b = np.broadcast_arrays(to_obj(cond), to_obj(x), to_obj(y))
  res = np.empty(c.shape, dtype=object)
  for k in itertools.product(*[range(n) for n in c.shape]):
    res[k] = ite(_asb(c[k]), unbox(a[k]), unbox(b[k]))
  lx, ly = ldt_of(x), ldt_of(y)
  try:
    ldt = np.result_type(lx, ly)
  except TypeError:
    ldt = _OB
  return result(res, ldt)


@reg('select')
def F_select(condlist, choicelist, default=0):
  r = mk(default)
  for c, v in reversed(list(zip(condlist, choicelist))):
    r = F_where(c, v, r)
  return r


@reg('nonzero')
def F_nonzero(a):
  o = to_obj(a)
  m = np.array([bool(_asb(e)) for e in o.flat], dtype=bool).reshape(o.shape)
  return np.nonzero(m)


@reg('flatnonzero')
def F_flatnonzero(a):
  return F_nonzero(mk(to_obj(a).reshape(-1)))[0]


@reg('argwhere')
def F_argwhere(a):
  return np.stack(F_nonzero(a), axis=-1)


@reg('clip')
def F_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
  a_min = min if a_min is None else a_min
  a_max = max if a_max is None else a_max
  r = a if isinstance(a, (SymArray,)) or is_sym(a) else mk(a)
  if isinstance(r, SymArray) and r.ndim == 0:
    r = r.item()
  if a_min is not None:
    r = array_ufunc(np.maximum, '__call__', r, a_min)
  if a_max is not None:
    r = array_ufunc(np.minimum, '__call__', r, a_max)
  return _put(out, r)


@reg('isclose')
def F_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  def f(x, y):
    if core.nonfinite(x) or core.nonfinite(y):
      return UF[np.equal](x, y)
    return abs(UF[np.subtract](x, y)) <= atol + rtol * abs(y)
  r = np.frompyfunc(f, 2, 1)(to_obj(a), to_obj(b))
  return result(r if isinstance(r, np.ndarray) else r, _B1)


@reg('allclose')
def F_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
  return F_all(F_isclose(a, b, rtol, atol))


@reg('array_equal', 'array_equiv')
def F_array_equal(a, b, equal_nan=False):
  x, y = to_obj(a), to_obj(b)
  if x.shape != y.shape:
    return False
  return F_all(mk(np.frompyfunc(UF[np.equal], 2, 1)(x, y)))


@reg('nan_to_num')
def F_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
  def f(e):
    if is_sym(e):
      return e
    return np.nan_to_num(e, nan=nan, posinf=posinf, neginf=neginf)
  return F_map(f, mk(x) if not is_sym(x) else x)


@reg('round', 'around', 'round_')
def F_round(a, decimals=0, out=None):
  if is_sym(a):
    return core.round_half_even(a, decimals)
  return _put(out, F_map(lambda e: core.round_half_even(e, decimals), mk(a)))


@reg('fix')
def F_fix(a):
  return F_map(UF[np.trunc], mk(a))


@reg('cumsum')
def F_cumsum(a, axis=None, dtype=None, out=None):
  return _put(out, _accumulate(a, UF[np.add], axis))


@reg('cumprod')
def F_cumprod(a, axis=None, dtype=None, out=None):
  return _put(out, _accumulate(a, UF[np.multiply], axis))


def _mm(a, b):
  """Object matmul that keeps numpy's shape rules."""
  return np.matmul(a, b)


@reg('matmul')
def F_matmul(a, b, out=None, **kw):
  x, y = to_obj(a), to_obj(b)
  if x.ndim == 0 or y.ndim == 0:
    raise ValueError('matmul: Input operand does not have enough dimensions')
  r = _dotlike(x, y)
  return _put(out, result(r))


def _dotlike(x, y):
  xs, ys = x, y
  sx = sy = False
  if x.ndim == 1:
    xs = x[None, :]
    sx = True
  if y.ndim == 1:
    ys = y[:, None]
    sy = True
  if xs.shape[-1] != ys.shape[-2]:
    raise ValueError(
        'matmul: Input operand 1 has a mismatch in its core dimension')
  batch = np.broadcast_shapes(xs.shape[:-2], ys.shape[:-2])
  xs = np.broadcast_to(xs, batch + xs.shape[-2:])
  ys = np.broadcast_to(ys, batch + ys.shape[-2:])
  r = np.empty(batch + (xs.shape[-2], ys.shape[-1]), dtype=object)
  mul, add = UF[np.multiply], UF[np.add]
  for k in itertools.product(*[range(n) for n in batch]):
    for i in range(xs.shape[-2]):
      for j in range(ys.shape[-1]):
        acc = None
        for l in range(xs.shape[-1]):
          p = mul(xs[k + (i, l)], ys[k + (l, j)])
          acc = p if acc is None else add(acc, p)
        r[k + (i, j)] = np.float64(0.0) if acc is None else acc
  if sx:
    r = r[..., 0, :]
  if sy:
    r = r[..., 0]
  return r


@reg('dot')
def F_dot(a, b, out=None):
  x, y = to_obj(a), to_obj(b)
  if x.ndim == 0 or y.ndim == 0:
    return array_ufunc(np.multiply, '__call__', a, b)
  if y.ndim <= 2 and x.ndim <= 2:
    return F_matmul(a, b)
  return result(np.dot(x, y))


@reg('inner')
def F_inner(a, b):
  x, y = to_obj(a), to_obj(b)
  if x.ndim == 0 or y.ndim == 0:
    return array_ufunc(np.multiply, '__call__', a, b)
  return F_matmul(mk(x), mk(np.swapaxes(y, -1, -2) if y.ndim > 1 else y))


@reg('vdot')
def F_vdot(a, b):
  return F_dot(mk(to_obj(a).reshape(-1)), mk(to_obj(b).reshape(-1)))


@reg('outer')
def F_outer(a, b, out=None):
  x, y = to_obj(a).reshape(-1), to_obj(b).reshape(-1)
  return array_ufunc(np.multiply, '__call__', mk(x[:, None]), mk(y[None, :]))


@reg('einsum')
def F_einsum(sub, *ops, **kw):
  ops = [to_obj(o) for o in ops]
  ins, _, outs = sub.replace(' ', '').partition('->')
  ins = ins.split(',')
  if '...' in sub:
    raise Unsupported('einsum ellipsis')
  if not outs and '->' not in sub:
    letters = sorted(set(''.join(ins)))
    outs = ''.join(l for l in letters if ''.join(ins).count(l) == 1)
  dims = {}
  for s, o in zip(ins, ops):
    for l, n in zip(s, o.shape):
      dims[l] = n
  inner = [l for l in dims if l not in outs]
  r = np.empty([dims[l] for l in outs], dtype=object)
  for k in itertools.product(*[range(dims[l]) for l in outs]):
    env = dict(zip(outs, k))
    acc = None
    for kk in itertools.product(*[range(dims[l]) for l in inner]):
      env.update(zip(inner, kk))
      p = None
      for s, o in zip(ins, ops):
        v = o[tuple(env[l] for l in s)]
        p = v if p is None else UF[np.multiply](p, v)
      acc = p if acc is None else UF[np.add](acc, p)
    r[k] = np.float64(0.0) if acc is None else acc
  return result(r)


@reg('tensordot')
def F_tensordot(a, b, axes=2):
  x, y = to_obj(a), to_obj(b)
  if isinstance(axes, int):
    ax, ay = list(range(x.ndim - axes, x.ndim)), list(range(axes))
  else:
    ax, ay = axes
    ax = [ax] if isinstance(ax, int) else list(ax)
    ay = [ay] if isinstance(ay, int) else list(ay)
  ax = [i % x.ndim for i in ax]
  ay = [i % y.ndim for i in ay]
  rx = [i for i in range(x.ndim) if i not in ax]
  ry = [i for i in range(y.ndim) if i not in ay]
  n = int(np.prod([x.shape[i] for i in ax], dtype=int))
  xm = np.transpose(x, rx + ax).reshape(-1, n)
  ym = np.transpose(y, ay + ry).reshape(n, -1)
  r = _dotlike(xm, ym)
  return result(r.reshape([x.shape[i] for i in rx] + [y.shape[i] for i in ry]))


@reg('cross')
def F_cross(a, b, **kw):
  a, b = mk(a), mk(b)
  if a.shape[-1] == 2 and b.shape[-1] == 2:
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
  raise Unsupported('3-d cross product')


@reg('diff')
def F_diff(a, n=1, axis=-1, **kw):
  a = mk(a)
  m = np.moveaxis(to_obj(a), axis, 0)
  for _ in range(n):
    m = to_obj(mk(m[1:]) - mk(m[:-1]))
  return result(np.moveaxis(m, 0, axis))


@reg('linspace')
def F_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
               axis=0):
  num = int(num)
  div = num - 1 if endpoint else num
  step = (stop - start) / np.float64(div) if div > 0 else np.float64('nan')
  vals = [start + step * np.float64(i) if i else start for i in range(num)]
  if endpoint and num > 1:
    vals[-1] = stop
  r = mk([v + np.float64(0.0) for v in vals], _F8)
  return (r, step) if retstep else r


@reg('arange')
def F_arange(start, stop=None, step=None, dtype=None, like=None):
  if stop is None:
    start, stop = 0, start
  step = 1 if step is None else step
  n = core.mod  # noqa
  cnt = (stop - start) / step
  import math as _m
  k = _m.ceil(cnt)
  k = max(int(k), 0)
  return mk([start + step * i for i in range(k)] or np.empty((0,), object))


@reg('interp')
def F_interp(x, xp, fp, left=None, right=None, period=None):
  xp, fp = mk(xp), mk(fp)
  def one(v):
    if bool(v <= xp[0]):
      return fp[0] if left is None or bool(v == xp[0]) else left
    for i in range(1, len(xp)):
      if bool(v <= xp[i]):
        return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (
            xp[i] - xp[i - 1])
    return fp[len(fp) - 1] if right is None else right
  return F_map(one, mk(x) if not is_sym(x) else x)


@reg('histogram2d')
def F_histogram2d(x, y, bins=10, range=None, density=None, weights=None):
  if density or weights is not None or range is None:
    raise core.Unsupported('histogram2d')
  nx, ny = (bins, bins) if np.ndim(bins) == 0 else bins
  if np.ndim(nx):
    raise core.Unsupported('histogram2d with given edges')
  (x0, x1), (y0, y1) = range
  def edges(a, b, n):
    return [a + (b - a) * (i / np.float64(n)) for i in np.arange(n + 1)]
  def inside(v, e, i):
    lo = v >= e[i]
    hi = v <= e[i + 1] if i == len(e) - 2 else v < e[i + 1]
    return core.land(lo, hi)
  ex, ey = edges(x0, x1, int(nx)), edges(y0, y1, int(ny))
  xs, ys = list(to_obj(x).reshape(-1)), list(to_obj(y).reshape(-1))
  o = np.empty((int(nx), int(ny)), dtype=object)
  for i, j in np.ndindex(*o.shape):
    n = np.float64(0)
    for a, b in zip(xs, ys):
      n = n + ite(core.land(inside(a, ex, i), inside(b, ey, j)),
                         np.float64(1), np.float64(0))
    o[i, j] = n
  return mk(o, _F8), mk(ex, _F8), mk(ey, _F8)


@reg('searchsorted')
def F_searchsorted(a, v, side='left', sorter=None):
  row = list(to_obj(a).reshape(-1))
  cmpf = UF[np.less] if side == 'left' else UF[np.less_equal]
  def one(e):
    s = 0
    for x in row:
      c = cmpf(x, e)
      s = s + (core.as_int(c) if isinstance(c, SymBool) else int(c))
    return s
  vv = to_obj(v)
  if vv.ndim == 0:
    return one(unbox(vv.item()))
  return result(np.frompyfunc(one, 1, 1)(vv), _I8)


@reg('digitize')
def F_digitize(x, bins, right=False):
  return F_searchsorted(bins, x, side='left' if right else 'right')


@reg('isin', 'in1d')
def F_isin(a, test, assume_unique=False, invert=False, **kw):
  ts = list(to_obj(test).reshape(-1))
  def one(e):
    r = False
    for t in ts:
      c = UF[np.equal](e, t)
      r = lor(r, c)
    return bnot(r) if invert else r
  return result(np.frompyfunc(one, 1, 1)(to_obj(a)), _B1)


@reg('median')
def F_median(a, axis=None, **kw):
  o = to_obj(F_sort(a, axis))
  o = np.moveaxis(o, axis if axis is not None else 0, 0)
  n = o.shape[0]
  if n % 2:
    return result(o[n // 2])
  return (result(o[n // 2 - 1]) + result(o[n // 2])) / 2.0


@reg('percentile')
def F_percentile(a, q, axis=None, **kw):
  return F_quantile(a, q / 100.0, axis)


@reg('quantile')
def F_quantile(a, q, axis=None, **kw):
  if axis is not None or not is_num(q):
    raise Unsupported('quantile')
  s = F_sort(a, None)
  pos = q * (len(s) - 1)
  lo = int(math.floor(pos))
  hi = min(lo + 1, len(s) - 1)
  return s[lo] + (s[hi] - s[lo]) * (pos - lo)


@reg('bincount')
def F_bincount(x, weights=None, minlength=0):
  idx = [int(e) for e in to_obj(x)]
  n = max([i + 1 for i in idx] + [minlength])
  r = [0] * n
  for j, i in enumerate(idx):
    r[i] = r[i] + (1 if weights is None else weights[j])
  return mk(r)


@reg('cov')
def F_cov(*a, **k):
  raise Unsupported('np.cov')


@reg('apply_along_axis')
def F_apply_along_axis(f, axis, a, *args, **kw):
  o = np.moveaxis(to_obj(a), axis, -1)
  rows = {}
  for k in itertools.product(*[range(n) for n in o.shape[:-1]]):
    rows[k] = to_obj(f(mk(o[k]), *args, **kw))
  shp = next(iter(rows.values())).shape
  r = np.empty(o.shape[:-1] + shp, dtype=object)
  for k, v in rows.items():
    r[k] = v if v.ndim else v.item()
  if len(shp) == 1:
    r = np.moveaxis(r, -1, axis)
  return result(r)


@reg('vectorize')
def F_vectorize(f, *a, **k):
  def g(*xs):
    arrs = np.broadcast_arrays(*[to_obj(x) for x in xs])
    return result(np.frompyfunc(lambda *e: f(*[unbox(i) for i in e]),
                                len(xs), 1)(*arrs))
  return g


# creation -------------------------------------------------------------------


def _np_shape(shape):
  if isinstance(shape, (int, np.integer, SymInt)):
    return (int(shape),)
  return tuple(int(s) for s in shape)


def _dt(dtype, default=_F8):
  return np.dtype(dtype) if dtype is not None else default


def _filled(shape, v, dt):
  o = np.empty(_np_shape(shape), dtype=object)
  o.fill(cast(v, dt))
  return _view(o, dt)


@reg('zeros')
def F_zeros(shape, dtype=None, order='C', **kw):
  return _filled(shape, 0, _dt(dtype))


@reg('empty')
def F_empty(shape, dtype=None, order='C', **kw):
  return _filled(shape, 0, _dt(dtype))


@reg('ones')
def F_ones(shape, dtype=None, order='C', **kw):
  return _filled(shape, 1, _dt(dtype))


@reg('full')
def F_full(shape, fill_value, dtype=None, order='C', **kw):
  v = to_obj(fill_value)
  dt = _dt(dtype, ldt_of(fill_value))
  o = np.empty(_np_shape(shape), dtype=object)
  o[...] = cast_arr(v, dt) if v.ndim else cast(v.item(), dt)
  return _view(o, dt)


def _like(f):
  def g(a, *args, **kw):
    kw.pop('subok', None)
    kw.pop('order', None)
    shape = kw.pop('shape', None)
    dt = kw.pop('dtype', None)
    if f is F_full:
      v = args[0]
      if len(args) > 1:
        dt = args[1]
      return f(np.shape(a) if shape is None else shape, v,
               dtype=dt or ldt_of(a))
    if args:
      dt = args[0]
    return f(np.shape(a) if shape is None else shape, dtype=dt or ldt_of(a))
  return g


FUNCS['zeros_like'] = _like(F_zeros)
FUNCS['empty_like'] = _like(F_empty)
FUNCS['ones_like'] = _like(F_ones)
FUNCS['full_like'] = _like(F_full)


@reg('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray',
     'require')
def F_array(x, dtype=None, copy=None, **kw):
  if isinstance(x, SymArray) and dtype is None and not copy:
    return x
  if isinstance(x, SymArray) and dtype is not None and not copy and np.dtype(
      dtype) == x.ldt:
    return x
  if isinstance(x, (map, filter, types.GeneratorType)):
    pass
  o = to_obj(x)
  if isinstance(x, np.ndarray):
    o = o.copy()
  ldt = ldt_of(x) if isinstance(x, np.ndarray) else _list_ldt(x, o)
  if dtype is not None:
    return _view(cast_arr(o, np.dtype(dtype)), np.dtype(dtype))
  if o.dtype == object and ldt.kind == 'f':
    o = cast_arr(o, ldt)
  nd = kw.get('ndmin', 0)
  while o.ndim < nd:
    o = o[None]
  return _view(o, ldt)


@reg('array')
def F_array_copy(x, dtype=None, copy=True, **kw):
  return F_array(x, dtype, copy=True if copy is None else copy, **kw)


def _list_ldt(x, o):
  if isinstance(x, (list, tuple)) and x and all(
      isinstance(y, SymArray) for y in x):
    return np.result_type(*[y.ldt for y in x])
  return infer_ldt(o)


@reg('copy')
def F_copy(a, *args, **k):
  return F_array(a, copy=True) if isinstance(a, SymArray) else mk(
      to_obj(a).copy())


@reg('eye', 'identity')
def F_eye(*a, **k):
  return mk(np.eye(*a, **k))


@reg('diag')
def F_diag(v, k=0):
  o = to_obj(v)
  if o.ndim == 2:
    return _view(np.diagonal(o, k).copy(), ldt_of(v))
  n = len(o) + abs(k)
  r = np.empty((n, n), dtype=object)
  r.fill(np.float64(0.0) if ldt_of(v).kind == 'f' else 0)
  for i in range(len(o)):
    r[(i, i + k) if k >= 0 else (i - k, i)] = o[i]
  return _view(r, ldt_of(v))


@reg('fill_diagonal')
def F_fill_diagonal(a, val, wrap=False):
  v = to_obj(val)
  for i in range(min(a.shape)):
    a[(i,) * a.ndim] = v.item() if v.ndim == 0 else v[i % len(v)]


@reg('trace')
def F_trace(a, *args, **k):
  return F_sum(F_diag(a))


@reg('meshgrid')
def F_meshgrid(*xs, **kw):
  rs = np.meshgrid(*[to_obj(x) for x in xs], **kw)
  return [_view(r, ldt_of(x)) for r, x in zip(rs, xs)]


@reg('broadcast_arrays')
def F_broadcast_arrays(*xs, **kw):
  rs = np.broadcast_arrays(*[to_obj(x) for x in xs])
  return [_view(r, ldt_of(x)) for r, x in zip(rs, xs)]


@reg('shape')
def F_shape(a):
  return to_obj(a).shape


@reg('ndim')
def F_ndim(a):
  return to_obj(a).ndim


@reg('size')
def F_size(a, axis=None):
  return to_obj(a).size if axis is None else to_obj(a).shape[axis]


def _structural(name):
  """Pure data movement: run numpy on the object array."""
  real = getattr(np, name)

  def f(a, *args, **kw):
    args = [norm_index(x) if isinstance(x, (SymArray, SymInt)) else x
            for x in args]
    kw = {k: (norm_index(v) if isinstance(v, (SymArray, SymInt)) else v)
          for k, v in kw.items() if not (k == 'out' and v is None)}
    r = real(to_obj(a), *args, **kw)
    if isinstance(r, (list, tuple)):
      return type(r)(_view(x, ldt_of(a)) for x in r)
    return result(r, ldt_of(a)) if isinstance(r, np.ndarray) else unbox(r)
  FUNCS[name] = f


for _n in ('reshape', 'transpose', 'ravel', 'squeeze', 'expand_dims',
           'swapaxes', 'moveaxis', 'rollaxis', 'flip', 'fliplr', 'flipud',
           'roll', 'rot90', 'tile', 'repeat', 'take', 'delete', 'split',
           'array_split', 'hsplit', 'vsplit', 'broadcast_to', 'diagonal',
           'triu', 'tril', 'resize', 'atleast_1d', 'atleast_2d', 'atleast_3d',
           'compress', 'take_along_axis', 'trim_zeros'):
  _structural(_n)


@reg('conj', 'conjugate', 'real')
def F_conj(a):
  return a


def _joiner(name):
  real = getattr(np, name)

  def f(seq, *args, **kw):
    if not isinstance(seq, (list, tuple, np.ndarray)):
      seq = list(seq)
    parts = [to_obj(x) for x in seq]
    kw.pop('out', None)
    dt = kw.pop('dtype', None)
    kw.pop('casting', None)
    r = real(parts, *args, **kw)
    try:
      ldt = np.result_type(*[ldt_of(x) for x in seq])
    except TypeError:
      ldt = None
    r = result(r, ldt)
    return r.astype(dt) if dt is not None else r
  FUNCS[name] = f


for _n in ('concatenate', 'stack', 'vstack', 'hstack', 'dstack',
           'column_stack', 'row_stack'):
  _joiner(_n)


@reg('block')
def F_block(arrays):
  def conv(a):
    return [conv(x) for x in a] if isinstance(a, list) else to_obj(a)
  return result(np.block(conv(arrays)))


@reg('append')
def F_append(a, v, axis=None):
  if axis is None:
    return FUNCS['concatenate']([mk(to_obj(a).reshape(-1)),
                                 mk(to_obj(v).reshape(-1))])
  return FUNCS['concatenate']([a, v], axis=axis)


@reg('insert')
def F_insert(a, obj, values, axis=None):
  return result(np.insert(to_obj(a), norm_index(obj), to_obj(values), axis),
                ldt_of(a))


@reg('pad')
def F_pad(a, pad_width, mode='constant', **kw):
  if mode == 'constant':
    cv = kw.get('constant_values', 0)
    o = to_obj(a)
    idx = np.pad(np.arange(o.size).reshape(o.shape), pad_width,
                 constant_values=-1)
    flat = list(o.reshape(-1)) + [cast(cv, ldt_of(a))]
    r = np.empty(idx.shape, dtype=object)
    for k in itertools.product(*[range(n) for n in idx.shape]):
      r[k] = flat[idx[k]]
    return result(r, ldt_of(a))
  o = to_obj(a)
  idx = np.pad(np.arange(o.size).reshape(o.shape), pad_width, mode=mode)
  return result(o.reshape(-1)[idx], ldt_of(a))


@reg('put_along_axis')
def F_put_along_axis(arr_, indices, values, axis):
  np.put_along_axis(to_obj(arr_), norm_index(mk(indices)), to_obj(values), axis)


@reg('ix_')
def F_ix(*a):
  return np.ix_(*[norm_index(x) for x in a])


@reg('choose')
def F_choose(a, choices, **kw):
  raise Unsupported('np.choose')


@reg('piecewise')
def F_piecewise(x, condlist, funclist, *args, **kw):
  x = mk(x)
  r = F_zeros(x.shape)
  for c, f in zip(condlist, funclist):
    r = F_where(c, f(x) if callable(f) else f, r)
  return r


@reg('iscomplexobj', 'iscomplex')
def F_iscomplexobj(a):
  return False


@reg('isscalar')
def F_isscalar(a):
  return is_sym(a) or np.isscalar(a)


@reg('may_share_memory', 'shares_memory')
def F_share(a, b, *args):
  return np.shares_memory(to_obj(a), to_obj(b))


@reg('copyto')
def F_copyto(dst, src, **kw):
  dst[...] = src


@reg('result_type')
def F_result_type(*a):
  return np.result_type(*[ldt_of(x) if deep_sym(x) else x for x in a])


@reg('set_printoptions')
def _noop(*a, **k):
  return None


# linalg ---------------------------------------------------------------------

LINALG = {}


def _lreg(name):
  def d(f):
    LINALG[name] = f
    return f
  return d


@_lreg('norm')
def L_norm(x, ord=None, axis=None, keepdims=False):
  o = to_obj(x)
  if ord not in (None, 2, 'fro', 1, np.inf):
    raise Unsupported('norm order')
  if ord == 2 and axis is None and o.ndim == 2:
    raise Unsupported('spectral norm')
  sq = UF[np.square]
  if ord == 1 and (axis is not None or o.ndim == 1):
    return F_sum(F_map(abs, mk(o)), axis, keepdims=keepdims)
  if ord == np.inf and (axis is not None or o.ndim == 1):
    return F_max(F_map(abs, mk(o)), axis, keepdims=keepdims)
  s = F_sum(F_map(sq, mk(o)), axis, keepdims=keepdims)
  return F_map(UF[np.sqrt], s)


@_lreg('det')
def L_det(a):
  a = mk(a)
  if a.shape[-2:] == (1, 1):
    return a[..., 0, 0]
  if a.shape[-2:] == (2, 2):
    return a[..., 0, 0] * a[..., 1, 1] - a[..., 0, 1] * a[..., 1, 0]
  raise Unsupported('det')


@_lreg('inv')
def L_inv(a):
  a = mk(a)
  if a.shape != (2, 2):
    raise Unsupported('inv')
  d = L_det(a)
  if bool(UF[np.equal](d, 0)):
    raise np.linalg.LinAlgError('Singular matrix')
  return mk([[a[1, 1] / d, -a[0, 1] / d], [-a[1, 0] / d, a[0, 0] / d]])


@_lreg('pinv')
def L_pinv(a, *args, **k):
  return L_inv(a)


@_lreg('solve')
def L_solve(a, b):
  return F_matmul(L_inv(a), b)


_READ_ONLY = ('save', 'savez', 'savez_compressed')


def _holds_symbols(x):
  if isinstance(x, SymArray):
    return any(core.is_sym(v) for v in x.view(np.ndarray).flat)
  if isinstance(x, (list, tuple)):
    return any(_holds_symbols(v) for v in x)
  return core.is_sym(x)


def _concretise_call(func, args, kwargs):
  """Last resort: run the real function on pinned model values.

  A call whose arguments hold no symbols is exact, so it pins nothing.
  """
  name = getattr(func, '__name__', str(func))
  exact = 'out' not in kwargs and name in _READ_ONLY and not (
      _holds_symbols(args) or _holds_symbols(list(kwargs.values())))

  def conv(x):
    if isinstance(x, SymArray):
      return x.__array__(x.ldt)
    if isinstance(x, SymReal):
      return np.float64(float(x))
    if isinstance(x, SymInt):
      return int(x)
    if isinstance(x, SymBool):
      return bool(x)
    if isinstance(x, (list, tuple)):
      return type(x)(conv(y) for y in x)
    return x
  if not exact:
    core.ctx().concretised.append(name)
  return func(*[conv(a) for a in args],
              **{k: conv(v) for k, v in kwargs.items()})


def call_function(func, args, kwargs):
  name = getattr(func, '__name__', '')
  mod = getattr(func, '__module__', '') or ''
  if 'linalg' in mod and name in LINALG:
    return LINALG[name](*args, **kwargs)
  if name in FUNCS:
    return FUNCS[name](*args, **kwargs)
  return _concretise_call(func, args, kwargs)


# ----------------------------------------------------------------------------
# numpy module proxy


class _ScalarTypeMeta(type):

  def __instancecheck__(cls, x):
    return isinstance(x, cls._real)

  def __subclasscheck__(cls, sub):
    return issubclass(getattr(sub, '_real', sub), cls._real)

  def __call__(cls, *a, **k):
    if a and deep_sym(a[0]):
      x = a[0]
      if isinstance(x, SymArray) or isinstance(x, (list, tuple)):
        return F_array(x, dtype=cls._real)
      return cast(x, cls._real)
    return cls._real(*a, **k)

  def __eq__(cls, o):
    return cls is o or cls._real is o

  def __hash__(cls):
    return hash(cls._real)

  def __getattr__(cls, n):
    return getattr(cls._real, n)


def _scalar_type(real):
  return _ScalarTypeMeta(real.__name__, (), {'_real': real,
                                             'dtype': np.dtype(real)})


class NumpyProxy(types.ModuleType):
  """Stands in for `np` in the modules under test."""

  _always = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like',
             'empty_like', 'full_like', 'vectorize'}

  def __init__(self, real=np, table=None, name='numpy'):
    super().__init__(name)
    self.__dict__['_real'] = real
    self.__dict__['_table'] = FUNCS if table is None else table
    self.__dict__['_cache'] = {}

  def __getattr__(self, name):
    c = self.__dict__['_cache']
    if name in c:
      return c[name]
    v = self._make(name)
    c[name] = v
    return v

  def _make(self, name):
    real = self.__dict__['_real']
    table = self.__dict__['_table']
    if name == 'linalg' and real is np:
      return NumpyProxy(np.linalg, LINALG, 'numpy.linalg')
    attr = getattr(real, name)
    if real is np and isinstance(attr, type):
      if issubclass(attr, np.generic) and not issubclass(
          attr, (np.str_, np.bytes_, np.void, np.datetime64)):
        try:
          np.dtype(attr)
          if attr in (np.generic, np.number, np.integer, np.floating,
                      np.inexact, np.signedinteger, np.unsignedinteger):
            return attr
          return _scalar_type(attr)
        except TypeError:
          return attr
      if name == 'vectorize':
        return F_vectorize
      return attr
    if not callable(attr):
      return attr
    impl = table.get(name)
    return wrap_callable(attr, impl, name in self._always and real is np)


# results the code under test may later update in place with symbolic values
_LIFT = {'stack', 'concatenate', 'vstack', 'hstack', 'array', 'asarray', 'copy',
         'linspace', 'tile', 'repeat', 'meshgrid', 'arange', 'eye'}


def wrap_callable(attr, impl, always=False):
  lift = getattr(attr, '__name__', '') in _LIFT and (
      getattr(attr, '__module__', '') or 'numpy').startswith('numpy')
  @functools.wraps(attr, updated=())
  def w(*a, **k):
    if core.active() and (always or deep_sym(a) or deep_sym(k)):
      if isinstance(attr, np.ufunc):
        return array_ufunc(attr, '__call__', *a, **k)
      if impl is not None:
        return impl(*a, **k)
      return _concretise_call(attr, a, k)
    r = attr(*a, **k)
    if (lift and core.active() and type(r) is np.ndarray and r.size <= 5000
        and r.dtype.kind in 'fiub' and not any(r is x for x in a)):
      return _view(to_obj(r), r.dtype)
    return r
  w._symex_real = attr
  if isinstance(attr, np.ufunc):
    for m in ('reduce', 'accumulate', 'outer', 'at'):
      def mm(*a, _m=m, **k):
        if core.active() and (deep_sym(a) or deep_sym(k)):
          return array_ufunc(attr, _m, *a, **k)
        return getattr(attr, _m)(*a, **k)
      setattr(w, m, mm)
  return w
