"""Stand-ins for the libraries around the code under test (environment model).

Every stand-in is only active while a symbolic run is in progress; concrete
replays use the real libraries.
"""

import datetime as real_dt
import functools
import itertools
import math
import types

import numpy as np
import z3

from symex import arr
from symex import core
from symex.core import SymBool, SymInt, SymReal, Unsupported, is_num, is_sym

# ----------------------------------------------------------------------------
# datetime


class _TdMeta(type):

  def __instancecheck__(cls, x):
    return type(x) is cls or isinstance(x, real_dt.timedelta)


def _td_secs(x):
  if isinstance(x, real_dt.timedelta):
    return np.float64(x.total_seconds())
  return x._s


def _scal(x):
  if isinstance(x, np.ndarray):
    if x.size != 1 or x.ndim > 0:
      raise TypeError(
          'unsupported type for timedelta seconds component: numpy.ndarray')
    return x.reshape(-1)[0]
  return x


class timedelta(metaclass=_TdMeta):
  """datetime.timedelta over real seconds (microsecond rounding not modelled)."""

  __slots__ = ('_s',)

  def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0,
               minutes=0, hours=0, weeks=0):
    tot = np.float64(0.0)
    if not arr.deep_sym([days, seconds, microseconds, milliseconds, minutes,
                         hours, weeks]):
      self._s = np.float64(real_dt.timedelta(
          days=float(days), seconds=float(seconds),
          microseconds=float(microseconds), milliseconds=float(milliseconds),
          minutes=float(minutes), hours=float(hours),
          weeks=float(weeks)).total_seconds())
      return
    for v, m in ((days, 86400), (seconds, 1), (microseconds, 1e-6),
                 (milliseconds, 1e-3), (minutes, 60), (hours, 3600),
                 (weeks, 604800)):
      v = _scal(v)
      if core.nonfinite(v):
        raise OverflowError('cannot convert float infinity to integer')
      if is_sym(v) or v != 0:
        tot = tot + v * m
    self._s = tot

  @classmethod
  def _of(cls, s):
    if core.nonfinite(s):
      raise OverflowError('cannot convert float infinity to integer')
    r = object.__new__(cls)
    r._s = s
    return r

  def total_seconds(self):
    return self._s

  @property
  def days(self):
    return _int(core.floordiv(self._s, 86400.0)) if is_sym(
        self._s) else int(self._s // 86400)

  @property
  def seconds(self):
    if not is_sym(self._s):
      return self._real().seconds
    f = SymInt(z3.ToInt(core.term(self._s, True)))
    return core.mod(f, 86400)

  @property
  def microseconds(self):
    if not is_sym(self._s):
      return self._real().microseconds
    t = core.term(self._s, True)
    u = z3.ToInt((t - z3.ToReal(z3.ToInt(t))) * 1000000)
    return core.wrap(z3.simplify(u))

  def _real(self):
    return real_dt.timedelta(seconds=float(self._s))

  def _bin(self, o, f):
    if not isinstance(o, timedelta):
      return NotImplemented
    return timedelta._of(f(self._s, _td_secs(o)))

  def __add__(self, o):
    return self._bin(o, lambda a, b: a + b)

  __radd__ = __add__

  def __sub__(self, o):
    return self._bin(o, lambda a, b: a - b)

  def __rsub__(self, o):
    return self._bin(o, lambda a, b: b - a)

  def __mul__(self, o):
    if is_sym(o) or is_num(o):
      return timedelta._of(self._s * o)
    return NotImplemented

  __rmul__ = __mul__

  def __truediv__(self, o):
    if isinstance(o, timedelta):
      b = _td_secs(o)
      if not is_sym(b) and b == 0:
        raise ZeroDivisionError('division by zero')
      if is_sym(b) and bool(b == 0):
        raise ZeroDivisionError('division by zero')
      return self._s / b
    if is_sym(o) or is_num(o):
      if bool(o == 0):
        raise ZeroDivisionError('division by zero')
      return timedelta._of(self._s / o)
    return NotImplemented

  def __rtruediv__(self, o):
    if isinstance(o, timedelta):
      return timedelta._of(_td_secs(o)) / self
    return NotImplemented

  def __floordiv__(self, o):
    if isinstance(o, timedelta):
      return _int(core.floordiv(self._s, _td_secs(o))) if is_sym(
          self._s) or is_sym(_td_secs(o)) else int(self._s // _td_secs(o))
    return timedelta._of(core.floordiv(self._s, o))

  def __mod__(self, o):
    return timedelta._of(self._s - _td_secs(o) * (
        core.floordiv(self._s, _td_secs(o))))

  def __neg__(self):
    return timedelta._of(-self._s)

  def __pos__(self):
    return self

  def __abs__(self):
    return timedelta._of(abs(self._s))

  def __bool__(self):
    return bool(self._s != 0)

  def __hash__(self):
    return hash(self._real())

  def __repr__(self):
    return f'td({self._s})'

  def __deepcopy__(self, memo):
    return self


def _int(x):
  if isinstance(x, SymReal):
    return SymInt(z3.simplify(z3.ToInt(x.t)))
  return int(x)


for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
  def _f(self, o, _n=_n):
    if not isinstance(o, timedelta):
      return NotImplemented
    return arr._cm(_n)(self._s, _td_secs(o))
  setattr(timedelta, f'__{_n}__', _f)
timedelta.min = real_dt.timedelta.min
timedelta.max = real_dt.timedelta.max
timedelta.resolution = real_dt.timedelta.resolution


class ModProxy(types.ModuleType):
  """A module with some attributes replaced."""

  def __init__(self, real, over):
    super().__init__(getattr(real, '__name__', 'proxy'))
    self.__dict__['_real'] = real
    self.__dict__.update(over)

  def __getattr__(self, name):
    return getattr(self.__dict__['_real'], name)


def lower(x):
  """Plain values for libraries that are called as they are."""
  if isinstance(x, arr.SymArray):
    if any(core.is_sym(v) for v in x.view(np.ndarray).flat):
      raise core.Unsupported('symbolic array passed to a library')
    return np.array(x.view(np.ndarray).tolist(), dtype=x.ldt).reshape(x.shape)
  if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
    return type(x)(lower(v) for v in x)
  if type(x) is dict:
    return {k: lower(v) for k, v in x.items()}
  return x


class Library(ModProxy):
  """A library that runs as it is, on plain values."""

  def __getattr__(self, name):
    v = getattr(self.__dict__['_real'], name)
    if isinstance(v, types.ModuleType) and not isinstance(v, ModProxy):
      v = Library(v, {})
      self.__dict__[name] = v
    elif callable(v) and not isinstance(v, type):
      f = v
      v = lambda *a, **k: f(*lower(a), **lower(k))
    return v


# ----------------------------------------------------------------------------
# shapely


class CoordSeq:
  _is_sym_point = True

  def __init__(self, c):
    self._c = c

  def __array__(self, dtype=None):
    o = np.empty((1, len(self._c)), dtype=object)
    o[0, :] = list(self._c)
    return o if dtype in (None, object) else arr.mk(o).__array__(dtype)

  def __len__(self):
    return 1

  def __iter__(self):
    return iter([tuple(self._c)])

  def __getitem__(self, i):
    return [tuple(self._c)][i]

  @property
  def xy(self):
    return [self._c[0]], [self._c[1]]

  def __eq__(self, o):
    return list(self) == list(o)


def make_point_class(real_point):
  """A stand-in for shapely.geometry.Point."""

  class _PtMeta(type):

    def __instancecheck__(cls, x):
      return type(x) is cls or isinstance(x, real_point)

  class Point(metaclass=_PtMeta):
    _is_sym_point = True
    _real = real_point

    def __init__(self, *args):
      if len(args) == 0:
        self._c = ()
        return
      if len(args) == 1:
        a = args[0]
        if type(a) is Point:
          self._c = a._c
          return
        if isinstance(a, real_point):
          self._c = tuple(np.float64(v) for v in a.coords[0])
          return
        if isinstance(a, np.ndarray):
          if a.ndim != 1:
            raise TypeError('only length-1 arrays can be converted')
          c = [a[i] for i in range(len(a))]
        else:
          c = list(a)
          if c and isinstance(c[0], tuple):
            c = list(c[0])
      else:
        c = list(args)
      if len(args) > 3 or len(c) not in (2, 3):
        raise TypeError('Point takes 2 or 3 coordinates')
      out = []
      for v in c:
        if isinstance(v, np.ndarray):
          if v.size != 1:
            raise TypeError('only length-1 arrays can be converted')
          v = v.reshape(-1)[0]
        out.append(arr.cast(v, np.float64))
      self._c = tuple(out)

    @property
    def x(self):
      return self._c[0]

    @property
    def y(self):
      return self._c[1]

    @property
    def coords(self):
      return CoordSeq(self._c)

    @property
    def xy(self):
      return self.coords.xy

    @property
    def is_empty(self):
      return not self._c

    @property
    def bounds(self):
      return (self.x, self.y, self.x, self.y)

    def distance(self, o):
      dx, dy = self.x - o.x, self.y - o.y
      return core.sqrt(dx * dx + dy * dy)

    def __array__(self, dtype=None):
      o = np.empty((len(self._c),), dtype=object)
      o[:] = list(self._c)
      return o if dtype in (None, object) else arr.mk(o).__array__(dtype)

    __array_ufunc__ = core._ufunc_hook

    def __eq__(self, o):
      if not isinstance(o, Point):
        return False
      oc = o._c if type(o) is Point else tuple(o.coords[0])
      r = True
      for a, b in zip(self._c, oc):
        r = core.land(r, a == b)
      return r if len(oc) == len(self._c) else False

    def __ne__(self, o):
      return core.bnot(self.__eq__(o))

    def equals(self, o):
      return self == o

    def almost_equals(self, o, decimal=6):
      return core.land(abs(self.x - o.x) < 0.5 * 10**-decimal,
                       abs(self.y - o.y) < 0.5 * 10**-decimal)

    def __hash__(self):
      return id(self)

    def __repr__(self):
      return f'Point({self._c})'

    def __deepcopy__(self, memo):
      return self

  Point.__name__ = 'Point'
  return Point


# ----------------------------------------------------------------------------
# sklearn


class NearestNeighbors:
  """Exact k-nearest / radius queries with symbolic squared distances."""

  def __init__(self, *, n_neighbors=5, radius=1.0, algorithm='auto',
               leaf_size=30, metric='minkowski', p=2, metric_params=None,
               n_jobs=None):
    if metric not in ('minkowski', 'l2', 'euclidean') or p != 2:
      raise Unsupported('metric ' + str(metric))
    self.n_neighbors = n_neighbors
    self.radius = radius

  def fit(self, x, y=None):
    o = arr.to_obj(x)
    _check2d(o)
    self._x = o
    return self

  def _sq(self, q):
    o = arr.to_obj(q)
    _check2d(o)
    if o.shape[1] != self._x.shape[1]:
      raise ValueError(f'X has {o.shape[1]} features')
    rows = []
    for i in range(o.shape[0]):
      row = []
      for j in range(self._x.shape[0]):
        s = None
        for k in range(o.shape[1]):
          d = arr.UF[np.subtract](o[i, k], self._x[j, k])
          d2 = arr.UF[np.square](d)
          s = d2 if s is None else arr.UF[np.add](s, d2)
        row.append(s)
      rows.append(row)
    return rows

  def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
    k = n_neighbors if n_neighbors is not None else self.n_neighbors
    k = int(k)
    if k <= 0:
      raise ValueError(f'Expected n_neighbors > 0. Got {k}')
    query = self._x if X is None else X
    n = self._x.shape[0]
    kk = k + 1 if X is None else k
    if kk > n:
      raise ValueError(
          f'Expected n_neighbors <= n_samples, but n_samples = {n}, '
          f'n_neighbors = {kk}')
    rows = self._sq(query)
    ind = np.empty((len(rows), k), dtype=int)
    dist = np.empty((len(rows), k), dtype=object)
    for i, row in enumerate(rows):
      cand = [j for j in range(n) if not (X is None and j == i)]
      order = []
      for _ in range(k):
        best = cand[0]
        for j in cand[1:]:
          if bool(arr.UF[np.less](row[j], row[best])):
            best = j
        cand.remove(best)
        order.append(best)
      ind[i] = order
      dist[i] = [arr.UF[np.sqrt](row[j]) for j in order]
    if return_distance:
      return arr.mk(dist, np.float64), ind
    return ind

  def radius_neighbors(self, X=None, radius=None, return_distance=True,
                       sort_results=False):
    r = radius if radius is not None else self.radius
    query = self._x if X is None else X
    rows = self._sq(query)
    ind = np.empty(len(rows), dtype=object)
    dist = np.empty(len(rows), dtype=object)
    for i, row in enumerate(rows):
      sel = []
      for j, s in enumerate(row):
        if X is None and j == i:
          continue
        d = arr.UF[np.sqrt](s)
        if bool(arr.UF[np.less_equal](d, r)):
          sel.append((j, d))
      if sort_results:
        o = arr.order_of([d for _, d in sel])
        sel = [sel[t] for t in o]
      ind[i] = np.array([j for j, _ in sel], dtype=int)
      dist[i] = arr.mk([d for _, d in sel], np.float64)
    return (dist, ind) if return_distance else ind


def _check2d(o):
  if o.ndim != 2:
    raise ValueError('Expected 2D array')
  if o.shape[0] == 0:
    raise ValueError(
        f'Found array with 0 sample(s) (shape={o.shape}) while a minimum of 1 '
        'is required')
  for e in o.flat:
    if core.nonfinite(e):
      raise ValueError('Input contains NaN or infinity')


# ----------------------------------------------------------------------------
# protobuf


def f32(x):
  """Round to nearest single-precision value."""
  if not is_sym(x):
    with np.errstate(all='ignore'):
      return float(np.float32(x))
  c = core.ctx()
  t = core.term(x, True)
  done = c.uf_terms.setdefault('f32', {})
  if t.get_id() in done:
    return SymReal(t)
  memo = c.uf_terms.setdefault('f32in', {})
  if t.get_id() in memo:
    return SymReal(memo[t.get_id()][0])
  # the relational contract of rounding: relative error <= 2^-24 (normal
  # range), sign preserving, exact at 0.
  d = c.fresh('f32')
  e = z3.Q(1, 2**24)
  at = z3.If(t >= 0, t, -t)
  lim = at * e + z3.Q(1, 2**149)
  c.add(z3.And(d - t <= lim, t - d <= lim, z3.Implies(t == 0, d == 0)))
  done[d.get_id()] = d
  memo[t.get_id()] = (d, t)
  return SymReal(d)


class SymTensor:
  """Opaque round-trip token for tensorflow.TensorProto."""

  def __init__(self, payload=None):
    self.payload = payload
    self.dtype = 0 if payload is None else 1

  def _copy(self):
    return SymTensor(self.payload)

  def CopyFrom(self, o):
    self.payload, self.dtype = o.payload, o.dtype

  def ByteSize(self):
    return 0 if self.payload is None else 10

  def _present(self):
    return self.payload is not None


class Repeated(list):

  def __init__(self, field, classes):
    super().__init__()
    self._f = field
    self._cl = classes

  def _conv(self, v):
    return convert(self._f, v, self._cl)

  def append(self, v):
    super().append(self._conv(v))

  def extend(self, vs):
    for v in vs:
      self.append(v)

  def __iadd__(self, vs):
    self.extend(vs)
    return self

  def insert(self, i, v):
    super().insert(i, self._conv(v))

  def add(self, **kw):
    m = self._cl[self._f.message_type.full_name](**kw)
    super().append(m)
    return m

  def __setitem__(self, i, v):
    super().__setitem__(i, self._conv(v))


def _is_msg(field):
  return field.cpp_type == field.CPPTYPE_MESSAGE


def convert(field, v, classes):
  if _is_msg(field):
    if field.message_type.full_name == 'tensorflow.TensorProto':
      if not isinstance(v, SymTensor):
        raise TypeError('bad tensor value')
      return v._copy()
    cls = classes[field.message_type.full_name]
    if isinstance(v, dict):
      return cls(**v)
    if not isinstance(v, cls):
      raise TypeError(f'Parameter must be instance of {cls}')
    return v._copy()
  if isinstance(v, np.ndarray):
    if v.size == 1 and v.ndim == 0:
      v = v.reshape(-1)[0]
    else:
      raise TypeError('bad argument type for built-in operation')
  if field.cpp_type == field.CPPTYPE_FLOAT:
    if v is None or isinstance(v, str):
      raise TypeError('must be real number')
    return f32(v)
  if field.cpp_type == field.CPPTYPE_DOUBLE:
    return arr.cast(v, np.float64)
  if field.cpp_type in (field.CPPTYPE_INT32, field.CPPTYPE_INT64,
                        field.CPPTYPE_UINT32, field.CPPTYPE_UINT64,
                        field.CPPTYPE_ENUM):
    if isinstance(v, (SymReal, float, np.floating)):
      if isinstance(v, SymReal) or float(v) != int(v):
        raise TypeError("'float' object cannot be interpreted as an integer")
      return int(v)
    if isinstance(v, SymInt):
      bits = 31 if '32' in str(field.cpp_type) or field.cpp_type in (
          field.CPPTYPE_INT32, field.CPPTYPE_ENUM) else 63
      if bool(core.lor(v > 2**bits - 1, v < -2**bits)):
        raise ValueError('Value out of range')
      return v
    return int(v)
  if field.cpp_type == field.CPPTYPE_BOOL:
    return v if isinstance(v, SymBool) else bool(v)
  return v


def make_messages(pb2):
  """Stand-in classes for all messages of a generated module."""
  classes = {}

  def build(desc):
    fields = {f.name: f for f in desc.fields}

    class Msg:
      DESCRIPTOR = desc
      _fields = fields

      def __init__(self, **kw):
        object.__setattr__(self, '_v', {})
        object.__setattr__(self, '_sub', {})
        for k, v in kw.items():
          if k not in fields:
            raise ValueError(
                f'Protocol message {desc.name} has no "{k}" field.')
          if v is None:
            continue
          f = fields[k]
          if f.label == f.LABEL_REPEATED:
            getattr(self, k).extend(v)
          else:
            self._v[k] = convert(f, v, classes)

      def __getattr__(self, k):
        if k.startswith('_') or k not in fields:
          raise AttributeError(k)
        f = fields[k]
        if k in self._v:
          return self._v[k]
        if f.label == f.LABEL_REPEATED:
          r = Repeated(f, classes)
          self._v[k] = r
          return r
        if _is_msg(f):
          if k not in self._sub:
            self._sub[k] = (SymTensor() if f.message_type.full_name ==
                            'tensorflow.TensorProto' else
                            classes[f.message_type.full_name]())
          return self._sub[k]
        return f.default_value

      def __setattr__(self, k, v):
        if k not in fields:
          raise AttributeError(
              f'Protocol message {desc.name} has no "{k}" field.')
        f = fields[k]
        if f.label == f.LABEL_REPEATED or _is_msg(f):
          raise AttributeError(
              f'Assignment not allowed to message, map, or repeated field '
              f'"{k}" in protocol message object.')
        self._v[k] = convert(f, v, classes)

      def _present(self):
        return bool(self._v) or any(s._present() for s in self._sub.values())

      def HasField(self, k):
        if k not in fields or fields[k].label == 3:
          raise ValueError(f'no singular field {k}')
        if k in self._v:
          return True
        return k in self._sub and self._sub[k]._present()

      def ClearField(self, k):
        self._v.pop(k, None)
        self._sub.pop(k, None)

      def Clear(self):
        self._v.clear()
        self._sub.clear()

      def _copy(self):
        m = type(self)()
        m.CopyFrom(self)
        return m

      __deepcopy__ = lambda self, memo: self._copy()

      def CopyFrom(self, o):
        if o is self:
          return
        self._v.clear()
        self._sub.clear()
        self.MergeFrom(o)

      def MergeFrom(self, o):
        if not isinstance(o, type(self)):
          raise TypeError('Parameter to MergeFrom() must be same class')
        for k, v in list(o._v.items()):
          if isinstance(v, Repeated):
            getattr(self, k).extend(v)
          elif hasattr(v, '_copy'):
            self._v[k] = v._copy()
          else:
            self._v[k] = v
        for k, s in list(o._sub.items()):
          if s._present():
            self._v[k] = s._copy()

      def SerializeToString(self, deterministic=None):
        return SymBytes(self._copy())

      SerializePartialToString = SerializeToString

      @classmethod
      def FromString(cls, b):
        m = cls()
        m.ParseFromString(b)
        return m

      def ParseFromString(self, b):
        if not isinstance(b, SymBytes):
          raise Unsupported('parsing raw bytes')
        self.CopyFrom(b.msg)
        return 1

      MergeFromString = ParseFromString

      def IsInitialized(self):
        return True

      def ByteSize(self):
        return 1

      def ListFields(self):
        return [(fields[k], v) for k, v in self._v.items()]

      def __eq__(self, o):
        if not isinstance(o, type(self)):
          return False
        r = True
        for k in fields:
          a, b = getattr(self, k), getattr(o, k)
          c = a == b
          r = core.land(r, c) if is_sym(c) or is_sym(r) else (r and c)
        return r

      __hash__ = None

      def __repr__(self):
        return f'{desc.name}({self._v})'

    Msg.__name__ = desc.name
    return Msg

  for desc in pb2.DESCRIPTOR.message_types_by_name.values():
    classes[desc.full_name] = build(desc)
  return {d.name: classes[d.full_name]
          for d in pb2.DESCRIPTOR.message_types_by_name.values()}


class SymBytes(bytes):
  """Serialized form of a stand-in message."""

  def __new__(cls, msg):
    b = super().__new__(cls, b'<sym>')
    b.msg = msg
    return b


def make_tensor_proto(values, dtype=None, shape=None, verify_shape=False,
                      allow_broadcast=False):
  if values is None:
    raise ValueError('None values not supported.')
  v = values.copy() if isinstance(values, np.ndarray) else arr.mk(values)
  return SymTensor(v)


def make_ndarray(tensor):
  if not isinstance(tensor, SymTensor) or tensor.payload is None:
    raise TypeError('Unsupported tensor type: 0')
  return tensor.payload.copy()


# ----------------------------------------------------------------------------
# math


def make_math():
  over = {}

  def w(name, impl):
    real = getattr(math, name)

    @functools.wraps(real)
    def f(*a, **k):
      if arr.deep_sym(a) or arr.deep_sym(k):
        return impl(*[x.item() if isinstance(x, np.ndarray) else x for x in a],
                    **k)
      return real(*a, **k)
    over[name] = f

  def sq(x):
    if bool(x < 0):
      raise ValueError('math domain error')
    return core.sqrt(x)

  def lg(x, base=None):
    if bool(x <= 0):
      raise ValueError('math domain error')
    r = core.log(x)
    return r if base is None else r / math.log(base)

  w('sqrt', sq)
  w('cos', core.cos)
  w('sin', core.sin)
  w('tan', arr.s_tan)
  w('atan2', core.arctan2)
  w('hypot', lambda *xs: core.sqrt(sum(x * x for x in xs)))
  w('dist', lambda p, q: core.sqrt(sum((a - b) * (a - b)
                                       for a, b in zip(p, q))))
  w('exp', core.exp)
  w('log', lg)
  w('pow', core.power)
  w('floor', lambda x: x.__floor__())
  w('ceil', lambda x: x.__ceil__())
  w('trunc', lambda x: x.__trunc__())
  w('fabs', abs)
  w('isnan', lambda x: False)
  w('isinf', lambda x: False)
  w('isfinite', lambda x: True)
  w('radians', arr.s_deg2rad)
  w('degrees', lambda a: a * (180.0 / math.pi))
  w('fmod', arr.UF[np.fmod])
  w('copysign', arr.s_copysign)
  w('prod', lambda xs, start=1: functools.reduce(lambda a, b: a * b, xs, start))
  w('fsum', sum)

  def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    m = core.smax(abs(a), abs(b))
    return abs(a - b) <= core.smax(rel_tol * m, abs_tol)
  w('isclose', isclose)
  return ModProxy(math, over)


# ----------------------------------------------------------------------------
# scipy / jax.scipy statistics


def mvn_pdf(x, mean=None, cov=1, allow_singular=False):
  """Density of a 2-d normal: exp is an axiomatised monotone function."""
  x = arr.mk(x)
  mean = arr.mk(mean) if mean is not None else np.zeros(2)
  cov = arr.mk(cov)
  if cov.ndim < 2:
    v = cov.reshape(-1)
    if v.size == 1:
      cov = arr.mk([[v[0], 0.0], [0.0, v[0]]])
    else:
      cov = arr.FUNCS['diag'](cov)
  det = arr.L_det(cov)
  d = x - mean
  lead = d.shape[:-1]
  if d.shape[-1] != 2:
    raise Unsupported('multivariate_normal dimension')
  rows = d.reshape(-1, 2)
  res = np.empty(len(rows), dtype=object)
  for i in range(len(rows)):
    dx, dy = rows[i, 0], rows[i, 1]
    q = (cov[1, 1] * dx * dx - (cov[0, 1] + cov[1, 0]) * dx * dy
         + cov[0, 0] * dy * dy) / det
    e = arr.UF[np.exp](q * -0.5)
    res[i] = e / (arr.UF[np.sqrt](det) * (2 * math.pi))
  if not lead:
    return arr.unbox(res[0])
  r = arr.mk(res.reshape(lead))
  return r


class MVN:
  pdf = staticmethod(mvn_pdf)


class NoLog(types.ModuleType):
  """absl.logging with empty bodies."""

  def __init__(self, real):
    super().__init__('logging')
    self.__dict__['_real'] = real
    for n in ('info', 'warning', 'error', 'debug', 'log', 'exception', 'warn',
              'log_first_n', 'log_every_n', 'vlog', 'log_if'):
      self.__dict__[n] = lambda *a, **k: None

  def __getattr__(self, n):
    return getattr(self.__dict__['_real'], n)


# ----------------------------------------------------------------------------
# builtins


class _FloatType(type):

  def __instancecheck__(cls, x):
    return isinstance(x, (float, core.SymReal))

  def __subclasscheck__(cls, c):
    return issubclass(c, float)

  def __eq__(cls, o):
    return o is cls or o is float

  def __hash__(cls):
    return hash(float)


class Float(float, metaclass=_FloatType):
  """float() keeps symbolic numbers as they are."""

  dtype = np.dtype(float)

  def __new__(cls, x=0.0):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
      x = x.item()
    if isinstance(x, core.SymReal):
      return x
    if isinstance(x, (core.SymInt, core.SymBool)):
      return x * 1.0
    return float(x)
