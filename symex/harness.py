"""Harness context: one harness text, run symbolically or concretely."""

import datetime
import fractions
import math
import re
import time
import traceback

import numpy as np
import z3

from symex import arr
from symex import canon
from symex import core
from symex import patch
from symex import shims
from symex.core import PathAbort, SymBool, SymInt, SymReal


class Violation(Exception):
  """A check failed in a concrete run."""


class AssumeFailed(Exception):
  """A concrete run left the assumed input region."""


class _Base:
  """Shared naming of inputs."""

  def __init__(self):
    self._names = {}
    self.labels = []
    self.observed = []

  def _name(self, n):
    k = self._names.get(n, 0)
    self._names[n] = k + 1
    return n if k == 0 else f'{n}#{k}'

  def reals(self, name, shape, lo=None, hi=None):
    if isinstance(shape, int):
      shape = (shape,)
    o = np.empty(shape, dtype=object)
    for k in np.ndindex(*shape):
      o[k] = self.real(name + ''.join(f'_{i}' for i in k), lo, hi)
    return self.array(o, np.float64)

  def ints(self, name, n, lo, hi):
    return [self.int(f'{name}_{i}', lo, hi) for i in range(n)]

  def rng(self, name='rng'):
    return FakeRng(self, name)

  def call(self, fn, *a, **k):
    """(result, exception) of a call to the code under test."""
    try:
      return fn(*a, **k), None
    except (AssumeFailed, Violation):
      raise
    except Exception as e:  # pylint: disable=broad-except
      return None, e

  def check_raises(self, exc, label, fn, *a, **k):
    _, e = self.call(fn, *a, **k)
    self.check(isinstance(e, exc), label,
               f'expected {getattr(exc, "__name__", exc)}, got {e!r}')
    return e

  def apart(self, a, b, eps=1e-4):
    """Assumes |a - b| >= eps (half of that in replays)."""
    if not self.symbolic:
      eps = eps / 2
    d = a - b
    self.assume(self.or_(d >= eps, -d >= eps))

  def arr_close(self, a, b, tol=1e-6):
    """Elementwise closeness of two array-likes of equal shape."""
    x, y = self.obj(a), self.obj(b)
    if x.shape != y.shape:
      return False
    r = True
    for p, q in zip(x.flat, y.flat):
      r = self.and_(r, self.close(p, q, tol))
    return r

  def obj(self, a):
    return arr.to_obj(a)


class SymH(_Base):
  """Symbolic mode."""

  symbolic = True

  def __init__(self, c):
    super().__init__()
    self.c = c
    self.cex = []
    self.np = patch._STATE['np']
    self.math = patch._STATE['math']
    self.dt = shims.ModProxy(datetime, {'timedelta': shims.timedelta})
    self.Point = patch._STATE['pt']

  # inputs
  def real(self, name, lo=None, hi=None):
    name = self._name(name)
    t = z3.Real(name)
    self.c.inputs[name] = ('real', t, lo, hi)
    cs = []
    if lo is not None:
      cs.append(t >= core.real_const(lo))
    if hi is not None:
      cs.append(t <= core.real_const(hi))
    if cs:
      self.c.add(z3.And(*cs))
    return SymReal(t)

  def int(self, name, lo, hi):
    name = self._name(name)
    if lo == hi:
      return lo
    t = z3.Int(name)
    self.c.inputs[name] = ('int', t, lo, hi)
    self.c.add(z3.And(t >= lo, t <= hi))
    return SymInt(t)

  def bool(self, name):
    name = self._name(name)
    t = z3.Bool(name)
    self.c.inputs[name] = ('bool', t, None, None)
    return SymBool(t)

  def angle(self, name):
    """An arbitrary angle in (-pi, pi]."""
    name = self._name(name)
    c, s = z3.Real(name + '.c'), z3.Real(name + '.s')
    self.c.inputs[name] = ('angle', (c, s), None, None)
    self.c.add(c * c + s * s == 1)
    canon.unit(c, s)
    return core.mk_angle(SymReal(c), SymReal(s), -math.pi, 'hi')

  def cs(self, a):
    return core.cos(a), core.sin(a)

  def pick(self, name, options):
    """Non-deterministic choice among concrete alternatives (all explored)."""
    name = self._name(name)
    options = list(options)
    i = self.c.choose(len(options), name) if len(options) > 1 else 0
    self.c.inputs[name] = ('pick', i, None, None)
    return options[i]

  def array(self, x, dtype=None):
    r = arr.mk(x)
    return r.astype(dtype) if dtype is not None else r

  def int_array(self, x):
    return arr._view(arr.to_obj(x), np.int64)

  def td(self, seconds):
    return shims.timedelta(seconds=seconds)

  # logic
  def and_(self, *xs):
    return core.land(*xs)

  def or_(self, *xs):
    return core.lor(*xs)

  def not_(self, x):
    return core.lnot(x)

  def implies(self, a, b):
    return core.implies(a, b)

  def iff(self, a, b):
    return core.mkbool(core.to_bool_term(a) == core.to_bool_term(b))

  def ite(self, c, a, b):
    return core.ite(c, a, b)

  def all(self, xs):
    return core.land(True, *[x for x in xs])

  def any(self, xs):
    return core.lor(False, *[x for x in xs])

  def close(self, a, b, tol=1e-6):
    if core.nonfinite(a) or core.nonfinite(b):
      return arr.UF[np.equal](a, b)
    if not (core.is_sym(a) or core.is_sym(b)):
      return abs(float(a) - float(b)) <= tol
    ta, tb = core.term(a, True), core.term(b, True)
    if z3.simplify(ta - tb).eq(z3.RealVal(0)):
      return True
    d = canon.canon(ta - tb)
    if core.const_of(d) is not None:
      return abs(float(core.const_of(d))) <= tol * 1.5
    e = core.real_const(tol * 1.5)
    return core.mkbool(z3.And(d <= e, -d <= e))

  def eq(self, a, b):
    return arr.UF[np.equal](a, b)

  # protocol
  def assume(self, cond):
    if isinstance(cond, np.ndarray):
      cond = arr.F_all(cond)
    self.c.add(cond, check=True)

  def formatting(self):
    """From now on, text made of symbolic numbers can be read by `number`."""
    self.c.formatted = []

  def number(self, text, width):
    """The integer a text was made from; (value, padded to the width)."""
    m = re.fullmatch('\u27e6(\\d+)\u27e7', text)
    if m is None:
      return int(text), len(text) >= width
    v, spec = self.c.formatted[int(m.group(1))]
    return v, isinstance(v, core.SymInt) and spec == f'0{width}d'

  def branch(self, cond):
    return bool(cond)

  def observe(self, name, v):
    self.observed.append((name, v))

  def check(self, cond, label, info=''):
    self.labels.append(label)
    st = self.c.stats
    st.asserts += 1
    if isinstance(cond, np.ndarray):
      cond = arr.F_all(cond)
    t = core.to_bool_term(cond)
    t = z3.simplify(t)
    if z3.is_true(t):
      # still a claim about a feasible path; the path condition is sat
      st.asserts_unsat += 1
      return
    neg = z3.Not(t)
    r = self.c.check(neg)
    if r == 'unsat':
      st.asserts_unsat += 1
      self.c.pc.append(t)
      self.c.solver.add(t)
      return
    if r == 'unknown':
      raise core.SolverUnknown('assertion ' + label)
    models = [self.extract(self.c.model)]
    models += self.alternatives(neg, models[0])
    self.cex.append({'label': label, 'info': str(info), 'models': models})
    # continue on the part of the path where the assertion holds
    if self.c.check(t) != 'sat':
      raise PathAbort()
    self.c.pc.append(t)
    self.c.solver.add(t)
    self.c.last_model = None

  def fail(self, label, info=''):
    self.check(False, label, info)

  # models
  def extract(self, model):
    out = {}
    for n, (kind, t, lo, hi) in self.c.inputs.items():
      if kind == 'pick':
        out[n] = t
      elif kind == 'angle':
        c = core.float_of(model.eval(t[0], model_completion=True))
        s = core.float_of(model.eval(t[1], model_completion=True))
        out[n] = math.atan2(s, c)
      elif kind == 'bool':
        out[n] = bool(z3.is_true(model.eval(t, model_completion=True)))
      elif kind == 'int':
        out[n] = model.eval(t, model_completion=True).as_long()
      else:
        out[n] = core.float_of(model.eval(t, model_completion=True))
    return out

  def alternatives(self, neg, first):
    """More models of a violation: dyadic ones replay exactly in floats."""
    res = []
    reals = [(n, t, lo, hi) for n, (k, t, lo, hi) in self.c.inputs.items()
             if k == 'real']
    for denom in (64, 1024, 65536):
      s = z3.Solver()
      s.set('timeout', 3000)
      s.add(*self.c.pc)
      s.add(neg)
      for n, t, lo, hi in reals:
        s.add(z3.IsInt(t * denom))
      if s.check() == z3.sat:
        res.append(self.extract(s.model()))
        break
    # interior models: fix inputs near rounded values of the first model
    for nd in (1, 2, 3):
      s = z3.Solver()
      s.set('timeout', 2000)
      s.add(*self.c.pc)
      s.add(neg)
      for n, t, lo, hi in reals:
        v = round(first[n], nd)
        s.add(t == core.real_const(v))
      if s.check() == z3.sat:
        res.append(self.extract(s.model()))
        break
    # spread models: push away from the bounds
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*self.c.pc)
    s.add(neg)
    for n, t, lo, hi in reals:
      if lo is not None and hi is not None and hi > lo:
        w = (hi - lo) * 0.02
        s.push()
        s.add(t >= core.real_const(lo + w), t <= core.real_const(hi - w))
        if s.check() != z3.sat:
          s.pop()
          if s.check() != z3.sat:
            break
    if s.check() == z3.sat:
      res.append(self.extract(s.model()))
    return res


class ConcH(_Base):
  """Concrete mode: replays recorded inputs on the unpatched code."""

  symbolic = False

  def __init__(self, model):
    super().__init__()
    self.model = model
    self.np = np
    self.math = math
    self.dt = datetime
    import shapely.geometry
    self.Point = shapely.geometry.Point
    self.failed = []

  def real(self, name, lo=None, hi=None):
    name = self._name(name)
    v = self.model.get(name)
    if v is None:
      v = lo if lo is not None else (hi if hi is not None else 0.0)
    if lo is not None:
      v = max(v, lo)
    if hi is not None:
      v = min(v, hi)
    return np.float64(v)

  def int(self, name, lo, hi):
    name = self._name(name)
    return int(self.model.get(name, lo))

  def bool(self, name):
    return bool(self.model.get(self._name(name), False))

  def angle(self, name):
    return np.float64(self.model.get(self._name(name), 0.0))

  def cs(self, a):
    return math.cos(a), math.sin(a)

  def pick(self, name, options):
    return list(options)[int(self.model.get(self._name(name), 0))]

  def array(self, x, dtype=None):
    o = arr.to_obj(x)
    if dtype is None:
      dtype = arr.infer_ldt(o)
    return o.astype(dtype)

  def int_array(self, x):
    return np.array(x, dtype=np.int64)

  def td(self, seconds):
    return datetime.timedelta(seconds=float(seconds))

  def and_(self, *xs):
    return all(bool(np.all(x)) for x in xs)

  def or_(self, *xs):
    return any(bool(np.all(x)) for x in xs)

  def not_(self, x):
    return not bool(x)

  def implies(self, a, b):
    return (not bool(a)) or bool(b)

  def iff(self, a, b):
    return bool(a) == bool(b)

  def ite(self, c, a, b):
    return a if bool(c) else b

  def all(self, xs):
    return all(bool(np.all(x)) for x in xs)

  def any(self, xs):
    return any(bool(np.all(x)) for x in xs)

  def close(self, a, b, tol=1e-6):
    try:
      a, b = float(a), float(b)
    except (TypeError, ValueError):
      return False
    if not (math.isfinite(a) and math.isfinite(b)):
      return a == b or (math.isnan(a) and math.isnan(b))
    return abs(a - b) <= tol

  def eq(self, a, b):
    return bool(a == b)

  def assume(self, cond):
    if not bool(np.all(cond)):
      raise AssumeFailed()

  def formatting(self):
    pass

  def number(self, text, width):
    return int(text), len(text) >= width

  def branch(self, cond):
    return bool(cond)

  def observe(self, name, v):
    self.observed.append((name, v))

  def check(self, cond, label, info=''):
    self.labels.append(label)
    if not bool(np.all(cond)):
      self.failed.append((label, str(info)))

  def fail(self, label, info=''):
    self.check(False, label, info)


class FakeRng:
  """numpy.random.Generator stand-in: arbitrary values within contract."""

  def __init__(self, h, name):
    self.h = h
    self.name = name
    self.calls = []

  def _shape(self, size):
    if size is None:
      return None
    if isinstance(size, (int, np.integer)):
      return (int(size),)
    return tuple(int(s) for s in size)

  def _many(self, size, f):
    shp = self._shape(size)
    if shp is None:
      return f()
    o = np.empty(shp, dtype=object)
    for k in np.ndindex(*shp):
      o[k] = f()
    return self.h.array(o)

  def uniform(self, low=0.0, high=1.0, size=None):
    self.calls.append(('uniform', low, high, size))
    shp = self._shape(size)
    if shp is None and (getattr(low, 'ndim', 0) or getattr(high, 'ndim', 0)):
      shp = np.broadcast_shapes(np.shape(low), np.shape(high))
    def one(lo, hi):
      u = self.h.real(f'{self.name}.uniform', 0.0, 1.0)
      return lo + (hi - lo) * u
    if shp is None:
      return one(low, high)
    lo = np.broadcast_to(arr.to_obj(low), shp)
    hi = np.broadcast_to(arr.to_obj(high), shp)
    o = np.empty(shp, dtype=object)
    for k in np.ndindex(*shp):
      o[k] = one(lo[k], hi[k])
    return self.h.array(o)

  def random(self, size=None, **k):
    return self.uniform(0.0, 1.0, size)

  def exponential(self, scale=1.0, size=None):
    self.calls.append(('exponential', scale, size))
    return self._many(size, lambda: self.h.real(
        f'{self.name}.exponential', 1e-6, 1e6))

  def normal(self, loc=0.0, scale=1.0, size=None):
    self.calls.append(('normal', loc, scale, size))
    return self._many(size, lambda: loc + scale * self.h.real(
        f'{self.name}.normal', -6.0, 6.0))

  def standard_normal(self, size=None, **k):
    return self.normal(size=size)

  def poisson(self, lam=1.0, size=None):
    self.calls.append(('poisson', lam, size))
    if size is None and getattr(lam, 'ndim', 0):
      size = np.shape(lam)
    return self._many(size, lambda: self.h.int(f'{self.name}.poisson', 0, 2))

  def integers(self, low, high=None, size=None, endpoint=False, dtype=None):
    if high is None:
      low, high = 0, low
    self.calls.append(('integers', low, high, size))
    top = int(high) if endpoint else int(high) - 1
    return self._many(size, lambda: self.h.int(
        f'{self.name}.integers', int(low), top))

  def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
    self.calls.append(('choice', a, size, p))
    if isinstance(a, (int, np.integer)):
      pop = list(range(int(a)))
    else:
      pop = [a[i] for i in range(len(a))]
    if not pop:
      raise ValueError('a cannot be empty unless no samples are taken')
    if p is not None:
      if len(p) != len(pop):
        raise ValueError("'a' and 'p' must have same size")
    shp = self._shape(size)
    if not replace:
      n = int(np.prod(shp)) if shp is not None else 1
      if n > len(pop):
        raise ValueError('Cannot take a larger sample than population')
      rest = list(range(len(pop)))
      out = []
      for _ in range(n):
        i = self.h.pick(f'{self.name}.choice', range(len(rest)))
        out.append(pop[rest.pop(i)])
      if shp is None:
        return out[0]
      return self.h.array(out).reshape(shp)
    if shp is None:
      i = self.h.pick(f'{self.name}.choice', range(len(pop)))
      if p is not None:
        # only outcomes of positive probability can be drawn
        self.h.assume(p[i] > 0)
      self.last_choice = i
      return pop[i]
    return self._many(shp, lambda: pop[self.h.pick(
        f'{self.name}.choice', range(len(pop)))])

  def permutation(self, x, axis=0):
    n = int(x) if isinstance(x, (int, np.integer)) else len(x)
    rest = list(range(n))
    out = []
    while rest:
      out.append(rest.pop(self.h.pick(f'{self.name}.perm', range(len(rest)))))
    self.calls.append(('permutation', n))
    if isinstance(x, (int, np.integer)):
      return np.array(out, dtype=int)
    return x[np.array(out, dtype=int)]

  def shuffle(self, x, axis=0):
    p = self.permutation(len(x))
    y = [x[i] for i in p]
    for i, v in enumerate(y):
      x[i] = v
