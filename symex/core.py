"""Path-exploring symbolic executor for real CPython functions (z3 backend).

The functions of /repo run unmodified under CPython.  Their inputs are objects
that wrap z3 terms (SymReal / SymInt / SymBool).  Every branch on a symbolic
condition consults the solver; both feasible sides are explored by re-running
the harness with a longer decision prefix (depth-first search by replay).
"""

import fractions
import math
import operator
import random
import time

import numpy as np
import z3

from symex import canon

Fraction = fractions.Fraction

_CTX = None


def ctx():
  return _CTX


def active():
  return _CTX is not None


class EngineExit(BaseException):
  """Base of engine control flow; never caught by code under test."""


class PathAbort(EngineExit):
  """The current path is infeasible or ended by an assumption."""


class Unsupported(EngineExit):
  """The engine cannot represent an operation symbolically."""


class SolverUnknown(EngineExit):
  """The solver gave no answer for a query that matters."""


class BudgetExceeded(EngineExit):
  """The time/path budget of a harness ran out."""


# ----------------------------------------------------------------------------
# solver portfolio


def _cvc5_check(assertions, timeout_s):
  """Last-resort back end; returns 'sat' / 'unsat' / 'unknown'."""
  try:
    import cvc5  # pylint: disable=g-import-not-at-top
  except Exception:  # pylint: disable=broad-except
    return 'unknown'
  s = z3.Solver()
  s.add(*assertions)
  text = s.to_smt2()
  try:
    tm = cvc5.TermManager()
    slv = cvc5.Solver(tm)
    slv.setOption('tlimit-per', str(int(timeout_s * 1000)))
    slv.setLogic('ALL')
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
    sm = parser.getSymbolManager()
    res = 'unknown'
    while True:
      cmd = parser.nextCommand()
      if cmd.isNull():
        break
      out = cmd.invoke(slv, sm)
      out = out.decode() if isinstance(out, bytes) else str(out)
      if 'error' in out:
        return 'unknown'
      if out.strip() in ('sat', 'unsat', 'unknown'):
        res = out.strip()
    return res
  except Exception:  # pylint: disable=broad-except
    return 'unknown'


class Stats:

  def __init__(self):
    self.queries = 0
    self.solver_s = 0.0
    self.unknown = 0
    self.paths = 0
    self.pruned = 0
    self.decisions = 0
    self.concretised_paths = 0
    self.asserts = 0
    self.asserts_unsat = 0
    self.validated = 0
    self.replays = 0
    self.obs_compared = 0
    self.obs_mismatch = 0


class Ctx:
  """State of one symbolic run (one path), plus exploration bookkeeping."""

  def __init__(self, prefix=(), stats=None, seed=1, timeouts=(5, 30, 30),
               deadline=None):
    self.prefix = list(prefix)
    self.trace = []  # decisions taken: (kind, value)
    self.pending = []  # alternative prefixes found on this path
    self.pc = []
    self.inputs = {}  # name -> (kind, term, lo, hi)
    self.order = []
    self.stats = stats or Stats()
    self.seed = seed
    self.timeouts = (tuple(timeouts) + (timeouts[-1],) * 3)[:3]
    self.deadline = deadline
    self.fresh_n = 0
    self.solver = z3.Solver()
    self.solver.set('random_seed', seed)
    self.last_model = None
    self.concretised = []
    self.exp_terms = {}
    self.uf_terms = {}
    self.div_known = set()
    self.notes = []
    self.nl = False
    self.ackermann = {}
    self.formatted = None  # values behind placeholders, when a harness asks

  # -- variables
  def fresh(self, base, sort='real'):
    self.fresh_n += 1
    name = f'{base}!{self.fresh_n}'
    if sort == 'real':
      return z3.Real(name)
    if sort == 'int':
      return z3.Int(name)
    return z3.Bool(name)

  def add(self, cond, check=False):
    """Adds a (definitional or assumed) constraint to the path condition."""
    if isinstance(cond, (bool, np.bool_)):
      if not cond:
        raise PathAbort()
      return
    if isinstance(cond, SymBool):
      cond = cond.t
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return
    if z3.is_false(cond):
      raise PathAbort()
    self.pc.append(cond)
    self.solver.add(cond)
    if self.last_model is not None:
      try:
        if not z3.is_true(self.last_model.eval(cond, model_completion=True)):
          self.last_model = None
      except z3.Z3Exception:
        self.last_model = None
    if check and self.last_model is None:
      r = self.check()
      if r == 'unsat':
        raise PathAbort()
      if r == 'unknown':
        raise SolverUnknown('assumption')

  # -- solving
  def _tick(self):
    if self.deadline is not None and time.time() > self.deadline:
      raise BudgetExceeded()

  def check(self, *extra, want_model=True, budget=None):
    """Checks sat of pc and extra; keeps the model in self.model."""
    self._tick()
    t0 = time.time()
    self.stats.queries += 1
    self.model = None
    extra = [z3.simplify(e) for e in extra]
    if any(z3.is_false(e) for e in extra):
      return 'unsat'
    scale = budget or 1.0
    try:
      s = self.solver
      s.push()
      try:
        s.set('timeout', int(min(2.0, self.timeouts[0]) * 1000 * scale))
        s.add(*extra)
        r = s.check()
        if r == z3.sat:
          self.model = s.model()
          return 'sat'
        if r == z3.unsat:
          return 'unsat'
      finally:
        s.pop()
      if extra:
        for sub in self._slices(extra):
          s2 = z3.Tactic('qfnra-nlsat').solver()
          s2.set('timeout', int(self.timeouts[0] * 1000 * scale))
          s2.add(*sub)
          s2.add(*extra)
          try:
            if s2.check() == z3.unsat:
              return 'unsat'
          except z3.Z3Exception:
            pass
      for maker in (
          lambda: z3.Tactic('qfnra-nlsat').solver(),
          z3.Solver,
          lambda: z3.SolverFor('QF_NRA'),
          lambda: z3.SolverFor('QF_NIRA'),
      ):
        try:
          s2 = maker()
          s2.set('timeout', int(self.timeouts[1] * 1000 * scale))
          s2.add(*self.pc)
          s2.add(*extra)
          r = s2.check()
        except z3.Z3Exception:
          continue
        if r == z3.sat:
          self.model = s2.model()
          return 'sat'
        if r == z3.unsat:
          return 'unsat'
      r = _cvc5_check(self.pc + extra, self.timeouts[2] * scale)
      if r == 'unsat':
        return 'unsat'
      self.stats.unknown += 1
      return 'unknown'
    finally:
      self.stats.solver_s += time.time() - t0

  def _vars(self, t):
    memo = self.__dict__.setdefault('_varmemo', {})
    k = t.get_id()
    if k in memo:
      return memo[k][0]
    out = set()
    seen = set()
    stack = [t]
    while stack:
      x = stack.pop()
      if x.get_id() in seen:
        continue
      seen.add(x.get_id())
      if z3.is_const(x):
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
          out.add(x.decl().name())
      else:
        stack.extend(x.children())
    memo[k] = (frozenset(out), t)
    return memo[k][0]

  def _slices(self, extra):
    """Growing subsets of the path condition relevant to a query."""
    v = set()
    for e in extra:
      v |= self._vars(e)
    out = []
    last = -1
    for _ in range(3):
      sub = [p for p in self.pc if self._vars(p) <= v]
      if len(sub) == len(self.pc):
        break
      if len(sub) != last:
        out.append(sub)
        last = len(sub)
      grow = set(v)
      for p in self.pc:
        if self._vars(p) & v:
          grow |= self._vars(p)
      if grow == v:
        break
      v = grow
    return out

  def _get_model(self):
    if self.last_model is None:
      r = self.check()
      if r == 'unsat':
        raise PathAbort()
      if r == 'sat':
        self.last_model = self.model
      elif r == 'unknown':
        self.last_model = self._guess_model()
    return self.last_model

  def _guess_model(self, extra=(), tries=10):
    """Looks for a model by fixing the inputs to random rational values."""
    rnd = random.Random(self.seed)
    trip = [(3, 4, 5), (-3, 4, 5), (4, -3, 5), (5, 12, 13), (-12, -5, 13),
            (8, 15, 17), (1, 0, 1), (0, 1, 1), (-7, 24, 25)]
    for k in range(tries):
      s = z3.Tactic('qfnra-nlsat').solver() if k % 2 else z3.Solver()
      s.set('timeout', 2000)
      s.add(*self.pc)
      s.add(*extra)
      for kind, t, lo, hi in self.inputs.values():
        if kind == 'real':
          a = -2.0 if lo is None else float(lo)
          b = 2.0 if hi is None else float(hi)
          a, b = max(a, -20.0) if b > -20 else a, min(b, 20.0) if a < 20 else b
          v = Fraction(round((a + (b - a) * rnd.random()) * 64), 64)
          v = min(max(v, Fraction(a)), Fraction(b))
          s.add(t == z3.Q(v.numerator, v.denominator))
        elif kind == 'angle':
          c, d, r = rnd.choice(trip)
          s.add(t[0] == z3.Q(c, r), t[1] == z3.Q(d, r))
      if s.check() == z3.sat:
        return s.model()
    return None

  def fork(self, cond):
    """Decides a symbolic condition; returns a Python bool."""
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    i = len(self.trace)
    if i < len(self.prefix):
      kind, val = self.prefix[i]
      assert kind == 'b', 'non-deterministic harness (branch kind changed)'
      self.trace.append(('b', val))
      self._commit(cond if val else z3.Not(cond))
      return val
    self.stats.decisions += 1
    model = self._get_model()
    guess = None
    if model is not None:
      v = model.eval(cond, model_completion=True)
      if z3.is_true(v):
        guess = True
      elif z3.is_false(v):
        guess = False
    if guess is None:
      rt = self.check(cond)
      mt = self.model
      rf = self.check(z3.Not(cond))
      mf = self.model
      if rt == 'unsat' and rf == 'unsat':
        raise PathAbort()
      val = rt != 'unsat'
      both = rt != 'unsat' and rf != 'unsat'
      keep = mt if val else mf
    else:
      other = z3.Not(cond) if guess else cond
      ro = self.check(other)
      val = guess
      both = ro != 'unsat'
      keep = model
    if both:
      self.pending.append(self.trace + [('b', not val)])
    else:
      # forced: still recorded so that replays stay aligned
      pass
    self.trace.append(('b', val))
    self._commit(cond if val else z3.Not(cond))
    if keep is not None:
      self.last_model = keep
    return val

  def _commit(self, cond):
    self.pc.append(cond)
    self.solver.add(cond)
    if self.last_model is not None:
      v = self.last_model.eval(cond, model_completion=True)
      if not z3.is_true(v):
        self.last_model = None

  def choose(self, n, label=''):
    """Non-deterministic choice among n concrete alternatives."""
    i = len(self.trace)
    if i < len(self.prefix):
      kind, val = self.prefix[i]
      assert kind == 'c', 'non-deterministic harness (choice kind changed)'
      self.trace.append(('c', val))
      return val
    for alt in range(1, n):
      self.pending.append(self.trace + [('c', alt)])
    self.trace.append(('c', 0))
    return 0

  def concretise_int(self, term, cap=80):
    """Forks over the feasible values of an integer term."""
    term = z3.simplify(term)
    if z3.is_int_value(term):
      return term.as_long()
    for _ in range(cap):
      i = len(self.trace)
      if i < len(self.prefix):
        kind, val = self.prefix[i]
        assert kind in ('i', 'n'), 'non-deterministic harness (int choice)'
        self.trace.append((kind, val))
        if kind == 'i':
          self._commit(term == val)
          return val
        self._commit(term != val)
        continue
      self.stats.decisions += 1
      model = self._get_model()
      if model is None:
        raise SolverUnknown('integer concretisation')
      v = model.eval(term, model_completion=True)
      v = z3.simplify(v)
      if not z3.is_int_value(v):
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
          v = v.numerator_as_long()
        else:
          raise SolverUnknown('integer concretisation: ' + str(v))
      else:
        v = v.as_long()
      r = self.check(term != v)
      if r != 'unsat':
        self.pending.append(self.trace + [('n', v)])
      self.trace.append(('i', v))
      self._commit(term == v)
      return v
    raise Unsupported('integer with too many feasible values')

  def concretise_real(self, term, why='float()'):
    """Pins a real term to one model value; the path becomes a sample."""
    term = z3.simplify(term)
    v = const_of(term)
    if v is not None:
      return float(v)
    self.concretised.append(why)
    i = len(self.trace)
    if i < len(self.prefix):
      kind, f = self.prefix[i]
      assert kind == 'r', 'non-deterministic harness (real choice)'
    else:
      model = self._get_model()
      if model is None:
        raise SolverUnknown('real concretisation')
      f = float_of(model.eval(term, model_completion=True))
    self.trace.append(('r', f))
    eps = z3.Q(1, 10**9)
    c = real_const(f)
    r = self.check(term == c)
    if r == 'sat':
      self.last_model = self.model
      self._commit(term == c)
    else:
      self._commit(z3.And(term >= c - eps, term <= c + eps))
    return f


# ----------------------------------------------------------------------------
# constants


def real_const(x):
  if isinstance(x, (bool, np.bool_)):
    return z3.RealVal(1 if x else 0)
  if isinstance(x, (int, np.integer)):
    return z3.RealVal(int(x))
  if isinstance(x, Fraction):
    return z3.Q(x.numerator, x.denominator)
  x = float(x)
  if math.isinf(x) or math.isnan(x):
    raise Unsupported('non-finite constant in a symbolic term')
  fr = Fraction(repr(x))
  return z3.Q(fr.numerator, fr.denominator)


def const_of(t):
  """Fraction value of a literal z3 term, or None."""
  if z3.is_int_value(t):
    return Fraction(t.as_long())
  if z3.is_rational_value(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())
  return None


def float_of(v):
  v = z3.simplify(v)
  c = const_of(v)
  if c is not None:
    return float(c)
  if z3.is_algebraic_value(v):
    a = v.approx(30)
    return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
  raise SolverUnknown('model value ' + str(v))


def is_num(x):
  return isinstance(x, (int, float, np.integer, np.floating, np.bool_, bool))


def is_sym(x):
  return isinstance(x, (SymReal, SymInt, SymBool))


# ----------------------------------------------------------------------------
# symbolic scalars


def mkbool(t):
  t = z3.simplify(t)
  if z3.is_true(t):
    return True
  if z3.is_false(t):
    return False
  return SymBool(t)


def to_bool_term(x):
  if isinstance(x, SymBool):
    return x.t
  if isinstance(x, (bool, np.bool_)):
    return z3.BoolVal(bool(x))
  if isinstance(x, (SymReal, SymInt)):
    return term(x) != 0
  if is_num(x):
    return z3.BoolVal(bool(x))
  if isinstance(x, np.ndarray) and x.size == 1:
    return to_bool_term(x.reshape(-1)[0])
  raise Unsupported(f'bool of {type(x)}')


def _ufunc_hook(self, ufunc, method, *inputs, **kwargs):
  from symex import arr  # pylint: disable=g-import-not-at-top
  return arr.array_ufunc(ufunc, method, *inputs, **kwargs)


class _Scalar:
  """numpy-scalar-like conveniences shared by symbolic scalars."""

  __array_priority__ = 1000
  __array_ufunc__ = _ufunc_hook
  shape = ()
  ndim = 0
  size = 1

  def item(self):
    return self

  def copy(self):
    return self

  def __copy__(self):
    return self

  def __deepcopy__(self, memo):
    return self

  def tolist(self):
    return self

  def reshape(self, *shape):
    from symex import arr  # pylint: disable=g-import-not-at-top
    return arr.mk(self).reshape(*shape)

  def flatten(self):
    return self.reshape(-1)

  ravel = flatten

  def squeeze(self, *a, **k):
    return self

  def sum(self, *a, **k):
    return self

  mean = max = min = sum

  def all(self, *a, **k):
    return mkbool(to_bool_term(self))

  any = all

  def astype(self, dtype, **kw):
    from symex import arr  # pylint: disable=g-import-not-at-top
    return arr.cast(self, np.dtype(dtype))

  def __format__(self, spec):
    if _CTX is not None and _CTX.formatted is not None:
      _CTX.formatted.append((self, spec))
      return f'\u27e6{len(_CTX.formatted) - 1}\u27e7'
    return '<sym>'

  def __hash__(self):
    # Hashing decides equality classes: pin the value.
    return hash(self._pin())

  def block_until_ready(self):
    return self


class SymBool(_Scalar):
  __slots__ = ('t',)
  dtype = np.dtype(bool)

  def __init__(self, t):
    self.t = t

  def _pin(self):
    return bool(self)

  def __bool__(self):
    c = _CTX
    if c is None:
      raise Unsupported('symbolic bool outside a run')
    return c.fork(self.t)

  def __index__(self):
    return int(bool(self))

  __int__ = __index__

  def __float__(self):
    return float(bool(self))

  def __and__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    return mkbool(z3.And(self.t, to_bool_term(o)))

  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    return mkbool(z3.Or(self.t, to_bool_term(o)))

  __ror__ = __or__

  def __xor__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    return mkbool(z3.Xor(self.t, to_bool_term(o)))

  __rxor__ = __xor__

  def __invert__(self):
    return mkbool(z3.Not(self.t))

  def __eq__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    if isinstance(o, (SymBool, bool, np.bool_)):
      return mkbool(self.t == to_bool_term(o))
    return as_int(self) == o

  def __ne__(self, o):
    r = self.__eq__(o)
    if r is NotImplemented:
      return r
    return bnot(r)

  __hash__ = _Scalar.__hash__

  def __repr__(self):
    return f'SymBool({self.t})'


def bnot(x):
  if isinstance(x, SymBool):
    return ~x
  return not x


def as_int(b):
  return SymInt(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))


def _forward(name):
  op = getattr(operator, name)

  def f(self, o):
    return op(as_int(self), o)

  def rf(self, o):
    return op(o, as_int(self))

  return f, rf


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
  _f, _rf = _forward(_n)
  setattr(SymBool, f'__{_n}__', _f)
  setattr(SymBool, f'__r{_n}__', _rf)
for _n in ('lt', 'le', 'gt', 'ge'):
  _f, _ = _forward(_n)
  setattr(SymBool, f'__{_n}__', _f)
SymBool.__neg__ = lambda self: -as_int(self)


def term(x, want_real=False):
  """z3 arithmetic term of a scalar."""
  if isinstance(x, SymReal):
    return x.t
  if isinstance(x, SymInt):
    return z3.ToReal(x.t) if want_real else x.t
  if isinstance(x, SymBool):
    i = z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.ToReal(i) if want_real else i
  if isinstance(x, (bool, np.bool_)):
    return z3.RealVal(int(x)) if want_real else z3.IntVal(int(x))
  if isinstance(x, (int, np.integer)):
    return z3.RealVal(int(x)) if want_real else z3.IntVal(int(x))
  if isinstance(x, (float, np.floating, Fraction)):
    return real_const(x)
  if isinstance(x, np.ndarray) and x.size == 1:
    return term(x.reshape(-1)[0], want_real)
  raise Unsupported(f'arithmetic with {type(x)}')


def nonfinite(x):
  return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def fork_cond(b):
  return bool(b)


def _foreign(o):
  return isinstance(o, np.ndarray) and o.ndim > 0 or not (
      is_sym(o) or is_num(o) or isinstance(o, (Fraction, np.ndarray))
  )


def _unwrap(o):
  if isinstance(o, np.ndarray) and o.ndim == 0:
    return o[()] if not isinstance(o.item(), _Scalar) else o.item()
  return o


def _nf_arith(op, a, b):
  """Arithmetic where at least one operand is a non-finite float."""
  x = b if is_sym(a) else a
  if math.isnan(x):
    return float('nan')
  s = a if is_sym(a) else b
  if op in ('add', 'sub'):
    if is_sym(a):
      return x if op == 'add' else -x
    return x
  if op == 'mul':
    if bool(s == 0):
      return float('nan')
    return x if bool(s > 0) else -x
  if op == 'truediv':
    if is_sym(a):
      return 0.0
    if bool(s == 0):
      return x
    return x if bool(s > 0) else -x
  raise Unsupported('non-finite arithmetic ' + op)


def _is_real(x):
  return isinstance(x, (SymReal, float, np.floating, Fraction))


def wrap(t):
  """Wraps a z3 arithmetic term, folding literals to Python numbers."""
  if t.is_int():
    if z3.is_int_value(t):
      return t.as_long()
    return SymInt(t)
  c = const_of(t)
  if c is not None:
    return np.float64(float(c))
  return SymReal(t)


def arith(op, a, b):
  """Binary arithmetic on scalars, at least one of them symbolic."""
  if _foreign(a) or _foreign(b):
    return NotImplemented
  a, b = _unwrap(a), _unwrap(b)
  if nonfinite(a) or nonfinite(b):
    if not (is_sym(a) or is_sym(b)):
      return getattr(operator, op)(a, b)
    return _nf_arith(op, a, b)
  ang = _angle_arith(op, a, b)
  if ang is not None:
    return ang
  real = op == 'truediv' or _is_real(a) or _is_real(b)
  # cheap identities keep terms small
  if is_num(b) and not isinstance(b, bool):
    if op in ('add', 'sub') and b == 0 and isinstance(a, SymReal):
      return a
    if op in ('mul', 'truediv') and b == 1 and isinstance(a, SymReal):
      return a
    if op == 'mul' and b == 0:
      return np.float64(0.0) if real else 0
  if is_num(a) and not isinstance(a, bool):
    if op == 'add' and a == 0 and isinstance(b, SymReal):
      return b
    if op == 'mul' and a == 1 and isinstance(b, SymReal):
      return b
    if op in ('mul', 'truediv') and a == 0:
      if op == 'truediv':
        if bool(b == 0):
          return float('nan')
      return np.float64(0.0) if real else 0
  ta, tb = term(a, real), term(b, real)
  if op == 'add':
    r = ta + tb
  elif op == 'sub':
    r = ta - tb
  elif op == 'mul':
    # sqrt(x)*sqrt(x)
    if (isinstance(a, SymReal) and isinstance(b, SymReal)
        and a.sq is not None and a is b):
      return wrap(a.sq)
    r = ta * tb
  elif op == 'truediv':
    if is_num(b):
      if b == 0:
        if bool(a == 0):
          return float('nan')
        return float('inf') if bool(a > 0) else float('-inf')
    else:
      c = _CTX
      k = canon.const(tb)
      if k is not None and k != 0:
        return arith(op, a, np.float64(float(k)))
      q = canon.const(ta / tb) if k is None else None
      key = tb.get_id()
      if key not in c.div_known:
        if bool(mkbool(tb == 0)):
          if bool(mkbool(ta == 0)):
            return float('nan')
          return float('inf') if bool(mkbool(ta > 0)) else float('-inf')
        c.div_known.add(key)
        c.uf_terms.setdefault('keep', []).append(tb)
      if q is not None:
        return np.float64(float(q))
    r = ta / tb
  elif op == 'floordiv':
    return floordiv(a, b)
  elif op == 'mod':
    return mod(a, b)
  elif op == 'pow':
    return power(a, b)
  else:
    raise Unsupported(op)
  return wrap(z3.simplify(r))


def floor_(a):
  if isinstance(a, SymInt):
    return a
  return SymInt(z3.ToInt(a.t))


def floordiv(a, b):
  if isinstance(a, (SymInt, int, np.integer, SymBool, bool)) and isinstance(
      b, (SymInt, int, np.integer, SymBool, bool)):
    ta, tb = term(a), term(b)
    if not is_num(b):
      if bool(mkbool(tb == 0)):
        raise ZeroDivisionError('integer division or modulo by zero')
      if bool(mkbool(tb > 0)):
        return wrap(z3.simplify(ta / tb))
      return wrap(z3.simplify((-ta) / (-tb)))
    if b == 0:
      raise ZeroDivisionError('integer division or modulo by zero')
    if b > 0:
      return wrap(z3.simplify(ta / tb))  # z3 int div floors for tb > 0
    return wrap(z3.simplify((-ta) / (-tb)))
  q = arith('truediv', a, b)
  if not is_sym(q):
    return np.floor(q)
  return SymReal(z3.ToReal(z3.ToInt(term(q, True))))


def mod(a, b):
  if isinstance(a, (SymInt, int, np.integer, SymBool, bool)) and isinstance(
      b, (SymInt, int, np.integer, SymBool, bool)):
    return arith('sub', a, arith('mul', floordiv(a, b), b)) if is_sym(
        a) or is_sym(b) else a % b
  q = floordiv(a, b)
  m = q * b
  return a - m


def power(a, b):
  if is_num(b):
    fb = float(b)
    if fb == int(fb) and 0 <= fb <= 6:
      n = int(fb)
      if n == 0:
        return 1 if isinstance(a, SymInt) else np.float64(1.0)
      if (n == 2 and isinstance(a, SymReal) and a.sq is not None):
        return wrap(a.sq)
      r = a
      for _ in range(n - 1):
        r = r * a
      return r
    if fb == 0.5:
      return sqrt(a)
    if fb == -1.0:
      return np.float64(1.0) / a
    if fb == int(fb) and -6 <= fb < 0:
      return np.float64(1.0) / power(a, -b)
    # x ** const = exp(const * log x)
    return exp(log(a) * fb)
  if is_num(a):
    fa = float(a)
    if fa > 0:
      return pow_const_base(fa, b)
  return exp(log(a) * b)


def pow_const_base(base, e):
  """base ** e for a positive constant base: exp(e log base)."""
  if base == 1.0:
    return np.float64(1.0)
  return exp(e * math.log(base))


def _mono_uf(name, x, increasing, fixed=(), positive=False):
  c = _CTX
  tx = canon.canon(term(x, True), 12)
  k = const_of(tx)
  if k is not None and name in ('exp', 'log'):
    return getattr(np, name)(float(k))
  seen = c.uf_terms.setdefault(name, [])
  for t, y in seen:
    if t.eq(tx):
      return SymReal(y)
  y = c.fresh(name)
  def rel(t1, y1, t2, y2):
    if increasing:
      c.add(z3.And(z3.Implies(t1 < t2, y1 < y2), z3.Implies(t1 > t2, y1 > y2),
                   z3.Implies(t1 == t2, y1 == y2)))
    else:
      c.add(z3.And(z3.Implies(t1 < t2, y1 > y2), z3.Implies(t1 > t2, y1 < y2),
                   z3.Implies(t1 == t2, y1 == y2)))
  if positive:
    c.add(y > 0)
    # 1 + t <= exp(t), and exp(t) <= 1 + 2|t| for |t| <= 1/2
    c.add(z3.And(y >= 1 + tx,
                 z3.Implies(z3.And(tx >= 0, tx <= z3.Q(1, 2)),
                            y <= 1 + 2 * tx)))
  for (px, py) in fixed:
    rel(tx, y, real_const(px), real_const(py))
  for t, yy in seen:
    rel(tx, y, t, yy)
  seen.append((tx, y))
  return SymReal(y)


def exp(x):
  if is_num(x):
    return np.exp(x)
  c = _CTX
  r = _mono_uf('exp', x, True, fixed=[(0.0, 1.0)], positive=True)
  return r


def log(x):
  if is_num(x):
    return np.log(x)
  if bool(x <= 0):
    if bool(x == 0):
      return float('-inf')
    return float('nan')
  return _mono_uf('log', x, True, fixed=[(1.0, 0.0)])


def sqrt(x):
  if is_num(x):
    return np.sqrt(x)
  if isinstance(x, SymBool):
    return SymReal(z3.ToReal(term(x)))
  tx = canon.canon(z3.simplify(term(x, True)), 12)
  c = const_of(tx)
  if c is not None:
    return np.sqrt(float(c))
  return SymReal(None, sq=tx)


def square(x):
  return x * x if not (isinstance(x, SymReal) and x.sq is not None) else wrap(
      x.sq)


def cmp(op, a, b):
  if _foreign(a) or _foreign(b):
    return NotImplemented
  a, b = _unwrap(a), _unwrap(b)
  if nonfinite(a) or nonfinite(b):
    if nonfinite(a) and nonfinite(b):
      return getattr(operator, op)(a, b)
    x = b if is_sym(a) else a
    if math.isnan(x):
      return op == 'ne'
    if is_sym(a):  # finite vs +-inf
      return getattr(operator, op)(0.0, x)
    return getattr(operator, op)(x, 0.0)
  ang = _angle_cmp(op, a, b)
  if ang is not None:
    return ang
  # lazy square roots: compare squares
  sa = isinstance(a, SymReal) and a.sq is not None
  sb = isinstance(b, SymReal) and b.sq is not None
  if sa and sb:
    return _cmp_terms(op, a.sq, b.sq)
  if sa and is_num(b):
    bb = Fraction(repr(float(b)))
    if bb >= 0:
      return _cmp_terms(op, a.sq, real_const(bb * bb))
    return getattr(operator, op)(1, 0)
  if sb and is_num(a):
    aa = Fraction(repr(float(a)))
    if aa >= 0:
      return _cmp_terms(op, real_const(aa * aa), b.sq)
    return getattr(operator, op)(0, 1)
  real = _is_real(a) or _is_real(b)
  return _cmp_terms(op, term(a, real), term(b, real))


def _cmp_terms(op, ta, tb):
  if ta.is_real() and tb.is_real() and canon.has_rules():
    d = canon.canon(ta - tb)
    k = const_of(d)
    if k is not None:
      return getattr(operator, op)(k, 0)
    ta, tb = d, z3.RealVal(0)
  if op == 'lt':
    r = ta < tb
  elif op == 'le':
    r = ta <= tb
  elif op == 'gt':
    r = ta > tb
  elif op == 'ge':
    r = ta >= tb
  elif op == 'eq':
    r = ta == tb
  else:
    r = ta != tb
  return mkbool(r)


class SymInt(_Scalar):
  """Mathematical integer (Python int / int64 without overflow)."""

  __slots__ = ('t',)
  dtype = np.dtype(np.int64)

  def __init__(self, t):
    self.t = t

  def _pin(self):
    return self.__index__()

  def __index__(self):
    return _CTX.concretise_int(self.t)

  def __int__(self):
    return _CTX.concretise_int(self.t)

  def __float__(self):
    return float(_CTX.concretise_int(self.t))

  def __bool__(self):
    return _CTX.fork(self.t != 0)

  def __round__(self, n=None):
    return self

  def __trunc__(self):
    return self

  def __floor__(self):
    return self

  def __ceil__(self):
    return self

  def __and__(self, o):
    return self.__index__() & int(o)

  __rand__ = __and__

  def __or__(self, o):
    return self.__index__() | int(o)

  __ror__ = __or__

  def __repr__(self):
    return f'SymInt({self.t})'


class SymReal(_Scalar):
  """A real-valued number; `sq` marks a lazy square root of a term."""

  __slots__ = ('_t', 'sq', 'ang')
  dtype = np.dtype(np.float64)

  def __init__(self, t, sq=None, ang=None):
    self._t = t
    self.sq = sq
    self.ang = ang

  @property
  def t(self):
    if self._t is None:
      c = _CTX
      if self.sq is not None:
        memo = c.uf_terms.setdefault('sqrt', {})
        key = self.sq.get_id()
        if key in memo:
          self._t = memo[key][0]
        else:
          r = c.fresh('sqrt')
          c.add(z3.And(r >= 0, r * r == self.sq))
          canon.root(r, self.sq)
          memo[key] = (r, self.sq)
          self._t = r
      elif self.ang is not None:
        self._t = self.ang.real_term()
    return self._t

  def _pin(self):
    return _CTX.concretise_real(self.t, 'hash()')

  def __float__(self):
    return _CTX.concretise_real(self.t, 'float()')

  def __int__(self):
    tt = self.t
    return _CTX.concretise_int(
        z3.If(tt >= 0, z3.ToInt(tt), -z3.ToInt(-tt)))

  def __trunc__(self):
    tt = self.t
    return SymInt(z3.If(tt >= 0, z3.ToInt(tt), -z3.ToInt(-tt)))

  def __floor__(self):
    return SymInt(z3.ToInt(self.t))

  def __ceil__(self):
    return SymInt(-z3.ToInt(-self.t))

  def __round__(self, n=None):
    r = round_half_even(self, n or 0)
    if n is None:
      return SymInt(z3.ToInt(term(r, True))) if is_sym(r) else int(r)
    return r

  def __bool__(self):
    return _CTX.fork(self.t != 0)

  def is_integer(self):
    return mkbool(z3.IsInt(self.t))

  def conjugate(self):
    return self

  @property
  def real(self):
    return self

  def __repr__(self):
    return f'SymReal({self._t if self._t is not None else self.sq})'


def round_half_even(x, decimals=0):
  if is_num(x):
    return np.round(x, decimals)
  if isinstance(x, (SymInt, SymBool)) and decimals >= 0:
    return x
  s = 10**decimals
  y = term(x, True) * real_const(Fraction(10) ** decimals)
  f = z3.ToInt(y)
  frac = y - z3.ToReal(f)
  half = z3.Q(1, 2)
  even = f % 2 == 0
  r = z3.If(frac < half, f, z3.If(frac > half, f + 1, z3.If(even, f, f + 1)))
  return wrap(z3.ToReal(r) / real_const(Fraction(10) ** decimals))


def _install_ops(cls):
  for name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    def f(self, o, _n=name):
      return arith(_n, self, o)
    def rf(self, o, _n=name):
      return arith(_n, o, self)
    setattr(cls, f'__{name}__', f)
    setattr(cls, f'__r{name}__', rf)
  for name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    def g(self, o, _n=name):
      return cmp(_n, self, o)
    setattr(cls, f'__{name}__', g)

  def neg(self):
    if isinstance(self, SymReal) and self.ang is not None:
      r = _angle_arith('sub', 0.0, self)
      if r is not None:
        return r
    return wrap(z3.simplify(-self.t))

  cls.__neg__ = neg
  cls.__pos__ = lambda self: self

  def abs_(self):
    if isinstance(self, SymReal) and self.sq is not None:
      return self
    t = self.t
    return wrap(z3.simplify(z3.If(t >= 0, t, -t)))

  cls.__abs__ = abs_

  def divmod_(self, o):
    return floordiv(self, o), mod(self, o)

  def rdivmod_(self, o):
    return floordiv(o, self), mod(o, self)

  cls.__divmod__ = divmod_
  cls.__rdivmod__ = rdivmod_
  cls.__hash__ = _Scalar.__hash__


_install_ops(SymReal)
_install_ops(SymInt)


def ite(c, a, b):
  """If-then-else on scalars without forking where possible."""
  if isinstance(c, (bool, np.bool_)):
    return a if c else b
  if not isinstance(c, SymBool):
    c = mkbool(to_bool_term(c))
    if isinstance(c, bool):
      return a if c else b
  if a is b:
    return a
  if nonfinite(a) or nonfinite(b):
    return a if bool(c) else b
  if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(
      b, (SymBool, bool, np.bool_)):
    return mkbool(z3.If(c.t, to_bool_term(a), to_bool_term(b)))
  if (is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b)):
    if is_num(a) and is_num(b) and a == b:
      return a
    if _has_ang(a) or _has_ang(b):
      return a if bool(c) else b
    real = _is_real(a) or _is_real(b)
    return wrap(z3.simplify(z3.If(c.t, term(a, real), term(b, real))))
  return a if bool(c) else b


def smin(a, b):
  if nonfinite(a) or nonfinite(b):
    if (nonfinite(a) and math.isnan(a)) or (nonfinite(b) and math.isnan(b)):
      return float('nan')
    return a if bool(a <= b) else b
  if not (is_sym(a) or is_sym(b)):
    return np.minimum(a, b)
  return ite(a <= b, a, b)


def smax(a, b):
  if nonfinite(a) or nonfinite(b):
    if (nonfinite(a) and math.isnan(a)) or (nonfinite(b) and math.isnan(b)):
      return float('nan')
    return a if bool(a >= b) else b
  if not (is_sym(a) or is_sym(b)):
    return np.maximum(a, b)
  return ite(a >= b, a, b)


# ----------------------------------------------------------------------------
# angles: a unit vector (c, s) plus the half-open turn it is normalised to.


class Angle:
  """An angle: unit vector (c,s); value = base + principal(c,s), where
  principal is in (-pi, pi] if closed='hi' and in [-pi, pi) otherwise.

  Concretely: value v satisfies cos v = c, sin v = s and
  lo < v <= lo + 2pi (closed 'hi') or lo <= v < lo + 2pi (closed 'lo').
  lo is a Python float, or None when the turn is unknown/irrelevant.
  """

  def __init__(self, c, s, lo=None, closed='hi'):
    self.c = c
    self.s = s
    self.lo = lo
    self.closed = closed
    self._r = None

  def real_term(self):
    if self._r is None:
      cx = _CTX
      memo = cx.uf_terms.setdefault('angles', [])
      r = cx.fresh('ang')
      pi2 = real_const(2 * math.pi)
      if self.lo is not None:
        lo = real_const(self.lo)
        if self.closed == 'hi':
          cx.add(z3.And(r > lo, r <= lo + pi2))
        else:
          cx.add(z3.And(r >= lo, r < lo + pi2))
      cx.notes.append('angle value used outside cos/sin/compare')
      self._r = r
      memo.append(self)
    return self._r

  def rotate(self, a):
    """Unit vector of self - a (a: Python float)."""
    ca, sa = math.cos(a), math.sin(a)
    return (self.c * ca + self.s * sa, self.s * ca - self.c * sa)


def _has_ang(x):
  return isinstance(x, SymReal) and x.ang is not None


def mk_angle(c, s, lo=None, closed='hi'):
  return SymReal(None, ang=Angle(c, s, lo, closed))


def _angle_arith(op, a, b):
  if not (_has_ang(a) or _has_ang(b)):
    return None
  if op in ('add', 'sub'):
    if _has_ang(a) and _has_ang(b):
      x, y = a.ang, b.ang
      if op == 'add':
        return mk_angle(x.c * y.c - x.s * y.s, x.s * y.c + x.c * y.s)
      return mk_angle(x.c * y.c + x.s * y.s, x.s * y.c - x.c * y.s)
    if _has_ang(a) and is_num(b):
      k = float(b) if op == 'add' else -float(b)
      x = a.ang
      ck, sk = _exact_cs(k)
      return mk_angle(x.c * ck - x.s * sk, x.s * ck + x.c * sk,
                      None if x.lo is None else x.lo + k, x.closed)
    if _has_ang(b) and is_num(a):
      y = b.ang
      k = float(a)
      ck, sk = _exact_cs(k)
      if op == 'add':
        return mk_angle(y.c * ck - y.s * sk, y.s * ck + y.c * sk,
                        None if y.lo is None else y.lo + k, y.closed)
      # k - y
      lo = None if y.lo is None else k - (y.lo + 2 * math.pi)
      return mk_angle(y.c * ck + y.s * sk, sk * y.c - ck * y.s, lo,
                      'lo' if y.closed == 'hi' else 'hi')
  if op == 'mul' and (is_num(a) or is_num(b)):
    k = float(a if is_num(a) else b)
    y = b if _has_ang(b) else a
    if k == 1.0:
      return y
    if k == -1.0:
      return _angle_arith('sub', 0.0, y)
    if k == 0.0:
      return np.float64(0.0)
    if k == int(k) and 2 <= abs(k) <= 4:
      r = y
      for _ in range(int(abs(k)) - 1):
        r = _angle_arith('add', r, y)
      r.ang.lo = None
      return r if k > 0 else _angle_arith('sub', 0.0, r)
  if op == 'mod' and _has_ang(a) and is_num(b):
    if abs(float(b) - 2 * math.pi) < 1e-9:
      return mk_angle(a.ang.c, a.ang.s, 0.0, 'lo')
  return None


def _exact_cs(k):
  """cos, sin of a constant, snapped at multiples of pi/2."""
  c, s = math.cos(k), math.sin(k)
  for v in (-1.0, 0.0, 1.0):
    if abs(c - v) < 1e-15:
      c = v
    if abs(s - v) < 1e-15:
      s = v
  return c, s


def _ang_key(c, s, closed):
  """Sector of a unit vector within one turn starting at angle 0.

  closed 'lo': [0, 2pi) ; closed 'hi': (0, 2pi].
  Returns SymBool: upper half turn (first half).
  """
  if closed == 'lo':
    first = lor(s > 0, land(s == 0, c > 0))
  else:
    first = lor(s > 0, land(s == 0, c < 0))
  return first


def land(*xs):
  return mkbool(z3.And(*[to_bool_term(x) for x in xs]))


def lor(*xs):
  return mkbool(z3.Or(*[to_bool_term(x) for x in xs]))


def lnot(x):
  return mkbool(z3.Not(to_bool_term(x)))


def implies(a, b):
  return lor(lnot(a), b)


def _angle_cmp(op, a, b):
  if not (_has_ang(a) or _has_ang(b)):
    return None
  if _has_ang(a) and _has_ang(b):
    x, y = a.ang, b.ang
    if x.lo is None or y.lo is None:
      return None
    if abs(x.lo - y.lo) > 1e-12 or x.closed != y.closed:
      return None
    xc, xs = x.rotate(x.lo) if x.lo else (x.c, x.s)
    yc, ys = y.rotate(y.lo) if y.lo else (y.c, y.s)
    cl = x.closed
  else:
    x = a.ang if _has_ang(a) else b.ang
    k = float(b) if _has_ang(a) else float(a)
    if x.lo is None:
      return None
    # constants outside the turn are decided immediately
    if k < x.lo - 1e-12 or k > x.lo + 2 * math.pi + 1e-12:
      lhs, rhs = (x.lo, k) if _has_ang(a) else (k, x.lo)
      if k > x.lo:
        lhs, rhs = (0, 1) if _has_ang(a) else (1, 0)
      else:
        lhs, rhs = (1, 0) if _has_ang(a) else (0, 1)
      return getattr(operator, op)(lhs, rhs)
    kk = k - x.lo
    if abs(kk) < 1e-12 or abs(kk - 2 * math.pi) < 1e-12:
      at_lo = abs(kk) < 1e-12
      ca, sa = x.rotate(x.lo) if x.lo else (x.c, x.s)
      is_zero = land(sa == 0, ca > 0)  # value at the closed end
      if at_lo:
        if x.closed == 'lo':  # v in [lo, ..): v == k iff is_zero
          eq, lt, gt = is_zero, False, lnot(is_zero)
        else:
          eq, lt, gt = False, False, True
      else:
        if x.closed == 'hi':
          eq, lt, gt = is_zero, lnot(is_zero), False
        else:
          eq, lt, gt = False, True, False
      if not _has_ang(a):
        lt, gt = gt, lt
      return {'lt': lt, 'le': lor(lt, eq), 'gt': gt, 'ge': lor(gt, eq),
              'eq': eq, 'ne': lnot(eq)}[op]
    kc, ks = math.cos(kk), math.sin(kk)
    if abs(kk - math.pi) < 1e-12:
      kc, ks = -1.0, 0.0
    vx = x.rotate(x.lo) if x.lo else (x.c, x.s)
    if _has_ang(a):
      (xc, xs), (yc, ys) = vx, (kc, ks)
    else:
      (xc, xs), (yc, ys) = (kc, ks), vx
    cl = x.closed
  fx = _ang_key(xc, xs, cl)
  fy = _ang_key(yc, ys, cl)
  cross = xc * ys - xs * yc  # > 0: y is counter-clockwise of x
  dot = xc * yc + xs * ys
  same = land(cross == 0, dot > 0)
  if cl == 'lo':
    half_lt = lor(land(fx, lnot(fy)),
                  land(mkbool(to_bool_term(fx) == to_bool_term(fy)), cross > 0))
  else:
    half_lt = lor(land(fx, lnot(fy)),
                  land(mkbool(to_bool_term(fx) == to_bool_term(fy)), cross > 0))
  lt = land(half_lt, lnot(same))
  if op == 'lt':
    return lt
  if op == 'le':
    return lor(lt, same)
  if op == 'gt':
    return lnot(lor(lt, same))
  if op == 'ge':
    return lnot(lt)
  if op == 'eq':
    return same
  return lnot(same)


def arctan2(y, x):
  """Angle of (x, y) in (-pi, pi]."""
  if not (is_sym(y) or is_sym(x)):
    return np.arctan2(y, x)
  if bool(land(x == 0, y == 0)):
    return np.float64(0.0)
  r = sqrt(x * x + y * y)
  if not is_sym(r):
    c, s = x / r, y / r
  else:
    cx = _CTX
    # fresh unit vector: c*r == x, s*r == y, c^2+s^2 == 1
    memo = cx.uf_terms.setdefault('atan2', {})
    tx, ty = term(x, True), term(y, True)
    key = (tx.get_id(), ty.get_id())
    if key in memo:
      c, s = memo[key][0]
    else:
      tc, ts = cx.fresh('cos'), cx.fresh('sin')
      rt = r.t
      cx.add(z3.And(tc * tc + ts * ts == 1, tc * rt == tx, ts * rt == ty,
                    rt > 0))
      canon.unit(tc, ts)
      c, s = SymReal(tc), SymReal(ts)
      memo[key] = ((c, s), tx, ty)
  return mk_angle(c, s, -math.pi, 'hi')


def cos(x):
  if is_num(x):
    return np.cos(x)
  if _has_ang(x):
    return x.ang.c
  return _free_trig(x)[0]


def sin(x):
  if is_num(x):
    return np.sin(x)
  if _has_ang(x):
    return x.ang.s
  return _free_trig(x)[1]


def _free_trig(x):
  """cos/sin of a real term that did not come from an angle."""
  cx = _CTX
  tx = z3.simplify(term(x, True))
  memo = cx.uf_terms.setdefault('trig', {})
  neg = z3.simplify(-tx)
  if neg.get_id() in memo:
    c, s, _ = memo[neg.get_id()]
    return c, -s
  key = tx.get_id()
  if key not in memo:
    tc, ts = cx.fresh('cos'), cx.fresh('sin')
    cx.add(tc * tc + ts * ts == 1)
    canon.unit(tc, ts)
    cx.notes.append('cos/sin of an unconstrained term (over-approximated)')
    memo[key] = (SymReal(tc), SymReal(ts), tx)
  c, s, _ = memo[key]
  return c, s


# numpy object-ufunc protocol names
for _cls in (SymReal, SymInt):
  _cls.sqrt = lambda self: sqrt(self)
  _cls.exp = lambda self: exp(self)
  _cls.log = lambda self: log(self)
  _cls.cos = lambda self: cos(self)
  _cls.sin = lambda self: sin(self)
