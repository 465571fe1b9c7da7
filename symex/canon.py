"""Canonical rational-function form of z3 real terms.

Polynomials over atoms (variables, applications, symbolic denominators),
reduced modulo s^2 = 1 - c^2 for known unit vectors and r^2 = a for known
square roots.  Only equivalences that hold under the path condition are used
(denominators have been established non-zero when the division was built).
"""

from fractions import Fraction

import z3

LIMIT = 300


class TooBig(Exception):
  pass


class State:
  """Per-path tables."""

  def __init__(self):
    self.atoms = {}  # key -> z3 term
    self.rules = {}  # key -> poly replacing key^2
    self.memo = {}
    self.keep = []
    self.inv = {}  # canonical denominator -> key


def _state():
  from symex import core
  c = core._CTX
  st = c.uf_terms.get('canon')
  if st is None:
    st = c.uf_terms['canon'] = State()
  return st


def has_rules():
  from symex import core
  st = core._CTX.uf_terms.get('canon')
  return st is not None and bool(st.rules)


def unit(c, s):
  """Registers c^2 + s^2 == 1 for two variables."""
  st = _state()
  if not (z3.is_const(c) and z3.is_const(s)):
    return
  kc, ks = c.get_id(), s.get_id()
  st.atoms[kc], st.atoms[ks] = c, s
  st.rules[ks] = {(): Fraction(1), ((kc, 2),): Fraction(-1)}


def root(r, sq):
  """Registers r^2 == sq."""
  st = _state()
  try:
    p = poly(sq)
  except TooBig:
    return
  st.atoms[r.get_id()] = r
  st.rules[r.get_id()] = p


def _add(p, q, k=1):
  r = dict(p)
  for m, c in q.items():
    v = r.get(m, 0) + c * k
    if v == 0:
      r.pop(m, None)
    else:
      r[m] = v
  return r


def _mulmono(a, b):
  d = dict(a)
  for k, e in b:
    v = d.get(k, 0) + e
    if v == 0:
      d.pop(k, None)
    else:
      d[k] = v
  return tuple(sorted(d.items()))


def _mul(p, q):
  if len(p) * len(q) > 20 * LIMIT:
    raise TooBig()
  r = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      m = _mulmono(m1, m2)
      v = r.get(m, 0) + c1 * c2
      if v == 0:
        r.pop(m, None)
      else:
        r[m] = v
  if len(r) > LIMIT:
    raise TooBig()
  return _reduce(r)


def _reduce(p):
  st = _state()
  rules = st.rules
  if not rules:
    return p
  work = True
  n = 0
  while work:
    work = False
    n += 1
    if n > 60:
      raise TooBig()
    out = {}
    for m, c in p.items():
      hit = None
      for k, e in m:
        if e >= 2 and k in rules:
          hit = (k, e)
          break
      if hit is None:
        v = out.get(m, 0) + c
        if v == 0:
          out.pop(m, None)
        else:
          out[m] = v
        continue
      work = True
      k, e = hit
      rest = _mulmono(m, ((k, -2),))
      for m2, c2 in rules[k].items():
        mm = _mulmono(rest, m2)
        v = out.get(mm, 0) + c * c2
        if v == 0:
          out.pop(mm, None)
        else:
          out[mm] = v
    p = out
    if len(p) > LIMIT:
      raise TooBig()
  return p


def poly(t):
  """Canonical polynomial of a z3 real term."""
  st = _state()
  key = t.get_id()
  if key in st.memo:
    return st.memo[key]
  r = _poly(t, st)
  r = _reduce(r)
  st.memo[key] = r
  st.keep.append(t)
  return r


def _atom(t, st):
  st.atoms[t.get_id()] = t
  return {((t.get_id(), 1),): Fraction(1)}


def _poly(t, st):
  if z3.is_rational_value(t):
    f = Fraction(t.numerator_as_long(), t.denominator_as_long())
    return {(): f} if f else {}
  if z3.is_int_value(t):
    return {(): Fraction(t.as_long())} if t.as_long() else {}
  k = t.decl().kind() if z3.is_app(t) else None
  if k == z3.Z3_OP_ADD:
    r = {}
    for a in t.children():
      r = _add(r, poly(a))
    if len(r) > LIMIT:
      raise TooBig()
    return r
  if k == z3.Z3_OP_SUB:
    ch = t.children()
    r = poly(ch[0])
    for a in ch[1:]:
      r = _add(r, poly(a), -1)
    return r
  if k == z3.Z3_OP_UMINUS:
    return _add({}, poly(t.arg(0)), -1)
  if k == z3.Z3_OP_MUL:
    r = {(): Fraction(1)}
    for a in t.children():
      r = _mul(r, poly(a))
    return r
  if k == z3.Z3_OP_POWER and (z3.is_int_value(t.arg(1)) or
                              z3.is_rational_value(t.arg(1))):
    e = t.arg(1)
    n = (e.as_long() if z3.is_int_value(e) else
         Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if n == int(n) and 0 <= int(n) <= 8:
      r = {(): Fraction(1)}
      for _ in range(int(n)):
        r = _mul(r, poly(t.arg(0)))
      return r
  if k == z3.Z3_OP_DIV:
    num, den = poly(t.arg(0)), poly(t.arg(1))
    return _div(num, den, st)
  return _atom(t, st)


def _div(num, den, st):
  if not den:
    raise TooBig()
  if len(den) == 1:
    (m, c), = den.items()
    inv = {tuple((k, -e) for k, e in m): 1 / c}
    return _mul(num, inv)
  # numerator a constant multiple of the denominator?
  if len(num) == len(den):
    m0 = next(iter(den))
    if m0 in num:
      f = num[m0] / den[m0]
      if all(num.get(m) == c * f for m, c in den.items()):
        return {(): f} if f else {}
  # normalise the denominator to leading coefficient 1
  items = sorted(den.items())
  lead = items[0][1]
  canon = tuple((m, c / lead) for m, c in items)
  if canon not in st.inv:
    d = back(dict(canon))
    st.inv[canon] = d
    st.atoms[d.get_id()] = d
    st.keep.append(d)
  d = st.inv[canon]
  return _mul(num, {((d.get_id(), -1),): 1 / lead})


def back(p):
  """z3 term of a polynomial; equal polynomials give identical terms."""
  st = _state()
  if not p:
    return z3.RealVal(0)
  terms = []
  for m, c in sorted(p.items()):
    nums, dens = [], []
    for k, e in m:
      a = st.atoms[k]
      (nums if e > 0 else dens).extend([a] * abs(e))
    t = z3.Q(c.numerator, c.denominator)
    if nums:
      b = nums[0] if len(nums) == 1 else z3.Product(*nums)
      t = b if c == 1 else t * b
    if dens:
      t = t / (dens[0] if len(dens) == 1 else z3.Product(*dens))
    terms.append(t)
  return terms[0] if len(terms) == 1 else z3.Sum(*terms)


def _snap(c, digits, top):
  """Rounds a coefficient; drops it when it is rounding residue."""
  if abs(c) < top * Fraction(1, 10**15):
    return Fraction(0)
  return Fraction('%.*e' % (digits, float(c)))


def canon(t, digits=None):
  """Equivalent canonical term, or t itself when it grows too large.

  With digits, coefficients are rounded to that many digits (used for the
  arguments of exp/log/sqrt, where float rounding would otherwise make equal
  arguments look different).
  """
  try:
    p = poly(t)
    if digits is not None:
      top = max((abs(c) for c in p.values()), default=Fraction(0))
      p = {m: _snap(c, digits, top) for m, c in p.items()}
      p = {m: c for m, c in p.items() if c}
    return back(p)
  except (TooBig, RecursionError):
    return t


def const(t):
  """The rational value of t if its canonical form is a constant."""
  try:
    p = poly(t)
  except (TooBig, RecursionError):
    return None
  if not p:
    return Fraction(0)
  if len(p) == 1 and () in p:
    return p[()]
  return None
