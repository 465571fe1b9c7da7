"""C35: comparing grids of atoms."""

import itertools

import numpy as np

from symex.run import case
from checks import common
from putting_dune import microscope_utils as mu


def sheet(h, name, n, order=None):
  fixed = [(1.5, -2.25), (0.25, 3.5)][:2 * (n > 2)]
  ps = fixed + [(h.real(f'{name}{i}x', -20, 20), h.real(f'{name}{i}y', -20, 20))
                for i in range(len(fixed), n)]
  zs = h.ints(f'{name}z', n, 1, 99)
  return ps, zs


def grid(h, ps, zs, order=None):
  order = list(range(len(ps))) if order is None else order
  return mu.AtomicGrid(
      h.array([list(ps[i]) for i in order]).reshape(len(order), 2),
      h.int_array([zs[i] for i in order]))


def orders(n):
  return list(itertools.permutations(range(n)))


@case(quick=[dict(n=0), dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)],
      timeouts=(10, 60), budget=300,
      bounds='up to 3 (thorough 4) atoms anywhere in a 40 A box (of three or more, two at '
             'fixed places), apart, in any '
             'order')
def same(h, n):
  ps, zs = sheet(h, 'p', n)
  for a, b in itertools.combinations(ps, 2):
    h.assume((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 > 1e-2)
  order = h.pick('order', orders(n))
  a, b = grid(h, ps, zs), grid(h, ps, zs, order)
  h.check(a == b, 'the same atoms in any order are the same material')
  h.check(not (a != b), 'and not different')
  moved = h.array([5e-4, -5e-4])
  if n:
    c = mu.AtomicGrid(b.atom_positions + moved, b.atomic_numbers)
    h.check(a == c and c == a, 'tiny differences do not matter')


@case(quick=[dict(n=1, what='moved'), dict(n=2, what='moved'),
             dict(n=2, what='number'),
             dict(n=3, what='number')],
      timeouts=(10, 60), budget=300,
      bounds='up to 3 atoms anywhere in a 40 A box (of three or more, two at '
             'fixed places), apart, in any order; one of '
             'them, or several, of another kind, or one further than 0.002 A from all')
def different(h, n, what):
  ps, zs = sheet(h, 'p', n)
  for a, b in itertools.combinations(ps, 2):
    h.assume((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 > 1e-2)
  order = h.pick('order', orders(n))
  k = h.pick('k', range(n))
  qs, ys = list(ps), list(zs)
  if what == 'moved':
    qs[k] = (h.real('qx', -30, 30), h.real('qy', -30, 30))
    for a in ps:
      h.assume((qs[k][0] - a[0]) ** 2 + (qs[k][1] - a[1]) ** 2 > 4e-6)
  else:
    ys = h.ints('y', n, 1, 99)
    h.assume(h.not_(h.eq(ys[k], zs[k])))
  a, b = grid(h, ps, zs), grid(h, qs, ys, order)
  h.check(not (a == b), 'other atoms are another material')
  h.check(not (b == a), 'whichever is asked')
  h.check(a != b, 'and different')


@case(quick=[dict(n=4), dict(n=12)], timeouts=(10, 60),
      bounds='up to 12 atoms at fixed places, any one of them 0.002 A or more '
             'from all of them')
def crowd(h, n):
  """One atom elsewhere is enough, however many are where they were."""
  ps = [(1.5 * i, 0.75 * (i % 3)) for i in range(n)]
  zs = [14 if i % 3 == 1 else 6 for i in range(n)]
  k = h.pick('k', range(n))
  qs = list(ps)
  qs[k] = (ps[k][0] + h.real('qx', -0.25, 0.25),
           ps[k][1] + h.real('qy', -0.25, 0.25))
  h.assume((qs[k][0] - ps[k][0]) ** 2 + (qs[k][1] - ps[k][1]) ** 2 > 4e-6)
  order = list(range(n))[::h.pick('order', (1, -1))]
  a, b = grid(h, ps, zs), grid(h, qs, zs, order)
  h.check(not (a == b), 'an atom elsewhere is another material')
  h.check(not (b == a), 'whichever is asked')


@case(quick=[dict(n=0, m=1), dict(n=1, m=0), dict(n=1, m=2), dict(n=3, m=2)],
      bounds='up to 3 atoms anywhere')
def counts(h, n, m):
  a, b = grid(h, *sheet(h, 'p', n)), grid(h, *sheet(h, 'q', m))
  h.check(not (a == b) and a != b, 'more atoms are another material')


@case(quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)],
      timeouts=(10, 60),
      bounds='up to 3 (thorough 4) carbon and silicon atoms anywhere, in any '
             'order')
def hashes(h, n):
  ps, _ = sheet(h, 'p', n)
  zs = [h.pick(f'z{i}', (6, 14)) for i in range(n)]
  order = h.pick('order', orders(n))
  a, b = grid(h, ps, zs), grid(h, ps, zs, order)
  # hashes stay symbolic
  mu.int = lambda v: v
  try:
    x, y = mu.AtomicGrid.__hash__(a), mu.AtomicGrid.__hash__(b)
  finally:
    del mu.int
  h.check(h.eq(x, y), 'equal grids have equal hashes')


@case(quick=[dict(n=2), dict(n=3)],
      bounds='up to 3 atoms of either kind, at chosen places, in any order')
def lookup(h, n):
  places = [(0.0, 0.0), (1.42, 0.1), (-3.33, 7.77), (12.25, -4.004)]
  start = h.pick('start', range(4))
  ps = [places[(start + i) % 4] for i in range(n)]
  zs = [h.pick(f'z{i}', (6, 14)) for i in range(n)]
  order = h.pick('order', orders(n))
  a = mu.AtomicGrid(np.array(ps), np.array(zs))
  b = mu.AtomicGrid(np.array(ps)[list(order)], np.array(zs)[list(order)])
  other = mu.AtomicGrid(np.array(ps) + 3.0, np.array(zs))
  d = {a: 'found'}
  h.check(d.get(b) == 'found', 'grids can be looked up')
  h.check(other not in d, 'others are not found')
