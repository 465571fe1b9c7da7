"""C08: the sheet a material starts from."""

from symex.run import case
from putting_dune import constants
from putting_dune import graphene

A = constants.CARBON_BOND_DISTANCE_ANGSTROMS
SI, C = constants.SILICON, constants.CARBON


class SheetRng:
  """Draws any offset and any orientation."""

  def __init__(self, h, offset=None):
    self.h = h
    self.turns = []
    self.offsets = []

  def uniform(self, low=0.0, high=1.0, size=None):
    h = self.h
    if size is None:
      a = h.angle('turn')
      self.turns.append((low, high, a))
      return a
    n = 1
    for s in (size if isinstance(size, tuple) else (size,)):
      n *= s
    assert n == 2, size
    v = h.reals('offset', 2, float(low), float(high))
    self.offsets.append((low, high, v))
    return v.reshape(size)


def d2(p, i, j):
  x, y = p[i, 0] - p[j, 0], p[i, 1] - p[j, 1]
  return x * x + y * y


def lattice(h, p, label, reach):
  """Honeycomb: bonds of one length, nothing closer, three bonds inside."""
  n = p.shape[0]
  r2 = [p[i, 0] * p[i, 0] + p[i, 1] * p[i, 1] for i in range(n)]
  bonds = [0] * n
  for i in range(n):
    for j in range(i):
      q = d2(p, i, j)
      if h.branch(q < 2 * A * A):
        h.check(h.close(q, A * A, 1e-4), label + ': bonds have one length')
        bonds[i] += 1
        bonds[j] += 1
      else:
        h.check(q >= 2.99 * A * A, label + ': second neighbours are further')
  for i in range(n):
    h.check(bonds[i] <= 3, label + ': at most three bonds')
    if bonds[i] < 3:
      h.check(r2[i] >= reach * reach,
              label + ': atoms near the middle have three bonds')


@case(quick=[dict(cols=6)], thorough=[dict(cols=c) for c in (6, 8)],
      bounds='sheets of `cols` columns at any offset within half a bond and '
             'any orientation')
def sheet(h, cols):
  rng = SheetRng(h)
  p = graphene.generate_pristine_graphene(rng, cols)
  n = p.shape[0]
  h.check(n > cols * cols // 2, 'enough atoms')
  lattice(h, p, 'sheet', 0.9 if cols == 6 else 2.0)
  h.check(len(rng.turns) == 1 and len(rng.offsets) == 1,
          'one offset and one orientation are drawn')
  lo, hi, _ = rng.turns[0]
  h.check(hi - lo >= 6.283, 'all orientations can be drawn')
  lo, hi, off = rng.offsets[0]
  mx = sum(p[i, 0] for i in range(n)) / n
  my = sum(p[i, 1] for i in range(n)) / n
  h.check(h.close(mx * mx + my * my, off[0] * off[0] + off[1] * off[1], 1e-4),
          'the sheet is centred up to the offset')


@case(quick=[dict(cols=5)], thorough=[dict(cols=5), dict(cols=6)], budget=500,
      bounds='materials of `cols` columns, any offset and orientation; two '
             'resets in a row')
def start(h, cols):
  m = graphene.PristineSingleDopedGraphene(grid_columns=cols)
  m.reset(SheetRng(h))
  m.reset(SheetRng(h))
  g = m.grid
  p, z = g.atom_positions, g.atomic_numbers
  n = p.shape[0]
  h.check(p.shape == (n, 2) and z.shape == (n,), 'one element per atom')
  si = [i for i in range(n) if h.branch(h.eq(z[i], SI))]
  h.check(len(si) == 1, 'exactly one dopant')
  h.check(all(h.branch(h.eq(z[i], C)) for i in range(n) if i not in si),
          'all other atoms are carbon')
  r2 = [p[i, 0] * p[i, 0] + p[i, 1] * p[i, 1] for i in range(n)]
  for i in range(n):
    h.check(r2[si[0]] <= r2[i] + 1e-6, 'the dopant is the most central atom')
  h.check(h.arr_close(m.get_silicon_position(), p[si[0]], 0),
          'its position can be asked for')


@case(quick=[dict(cols=c) for c in (6, 10)],
      thorough=[dict(cols=c) for c in (6, 7, 8, 9, 10, 12)],
      bounds='the canonical sheet of `cols` columns')
def canonical(h, cols):
  g = graphene.canonical_pristine_graphene_with_centered_silicon(cols)
  p, z = g.atom_positions, g.atomic_numbers
  n = p.shape[0]
  lattice(h, p, 'canonical sheet', 0.9)
  si = [i for i in range(n) if z[i] == SI]
  h.check(len(si) == 1 and all(z[i] == C for i in range(n) if i not in si),
          'exactly one dopant')
  h.check(h.and_(h.close(p[si[0], 0], 0), h.close(p[si[0], 1], 0)),
          'the dopant sits at the origin')
  h.check(sum(1 for i in range(n) if i != si[0] and
              d2(p, i, si[0]) < 2 * A * A) == 3, 'it has three neighbours')
