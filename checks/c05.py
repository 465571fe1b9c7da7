"""C05: a field of view shows exactly the atoms inside it."""

from symex.run import case
from checks import common
from putting_dune import graphene
from putting_dune import microscope_utils as mu


def expect_subset(h, src, inside, pos, numbers, want, tol, label):
  """pos/numbers list exactly the source atoms flagged inside, in order."""
  n = len(inside)
  keep = [i for i in range(n) if h.branch(inside[i])]
  h.check(pos.shape == (len(keep), 2), label + ': number of atoms')
  h.check(numbers.shape == (len(keep),), label + ': number of elements')
  for j, i in enumerate(keep):
    h.check(h.and_(h.close(pos[j, 0], want[i][0], tol),
                   h.close(pos[j, 1], want[i][1], tol)),
            label + ': atom position')
    h.check(h.eq(numbers[j], src[i]), label + ': element of the atom')


def far_from_edge(h, v, lo, hi):
  """Keeps positions off the float-rounding neighbourhood of an edge."""
  e = 1e-7
  h.assume(h.and_(h.or_(v - lo >= e, lo - v >= e, h.eq(v, lo)),
                  h.or_(v - hi >= e, hi - v >= e, h.eq(v, hi))))


@case(quick=[dict(n=0), dict(n=1), dict(n=2)],
      thorough=[dict(n=n) for n in (0, 1, 2, 3)],
      bounds='n atoms within 1000 A; any field of view; tolerance -20..20 A')
def selection(h, n):
  """The field of view selects atoms up to a tolerance, in the same frame."""
  f, lx, ly, w, ht = common.fov(h)
  g = common.grid(h, 'g', n)
  tol = h.real('tol', -20, 20)
  r = f.get_atoms_in_bounds(g, tol)
  p = g.atom_positions
  inside = []
  for i in range(n):
    x, y = p[i, 0], p[i, 1]
    if not h.symbolic:
      far_from_edge(h, x, f.lower_left.x - tol, f.upper_right.x + tol)
      far_from_edge(h, y, f.lower_left.y - tol, f.upper_right.y + tol)
    inside.append(h.and_(x >= f.lower_left.x - tol, x <= f.upper_right.x + tol,
                         y >= f.lower_left.y - tol,
                         y <= f.upper_right.y + tol))
  expect_subset(h, g.atomic_numbers, inside, r.atom_positions,
                r.atomic_numbers, [(p[i, 0], p[i, 1]) for i in range(n)], 0,
                'selection')


@case(quick=[dict(n=1), dict(n=2)], bounds='default tolerance is zero')
def default_tolerance(h, n):
  f, *_ = common.fov(h)
  g = common.grid(h, 'g', n)
  r = f.get_atoms_in_bounds(g)
  s = f.get_atoms_in_bounds(g, 0)
  h.check(common.same_grid(h, r, s, 0), 'same as zero tolerance')


@case(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 3)],
      bounds='n atoms of a material; any field of view')
def material(h, n):
  """The material shows the same atoms, normalised to the unit square."""
  f, lx, ly, w, ht = common.fov(h)
  g = common.grid(h, 'g', n)
  m = graphene.PristineSingleDopedGraphene(grid_columns=4)
  m.reset(ZeroRng(h))
  m.grid = g
  r = m.get_atoms_in_bounds(f.lower_left, f.upper_right)
  p = g.atom_positions
  if not h.symbolic:
    for i in range(n):
      far_from_edge(h, p[i, 0], f.lower_left.x, f.upper_right.x)
      far_from_edge(h, p[i, 1], f.lower_left.y, f.upper_right.y)
  inside = [h.and_(p[i, 0] >= f.lower_left.x, p[i, 0] <= f.upper_right.x,
                   p[i, 1] >= f.lower_left.y, p[i, 1] <= f.upper_right.y)
            for i in range(n)]
  mic = f.material_frame_to_microscope_frame(g)
  want = [(mic.atom_positions[i, 0], mic.atom_positions[i, 1])
          for i in range(n)]
  expect_subset(h, g.atomic_numbers, inside, r.atom_positions,
                r.atomic_numbers, want, 1e-6, 'material view')
  q = r.atom_positions
  for j in range(q.shape[0]):
    h.check(h.and_(q[j, 0] >= -1e-7, q[j, 0] <= 1 + 1e-7, q[j, 1] >= -1e-7,
                   q[j, 1] <= 1 + 1e-7), 'visible atoms lie in [0, 1]')
  h.check(m.grid is g and common.same_grid(h, m.grid, g, 0),
          'looking does not change the material')


class ZeroRng:
  """Generator stand-in whose draws are all at the lower limit."""

  def __init__(self, h):
    self.h = h

  def uniform(self, low=0.0, high=1.0, size=None):
    return low if size is None else self.h.np.full(size, low)


@case(bounds='use before the first reset')
def before_reset(h):
  f, *_ = common.fov(h)
  m = graphene.PristineSingleDopedGraphene(grid_columns=4)
  h.check_raises(RuntimeError, 'looking at an unprepared material fails',
                 m.get_atoms_in_bounds, f.lower_left, f.upper_right)
  h.check_raises(RuntimeError, 'no silicon position before reset',
                 m.get_silicon_position)
