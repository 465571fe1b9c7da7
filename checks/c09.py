"""C09: finding the dopant."""

from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune import graphene
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON


@case(quick=[dict(n=n) for n in (0, 1, 2, 3)],
      thorough=[dict(n=n) for n in (0, 1, 2, 3, 4, 5)],
      bounds='n atoms within 10 of the origin of the view, any elements')
def locate(h, n):
  g = common.grid(h, 'g', n, -10, 10)
  p, z = g.atom_positions, g.atomic_numbers
  si = [i for i in range(n) if h.branch(h.eq(z[i], SI))]
  every = graphene.get_silicon_positions(g)
  h.check(every.shape == (len(si), 2), 'all dopants are listed')
  for k, i in enumerate(si):
    h.check(h.and_(h.close(every[k, 0], p[i, 0], 0),
                   h.close(every[k, 1], p[i, 1], 0)),
            'dopants are listed in order')
  if not si:
    h.check_raises(graphene.SiliconNotFoundError, 'no dopant: reported',
                   graphene.get_single_silicon_position, g)
    return
  one = graphene.get_single_silicon_position(g)
  h.check(one.shape == (2,), 'one position')
  h.observe('position', one)
  h.check(h.any(h.and_(h.close(one[0], p[i, 0], 0), h.close(one[1], p[i, 1], 0))
                for i in si), 'the position is that of a dopant')
  d = lambda q: ((q[0] - 0.5) * (q[0] - 0.5) + (q[1] - 0.5) * (q[1] - 0.5))
  for i in si:
    h.check(d(one) <= d(p[i]) + 1e-6,
            'of several dopants the most central one is chosen')
