"""C25: the canonical orientation of a dopant and its neighbours."""

import itertools

import numpy as np
from symex.run import case
from checks import ratenet
from putting_dune import constants
from putting_dune import microscope_utils as mu
from putting_dune.rate_learning import data_utils as du

A = constants.CARBON_BOND_DISTANCE_ANGSTROMS
K3 = 3 ** 0.5 / 2
SI, C = constants.SILICON, constants.CARBON
# exact rational directions in counter-clockwise order: a lattice-like star
# and lopsided ones
STARS = [[(1.0, 0.0), (-0.6, 0.8), (-0.28, -0.96)],
         [(0.6, 0.8), (-0.96, 0.28), (0.28, -0.96)],
         [(0.8, 0.6), (-0.96, -0.28), (0.0, -1.0)],
         [(0.28, 0.96), (-0.8, -0.6), (0.96, -0.28)],
         [(0.0, 1.0), (-1.0, 0.0), (0.6, -0.8)]]
ORDERS = list(itertools.permutations(range(3)))


def judge(h, nb, beam, out, ccw):
  """nb: given neighbours; ccw: their indices in counter-clockwise order."""
  b2, n2, order = out
  n2 = n2.reshape(3, 2)
  b2 = b2.reshape(2)
  near = None
  d = [(nb[i][0] - beam[0]) ** 2 + (nb[i][1] - beam[1]) ** 2 for i in range(3)]
  for i in range(3):
    if all(h.branch(d[i] < d[j]) for j in range(3) if j != i):
      near = i
  h.check(near is not None, 'one neighbour is nearest to the beam')
  at = ccw.index(near)
  want = [ccw[(at + k) % 3] for k in range(3)]
  for k in range(3):
    h.check(h.eq(order[k], want[k]),
            'the order starts at that neighbour and goes counter-clockwise')
  h.check(h.and_(h.close(n2[near][1], 0, 1e-5), n2[near][0] >= 0),
          'that neighbour is directly to the right')
  # the same scene, turned: lengths, and angles to that neighbour, are kept
  cx, cy = nb[near][0], nb[near][1]
  l = (cx * cx + cy * cy)
  r = h.np.sqrt(l)
  for x, y, x2, y2 in [(beam[0], beam[1], b2[0], b2[1])] + [
      (nb[i][0], nb[i][1], n2[i][0], n2[i][1]) for i in range(3)]:
    h.check(h.close(x2 * r, x * cx + y * cy, 1e-4), 'everything is turned alike')
    h.check(h.close(y2 * r, cx * y - cy * x, 1e-4), 'everything is turned alike')


def scene(h, star, lengths=(1.0, 1.01, 1.02), perm=(0, 1, 2)):
  dirs = STARS[star]
  nb = [[A * lengths[i] * dirs[i][0], A * lengths[i] * dirs[i][1]]
        for i in perm]
  ccw = [perm.index(i) for i in range(3)]
  return nb, ccw


def tie_free(h, nb, bx, by):
  for i in range(3):
    for j in range(i):
      h.apart((nb[i][0] - bx) ** 2 + (nb[i][1] - by) ** 2,
              (nb[j][0] - bx) ** 2 + (nb[j][1] - by) ** 2, 1e-3)


@case(quick=[dict(star=s, perm=ORDERS[p]) for s, p in
             ((0, 0), (1, 3), (2, 4), (3, 1), (4, 5))],
      thorough=[dict(star=s, perm=p) for s in range(5) for p in ORDERS],
      timeouts=(20, 60),
      bounds='beam anywhere within 5 A; three neighbours in five orientations '
             '(regular and lopsided), listed in any order')
def standardize(h, star, perm):
  nb, ccw = scene(h, star, perm=perm)
  bx, by = h.real('bx', -5, 5), h.real('by', -5, 5)
  tie_free(h, nb, bx, by)
  b, n = h.array([bx, by]), h.array(nb)
  out = du.standardize_beam_and_neighbors(b, n)
  h.check(h.and_(h.arr_close(b, h.array([bx, by]), 0),
                 h.arr_close(n, h.array(nb), 0)), 'the inputs are left alone')
  judge(h, nb, (bx, by), out, ccw)


@case(quick=[dict(perm=p) for p in ORDERS[:3]], thorough=[dict(perm=p) for p in
                                                         ORDERS],
      timeouts=(20, 60, 60), budget=300,
      bounds='three neighbours 120 degrees apart at any orientation; beam '
             'anywhere within 5 A, not equally near to two of them')
def any_orientation(h, perm):
  c, s = h.cs(h.angle('dir'))
  dirs = [(c, s), (-c / 2 - s * K3, -s / 2 + c * K3),
          (-c / 2 + s * K3, -s / 2 - c * K3)]
  nb = [[A * dirs[i][0], A * dirs[i][1]] for i in perm]
  # beam in the frame of the first neighbour, so that ties are simple
  u, v = h.real('u', -5, 5), h.real('v', -5, 5)
  bx, by = u * c - v * s, u * s + v * c
  lean = [u, -u / 2 + K3 * v, -u / 2 - K3 * v]
  for i in range(3):
    for j in range(i):
      h.apart(lean[i], lean[j], 1e-3)
  b2, n2, order = du.standardize_beam_and_neighbors(
      h.array([bx, by]), h.array(nb))
  b2, n2 = b2.reshape(2), n2.reshape(3, 2)
  at = [k for k in range(3) if all(h.branch(lean[k] > lean[j])
                                   for j in range(3) if j != k)]
  h.check(len(at) == 1, 'one neighbour is nearest to the beam')
  near = perm.index(at[0])
  want = [perm.index((at[0] + k) % 3) for k in range(3)]
  for k in range(3):
    h.check(h.eq(order[k], want[k]),
            'the order starts at that neighbour and goes counter-clockwise')
  h.check(h.and_(h.close(n2[near][0], A, 1e-5), h.close(n2[near][1], 0, 1e-5)),
          'that neighbour is directly to the right')
  # the beam in the frame of the nearest neighbour
  cu, su = [(1.0, 0.0), (-0.5, K3), (-0.5, -K3)][at[0]]
  h.check(h.and_(h.close(b2[0], u * cu + v * su, 1e-5),
                 h.close(b2[1], v * cu - u * su, 1e-5)),
          'the beam is turned alike')


class Model:
  """Stand-in for the packaged network."""

  def __init__(self, h, outputs):
    self.h, self.outputs, self.seen = h, outputs, []

  def __call__(self, context):
    self.seen.append(context)
    return self.h.array([self.outputs])


def expected(h, raw):
  e = [h.np.exp(r) for r in raw[:3]]
  return [raw[3] * x / (e[0] + e[1] + e[2]) for x in e]


@case(quick=[dict(star=s, perm=ORDERS[p], cur=c, vol=v) for s, p, c, v in
             ((1, 3, True, True), (2, 4, True, False), (3, 1, False, True),
              (4, 5, False, False))],
      thorough=[dict(star=s, perm=p, cur=c, vol=v) for s in (1, 2) for p in
                ORDERS for c in (True, False) for v in (True, False)],
      timeouts=(20, 60),
      bounds='dopant anywhere, beam within 4 A, three neighbours in four '
             'orientations listed in any order, any network outputs, any '
             'current and voltage')
def predict(h, star, perm, cur, vol):
  lengths = (1.0, 1.15, 0.9)
  nb, ccw = scene(h, star, lengths, perm=perm)
  sx, sy = h.real('sx', -20, 20), h.real('sy', -20, 20)
  bx, by = h.real('bx', -4, 4), h.real('by', -4, 4)
  tie_free(h, nb, bx, by)
  far = [(x - bx) ** 2 + (y - by) ** 2 for x, y in nb]
  # a grid in which the neighbours are scattered among other atoms
  rows = [[sx + nb[1][0], sy + nb[1][1]], [sx, sy], [sx + 9.0, sy],
          [sx + nb[0][0], sy + nb[0][1]], [sx + nb[2][0], sy + nb[2][1]]]
  g = mu.AtomicGrid(h.array(rows), h.int_array([C, SI, C, C, C]))
  raw = [0.25, 1.0, 0.5, h.real('total', 0.01, 5)]
  m = ratenet.predictor(h, None, 1, use_current=cur, use_voltage=vol)
  m.packaged_model = Model(h, raw)
  kv, na = h.real('kv', 40, 200), h.real('na', 0.01, 1)
  out = m.predict(g, h.Point(sx + bx, sy + by), h.array([sx, sy]),
                  np.array([3, 0, 4]), voltage_kv=kv, current_na=na)
  h.check(len(m.packaged_model.seen) == 1, 'the network is asked once')
  x = m.packaged_model.seen[0]
  h.check(x.shape == (1, 2 + cur + vol), 'one row: context and position')
  at = [k for k in range(3) if all(h.branch(far[k] < far[j])
                                   for j in range(3) if j != k)]
  h.check(len(at) == 1, 'one neighbour is nearest to the beam')
  near = at[0]
  extra = ([na] if cur else []) + ([kv] if vol else [])
  for k, e in enumerate(extra):
    h.check(h.close(x[0][k], e, 1e-4), 'current, then voltage, as trained')
  cx, cy = nb[near]
  r = A * lengths[perm[near]]
  h.check(h.and_(h.close(x[0][-2] * r, bx * cx + by * cy, 1e-4),
                 h.close(x[0][-1] * r, cx * by - cy * bx, 1e-4)),
          'the beam as seen from the neighbour nearest to it, in angstroms')
  want = expected(h, raw)
  k = ccw.index(near)
  h.check(out.shape == (3,), 'one rate per neighbour')
  for i in range(3):
    h.check(h.close(out[ccw[(k + i) % 3]], want[i], 1e-4),
            'each neighbour gets the rate of its own direction')
