"""C06: transition rates of the dopant."""

from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

A = constants.CARBON_BOND_DISTANCE_ANGSTROMS
SI, C = constants.SILICON, constants.CARBON


def dist2(p, q):
  return (p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1])


def row(a, i):
  return a[i, 0], a[i, 1]


@case(quick=[dict(n=4, q=3)], thorough=[dict(n=4, q=3), dict(n=6, q=5)],
      bounds='n atoms within 20 A, q of them queried in any order, any beam '
             'within 20 A')
def simple(h, n, q):
  """Built-in rate: 1 on the neighbour, inverse-square fall-off around it."""
  g = common.grid(h, 'g', n, -20, 20)
  beam = common.pt(h, 'beam', -20, 20)
  idx = list(range(n - 1, n - 1 - q, -1))
  si = g.atom_positions[0]
  r = graphene.simple_canonical_rate_function(
      g, beam, si, h.np.asarray(idx))
  r = r.reshape(-1)
  h.observe('rates', r)
  h.check(r.shape == (q,), 'one rate per neighbour')
  for k, i in enumerate(idx):
    d2 = dist2(row(g.atom_positions, i), (beam.x, beam.y)) / (A * A)
    h.check(h.and_(r[k] > 0, r[k] <= 1 + 1e-9), 'rate in (0, 1]')
    h.check(h.close(r[k] * (16 * d2 + 1), 1, 1e-6),
            'rate depends on the beam-neighbour distance only')


@case(quick=[dict(n=4), dict(n=5)], thorough=[dict(n=4), dict(n=5)],
      budget=500, validate=25,
      bounds='n atoms at least 0.1 A apart within 10 A, dopant at any index, '
             'any beam, any non-negative rates')
def successors(h, n):
  """Three successor states: dopant swapped with a nearest neighbour."""
  pos = h.reals('p', (n, 2), -10, 10)
  si = h.pick('si', range(n)) if n == 4 else 1
  z = [C] * n
  z[si] = SI
  g = mu.AtomicGrid(pos, h.int_array(z))
  d2 = [dist2(row(pos, i), row(pos, si)) for i in range(n)]
  others = [i for i in range(n) if i != si]
  for a, i in enumerate(others):
    h.assume(d2[i] >= 0.01)
    for j in others[a + 1:]:
      dd = d2[i] - d2[j]
      h.assume(h.or_(dd >= 1e-6, dd <= -1e-6))
  rates = [h.real(f'r{k}', 0, 100) for k in range(3)]
  seen = []

  def fn(grid, beam_position, silicon_position, neighbor_indices):
    seen.append((grid, beam_position, silicon_position,
                 [int(i) for i in neighbor_indices]))
    return h.array(list(rates))

  beam = common.pt(h, 'beam', -10, 10)
  out = graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=fn)(g, beam)
  h.check(len(seen) == 1, 'rates asked once')
  g2, b2, s2, idx = seen[0]
  h.check(h.and_(common.same_grid(h, g, g2, 0), common.same_pt(h, beam, b2, 0),
                 h.close(s2[0], pos[si, 0], 0), h.close(s2[1], pos[si, 1], 0)),
          'rates asked for this state and beam')
  h.check(len(out.successor_states) == 3, 'three successor states')
  h.check(sorted(idx) == idx or len(set(idx)) == 3, 'distinct neighbours')
  h.check(si not in idx and len(set(idx)) == 3, 'neighbours exclude the dopant')
  rest = [i for i in others if i not in idx]
  for i in idx:
    for j in rest:
      h.check(d2[i] <= d2[j] + 1e-7, 'neighbours are the nearest atoms')
  tot = 0
  for k, s in enumerate(out.successor_states):
    tot = tot + rates[k]
    h.check(h.arr_close(s.grid.atom_positions, pos, 0), 'positions are fixed')
    want = [SI if i == idx[k] else C for i in range(n)]
    h.check(h.arr_close(s.grid.atomic_numbers, h.int_array(want), 0),
            'only the dopant moves, onto the neighbour of that rate')
    h.check(common.near(h, rates[k], s.rate, 1e-6), 'rate of its neighbour')
  h.check(common.near(h, tot, out.total_rate, 1e-5), 'total rate is the sum')
  h.check(h.arr_close(g.atomic_numbers, h.int_array(z), 0),
          'the current state is left alone')


@case(bounds='4 fixed-shape atoms; one rate at most -1e-3')
def negative(h):
  """Negative rates are refused."""
  g = mu.AtomicGrid(h.array([[0.0, 0.0], [1.0, 0.1], [0.2, -1.1],
                             [-1.3, 0.2]]), h.int_array([SI, C, C, C]))
  k = h.pick('k', range(3))
  r = [h.real('ok', 0, 10)] * 3
  r[k] = h.real('bad', -10, -1e-3)
  p = graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=lambda *a: h.array(list(r)))
  h.check_raises(AssertionError, 'negative rate refused', p, g,
                 common.pt(h, 'beam', -5, 5))


@case(quick=[dict(n=0)], bounds='no dopant')
def no_dopant(h, n):
  g = mu.AtomicGrid(h.reals('p', (4, 2), -10, 10), h.int_array([C] * 4))
  p = graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=lambda *a: h.array([1.0, 1.0, 1.0]))
  h.check_raises(graphene.SiliconNotFoundError, 'no dopant: refused', p, g,
                 common.pt(h, 'beam', -5, 5))


def neighbour(h, name, si):
  """A neighbour one bond length from the dopant in an arbitrary direction."""
  a = h.angle(name)
  c, s = h.cs(a)
  return (c, s), (si[0] + A * c, si[1] + A * s)


@case(bounds='1 neighbour at one bond length in any direction; preferred '
             'offset anywhere within 2 bond lengths, any isotropic spread '
             '0.05..2, any peak rate 0.01..10')
def prior(h):
  """Human prior: peaks where the preferred offset, turned with the
  neighbour, is hit by the beam; bounded by the peak rate."""
  si = (h.real('sx', -10, 10), h.real('sy', -10, 10))
  (c, s), p = neighbour(h, 'dir', si)
  far = (si[0] + 100.0, si[1] - 50.0)
  g = mu.AtomicGrid(h.array([[far[0], far[1]], [p[0], p[1]],
                             [si[0], si[1]]]), h.int_array([C, C, SI]))
  mx, my = h.real('mx', -2, 2), h.real('my', -2, 2)
  v = h.real('var', 0.05, 2)
  top = h.real('max', 0.01, 10)
  model = graphene.HumanPriorRatePredictor(
      mean=h.array([mx, my]), cov=h.array([[v, 0.0], [0.0, v]]), max_rate=top)
  peak = (si[0] + A * (mx * c - my * s), si[1] + A * (mx * s + my * c))
  sip = h.array([si[0], si[1]])
  r = model.predict(g, h.Point(peak[0], peak[1]), sip, h.np.asarray([1]))
  h.check(r.shape == (1,), 'one rate per neighbour')
  h.observe('peak', r)
  h.check(h.close(r[0], top, 1e-5), 'peak rate where the offset is hit')
  ux, uy = h.real('ux', -3, 3), h.real('uy', -3, 3)
  r2 = model.predict(g, h.Point(peak[0] + A * ux, peak[1] + A * uy), sip,
                     h.np.asarray([1]))
  h.check(h.and_(r2[0] >= 0, r2[0] <= top + 1e-6), 'never above the peak rate')
  r3 = model.predict(g, h.Point(peak[0] - A * uy, peak[1] + A * ux), sip,
                     h.np.asarray([1]))
  h.check(h.close(r2[0], r3[0], 1e-5), 'falls off evenly around the peak')


@case(quick=[dict(turn=t) for t in (0, 1, 2)],
      thorough=[dict(turn=t) for t in range(6)],
      bounds='default parameters; three neighbours 120 degrees apart at three '
             'orientations (thorough: six), dopant anywhere, beam within 5 A')
def prior_default(h, turn):
  """Default prior: the neighbour in front of the beam is favoured."""
  si = (h.real('sx', -10, 10), h.real('sy', -10, 10))
  # exact rational directions close to 120 degrees apart
  (c, s) = [(1.0, 0.0), (0.6, 0.8), (-0.96, 0.28), (0.0, -1.0), (-0.6, -0.8),
            (0.28, -0.96)][turn]
  k3 = 3 ** 0.5 / 2
  dirs = [(c, s), (-c / 2 - s * k3, -s / 2 + c * k3),
          (-c / 2 + s * k3, -s / 2 - c * k3)]
  pos = [[si[0] + A * a, si[1] + A * b] for a, b in dirs]
  g = mu.AtomicGrid(h.array([[si[0], si[1]]] + pos),
                    h.int_array([SI, C, C, C]))
  model = graphene.HumanPriorRatePredictor()
  bx, by = h.real('bx', -5, 5), h.real('by', -5, 5)
  r = model.predict(g, h.Point(si[0] + bx, si[1] + by),
                    h.array([si[0], si[1]]), h.np.asarray([1, 2, 3]))
  h.check(r.shape == (3,), 'one rate per neighbour')
  proj = [a * bx + b * by for a, b in dirs]
  top = constants.SIGR_PRIOR_MAX_RATE
  for k in range(3):
    h.check(h.and_(r[k] >= 0, r[k] <= top + 1e-6), 'rate within [0, peak]')
    j = (k + 1) % 3
    h.check(h.implies(proj[k] >= proj[j] + 1e-3, r[k] >= r[j] - 1e-9),
            'the neighbour the beam leans towards is favoured')
    h.check(h.implies(proj[j] >= proj[k] + 1e-3, r[j] >= r[k] - 1e-9),
            'the neighbour the beam leans towards is favoured')


def gmm(h, n, wts=None):
  w = h.reals('w', n, 0.1, 1) if wts is None else h.array(wts)
  return graphene.GaussianMixtureRateFunction(
      max_rate=h.real('max', 0.01, 5), mixture_weights=w,
      loc_distances=h.reals('loc', n, -2, 3),
      variances=h.reals('var', (n, 2), 0.1, 5))


def star(h, si_index=0):
  """Dopant with three exact neighbours plus a far atom."""
  si = (h.real('sx', -10, 10), h.real('sy', -10, 10))
  (c, s), _ = neighbour(h, 'dir', si)
  k3 = 3 ** 0.5 / 2
  dirs = [(c, s), (-c / 2 - s * k3, -s / 2 + c * k3),
          (-c / 2 + s * k3, -s / 2 - c * k3)]
  # lengths slightly different so that the neighbour order is determined
  ls = [A, A * 1.01, A * 1.02]
  rows = [[si[0] + l * a, si[1] + l * b] for l, (a, b) in zip(ls, dirs)]
  rows.insert(si_index, [si[0], si[1]])
  rows.append([si[0] + 30.0, si[1]])
  z = [C] * 5
  z[si_index] = SI
  return si, dirs, ls, mu.AtomicGrid(h.array(rows), h.int_array(z))


@case(quick=[dict(k=k) for k in range(3)], timeouts=(20, 60, 60),
      bounds='one mixture component with any parameters; lattice-like '
             'surroundings at any position and orientation')
def mixture(h, k):
  si, dirs, ls, g = star(h, 1)
  f = gmm(h, 1)
  d, l = dirs[k], ls[k]
  loc = f.loc_distances[0] * l
  u, v = h.real('u', -4, 4), h.real('v', -4, 4)

  def rate_at(along, across):
    x = si[0] + (loc + along) * d[0] - across * d[1]
    y = si[1] + (loc + along) * d[1] + across * d[0]
    out = f(g, h.Point(x, y))
    h.check(len(out.successor_states) == 3, 'three successor states')
    for i, s in enumerate(out.successor_states):
      h.check(h.arr_close(s.grid.atom_positions, g.atom_positions, 0),
              'positions are fixed')
      want = [C] * 5
      want[(0, 2, 3)[i]] = SI
      h.check(h.arr_close(s.grid.atomic_numbers, h.int_array(want), 0),
              'dopant moves to one neighbour, nearest first')
    return out.successor_states[k].rate

  top = rate_at(0.0, 0.0)
  h.check(h.close(top, f.max_rate, 1e-5), 'peak rate along the bond')
  r = rate_at(u, v)
  h.check(h.and_(r >= 0, r <= f.max_rate + 1e-5), 'rate within [0, peak]')


@case(quick=[dict(k=k, n=2) for k in range(3)],
      thorough=[dict(k=k, n=n) for k in range(3) for n in (2, 3)],
      timeouts=(20, 60, 60),
      bounds='n mixture components with any weights, locations, variances and '
             'peak rate; three neighbours at one orientation, dopant anywhere, '
             'beam within 4 A of the dopant')
def mixture_sum(h, k, n):
  """The rate is the weighted sum of bond-aligned bells, scaled so that the
  tallest single bell reaches the peak rate."""
  si = (h.real('sx', -10, 10), h.real('sy', -10, 10))
  dirs = [(0.6, 0.8), (-0.96, 0.28), (0.28, -0.96)]
  ls = [A, A * 1.01, A * 1.02]
  rows = [[si[0] + l * a, si[1] + l * b] for l, (a, b) in zip(ls, dirs)]
  rows.insert(1, [si[0], si[1]])
  rows.append([si[0] + 30.0, si[1]])
  g = mu.AtomicGrid(h.array(rows), h.int_array([C, SI, C, C, C]))
  f = gmm(h, n)
  u, v = h.real('u', -4, 4), h.real('v', -4, 4)
  d, l = dirs[k], ls[k]
  out = f(g, h.Point(si[0] + u * d[0] - v * d[1], si[1] + u * d[1] + v * d[0]))
  rate = out.successor_states[k].rate
  total, tallest = 0.0, None
  for i in range(n):
    va, vb = f.variances[i, 0], f.variances[i, 1]
    a = u - f.loc_distances[i] * l
    height = f.mixture_weights[i] / h.math.sqrt(va * vb)
    total = total + height * h.math.exp(-0.5 * (a * a / va + v * v / vb))
    if tallest is None or h.branch(height > tallest):
      tallest = height
  h.check(h.close(rate * tallest, f.max_rate * total, 1e-5), 'mixture rate')


class FakeMsgpack:

  def __init__(self):
    self.last = None

  def packb(self, bundle, *a, **k):
    assert isinstance(bundle, dict)
    self.last = {k2: (v.copy() if hasattr(v, 'copy') else v)
                 for k2, v in bundle.items()}
    return b'token'

  def unpackb(self, data, *a, **k):
    assert data == b'token'
    return dict(self.last)


def _extra(params):
  return [(graphene, 'msgpack', FakeMsgpack())]


@case(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 4)],
      extra=_extra, bounds='n components with any parameters (msgpack itself '
                           'replaced by a copy in the encoding)')
def stored(h, n):
  """A mixture rate function written to a directory reads back equal."""
  import tempfile
  f = gmm(h, n)
  with tempfile.TemporaryDirectory() as d:
    f.serialize_to_directory(d + '/sub')
    g = graphene.GaussianMixtureRateFunction.deserialize_from_directory(
        d + '/sub')
  h.check(h.close(g.max_rate, f.max_rate, 1e-9), 'peak rate')
  h.check(h.arr_close(g.mixture_weights, f.mixture_weights, 1e-9), 'weights')
  h.check(h.arr_close(g.loc_distances, f.loc_distances, 1e-9), 'locations')
  h.check(h.arr_close(g.variances, f.variances, 1e-9), 'variances')
  h.check(h.branch(f == g), 'equal to the original')


@case(quick=[dict(field=x) for x in ('max', 'w', 'loc', 'var')],
      bounds='2 components; one parameter differs by more than 2e-3')
def different(h, field):
  """Rate functions whose parameters differ are not equal."""
  f = gmm(h, 2)
  d = h.real('d', 2e-3, 3)
  sign = h.pick('sign', [1.0, -1.0])
  i = h.pick('i', [0, 1])
  kw = dict(max_rate=f.max_rate, mixture_weights=f.mixture_weights.copy(),
            loc_distances=f.loc_distances.copy(), variances=f.variances.copy())
  if field == 'max':
    kw['max_rate'] = f.max_rate + sign * d
  elif field == 'w':
    kw['mixture_weights'][i] = kw['mixture_weights'][i] + sign * d
  elif field == 'loc':
    kw['loc_distances'][i] = kw['loc_distances'][i] + sign * d
  else:
    j = h.pick('j', [0, 1])
    kw['variances'][i, j] = kw['variances'][i, j] + sign * d
  g = graphene.GaussianMixtureRateFunction(**kw)
  h.check(h.not_(f == g), 'differing parameters: not equal')
  h.check(h.not_(g == f), 'differing parameters: not equal (swapped)')


@case(bounds='up to 3 components, any draws')
def sampled(h):
  rng = h.rng('rng')
  f = graphene.GaussianMixtureRateFunction.sample_new(rng)
  n = len(f.mixture_weights)
  h.check(f.loc_distances.shape == (n,) and f.variances.shape == (n, 2) and
          f.mixture_weights.shape == (n,) and n >= 1,
          'as many weights, places and spreads as components')
  w = list(f.mixture_weights)
  h.assume(h.or_(*[x > 1e-3 for x in w]))
  h.check(h.and_(h.close(sum(w), 1, 1e-6), *[x >= 0 for x in w]),
          'weights share out the rate')
  h.check(h.and_(f.max_rate >= 0.0099, *[
      v >= 0.0999 for v in f.variances.reshape(-1)]),
          'rates and spreads are positive')
