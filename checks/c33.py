"""C33: estimating drift and merging observations."""

import itertools

import numpy as np

from symex.run import case
from checks import common
from putting_dune import alignment

BIG = 1000.0


def points(h, name, n, lo=-5, hi=5):
  return [(h.real(f'{name}{i}x', lo, hi), h.real(f'{name}{i}y', lo, hi))
          for i in range(n)]


def arr(h, ps):
  return h.array([list(p) for p in ps]).reshape(len(ps), 2)


def d2(p, q):
  return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2


def same(h, a, ps, tol=1e-6):
  return h.all(h.and_(h.close(a[i, 0], p[0], tol), h.close(a[i, 1], p[1], tol))
               for i, p in enumerate(ps))


SPOTS = [(0.0, 0.0), (1.0, 0.2), (-0.3, 0.9)]


@case(quick=[dict(n=1, m=1, cut=None), dict(n=2, m=2, cut=0),
             dict(n=2, m=1, cut=1.1), dict(n=1, m=3, cut=0.5)],
      thorough=[dict(n=n, m=m, cut=c) for n, m in ((1, 2), (2, 1), (2, 3))
                for c in (None, 0, 0.5, 1.1)],
      timeouts=(20, 60), budget=300,
      bounds='up to 2 points anywhere in a 10 A box against a reference '
             'anywhere, any cut-off, or against up to 3 references at fixed '
             'places, without cut-off and with two')
def offsets(h, n, m, cut):
  free = cut is None
  new, ref = points(h, 'n', n), points(h, 'r', m) if free else SPOTS[:m]
  # lengths are compared squared
  c = h.real('cut', 0.1, 20) if free else cut
  cut = free or cut > 0
  for p in new:
    ds = [d2(p, q) for q in ref]
    for a, b in itertools.combinations(ds, 2):
      h.apart(a, b, 1e-3)
    if cut:
      for d in ds:
        h.apart(d, c * c, 1e-3)
  a, b = arr(h, new), arr(h, ref)
  out = (alignment.get_offsets(a, b, c) if cut else alignment.get_offsets(a, b))
  want = []
  for p in new:
    ds = [d2(p, q) for q in ref]
    k = [j for j in range(m) if all(h.branch(ds[j] < ds[i])
                                    for i in range(m) if i != j)]
    h.check(len(k) == 1, 'one reference is nearest')
    if not cut or h.branch(ds[k[0]] < c * c):
      want.append((ref[k[0]][0] - p[0], ref[k[0]][1] - p[1]))
  h.check(out.shape == (len(want), 2), 'one offset per point near a reference')
  h.check(same(h, out, want), 'from the point to its nearest reference')
  h.check(h.and_(same(h, a, new), same(h, b, ref)), 'inputs are left alone')


LATTICE = [(0.0, 0.0), (2.4, 0.0), (1.2, 2.1)]
OTHER = [(1.2, 0.7), (2.4, 1.4)]


def scene(h, reach):
  """Two classes of atoms, seen again after a small shift."""
  s = (h.real('sx', -reach, reach), h.real('sy', -reach, reach))
  ref = LATTICE + OTHER
  cls = [0] * len(LATTICE) + [1] * len(OTHER)
  new = [(x - s[0], y - s[1]) for x, y in ref]
  return s, ref, cls, new


@case(quick=[dict(start='default', trim=0.0, cut=False),
             dict(start='none', trim=0.0, cut=True),
             dict(start='given', trim=0.0, cut=False),
             dict(start='default', trim=0.5, cut=False)],
      timeouts=(20, 60), budget=300,
      bounds='five atoms of two kinds (bond length apart), shifted by up to '
             '0.45 A each way (and, where a start is given, as far from it as '
             'that); two iterations')
def recover(h, start, trim, cut):
  s, ref, cls, new = scene(h, 0.45)
  kw = {}
  init = None
  if start == 'none':
    kw['init_shift'] = None
  elif start == 'given':
    # a first guess away from which the shift is small
    g = (h.real('ix', -1.5, 1.5), h.real('iy', -1.5, 1.5))
    new = [(x - g[0], y - g[1]) for x, y in new]
    s = (s[0] + g[0], s[1] + g[1])
    init = h.array(list(g))
    kw['init_shift'] = init
  if trim:
    kw['trim'] = trim
  if cut:
    kw['mask_above'] = 2.0
  a, b = arr(h, new), arr(h, ref)
  ca, cb = h.int_array(cls), h.int_array(cls)
  call = lambda: alignment.align_latest(a, b, ca, cb, iterations=2,
                                        max_shift=4.0, **kw)
  out = call()
  h.check(h.and_(h.close(out[0], s[0], 1e-5), h.close(out[1], s[1], 1e-5)),
          'the shift that brings new onto reference coordinates')
  if init is not None:
    h.check(h.and_(h.close(init[0], g[0], 1e-9), h.close(init[1], g[1], 1e-9)),
            'the first guess is left alone')
  h.check(h.and_(same(h, a, new), same(h, b, ref)), 'inputs are left alone')


@case(timeouts=(20, 60),
      bounds='any alignment of one point first, then of another against two '
             'references, all in a 4 A box, with default arguments')
def repeatable(h):
  p, q = points(h, 'p', 1, -2, 2), points(h, 'q', 1, -2, 2)
  new, ref = points(h, 'n', 1, -2, 2), points(h, 'r', 2, -2, 2)
  h.apart(d2(new[0], ref[0]), d2(new[0], ref[1]), 1e-2)
  call = lambda x, y, **k: alignment.align_latest(
      arr(h, x), arr(h, y), h.int_array([0]), h.int_array([0] * len(y)),
      iterations=1, max_shift=10.0, **k)
  one = call(p, q)
  x, y = one[0] + 0, one[1] + 0
  two = call(new, ref)
  three = call(new, ref, init_shift=h.array([0.0, 0.0]))
  h.check(h.and_(h.close(two[0], three[0], 1e-6),
                 h.close(two[1], three[1], 1e-6)),
          'alignment starts from no shift, whatever was aligned before')
  h.check(h.and_(h.close(one[0], x, 1e-9), h.close(one[1], y, 1e-9)),
          'earlier results are left alone')


@case(quick=[dict(iterations=1, noise=False), dict(iterations=2, noise=True),
             dict(iterations=1, noise=True),
             dict(iterations=2, noise=False)],
      thorough=[dict(iterations=i, noise=s) for i in (1, 2, 3)
                for s in (False, True)],
      timeouts=(20, 60), budget=300,
      bounds='up to 2 (thorough 3) iterations, one point against one reference '
             'anywhere within 20 A, any noise and limit')
def bounded(h, iterations, noise):
  new, ref = points(h, 'n', 1, -10, 10), points(h, 'r', 1, -10, 10)
  top = h.real('max', 0.1, 10)
  kw = {}
  drawn = []
  if noise:
    kw['noise_scale'] = h.real('noise', 0.1, 3)

  def normal(*a, **k):
    drawn.append(h.reals('normal', (2,), -4, 4))
    return drawn[-1]

  with common.swap((np.random, 'normal', normal)):
    out = alignment.align_latest(arr(h, new), arr(h, ref), h.int_array([0]),
                                 h.int_array([0]), iterations=iterations,
                                 max_shift=top, **kw)
  m = top * top
  h.check(out[0] ** 2 + out[1] ** 2 <= m + 1e-4 * (1 + m),
          'never further than the limit')
  s = (ref[0][0] - new[0][0], ref[0][1] - new[0][1])
  l2 = s[0] ** 2 + s[1] ** 2
  h.check(h.implies(l2 <= m, h.and_(h.close(out[0], s[0], 1e-4),
                                    h.close(out[1], s[1], 1e-4))),
          'shifts within the limit are recovered')
  cross = out[0] * s[1] - out[1] * s[0]
  if not noise:
    h.check(h.and_(cross <= 1e-3, cross >= -1e-3,
                   out[0] * s[0] + out[1] * s[1] >= -1e-3),
            'longer shifts keep their direction')
  if iterations > 1:
    h.check(len(drawn) == (iterations - 1 if noise else 0),
            'noise is gone in the end')


@case(quick=[dict(far='class'), dict(far='all'), dict(far='trim')],
      bounds='one to two points anywhere; no reference of the same class, none '
             'within the cut-off, or one match with half of them trimmed')
def nothing(h, far):
  if far == 'class':
    # class 1 has no reference: only class 0 can be aligned
    new, ref = points(h, 'n', 2, -1, 1), points(h, 'r', 1, -1, 1)
    out = alignment.align_latest(arr(h, new), arr(h, ref), h.int_array([0, 1]),
                                 h.int_array([0]), iterations=1, max_shift=10.0)
    want = (ref[0][0] - new[0][0], ref[0][1] - new[0][1])
  elif far == 'all':
    new = points(h, 'n', 1, -1, 1)
    ref = points(h, 'r', 1, 5, 6)
    out = alignment.align_latest(arr(h, new), arr(h, ref), h.int_array([0]),
                                 h.int_array([0]), iterations=2, mask_above=2.0)
    want = (0.0, 0.0)
  else:
    new, ref = points(h, 'n', 1, -1, 1), points(h, 'r', 1, -1, 1)
    out = alignment.align_latest(arr(h, new), arr(h, ref), h.int_array([0]),
                                 h.int_array([0]), iterations=1, trim=0.5,
                                 max_shift=10.0)
    want = (ref[0][0] - new[0][0], ref[0][1] - new[0][1])
  h.check(h.and_(h.close(out[0], want[0], 1e-5), h.close(out[1], want[1], 1e-5)),
          'what can be compared decides; without any, nothing is shifted')


@case(bounds='four matches, one of them off by any amount up to 1 A')
def trimmed(h):
  s = (h.real('sx', -0.3, 0.3), h.real('sy', -0.3, 0.3))
  ref = [(0.0, 0.0), (10.0, 0.0), (0.0, 10.0), (10.0, 10.0)]
  new = [(x - s[0], y - s[1]) for x, y in ref]
  o = (h.real('ox', 2, 3), h.real('oy', 2, 3))
  new[2] = (new[2][0] - o[0], new[2][1] - o[1])
  out = alignment.align_latest(arr(h, new), arr(h, ref), h.int_array([0] * 4),
                               h.int_array([0] * 4), iterations=1, trim=0.25,
                               max_shift=10.0)
  h.check(h.and_(h.close(out[0], s[0], 1e-5), h.close(out[1], s[1], 1e-5)),
          'the matches furthest apart are left out')


def merged(h, groups):
  """Average of each group of points."""
  return [(sum(p[0] for p in g) / len(g), sum(p[1] for p in g) / len(g))
          for g in groups]


def matches(h, out, counts, groups, label):
  want = merged(h, groups)
  h.check(out.shape == (len(want), 2) and np.shape(counts) == (len(want),),
          'one point per group')
  h.check(h.all(
      h.any(h.and_(h.close(out[i, 0], w[0], 1e-5), h.close(out[i, 1], w[1], 1e-5),
                   h.close(counts[i], len(g), 1e-9))
            for i in range(len(want))) for w, g in zip(want, groups)), label)


@case(quick=[dict(sizes=(1, 1)), dict(sizes=(2, 1)), dict(sizes=(1, 2)),
             dict(sizes=(0, 1, 1)), dict(sizes=(1, 0)), dict(sizes=(1, 1, 1))],
      thorough=[dict(sizes=(2, 2)), dict(sizes=(1, 2, 1)), dict(sizes=(3, 1)),
                dict(sizes=(2, 1, 1))],
      timeouts=(20, 60), budget=300,
      bounds='up to three observations of up to two points anywhere in a 4 A '
             'box, any cut-off')
def naive(h, sizes):
  cut = h.real('cut', 0.2, 1.5)
  obs = [points(h, f'p{i}', n, -2, 2) for i, n in enumerate(sizes)]
  arrays = [arr(h, o) for o in obs]
  # What the documentation says, point by point.
  first = [o for o in obs if o][0]
  groups = [[p] for p in first]
  mean = list(first)
  for o in [o for o in obs if o][1:]:
    start = list(mean)
    extra = []
    for p in o:
      ds = [d2(p, q) for q in start]
      for a, b in itertools.combinations(ds, 2):
        h.apart(a, b, 1e-3)
      k = 0
      for j in range(1, len(ds)):
        if h.branch(ds[j] < ds[k]):
          k = j
      # near the mean it has by now
      d = d2(p, start[k])
      h.apart(d, cut * cut, 1e-3)
      if h.branch(d < cut * cut):
        groups[k].append(p)
        n = len(groups[k])
        mean[k] = tuple((mean[k][c] * (n - 1) + p[c]) / n for c in (0, 1))
      else:
        extra.append(p)
    groups += [[p] for p in extra]
    mean += extra
  out, counts = alignment.naive_merge(arrays, cut)
  matches(h, out, counts, groups, 'points near each other become their mean')
  h.check(h.all(same(h, a, o) for a, o in zip(arrays, obs)),
          'observations are left alone')


class Tree:
  """Pairs of points within a distance, decided by the solver."""
  h = None

  def __init__(self, data, *a, **k):
    self.data = data

  def query_pairs(self, r, output_type='set', **k):
    h, x = self.h, self.data
    out = []
    for i in range(len(x)):
      for j in range(i + 1, len(x)):
        d = (x[i, 0] - x[j, 0]) ** 2 + (x[i, 1] - x[j, 1]) ** 2
        h.apart(d, r * r, 1e-3)
        if h.branch(d <= r * r):
          out.append((i, j))
    return np.array(out, dtype=np.int64).reshape(-1, 2) if (
        output_type == 'ndarray') else set(out)


@case(quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=3), dict(n=4)],
      timeouts=(20, 60), budget=300,
      bounds='up to 3 (thorough 4) points in a 4 A box, any distance; groups in '
             'which all are close to each other and to nobody else')
def cliques(h, n):
  r = h.real('r', 0.3, 1.5)
  ps = points(h, 'p', n, -2, 2)
  a = arr(h, ps)
  near = {}
  for i, j in itertools.combinations(range(n), 2):
    d = d2(ps[i], ps[j])
    h.apart(d, r * r, 1e-3)
    near[i, j] = near[j, i] = h.branch(d <= r * r)
  # neighbours of neighbours are neighbours
  for i, j, k in itertools.permutations(range(n), 3):
    if near[i, j] and near[j, k]:
      h.assume(near[i, k])
  groups = []
  for i in range(n):
    for g in groups:
      if near[g[0], i]:
        g.append(i)
        break
    else:
      groups.append([i])
  groups = [[ps[i] for i in g] for g in groups]
  # and so are their means not
  m = merged(h, groups)
  for p, q in itertools.combinations(m, 2):
    h.assume(d2(p, q) > r * r + 1e-2)
  Tree.h = h
  with common.swap((alignment.scipy.spatial, 'cKDTree', Tree)):
    out, counts = alignment.clique_merge(a, r)
  matches(h, out, counts, groups, 'groups of close points become their mean')
  h.check(same(h, a, ps), 'the points are left alone')


@case(quick=[dict(n=2), dict(n=3)], bounds='two or three points that all '
      'become one, standing for up to 9 points each')
def weighted(h, n):
  ps = points(h, 'p', n, -0.5, 0.5)
  w = [h.int(f'w{i}', 1, 9) for i in range(n)]
  Tree.h = h
  for p, q in itertools.combinations(ps, 2):
    h.assume(d2(p, q) < 2)
  c = h.array([v + 0.0 for v in w])
  with common.swap((alignment.scipy.spatial, 'cKDTree', Tree)):
    out, counts = alignment.clique_merge(arr(h, ps), 1.5, counts=c)
  t = sum(w)
  h.check(out.shape == (1, 2) and np.shape(counts) == (1,), 'one point')
  h.check(h.and_(h.eq(counts[0], t), *[
      h.close(out[0, k] * t, sum(v * p[k] for v, p in zip(w, ps)), 1e-5)
      for k in (0, 1)]), 'points weigh as many points as they stand for')


@case(quick=[dict(n=2, fixed=0), dict(n=3, fixed=2)],
      thorough=[dict(n=3, fixed=1), dict(n=4, fixed=2)],
      timeouts=(20, 60), budget=300,
      bounds='two points in a 4 A box, any distance; or one (thorough two) more '
             'points and two at fixed places')
def separated(h, n, fixed):
  r = 1.2 if fixed else h.real('r', 0.3, 1.5)
  ps = [(0.0, 0.0), (1.5, 0.2)][:fixed] + points(h, 'p', n - fixed, -2, 2)
  Tree.h = h
  with common.swap((alignment.scipy.spatial, 'cKDTree', Tree)):
    out, counts = alignment.clique_merge(arr(h, ps), r)
  k = out.shape[0]
  h.check(h.all((out[i, 0] - out[j, 0]) ** 2 + (out[i, 1] - out[j, 1]) ** 2 >
                r * r - 1e-4 for i in range(k) for j in range(i)),
          'what is left is further apart than the distance')
  h.check(1 <= k <= n, 'never more points than before')


@case(quick=[dict(n=1, m=1, given=False, t=0.0), dict(n=2, m=2, given=False, t=0.8),
             dict(n=1, m=2, given=True, t=0.5), dict(n=2, m=3, given=True, t=0.8)],
      thorough=[dict(n=n, m=m, given=g, t=t) for n in (1, 2) for m in (2, 3)
                for g in (False, True) for t in (0.4, 0.8)],
      timeouts=(20, 60), budget=300,
      bounds='up to 2 old atoms anywhere in a 4 A box, one new atom anywhere or '
             'up to 3 at fixed places, any numbers, threshold and default')
def numbers(h, n, m, given, t):
  old = points(h, 'o', n, -2, 2)
  new = SPOTS[:m] if t else points(h, 'n', m, -2, 2)
  z = [h.int(f'z{i}', 1, 99) for i in range(n)]
  t = t or h.real('t', 0.2, 2)
  zero = [h.int(f'y{i}', 1, 99) for i in range(m)] if given else [
      h.int('default', 1, 99)] * m
  kw = dict(new_atomic_numbers=h.int_array(zero)) if given else dict(
      default_atomic_number=zero[0])
  want = {}
  for i, p in enumerate(old):
    ds = [d2(p, q) for q in new]
    for a, b in itertools.combinations(ds, 2):
      h.apart(a, b, 1e-3)
    k = 0
    for j in range(1, m):
      if h.branch(ds[j] < ds[k]):
        k = j
    h.apart(ds[k], t * t, 1e-3)
    if h.branch(ds[k] < t * t):
      want.setdefault(k, []).append(z[i])
  out = alignment.propagate_atomic_numbers(
      arr(h, old), arr(h, new), h.int_array(z), threshold=t, **kw)
  h.check(out.shape == (m,), 'one number per new atom')
  for k in range(m):
    h.check(h.any(h.eq(out[k], v) for v in want.get(k, [zero[k]])),
            'from an atom nearest to it, or as before')


B = 1.42
PATCH = [(0.0, 0.0), (B, 0.0), (-B / 2, B * 3 ** 0.5 / 2),
         (-B / 2, -B * 3 ** 0.5 / 2), (1.5 * B, B * 3 ** 0.5 / 2),
         (1.5 * B, -B * 3 ** 0.5 / 2)]
COLOUR = [0, 1, 1, 1, 0, 0]


@case(quick=[dict(turn=0.0, flip=False), dict(turn=0.5, flip=True)],
      bounds='a patch of six atoms, two of them with three bonds, in two '
             'orientations; any labels of the atoms at the edge')
def classes(h, turn, flip):
  c, s = np.cos(turn), np.sin(turn)
  ps = np.array([(c * x - s * y, s * x + c * y) for x, y in PATCH])
  lab = [1 - v if flip else v for v in COLOUR]
  raw = [lab[0], lab[1]] + [h.int(f'c{i}', 0, 1) for i in range(4)]
  out = alignment.propagate_graphene_classes(h.int_array(raw), ps)
  h.check(h.all(h.eq(out[i], v) for i, v in enumerate(lab)),
          'bonded atoms get different labels')
