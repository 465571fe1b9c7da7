"""C34: keeping a history of observations aligned."""

import numpy as np

from symex.run import case
from checks import common
from putting_dune import alignment
from putting_dune import constants
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import align_trajectories

SI, C = constants.SILICON, constants.CARBON


def same(h, a, b, tol=1e-6):
  return common.same_rows(h, a, b, tol)


class Parts:
  """Everything a filter is made of, with arbitrary outcomes."""

  def __init__(self, h):
    self.h = h
    self.aligned, self.merges, self.trained, self.classified = [], [], [], []

  def clusterer(self, grid):
    self.trained.append(grid + 0.0)
    return ('clusters', len(self.trained))

  def classify(self, grid, clusters):
    out = self.h.int_array([self.h.int('class', 0, 1) for _ in range(len(grid))])
    self.classified.append((grid + 0.0, clusters, out))
    return out

  def align(self, new, ref, new_classes, ref_classes, **kw):
    out = self.h.reals('drift', (2,), -2, 2)
    self.aligned.append(
        (new + 0.0, ref + 0.0, new_classes, ref_classes, kw, out))
    return out

  def _merge(self, kind, coords, cutoff):
    if kind == 'naive':
      coords = [c + 0.0 for c in coords]
    else:
      coords = [coords + 0.0]
    coords = self.h.np.concatenate(coords, 0)
    # one point near the last atom observed, one far from all
    e = self.h.reals('e', (2,), -0.5, 0.5)
    far = self.h.reals('far', (2,), 200, 300)
    last = coords[len(coords) - 1]
    rows = [[last[0] + e[0], last[1] + e[1]], [far[0], far[1]]]
    out = self.h.array(rows if self.h.pick('order', (0, 1)) else rows[::-1])
    self.merges.append((kind, coords, cutoff, out))
    return out, self.h.array([1.0, 1.0])

  def naive(self, coords, cutoff=0.7):
    return self._merge('naive', coords, cutoff)

  def clique(self, coords, min_distance=1.0, **k):
    return self._merge('clique', coords, min_distance)

  def swapped(self):
    return common.swap(
        (alignment, 'get_lattice_clusterer', self.clusterer),
        (alignment, 'classify_lattice_types', self.classify),
        (alignment, 'align_latest', self.align),
        (alignment, 'naive_merge', self.naive),
        (alignment, 'clique_merge', self.clique))


FILTERS = [dict(steps=3, keep=1, clique=False, accumulate=False),
           dict(steps=4, keep=2, clique=True, accumulate=False),
           dict(steps=4, keep=2, clique=False, accumulate=True),
           dict(steps=3, keep=10, clique=False, accumulate=False)]


@case(quick=FILTERS, thorough=[dict(steps=6, keep=k, clique=c, accumulate=a)
                               for k in (1, 2, 3) for c in (False, True)
                               for a in (False, True)],
      timeouts=(10, 60),
      bounds='up to 4 (thorough 6) observations of one or two atoms anywhere, '
             'any drift estimates, two merged positions, histories of 1, 2 and 10')
def filtering(h, steps, keep, clique, accumulate):
  parts = Parts(h)
  kw = dict(alignment_iterations=h.int('iterations', 1, 50),
            noise_scale=h.real('noise', 0, 2), max_shift=h.real('max', 0.1, 5),
            trim=h.real('trim', 0, 0.5))
  cut = h.real('cut', 0.1, 2)
  f = alignment.IterativeAlignmentFiltering(
      history_length=keep, merge_cutoff=cut, accumulate_merged=accumulate,
      clique_merging=clique, **kw)
  resets = h.pick('reset', (None, 2))
  past = []  # what is remembered: (positions, classes)
  with parts.swapped():
    for t in range(steps):
      if t == resets:
        f.reset()
        past = []
      n = 1 + t % 2
      # atoms of an observation are apart
      g = mu.AtomicGrid(
          h.array([[h.real(f'x{t}{i}', 5 * i - 1, 5 * i + 1),
                    h.real(f'y{t}{i}', -20, 20)] for i in range(n)]),
          h.int_array(h.ints(f'z{t}', n, 1, 99)))
      p0, z0 = g.atom_positions + 0.0, g.atomic_numbers + 0
      k = len(parts.aligned), len(parts.merges), len(parts.trained)
      out, drift = f(mu.AtomicGridMaterialFrame(g))
      h.check(h.and_(same(h, g.atom_positions, p0), same(h, g.atomic_numbers, z0)),
              'the observation is left alone')
      if not past:
        h.check(len(parts.trained) == k[2] + 1 and
                bool(parts.trained[-1].shape == p0.shape),
                'classes come from the first observation')
        h.check(h.and_(same(h, parts.trained[-1], p0),
                       common.same_grid(h, out, g)),
                'the first observation is the reference')
        h.check(h.and_(h.eq(drift[0], 0), h.eq(drift[1], 0)), 'without drift')
        past = [(p0, parts.classified[-1][2])]
        continue
      h.check(len(parts.aligned) == k[0] + 1 and len(parts.merges) == k[1] + 1 and
              len(parts.trained) == k[2], 'aligned and merged once')
      new, ref, nc, rc, used, d = parts.aligned[-1]
      old = [q for q, _ in past]
      h.check(new.shape == p0.shape and
              ref.shape == (sum(len(q) for q in old), 2), 'with the history')
      h.check(h.and_(same(h, new, p0),
                     same(h, ref, h.np.concatenate(old, 0)),
                     same(h, rc, h.np.concatenate([c for _, c in past], 0))),
              'the new one is aligned with what is remembered, class by class')
      h.check(h.and_(h.eq(used['iterations'], kw['alignment_iterations']),
                     h.eq(used['noise_scale'], kw['noise_scale']),
                     h.eq(used['max_shift'], kw['max_shift']),
                     h.eq(used['trim'], kw['trim'])), 'as configured')
      start = used.get('init_shift')
      h.check(start is None or h.and_(h.eq(start[0], 0), h.eq(start[1], 0)),
              'from no shift')
      h.check(h.and_(h.close(drift[0], -d[0], 1e-9), h.close(drift[1], -d[1], 1e-9)),
              'the drift is the opposite of the correction')
      moved = p0 + d
      kind, points, used_cut, joined = parts.merges[-1]
      want = h.np.concatenate(old + [moved], 0)
      h.check(kind == ('clique' if clique else 'naive') and
              points.shape == want.shape, 'merged as configured')
      h.check(h.and_(same(h, points, want, 1e-9), h.eq(used_cut, cut)),
              'what is remembered, with the corrected observation')
      h.check(h.and_(out.atom_positions.shape == (2, 2),
                     same(h, out.atom_positions, joined)),
              'the result is what was merged')
      near = 0 if h.branch(joined[0, 0] < 100) else 1
      h.check(h.and_(h.eq(out.atomic_numbers[near], z0[n - 1]),
                     h.eq(out.atomic_numbers[1 - near], C)),
              'atoms keep their number, others are carbon')
      if accumulate:
        g2, _, c2 = parts.classified[-1]
        h.check(h.and_(g2.shape == (2, 2), same(h, g2, joined)),
                'merged atoms are classified')
        past.append((joined, c2))
      else:
        past.append((moved, nc))
      past = past[-keep:]
    v = h.reals('v', (2,), -5, 5)
    if past:
      f.apply_shift(v)
      got = h.np.concatenate(f.recent_observations, 0)
      want = h.np.concatenate([q for q, _ in past], 0) + v
      h.check(h.and_(got.shape == want.shape, same(h, got, want, 1e-9)),
              'shifting moves all that is remembered')


class Tagged:
  """Stands for the network: any drift for every image it was given."""

  def __init__(self, h, size):
    self.h, self.size = h, size
    self.signatures = {'serving_default': self.run}
    self.fed, self.out = [], []

  def run(self, image):
    self.fed.append(image)
    n = np.shape(image)[-1]
    d = self.h.reals('drift', (2 * n,), -2, 2)
    logits = np.zeros(self.size + (3 * n,), np.float32)
    for k in range(n):
      logits[..., 3 * k + k % 3] = 30.0
    self.out.append((d, n))
    return {'output_0': logits, 'output_1': Out(d)}


class Out:

  def __init__(self, x):
    self.x = x

  def numpy(self):
    return self.x


SIZE = (512, 512)


@case(quick=[dict(n=3, keep=2, index=-1, given=False),
             dict(n=4, keep=3, index=-1, given=True),
             dict(n=3, keep=3, index=-2, given=False)],
      thorough=[dict(n=5, keep=k, index=i, given=g) for k in (2, 3, 5)
                for i in (-1, -2) for g in (False, True)],
      timeouts=(10, 60), validate=8, budget=300,
      bounds='up to 4 (thorough 5) images in views anywhere, histories of 2 and '
             '3 (thorough 5) images, any drift estimates')
def aligner(h, n, keep, index, given):
  a = alignment.ImageAligner(model_path=None)
  a.adaptive_normalization = False
  net = Tagged(h, SIZE)
  a.__dict__['model'] = net
  a.history_length = keep
  start = h.pick('start', ('fresh', 'reset'))
  if start == 'reset':
    a.reset(keep)
  again = h.pick('again', (None, 2))
  seen = []
  crops = []

  def crop(image, original_fov, new_fov):
    crops.append((np.asarray(image), original_fov, new_fov))
    return np.asarray(image)

  got = []

  def detect(probs, *k):
    got.append(np.asarray(probs))
    return ('grid', len(got))

  with common.swap((alignment, 'pad_and_crop_images_by_fov', crop),
                   (alignment.ImageAligner, 'process_detection_predictions',
                    detect)):
    for t in range(n):
      if t == again:
        a.reset(keep)
        seen = []
      image = np.zeros((8, 8)) if t % 2 else np.zeros((8, 8, 1))
      image[t, t] = 5.0 + t
      image[0, 7] = -1.0
      fov = common.simple_fov(h, f'fov{t}')
      crops.clear()
      mine = ('given', t) if given and t % 2 == 0 else None
      grid, drift, probs = a(image, fov, grid=mine, time_index=index)
      h.check(len(net.fed) == t + 1, 'one prediction per image')
      fed = np.asarray(net.fed[-1])
      h.check(fed.shape == SIZE + (keep,), 'as many images as configured')
      now = fed[..., -1]
      h.check(bool(abs(now.max() - 1) < 1e-6 and abs(now.min()) < 1e-6 and
                   now[t * 64 + 8, t * 64 + 8] > 0.9 and now[8, 456] < 0.1),
              'the current one comes last, from 0 to 1')
      old = seen[-(keep - 1):]
      h.check(len(crops) == keep - 1, 'all earlier ones are brought to its view')
      h.check(all(c[2] is fov for c in crops), 'the current view')
      for k in range(keep - 1):
        im, of, _ = crops[k]
        j = k - (keep - 1 - len(old))
        if j < 0:
          h.check(bool((im == 0).all()) and im.shape == SIZE + (1,),
                  'blank where there is no earlier image')
        else:
          h.check(of is old[j][1] and bool((im[..., 0] == old[j][0]).all()),
                  'earlier images, oldest first, with their own view')
      d, m = net.out[-1]
      i = 2 * (m + index)
      h.check(h.and_(h.eq(drift[0], d[i]), h.eq(drift[1], d[i + 1])),
              'the drift at the time asked for')
      h.check(bool((np.argmax(np.asarray(probs), -1) == (m + index) % 3).all()),
              'the probabilities at the time asked for')
      if mine:
        h.check(grid is mine, 'the grid given')
      else:
        h.check(got and grid == ('grid', len(got)) and
                bool((got[-1] == np.asarray(probs)).all()),
                'the grid found in these probabilities')
      seen.append((now.copy(), fov))


@case(quick=[dict(fails=False), dict(fails=True)], timeouts=(10, 60),
      bounds='any drift, observation and correction')
def hybrid(h, fails):
  a = alignment.ImageAligner(model_path=None, hybrid=True)
  a.adaptive_normalization = False
  net = Tagged(h, SIZE)
  a.__dict__['model'] = net
  a.history_length = 2
  f, lx, ly, w, ht = common.fov(h, 'fov', minw=5, maxw=50, big=100)
  g = mu.AtomicGridMicroscopeFrame(common.grid(h, 'g', 2, 0, 1))
  e = h.reals('correction', (2,), -1, 1)
  calls = []

  class Post:

    def reset(self):
      calls.append('reset')

    def __call__(self, grid):
      calls.append(grid)
      if fails:
        raise ValueError('nothing in common')
      return grid.shift(e), -e

  a.postprocessing_aligner = Post()
  image = np.arange(64.0).reshape(8, 8)
  with common.swap((alignment, 'pad_and_crop_images_by_fov',
                    lambda image, *k, **kw: np.asarray(image))):
    out, drift, _ = a(image, f, grid=g)
  d, m = net.out[-1]
  d = d[2 * (m - 1):]
  grids = [c for c in calls if not isinstance(c, str)]
  h.check(len(grids) == 1 and isinstance(calls[0], str), 'corrected once')
  o = h.obj(g.atom_positions)
  p = h.obj(grids[0].atom_positions)
  for i in range(2):
    h.check(h.and_(
        h.close(p[i, 0], lx - d[0] + w * o[i, 0], 1e-6),
        h.close(p[i, 1], ly - d[1] + ht * o[i, 1], 1e-6)),
            'with the atoms where they are, drift considered')
  if fails:
    h.check(h.and_(common.same_grid(h, out, g), h.eq(drift[0], d[0]),
                   h.eq(drift[1], d[1])), 'else, what was predicted')
    h.check(isinstance(calls[-1], str), 'and a fresh start')
    return
  h.check(h.and_(h.close(drift[0], d[0] - e[0], 1e-9),
                 h.close(drift[1], d[1] - e[1], 1e-9)), 'both drifts together')
  # the corrected view and the grid in it place atoms at the corrected spots
  q = h.obj(out.atom_positions)
  for i in range(2):
    h.check(h.and_(
        h.close(lx - drift[0] + w * q[i, 0], p[i, 0] + e[0], 1e-6),
        h.close(ly - drift[1] + ht * q[i, 1], p[i, 1] + e[1], 1e-6)),
            'corrected atoms in the corrected view')


def covered(v, z, i, j):
  """Pixels of an image within pixel (i, j) of the image scaled by z."""
  if z >= 1:
    return [v[int((i + 0.5) / z), int((j + 0.5) / z)]]
  k = int(round(1 / z))
  return v[i * k:i * k + k, j * k:j * k + k].reshape(-1).tolist()


@case(quick=[dict(shape=(4, 4), z=1), dict(shape=(4, 4), z=2),
             dict(shape=(4, 4), z=0.5), dict(shape=(3, 5), z=1)],
      thorough=[dict(shape=s, z=z) for s in ((6, 6), (5, 6), (3, 6))
                for z in (1, 2, 0.5) if z == 1 or s == (6, 6)],
      max_paths=3000, validate=32, timeouts=(10, 60), budget=300,
      bounds='images of 4x4 and 3x5 (thorough 6x6) pixels, square views of any '
             'size anywhere, new views as large, half and double, at any offset '
             'within 0.4 pixels of a whole one')
def crop(h, shape, z):
  rows, cols = shape
  image = 1.0 + np.arange(rows * cols, dtype=np.float64).reshape(rows, cols, 1)
  flat = h.pick('flat', (False, True))
  s = h.real('side', 5, 50) if z == 1 else 16.0
  lx, ly = h.real('lx', -50, 50), h.real('ly', -50, 50)
  old = mu.MicroscopeFieldOfView(h.Point(lx, ly), h.Point(lx + s, ly + s))
  t = s / z
  reach = (rows + 2, cols + 2) if z == 1 else (3, 3)
  dr = h.int('dr', -reach[0], reach[0])
  dc = h.int('dc', -reach[1], reach[1])
  dr, dc = int(dr), int(dc)
  er, ec = h.real('er', -0.4, 0.4), h.real('ec', -0.4, 0.4)
  # the upper left corner of the new view, in new pixels from the old one's
  ux = lx + (dc + ec) * t / cols
  uy = ly + s - (dr + er) * t / rows
  new = mu.MicroscopeFieldOfView(h.Point(ux, uy - t), h.Point(ux + t, uy))
  out = alignment.pad_and_crop_images_by_fov(
      image[..., 0] if flat else image, old, new)
  out = np.asarray(out).astype(np.float64)
  h.check(out.shape == image.shape, 'images keep their size')
  size = int(round(rows * z)), int(round(cols * z))
  for i in range(rows):
    for j in range(cols):
      a, b = i + dr, j + dc
      shown = 0 <= a < size[0] and 0 <= b < size[1]
      want = covered(image[..., 0], z, a, b) if shown else [0.0]
      h.check(out[i, j, 0] in want, 'what the old image shows of the new view, '
              'and nothing else', f'{i, j, out[..., 0], want}')


class Net:
  """An aligner that finds any grid and drift."""

  def __init__(self, h):
    self.h, self.calls = h, []

  def reset(self, history_length=5, **k):
    self.calls.append(('reset', history_length))

  def __call__(self, image, fov, **k):
    k = len(self.calls)
    g = mu.AtomicGridMicroscopeFrame(common.grid(self.h, f'found{k}', 1, 0, 1))
    d = self.h.reals('shift', (2,), -5, 5)
    self.calls.append(('align', image, fov, g, d))
    return g, d, None


@case(quick=[dict(n=2, iterations=1, relabel=False),
             dict(n=3, iterations=2, relabel=True),
             dict(n=0, iterations=1, relabel=False)],
      thorough=[dict(n=4, iterations=3, relabel=r) for r in (False, True)],
      bounds='up to 3 (thorough 4) observations in views anywhere, up to 2 '
             '(thorough 3) iterations, any drift estimates and step size')
def trajectory(h, n, iterations, relabel):
  base = h.real('step', 0.1, 1)
  keep = h.int('keep', 1, 10)
  args = align_trajectories.Args(
      source_path=None, target_path=None, aligner_path=None,
      history_length=keep, alignment_iterations=iterations, base_step_size=base,
      relabel=relabel)
  obs = [common.observation(h, f'o{i}', n=2, n_controls=i % 2, image='yes',
                            label='yes' if i else 'none', lo=0, hi=1)
         for i in range(n)]
  before = [(o.fov.lower_left.x, o.fov.lower_left.y, o.fov.upper_right.x,
             o.fov.upper_right.y) for o in obs]
  traj = mu.Trajectory(obs)
  net = Net(h)
  out = align_trajectories.do_alignment(traj, args, net)
  h.check(len(out.observations) == n, 'as many observations')
  h.check(len(net.calls) == iterations * (n + 1), 'every image every time')
  corners = list(before)
  for it in range(iterations):
    block = net.calls[it * (n + 1):(it + 1) * (n + 1)]
    h.check(block[0][0] == 'reset' and h.eq(block[0][1], keep),
            'every pass starts afresh')
    size = base + (1 - base) * (it + 1) / iterations
    sx, sy = 0.0, 0.0
    for i in range(n):
      _, image, fov, g, d = block[i + 1]
      h.check(image is obs[i].image, 'in order')
      c = corners[i]
      h.check(h.and_(
          h.close(fov.lower_left.x, c[0] - sx, 1e-6),
          h.close(fov.lower_left.y, c[1] - sy, 1e-6),
          h.close(fov.upper_right.x, c[2] - sx, 1e-6),
          h.close(fov.upper_right.y, c[3] - sy, 1e-6)),
              'seen from where earlier drift has moved the view')
      sx, sy = sx + d[0] * size, sy + d[1] * size
      corners[i] = (c[0] - sx, c[1] - sy, c[2] - sx, c[3] - sy)
  for i in range(n):
    o, q = obs[i], out.observations[i]
    c = corners[i]
    h.check(h.and_(
        h.close(q.fov.lower_left.x, c[0], 1e-6),
        h.close(q.fov.lower_left.y, c[1], 1e-6),
        h.close(q.fov.upper_right.x, c[2], 1e-6),
        h.close(q.fov.upper_right.y, c[3], 1e-6)),
            'views are corrected by all drift up to then')
    g = net.calls[(iterations - 1) * (n + 1) + i + 1][3] if relabel else o.grid
    h.check(common.same_grid(h, q.grid, g), 'relabelled if asked for')
    h.check(h.and_(
        q.image is o.image, q.label_image is o.label_image,
        common.same_controls(h, q.controls, o.controls),
        h.eq(q.elapsed_time.total_seconds(), o.elapsed_time.total_seconds())),
            'all else stays')
    b = before[i]
    h.check(h.and_(h.eq(o.fov.lower_left.x, b[0]), h.eq(o.fov.lower_left.y, b[1]),
                   h.eq(o.fov.upper_right.x, b[2]),
                   h.eq(o.fov.upper_right.y, b[3])),
            'the trajectory given is left alone')


@case(quick=[dict(n=1), dict(n=3)],
      bounds='up to 3 atoms, any drift and jitter')
def drift(h, n):
  o = common.observation(h, 'o', n=n, n_controls=2, image='yes', label='yes',
                         lo=-5, hi=5)
  first = mu.Drift(jitter=h.reals('j0', (n, 2), -1, 1),
                   drift=h.reals('d0', (2,), -20, 20))
  then = mu.Drift(jitter=h.reals('j1', (n, 2), -1, 1),
                  drift=h.reals('d1', (2,), -20, 20))
  both = then.cumulate_drift(first)
  p = o.grid.atom_positions + 0.0
  q = both.apply_to_observation(o)
  dx, dy = first.drift[0] + then.drift[0], first.drift[1] + then.drift[1]
  h.check(h.and_(
      h.close(q.fov.lower_left.x, o.fov.lower_left.x + dx, 1e-6),
      h.close(q.fov.lower_left.y, o.fov.lower_left.y + dy, 1e-6),
      h.close(q.fov.upper_right.x, o.fov.upper_right.x + dx, 1e-6),
      h.close(q.fov.upper_right.y, o.fov.upper_right.y + dy, 1e-6)),
          'the view moves by all drift')
  h.check(h.and_(same(h, q.grid.atom_positions, p - then.jitter, 1e-9),
                 same(h, q.grid.atomic_numbers, o.grid.atomic_numbers),
                 same(h, o.grid.atom_positions, p)),
          'atoms lose the last jitter; the observation is left alone')
  h.check(h.and_(
      common.same_controls(h, q.controls, o.controls),
      h.eq(q.elapsed_time.total_seconds(), o.elapsed_time.total_seconds()),
      q.image is not None and q.image is o.image,
      q.label_image is not None and q.label_image is o.label_image),
          'all else stays')


@case(quick=[dict(n=0), dict(n=2)], thorough=[dict(n=4)],
      bounds='up to two (thorough 4) past observations of up to two atoms, any '
             'shift')
def shift(h, n):
  f = alignment.IterativeAlignmentFiltering()
  old = [h.reals(f'p{i}', (1 + i % 2, 2), -20, 20) for i in range(n)]
  classes = [h.int_array([SI] * (1 + i % 2)) for i in range(n)]
  f.recent_observations = [p + 0.0 for p in old]
  f.recent_classes = list(classes)
  s = h.reals('s', (2,), -5, 5)
  f.apply_shift(s)
  h.check(len(f.recent_observations) == n, 'no observation is lost')
  for p, q in zip(old, f.recent_observations):
    h.check(same(h, q, p + s), 'past observations move by the shift')
  h.check(all(a is b for a, b in zip(f.recent_classes, classes)) and
          len(f.recent_classes) == n, 'atoms keep their classes')
