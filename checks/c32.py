"""C32: detecting atoms in images."""

import itertools
import math

import numpy as np
from scipy import ndimage

from symex.run import case
from checks import common
from putting_dune import alignment
from putting_dune import atom_detector
from putting_dune import constants

SI, C = constants.SILICON, constants.CARBON


def find(h, which, image, value):
  if which == 'aligner':
    return alignment.ImageAligner.compute_centroids(image, value, 0)
  return atom_detector.compute_centroids(
      image.astype(np.uint8), value, 25 if value == 1 else 140)


def blobs(on):
  """Groups of pixels that touch, diagonally too."""
  lab, n = ndimage.label(on, np.ones((3, 3)))
  return [np.argwhere(lab == k + 1) for k in range(n)]


def inside(blob, shape, p, slack=0.0):
  (r0, c0), (r1, c1) = blob.min(0), blob.max(0)
  x, y = p[0] * shape[1], (1 - p[1]) * shape[0]
  s = slack + 1e-6
  return c0 - s <= x <= c1 + s and r0 - s <= y <= r1 + s


@case(quick=[dict(value=1, other=0), dict(value=2, other=1)],
      max_paths=3000, validate=64,
      bounds='every pattern of 3x3 pixels without holes, in the middle of an '
             'image of 256x256')
def pattern(h, value, other):
  on = np.zeros((256, 256), dtype=bool)
  for i, j in itertools.product(range(3), range(3)):
    on[100 + i, 140 + j] = h.branch(h.int(f'p{i}{j}', 0, 1) == 1)
  mid = [on[100, 141], on[102, 141], on[101, 140], on[101, 142]]
  h.assume(bool(on[101, 141] or not all(mid)))
  image = np.full((256, 256), other)
  image[on] = value
  out = find(h, 'detector', image, value)
  groups = blobs(on)
  h.check(len(out) == len(groups), 'one atom per blob')
  h.check(all(any(inside(b, on.shape, p) for p in out) for b in groups),
          'where the blob is')


RADII = (0.5, 1, 1.5, 2, 3, 4, 5, 6, 8, 10, 14)


def disk(shape, x, y, r):
  b, a = np.mgrid[:shape[0], :shape[1]]
  return (a - x) ** 2 + (b - y) ** 2 <= r * r


@case(quick=[dict(which='detector', value=1), dict(which='detector', value=2),
             dict(which='aligner', value=1), dict(which='aligner', value=2)],
      max_paths=3000, validate=64,
      bounds='one disk of a radius up to 14 pixels at one of 9 places (the '
             'aligner: in images of three shapes), or two of them')
def disks(h, which, value):
  shape = h.pick('shape', ((256, 256), (128, 200), (90, 64))
                 if which == 'aligner' else ((256, 256),))
  r = h.pick('r', [v for v in RADII if which == 'detector' or v >= 2])
  x = h.pick('x', (20, shape[1] // 2, shape[1] - 20))
  y = h.pick('y', (20, shape[0] // 2 + 2, shape[0] - 20))
  s = h.pick('s', (None, 2, 4))
  image = np.zeros(shape, dtype=np.int64)
  image[disk(shape, x, y, r)] = value
  want = [(x, y)]
  if s is not None:
    x2 = x + (30 if x < shape[1] // 2 else -30)
    h.assume(r + s < 25)
    image[disk(shape, x2, y, s)] = value
    want.append((x2, y))
  if value == 2:
    # pixels of the other kind next to it
    image[np.logical_and(image == 0, disk(shape, x + 1, y, r + 1))] = 1
  out = find(h, which, image, value)
  h.check(len(out) == len(want), 'one atom per blob')
  h.check(all(any(abs(p[0] * shape[1] - a) <= 1 and
                  abs((1 - p[1]) * shape[0] - b) <= 1 for p in out)
              for a, b in want),
          'x from left to right, y from bottom to top, from 0 to 1')


class Cv:
  """Image operations with arbitrary outcomes."""

  def __init__(self, h, n, box, real):
    self.h, self.real = h, real
    self.found, self.used = [], []
    for i in range(n):
      flat = h.branch(h.bool(f'flat{i}'))
      m = 0.0 if flat else h.real(f'm{i}', 0.5, 1000)
      lo, hi = box if not i else (3, 4) if box[0] == 0 else (120, 121)
      x, y = h.int(f'x{i}', lo, hi), h.int(f'y{i}', lo, hi)
      fx, fy = h.real(f'fx{i}', 0, 0.999), h.real(f'fy{i}', 0, 0.999)
      h.apart(fx, 0, 1e-3)
      h.apart(fy, 0, 1e-3)
      self.found.append(dict(
          m00=m, m10=m * (x + fx), m01=m * (y + fy), x=x, y=y, flat=flat))

  def __getattr__(self, k):
    return getattr(self.real, k)

  def findContours(self, image, *a, **k):
    return ([self.h.array([[[c['x'], c['y']]]]) for c in self.found], None)

  def moments(self, contour):
    i = len(self.used)
    self.used.append(contour)
    return self.found[i]


@case(quick=[dict(which=w, n=n) for w in ('detector', 'aligner')
             for n in (0, 1, 2)],
      bounds='up to two blobs with any moments, in 7 x 7 pixels of images '
             'of 256x256 (the aligner: anywhere in images of two shapes)')
def moments(h, which, n):
  shape = h.pick('shape', ((8, 8), (7, 10))) if (
      which == 'aligner') else (256, 256)
  mod = alignment if which == 'aligner' else atom_detector
  cv = Cv(h, n, (0, 9) if which == 'aligner' else (120, 126), mod.cv2)
  for c in cv.found:
    h.assume(h.and_(c['x'] < shape[1], c['y'] < shape[0]))
  with common.swap((mod, 'cv2', cv)):
    out = find(h, which, np.zeros(shape, dtype=np.int64), 1)
  h.check(len(out) == n, 'one atom per blob')
  for c, p in zip(cv.found, out):
    if c['flat'] and which == 'aligner':
      # too small to be an atom: outside of what is kept below
      h.check(h.or_(p[0] <= 0, p[0] >= 1, p[1] <= 0, p[1] >= 1),
              'specks of noise are no atoms')
      continue
    x, y = c['x'] + 0.0, c['y'] + 0.0
    h.check(h.and_(p[0] * shape[1] >= x - 1e-6, p[0] * shape[1] <= x + 1 + 1e-6,
                   (1 - p[1]) * shape[0] >= y - 1e-6,
                   (1 - p[1]) * shape[0] <= y + 1 + 1e-6),
            'at the centre of the blob, y upwards')


@case(quick=[dict(nc=a, ns=b) for a, b in
             ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2))],
      bounds='up to two atoms of each kind anywhere, any border')
def border(h, nc, ns):
  b = h.real('b', 0, 0.4)
  ps = {1: [(h.real(f'c{i}x', 0, 1), h.real(f'c{i}y', 0, 1))
            for i in range(nc)],
        2: [(h.real(f's{i}x', 0, 1), h.real(f's{i}y', 0, 1))
            for i in range(ns)]}
  for p in ps[1] + ps[2]:
    for v in p:
      h.apart(v, b, 1e-4)
      h.apart(v, 1 - b, 1e-4)
  probs = np.zeros((4, 4, 3))
  probs[:2, :, 2] = 0.9
  probs[2:, :, 1] = 0.8
  seen = []

  def centroids(classes, class_index, erode_iters=1):
    seen.append((np.array(classes).tolist(), class_index))
    return list(ps[class_index])

  with common.swap((alignment.ImageAligner, 'compute_centroids', centroids)):
    g = alignment.ImageAligner.process_detection_predictions(probs, b)
  h.check([c for _, c in seen] == [1, 2] or [c for _, c in seen] == [2, 1],
          'both kinds are looked for')
  h.check(all(c == [[2] * 4] * 2 + [[1] * 4] * 2 for c, _ in seen),
          'the likeliest kind in every pixel')
  want = []
  for k, z in ((1, C), (2, SI)):
    for p in ps[k]:
      if h.branch(h.and_(p[0] > b, p[0] < 1 - b, p[1] > b, p[1] < 1 - b)):
        want.append((p, z))
  h.check(g.atom_positions.shape == (len(want), 2) and
          g.atomic_numbers.shape == (len(want),),
          'atoms close to the border are left out')
  h.check(h.all(h.any(h.and_(h.close(g.atom_positions[i, 0], p[0], 1e-9),
                             h.close(g.atom_positions[i, 1], p[1], 1e-9),
                             h.eq(g.atomic_numbers[i], z))
                      for i in range(len(want))) for p, z in want),
          'all others are there with their number')


class Model:

  def __init__(self, seen):
    self.signatures = {'serving_default': self.run}
    self.seen = seen

  def run(self, **k):
    self.seen.append(k)
    return {'output_0': np.zeros((256, 256, 3), np.float32)}


@case(quick=[dict(nc=a, ns=b) for a, b in
             ((0, 0), (1, 0), (0, 1), (2, 1), (1, 2))],
      bounds='up to two atoms of each kind anywhere')
def detector(h, nc, ns):
  ps = {25: [(h.real(f'c{i}x', 0, 1), h.real(f'c{i}y', 0, 1))
             for i in range(nc)],
        140: [(h.real(f's{i}x', 0, 1), h.real(f's{i}y', 0, 1))
              for i in range(ns)]}
  seen, asked = [], []
  d = atom_detector.AtomDetector(model_path=None)
  d.__dict__['model'] = Model(seen)

  def centroids(image, value, threshold_value):
    asked.append(np.shape(image))
    return list(ps[threshold_value])

  size = h.pick('size', (64, 256, 300))
  image = np.arange(size * size, dtype=np.float64).reshape(size, size, 1) + 7
  with common.swap((atom_detector, 'compute_centroids', centroids)):
    g = d(image)
  h.check(len(seen) == 1, 'one prediction')
  x = np.asarray(list(seen[0].values())[0])
  h.check(x.shape == (256, 256, 1), 'the image is brought to size')
  h.check(bool(abs(x.min()) < 1e-6 and abs(x.max() - 1) < 1e-2 and
               (np.diff(x[:, :, 0], axis=1) >= 0).all() and
               (np.diff(x[:, :, 0], axis=0) >= 0).all()),
          'and scaled to run from 0 to 1')
  want = [(p, C) for p in ps[25]] + [(p, SI) for p in ps[140]]
  h.check(g.atom_positions.shape == (len(want), 2) and
          g.atomic_numbers.shape == (len(want),), 'one entry per atom')
  h.check(h.all(h.any(h.and_(h.close(g.atom_positions[i, 0], p[0], 1e-9),
                             h.close(g.atom_positions[i, 1], p[1], 1e-9),
                             h.eq(g.atomic_numbers[i], z))
                      for i in range(len(want))) for p, z in want),
          'every atom with its number')
