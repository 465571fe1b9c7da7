"""C31: simulated images and masks."""

import itertools

import numpy as np

from symex.harness import FakeRng
from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune import imaging
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON


class Rng(FakeRng):
  """Rows are shifted by any of three amounts; photon counts are arbitrary."""

  def poisson(self, lam=1.0, size=None):
    self.calls.append(('poisson', lam, size))
    if size is not None:
      self.shifts = []
      return self._many(size, self.shift)
    return self._many(np.shape(lam), lambda: self.h.int('photons', 1, 1000))

  def shift(self):
    self.shifts.append(self.h.pick('shift', (0, 1, 5)))
    return self.shifts[-1]


def atoms(h, order, away=0.0):
  ps = [(h.real(f'p{i}x', -away, 1 + away), h.real(f'p{i}y', -away, 1 + away))
        for i in range(len(order))]
  g = mu.AtomicGrid(h.array([list(p) for p in ps]).reshape(len(order), 2),
                    h.int_array(list(order)))
  return g, ps


def view(h, size):
  lx, ly = h.real('lx', -50, 50), h.real('ly', -50, 50)
  w, ht = size
  return mu.MicroscopeFieldOfView(h.Point(lx, ly), h.Point(lx + w, ly + ht))


@case(quick=[dict(dims=(2, 2), size=(2.0, 2.0), order=(C, SI), e=1.7),
             dict(dims=(3, 2), size=(3.0, 1.5), order=(SI,), e=1.7),
             dict(dims=(1, 3), size=(1.0, 4.0), order=(C,), e=1.4),
             dict(dims=(2, 1), size=(2.0, 2.0), order=(SI, C), e=2.0)],
      thorough=[dict(dims=d, size=s, order=o, e=e)
                for d, s in (((2, 2), (2.0, 2.0)), ((3, 2), (3.0, 1.5)),
                             ((3, 3), (2.0, 5.0)))
                for o in ((C, SI), (SI, C, C)) for e in (1.4, 1.7, 2.0)],
      timeouts=(10, 60),
      bounds='images of up to 3x2 (thorough 3x3) pixels, views of fixed size '
             'anywhere, up to two (thorough three) atoms anywhere in the view')
def mask(h, dims, size, order, e):
  f = view(h, size)
  g, ps = atoms(h, order)
  m = imaging.generate_grid_mask(mu.AtomicGridMicroscopeFrame(g), f,
                                 intensity_exponent=e, image_dimensions=dims)
  w, ht = dims
  h.check(m.shape == (ht, w), 'rows of the image run along y')
  for i, j in itertools.product(range(ht), range(w)):
    # the first row is the upper one
    px, py = (j + 0.5) / w, (ht - i - 0.5) / ht
    hits = []
    for (x, y), z in zip(ps, order):
      dx, dy = (x - px) * size[0], (y - py) * size[1]
      d, r = dx * dx + dy * dy, (z / C) ** e * 0.1
      h.apart(d, r, 1e-4)
      hits.append((z, d < r))
    v = m[i, j]
    h.check(h.implies(h.not_(h.any(c for _, c in hits)), h.eq(v, 0)),
            'background is 0')
    for z in set(order):
      mine = h.any(c for y, c in hits if y == z)
      others = h.any(c for y, c in hits if y != z)
      h.check(h.implies(h.and_(mine, h.not_(others)), h.eq(v, z)),
              'pixels near an atom carry its atomic number')
    h.check(h.any([h.eq(v, 0)] + [h.and_(c, h.eq(v, z)) for z, c in hits]),
            'pixels carry the atomic number of an atom near them')


class Blur:
  """Stands for the blurring filter: any positive image of the same shape."""

  def __init__(self, h, lo=0.1):
    self.h, self.lo, self.calls = h, lo, []

  def gaussian_filter(self, image, sigma, mode='reflect', **k):
    out = self.h.reals('blurred', image.shape, self.lo, 10)
    self.calls.append((image, sigma, mode, out))
    return out


CLEAN = [dict(n=2, pad=0, size=(20.0, 20.0), order=(C, SI), e=1.7),
         dict(n=2, pad=0, size=(15.0, 30.0), order=(SI, SI), e=1.7),
         dict(n=2, pad=1, size=(30.0, 20.0), order=(C,), e=2.0),
         dict(n=4, pad=1, size=(20.0, 25.0), order=(SI,), e=1.4)]


@case(quick=CLEAN,
      thorough=[dict(n=n, pad=p, size=s, order=o, e=e)
                for n, p in ((2, 0), (2, 1), (3, 0), (4, 1))
                for s in ((20.0, 20.0), (15.0, 30.0))
                for o in ((C, SI), (SI, SI, C)) for e in (1.4, 2.0)],
      timeouts=(10, 60),
      bounds='images of 2x2 to 4x4 pixels with and without a border, up to two '
             '(thorough three) atoms anywhere within, in views of fixed size '
             'anywhere')
def clean(h, n, pad, size, order, e):
  f = view(h, size)
  b = pad / n
  g, ps = atoms(h, order, away=b)
  for p in ps:
    for v in p:
      for k in range(-pad, n + pad + 1):
        h.apart(v, k / n, 1e-4)
  blur = Blur(h)
  with common.swap((imaging, 'ndimage', blur)):
    out = imaging.generate_clean_image(
        mu.AtomicGridMicroscopeFrame(g), f, intensity_exponent=e, image_size=n,
        buffer_size=b)
  h.check(len(blur.calls) == 1, 'blurred once')
  image, sigma, mode, blurred = blur.calls[0]
  h.check(image.shape == (n + 2 * pad,) * 2, 'the border is included')
  h.check(mode == 'constant', 'nothing is mirrored in at the border')
  m = n + 2 * pad
  for i, j in itertools.product(range(m), range(m)):
    # row 0 is the top of the view (with its border), column 0 its left
    x0, y0 = (j - pad) / n, (n + pad - 1 - i) / n
    want = 0.0
    for (x, y), z in zip(ps, order):
      want = want + h.ite(h.and_(x > x0, x < x0 + 1 / n, y > y0, y < y0 + 1 / n),
                          z ** e, 0.0)
    h.check(h.close(image[i, j], want, 1e-6),
            'every atom, by brightness, in the pixel it lies in')
  s = sigma if np.ndim(sigma) else (sigma, sigma)
  h.check(h.and_(h.close(s[0] * size[1] * 2.15, n, 1e-6),
                 h.close(s[1] * size[0] * 2.15, n, 1e-6)),
          'spots are equally wide in Angstroms along rows and columns')
  inner = [(i, j) for i in range(pad, pad + n) for j in range(pad, pad + n)]
  top = blurred[inner[0]]
  for k in inner:
    top = h.ite(blurred[k] > top, blurred[k], top)
  h.check(out.shape == (n, n), 'the border is cut off')
  h.check(h.all(h.close(out[i - pad, j - pad] * top, blurred[i, j], 1e-5)
                for i, j in inner), 'brightness relative to the brightest')


def picture(h, n=2, lo=0.0, hi=1.0, name='image'):
  return h.reals(name, (n, n), lo, hi)


def scaled(h, out, want, what):
  """out is want divided by its maximum."""
  flat = [want[k] for k in np.ndindex(*want.shape)]
  top = flat[0]
  for v in flat[1:]:
    top = h.ite(v > top, v, top)
  h.check(out.shape == want.shape, f'shape after {what}')
  h.check(h.all(h.close(out[k] * top, want[k], 1e-4)
                for k in np.ndindex(*want.shape)), what)


@case(quick=[dict(rows=2, columns=3), dict(rows=3, columns=2)],
      bounds='images of up to 3 rows, shifts of 0, 1 and 5')
def jitter(h, rows, columns):
  image = h.reals('image', (rows, columns), 0, 1)
  r = Rng(h, 'rng')
  rate = h.real('rate', 0, 5)
  out = imaging.apply_jitter(image, rate, r)
  h.check(len(r.calls) == 1 and r.calls[0][0] == 'poisson' and
          np.size(np.zeros(r.calls[0][2])) == rows, 'one shift per row')
  h.check(h.eq(r.calls[0][1], rate), 'at the rate asked for')
  h.check(out.shape == (rows, columns), 'same shape')
  for i in range(rows):
    k = r.shifts[i]
    h.check(h.all(h.eq(out[i, (j + k) % columns], image[i, j])
                  for j in range(columns)),
            'every row is shifted as a whole, by its own shift')


@case(quick=[dict(kind=k) for k in ('uniform', 'exponential', 'poisson')],
      bounds='images of 2x2 pixels, any strength and draws')
def noise(h, kind):
  image = picture(h, lo=0.01)
  r = Rng(h, 'rng')
  s = h.real('strength', 0.01, 5)
  f = {'uniform': imaging.apply_uniform_noise,
       'exponential': imaging.apply_exponential_noise,
       'poisson': imaging.apply_poisson_noise}[kind]
  drawn = []
  real = getattr(r, kind)

  def draw(*a, **k):
    drawn.append((a, k, real(*a, **k)))
    return drawn[-1][2]

  setattr(r, kind, draw)
  out = f(image, s, r)
  h.check(len(drawn) == 1, 'drawn once')
  d = drawn[0][2]
  h.check(np.shape(d) == (2, 2), 'every pixel has its own noise')
  if kind == 'poisson':
    lam = r.calls[-1][1]
    h.check(h.all(h.close(lam[k], image[k] * s, 1e-5)
                  for k in np.ndindex(2, 2)), 'as many photons as it is bright')
    scaled(h, out, d, 'photon counts, relative to the most')
  else:
    strength = r.calls[-1][2] if kind == 'uniform' else r.calls[-1][1]
    h.check(h.close(strength, s, 1e-6), 'of the strength asked for')
    if kind == 'uniform':
      h.check(h.close(r.calls[-1][1], 0, 1e-9), 'not negative')
    scaled(h, out, image + d, 'added, relative to the brightest')


@case(quick=[dict(noisy=False), dict(noisy=True)],
      bounds='any draws')
def parameters(h, noisy):
  f = imaging.sample_noisy_image_parameters if noisy else (
      imaging.sample_image_parameters)
  p = f(h.rng(), 37)
  top = (dict(gaussian_variance=0.3, salt_and_pepper_amount=1e-2,
              blur_amount=0.25, exponential_lambda=0.25,
              uniform_noise_scale=0.25) if noisy else
         dict(gaussian_variance=5e-3, salt_and_pepper_amount=1e-3,
              blur_amount=1.0, exponential_lambda=0.2, uniform_noise_scale=0.2))
  for k, v in {**top, 'jitter_rate': 5.0}.items():
    x = getattr(p, k)
    h.check(h.and_(x >= 0, x <= v + 1e-9), f'{k} within its range')
  lo, hi = (0.5, 1.5) if noisy else (0.7, 1.3)
  h.check(h.and_(p.contrast_gamma >= lo - 1e-9, p.contrast_gamma <= hi + 1e-9,
                 p.intensity_exponent >= 1.4 - 1e-9,
                 p.intensity_exponent <= 2.0 + 1e-9), 'ranges')
  h.check(p.poisson_rate_multiplier >= 1.0, 'at least one photon')
  h.check(p.image_size == 37, 'the size asked for')


class Steps:
  """Stands for the image libraries: arbitrary outputs, everything recorded."""

  def __init__(self, h, log):
    self.h, self.log, self.util = h, log, self

  def gaussian_filter(self, image, sigma, mode='reflect', **k):
    return self.step('clean' if np.ndim(sigma) else 'blur', image, sigma=sigma)

  def random_noise(self, image, mode='gaussian', seed=None, rng=None, **k):
    return self.step(mode, image, rng=rng if rng is not None else seed, **k)

  def adjust_gamma(self, image, gamma=1, gain=1, **k):
    return self.step('gamma', image, gamma=gamma)

  def equalize_adapthist(self, image, **k):
    return self.step('equalize', image)

  def step(self, kind, image, **k):
    out = self.h.reals('step', np.shape(image), 0.5, 1.0)
    self.log.append((kind, image, k, out))
    return out


class Photons(Rng):

  def poisson(self, lam=1.0, size=None):
    if size is not None:
      self.calls.append(('jitter', lam, size))
      return np.zeros(size, dtype=int)
    return super().poisson(lam, size)


@case(bounds='2x2 pixels, any parameters and draws')
def pipeline(h):
  f = view(h, (20.0, 20.0))
  g, _ = atoms(h, (SI,))
  log = []
  lib = Steps(h, log)
  names = ('gaussian_variance', 'jitter_rate', 'poisson_rate_multiplier',
           'salt_and_pepper_amount', 'blur_amount', 'contrast_gamma',
           'exponential_lambda', 'uniform_noise_scale')
  p = {k: h.real(k, 0.1, 3) for k in names}
  # all different, so that none can stand for another
  for a, b in itertools.combinations(names, 2):
    h.apart(p[a], p[b], 1e-3)
  r = Photons(h, 'rng')
  with common.swap((imaging, 'ndimage', lib), (imaging, 'skimage', lib),
                   (imaging, 'exposure', lib)):
    out = imaging.generate_stem_image(
        mu.AtomicGridMicroscopeFrame(g), f,
        imaging.ImageGenerationParameters(intensity_exponent=1.5, image_size=2,
                                          **p), r)
  steps = {k: kw for k, _, kw, _ in log}
  h.check(sorted(k for k, *_ in log) == sorted(
      ['clean', 'blur', 's&p', 'gamma', 'gaussian', 'equalize']),
          'every effect once')
  h.check(sorted(c[0] for c in r.calls) == sorted(
      ['poisson', 'jitter', 'uniform', 'exponential']), 'every noise once')
  draws = {c[0]: c for c in r.calls}
  h.check(h.and_(h.close(steps['blur']['sigma'], p['blur_amount'], 1e-6),
                 h.close(steps['gamma']['gamma'], p['contrast_gamma'], 1e-6),
                 h.close(steps['gaussian']['var'], p['gaussian_variance'], 1e-6),
                 h.close(steps['s&p']['amount'], p['salt_and_pepper_amount'],
                         1e-6),
                 h.close(draws['jitter'][1], p['jitter_rate'], 1e-6),
                 h.close(draws['uniform'][2], p['uniform_noise_scale'], 1e-6),
                 h.close(draws['exponential'][1], p['exponential_lambda'],
                         1e-6)),
          'every effect has its own strength')
  h.check(h.and_(h.eq(steps['gaussian'].get('mean', 0.0), 0.0),
                 h.eq(steps['s&p'].get('salt_vs_pepper', 0.5), 0.5)),
          'noise goes both ways')
  h.check(steps['gaussian']['rng'] is r and steps['s&p']['rng'] is r,
          'all randomness comes from the source given')
  h.check(log[-1][0] == 'equalize' and out is log[-1][3],
          'contrast is equalised last')
  h.check(out.shape == (2, 2), 'the image asked for')
