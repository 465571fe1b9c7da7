"""Builders shared by the harnesses."""

from putting_dune import microscope_utils as mu

BIG = 1000.0


def pt(h, name, lo=-BIG, hi=BIG):
  return h.Point(h.real(name + '.x', lo, hi), h.real(name + '.y', lo, hi))


def fov(h, name='fov', minw=1.0, maxw=200.0, big=BIG):
  lx, ly = h.real(f'{name}.llx', -big, big), h.real(f'{name}.lly', -big, big)
  w, ht = h.real(f'{name}.w', minw, maxw), h.real(f'{name}.h', minw, maxw)
  f = mu.MicroscopeFieldOfView(h.Point(lx, ly), h.Point(lx + w, ly + ht))
  return f, lx, ly, w, ht


def simple_fov(h, name='fov', **k):
  return fov(h, name, **k)[0]


def grid(h, name, n, lo=-BIG, hi=BIG, numbers=None):
  p = h.reals(name + '.pos', (n, 2), lo, hi) if n else h.np.zeros((0, 2))
  if numbers is None:
    z = h.ints(name + '.z', n, 1, 99)
  else:
    z = list(numbers)
  return mu.AtomicGrid(p, h.int_array(z))


def control(h, name, lo=-BIG, hi=BIG, maxdwell=200000.0):
  return mu.BeamControl(
      pt(h, name, lo, hi), h.td(h.real(name + '.dwell', 0, maxdwell)),
      h.real(name + '.kv', 0, 300), h.real(name + '.na', 0, 10))


def near(h, a, b, tol=1e-6):
  """Closeness relative to the magnitude of a (single precision by default)."""
  d = a - b
  m = tol * (1 + abs(a))
  return h.and_(d <= m, -d <= m)


def same_pt(h, p, q, tol=1e-6):
  return h.and_(near(h, p.x, q.x, tol), near(h, p.y, q.y, tol))


def same_control(h, a, b, tol=1e-6):
  return h.and_(same_pt(h, a.position, b.position, tol),
                near(h, a.dwell_time.total_seconds(),
                     b.dwell_time.total_seconds(), max(tol, 1e-6)),
                near(h, a.voltage_kv, b.voltage_kv, tol),
                near(h, a.current_na, b.current_na, tol))


def same_controls(h, xs, ys, tol=1e-6):
  if len(xs) != len(ys):
    return False
  return h.all(same_control(h, x, y, tol) for x, y in zip(xs, ys))


def same_rows(h, a, b, tol=1e-6):
  """Two 2-d arrays of equal shape agree elementwise."""
  x, y = h.obj(a), h.obj(b)
  if x.shape != y.shape:
    return False
  return h.all(near(h, p, q, tol) for p, q in zip(x.flat, y.flat))


def same_grid(h, a, b, tol=1e-6):
  return h.and_(same_rows(h, a.atom_positions, b.atom_positions, tol),
                same_rows(h, a.atomic_numbers, b.atomic_numbers, 0))


def same_fov(h, a, b, tol=1e-6):
  return h.and_(same_pt(h, a.lower_left, b.lower_left, tol),
                same_pt(h, a.upper_right, b.upper_right, tol))


def same_image(h, a, b):
  if a is None or b is None:
    return a is None and b is None
  return h.arr_close(a, b, 0)


def same_obs(h, a, b, tol=1e-6, label=''):
  h.check(same_grid(h, a.grid, b.grid, tol), label + 'grid')
  h.check(same_fov(h, a.fov, b.fov, tol), label + 'field of view')
  h.check(same_controls(h, a.controls, b.controls, tol), label + 'controls')
  h.check(near(h, a.elapsed_time.total_seconds(),
               b.elapsed_time.total_seconds(), max(tol, 1e-6)),
          label + 'elapsed time')
  h.check(same_image(h, a.image, b.image), label + 'image')
  h.check(same_image(h, a.label_image, b.label_image), label + 'label image')


def observation(h, name, n=2, n_controls=1, image='none', label='none',
                lo=-BIG, hi=BIG):
  im = h.reals(name + '.im', (2, 2, 1), 0, 1) if image != 'none' else None
  li = h.reals(name + '.li', (2, 2, 1), 0, 1) if label != 'none' else None
  return mu.MicroscopeObservation(
      grid=grid(h, name + '.grid', n, lo, hi), fov=simple_fov(h, name + '.fov'),
      controls=tuple(control(h, f'{name}.c{i}', lo, hi)
                     for i in range(n_controls)),
      elapsed_time=h.td(h.real(name + '.t', 0, 200000)), image=im,
      label_image=li)


def trip(h, x):
  """Through the proto and through its serialized bytes."""
  m = x.to_proto()
  a = type(x).from_proto(m)
  b = type(x).from_proto_string(m.SerializeToString())
  return [('proto: ', a), ('bytes: ', b)]


class swap:  # pylint: disable=invalid-name
  """Temporarily replaces attributes: swap((obj, name, value), ...)."""

  def __init__(self, *items):
    self.items = items

  def __enter__(self):
    self.old = [(o, n, getattr(o, n)) for o, n, _ in self.items]
    for o, n, v in self.items:
      setattr(o, n, v)

  def __exit__(self, *a):
    for o, n, v in self.old:
      setattr(o, n, v)


class Over:
  """A module of which some names are replaced."""

  def __init__(self, real, **replaced):
    self.__dict__.update(replaced)
    self._real = real

  def __getattr__(self, name):
    return getattr(self.__dict__['_real'], name)
