"""C01: microscope <-> material frame conversion."""

from symex.run import case
from putting_dune import geometry
from putting_dune import microscope_utils as mu

BIG = 1000.0


def fov_(h, name='fov', minw=1.0, maxw=200.0, big=BIG):
  lx, ly = h.real(f'{name}.llx', -big, big), h.real(f'{name}.lly', -big, big)
  w, ht = h.real(f'{name}.w', minw, maxw), h.real(f'{name}.h', minw, maxw)
  fov = mu.MicroscopeFieldOfView(h.Point(lx, ly), h.Point(lx + w, ly + ht))
  return fov, lx, ly, w, ht


KINDS = ('vector', 'rows', 'point', 'grid', 'control')


def make(h, kind, name, n=2):
  """A position-carrying object, plus its coordinates as a list of pairs."""
  if kind == 'vector':
    a = h.reals(name, 2, -BIG, BIG)
    return a, [(a[0], a[1])]
  if kind == 'rows':
    a = h.reals(name, (n, 2), -BIG, BIG) if n else h.np.zeros((0, 2))
    return a, [(a[i, 0], a[i, 1]) for i in range(n)]
  if kind == 'point':
    x, y = h.real(name + 'x', -BIG, BIG), h.real(name + 'y', -BIG, BIG)
    return h.Point(x, y), [(x, y)]
  if kind == 'grid':
    a = h.reals(name, (n, 2), -BIG, BIG) if n else h.np.zeros((0, 2))
    z = h.int_array(h.ints(name + 'z', n, 1, 99))
    return mu.AtomicGrid(a, z), [(a[i, 0], a[i, 1]) for i in range(n)]
  x, y = h.real(name + 'x', -BIG, BIG), h.real(name + 'y', -BIG, BIG)
  dwell = h.real(name + 'dwell', 0, 100)
  kv, na = h.real(name + 'kv', 0, 300), h.real(name + 'na', 0, 10)
  return mu.BeamControl(h.Point(x, y), h.td(dwell), kv, na), [(x, y)]


def coords(h, kind, obj):
  if kind == 'vector':
    return [(obj[0], obj[1])]
  if kind == 'rows':
    return [(obj[i, 0], obj[i, 1]) for i in range(obj.shape[0])]
  if kind == 'point':
    return [(obj.x, obj.y)]
  if kind == 'grid':
    p = obj.atom_positions
    return [(p[i, 0], p[i, 1]) for i in range(p.shape[0])]
  return [(obj.position.x, obj.position.y)]


def same_kind(h, kind, a, b, label):
  """Type, shape and all non-positional fields are carried over."""
  if kind in ('vector', 'rows'):
    h.check(a.shape == b.shape, label + ': shape')
    return
  if kind == 'point':
    h.check(isinstance(b, h.Point), label + ': type')
    return
  if kind == 'grid':
    h.check(isinstance(b, mu.AtomicGrid), label + ': type')
    h.check(a.atom_positions.shape == b.atom_positions.shape,
            label + ': shape')
    h.check(h.arr_close(a.atomic_numbers, b.atomic_numbers, 0),
            label + ': atomic numbers')
    return
  h.check(isinstance(b, mu.BeamControl), label + ': type')
  h.check(h.close(a.dwell_time.total_seconds(), b.dwell_time.total_seconds()),
          label + ': dwell')
  h.check(h.close(a.voltage_kv, b.voltage_kv), label + ': voltage')
  h.check(h.close(a.current_na, b.current_na), label + ': current')


def pairs_close(h, xs, ys, tol=1e-6):
  if len(xs) != len(ys):
    return False
  return h.all(h.and_(h.close(a[0], b[0], tol), h.close(a[1], b[1], tol))
               for a, b in zip(xs, ys))


@case(quick=[dict(kind=k) for k in KINDS] + [
    dict(kind=k, n=n) for k in ('rows', 'grid') for n in (0, 1, 3)],
      thorough=[dict(kind=k) for k in KINDS] + [
          dict(kind=k, n=n) for k in ('rows', 'grid') for n in (0, 1, 3, 6)],
      bounds='any field of view with corners within 1000 A and sides 1..200 A; '
             'any position within +-1000; 0 to 3 (thorough 6) atoms/rows')
def conversion(h, kind, n=2):
  """Both directions are the affine map of the field of view, and inverse."""
  fov, lx, ly, w, ht = fov_(h)
  obj, cs = make(h, kind, 'p', n)
  mat = fov.microscope_frame_to_material_frame(obj)
  got = coords(h, kind, mat)
  h.observe('material', [c for p in got for c in p])
  want = [(lx + x * w, ly + y * ht) for x, y in cs]
  h.check(pairs_close(h, got, want, 1e-5), 'to material is affine map')
  same_kind(h, kind, obj, mat, 'to material')
  back = fov.material_frame_to_microscope_frame(mat)
  h.check(pairs_close(h, coords(h, kind, back), cs, 1e-5),
          'microscope->material->microscope')
  same_kind(h, kind, obj, back, 'round trip')
  mic = fov.material_frame_to_microscope_frame(obj)
  got = coords(h, kind, mic)
  h.observe('microscope', [c for p in got for c in p])
  same_kind(h, kind, obj, mic, 'to microscope')
  h.check(h.all(h.and_(h.close(g[0] * w, x - lx, 1e-5),
                       h.close(g[1] * ht, y - ly, 1e-5))
                for g, (x, y) in zip(got, cs)), 'to microscope is affine map')
  fwd = fov.microscope_frame_to_material_frame(mic)
  h.check(pairs_close(h, coords(h, kind, fwd), cs, 1e-5),
          'material->microscope->material')
  # the source object is not modified
  h.check(pairs_close(h, coords(h, kind, obj), cs, 0), 'input unchanged')


@case(bounds='any field of view with sides 1..200 A')
def corners(h):
  """Corners and centre of the field of view map to unit-square positions."""
  fov, lx, ly, w, ht = fov_(h)
  for ux, uy in ((0, 0), (1, 1), (0, 1), (1, 0), (0.5, 0.5), (0.25, 0.75)):
    m = fov.microscope_frame_to_material_frame(h.Point(float(ux), float(uy)))
    h.check(h.and_(h.close(m.x, lx + w * ux), h.close(m.y, ly + ht * uy)),
            'unit square position')
  o = fov.material_frame_to_microscope_frame(fov.offset)
  h.check(h.and_(h.close(o.x, 0.5), h.close(o.y, 0.5)), 'offset is the centre')
  a = fov.material_frame_to_microscope_frame(fov.lower_left)
  b = fov.material_frame_to_microscope_frame(fov.upper_right)
  h.check(h.and_(h.close(a.x, 0), h.close(a.y, 0)), 'lower left is (0,0)')
  h.check(h.and_(h.close(b.x, 1), h.close(b.y, 1)), 'upper right is (1,1)')


@case(bounds='unsupported object types')
def unsupported(h):
  fov, *_ = fov_(h)
  for bad in (None, 'x', 3.0, [0.1, 0.2]):
    h.check_raises(NotImplementedError, 'unsupported type to material',
                   fov.microscope_frame_to_material_frame, bad)
    h.check_raises(NotImplementedError, 'unsupported type to microscope',
                   fov.material_frame_to_microscope_frame, bad)
