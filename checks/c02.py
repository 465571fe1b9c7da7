"""C02: moving and resizing a field of view."""

from symex.run import case
from checks import common
from putting_dune import microscope_utils as mu


def parts(h, f):
  return (f.lower_left.x, f.lower_left.y, f.upper_right.x, f.upper_right.y)


def unchanged(h, f, lx, ly, w, ht):
  a = parts(h, f)
  h.check(h.and_(h.close(a[0], lx, 0), h.close(a[1], ly, 0),
                 h.close(a[2], lx + w, 1e-9), h.close(a[3], ly + ht, 1e-9)),
          'the original field of view is left alone')


@case(bounds='corners within 1000 A, sides 1..200 A, shift within 1000 A')
def shift(h):
  f, lx, ly, w, ht = common.fov(h)
  s = common.pt(h, 'shift')
  g = f.shift(s)
  h.observe('corners', parts(h, g))
  h.check(h.and_(h.close(g.lower_left.x, lx + s.x),
                 h.close(g.lower_left.y, ly + s.y),
                 h.close(g.upper_right.x, lx + w + s.x),
                 h.close(g.upper_right.y, ly + ht + s.y)),
          'shift moves both corners by the shift')
  h.check(h.and_(h.close(g.width, w), h.close(g.height, ht)),
          'shift keeps the size')
  h.check(h.and_(h.close(g.offset.x, lx + w / 2 + s.x),
                 h.close(g.offset.y, ly + ht / 2 + s.y)),
          'shift moves the centre by the shift')
  back = g.shift(h.Point(-s.x, -s.y))
  h.check(common.same_fov(h, f, back), 'opposite shift undoes it')
  unchanged(h, f, lx, ly, w, ht)


@case(bounds='corners within 1000 A, sides 1..200 A')
def measures(h):
  f, lx, ly, w, ht = common.fov(h)
  h.observe('size', (f.width, f.height, f.offset.x, f.offset.y))
  h.check(h.and_(h.close(f.width, w), h.close(f.height, ht)), 'size')
  h.check(h.and_(h.close(f.offset.x, lx + w / 2),
                 h.close(f.offset.y, ly + ht / 2)), 'centre')


@case(bounds='new sides 0.5..500 A')
def resize(h):
  f, lx, ly, w, ht = common.fov(h)
  nw, nh = h.real('nw', 0.5, 500), h.real('nh', 0.5, 500)
  g = f.resize(nw, nh)
  h.observe('corners', parts(h, g))
  h.check(h.and_(h.close(g.width, nw), h.close(g.height, nh)),
          'resize gives the requested size')
  h.check(h.and_(h.close(g.offset.x, lx + w / 2),
                 h.close(g.offset.y, ly + ht / 2)), 'resize keeps the centre')
  h.check(h.and_(h.close(g.lower_left.x, lx + w / 2 - nw / 2),
                 h.close(g.upper_right.y, ly + ht / 2 + nh / 2)),
          'resize corners')
  unchanged(h, f, lx, ly, w, ht)


@case(bounds='zoom factor 0.1..10')
def zoom(h):
  f, lx, ly, w, ht = common.fov(h)
  z = h.real('z', 0.1, 10)
  g = f.zoom(z)
  h.observe('corners', parts(h, g))
  h.check(h.and_(h.close(g.width * z, w, 1e-5), h.close(g.height * z, ht,
                                                        1e-5)),
          'zoom divides both sides by the factor')
  h.check(h.and_(h.close(g.offset.x, lx + w / 2),
                 h.close(g.offset.y, ly + ht / 2)), 'zoom keeps the centre')
  back = g.zoom(1 / z)
  h.check(common.same_fov(h, f, back), 'inverse zoom restores')
  unchanged(h, f, lx, ly, w, ht)


@case(quick=[dict(kind='grid'), dict(kind='control')],
      bounds='2 atoms; any position and shift within 1000')
def shift_objects(h, kind):
  """Atom collections and beam controls shift rigidly, nothing else changes."""
  if kind == 'grid':
    g = common.grid(h, 'g', 2)
    before = common.grid(h, 'unused', 1)  # pylint: disable=unused-variable
    p0 = [(g.atom_positions[i, 0], g.atom_positions[i, 1]) for i in range(2)]
    v = h.reals('v', 2, -1000, 1000)
    s = g.shift(v)
    h.check(h.all(h.and_(h.close(s.atom_positions[i, 0], p0[i][0] + v[0]),
                         h.close(s.atom_positions[i, 1], p0[i][1] + v[1]))
                  for i in range(2)), 'every atom moves by the shift')
    h.check(h.arr_close(s.atomic_numbers, g.atomic_numbers, 0),
            'elements are kept')
    h.check(h.all(h.and_(h.close(g.atom_positions[i, 0], p0[i][0], 0),
                         h.close(g.atom_positions[i, 1], p0[i][1], 0))
                  for i in range(2)), 'the original atoms are left alone')
    return
  c = common.control(h, 'c')
  v = common.pt(h, 'v')
  s = c.shift(v)
  h.check(h.and_(h.close(s.position.x, c.position.x + v.x),
                 h.close(s.position.y, c.position.y + v.y)),
          'the beam moves by the shift')
  h.check(h.and_(h.close(s.dwell_time.total_seconds(),
                         c.dwell_time.total_seconds()),
                 h.close(s.voltage_kv, c.voltage_kv),
                 h.close(s.current_na, c.current_na)),
          'dwell time, voltage and current are kept')


@case(quick=[dict(kind=k) for k in ('zero', 'negative')],
      bounds='non-positive sizes')
def bad_size(h, kind):
  f, *_ = common.fov(h)
  bad = 0.0 if kind == 'zero' else h.real('bad', -100, 0)
  good = h.real('good', 0.5, 100)
  h.check_raises(AssertionError, 'non-positive width refused', f.resize, bad,
                 good)
  h.check_raises(AssertionError, 'non-positive height refused', f.resize, good,
                 bad)
  h.check_raises(AssertionError, 'non-positive zoom refused', f.zoom, bad)
