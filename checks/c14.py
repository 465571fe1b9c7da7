"""C14: features handed to agents."""

from symex.run import case
from checks import common
from putting_dune import constants
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON
KIND = {'frame': fc.SingleSiliconPristineGrapheneFeatureConstuctor,
        'material': fc.SingleSiliconMaterialFrameFeatureConstructor,
        'image': fc.ImageFeatureConstructor}


def goal_at(h, x, y):
  g = goals.SingleSiliconGoalReaching()
  g.goal_position_material_frame = h.array([x, y])
  return g


def d2(p, i, j, w=1.0, ht=1.0):
  x, y = (p[i, 0] - p[j, 0]) * w, (p[i, 1] - p[j, 1]) * ht
  return x * x + y * y


@case(quick=[dict(kind=k, n=n) for k in ('frame', 'material') for n in (4, 5)],
      thorough=[dict(kind=k, n=n) for k in ('frame', 'material')
                for n in (4, 5, 6)], budget=500, validate=30,
      bounds='n atoms at any positions of the unit square with distinct '
             'distances from the dopant; square-ish or oblong field of view; '
             'any goal within 100 A')
def vectors(h, kind, n):
  k = h.pick('si', (0, n - 1))
  z = [SI if i == k else C for i in range(n)]
  p = h.reals('p', (n, 2), 0, 1)
  f, lx, ly, w, ht = common.fov(h, minw=5.0, maxw=50.0)
  o = mu.MicroscopeObservation(grid=mu.AtomicGrid(p, h.int_array(z)), fov=f,
                               controls=(), elapsed_time=h.td(0.0))
  gx, gy = h.real('gx', -100, 100), h.real('gy', -100, 100)
  goal = goal_at(h, gx, gy)
  sx, sy = (1.0, 1.0) if kind == 'frame' else (w, ht)
  q = {i: d2(p, i, k, sx, sy) for i in range(n) if i != k}
  ids = list(q)
  for a, i in enumerate(ids):
    h.assume(q[i] >= 1e-4)
    for j in ids[:a]:
      h.apart(q[i], q[j], 1e-6)
  c = KIND[kind]()
  c.reset()
  v = c.get_features(o, goal)
  spec = c.observation_spec()
  h.check(v.shape == spec.shape == (10,), 'ten features')
  h.check(v.dtype == spec.dtype, 'type of the features')
  h.check(not c.requires_image, 'no image needed')
  order = sorted(ids, key=_Cmp(h, q))
  ox, oy = (0.0, 0.0) if kind == 'frame' else (lx, ly)
  h.check(h.and_(h.close(v[0], ox + sx * p[k, 0], 1e-5),
                 h.close(v[1], oy + sy * p[k, 1], 1e-5)), 'dopant position')
  for r, i in enumerate(order[:3]):
    dx, dy = sx * (p[i, 0] - p[k, 0]), sy * (p[i, 1] - p[k, 1])
    vx, vy = v[2 + 2 * r], v[3 + 2 * r]
    if kind == 'material':
      h.check(h.and_(h.close(vx, dx, 1e-5), h.close(vy, dy, 1e-5)),
              'vector to the neighbour in angstroms, nearest first')
    else:
      dist = h.np.sqrt(q[i])
      h.check(h.and_(h.close(vx * dist, dx, 1e-5), h.close(vy * dist, dy, 1e-5)),
              'unit vector towards the neighbour, nearest first')
  h.check(h.and_(h.close(v[8], gx - (lx + w * p[k, 0]), 1e-4),
                 h.close(v[9], gy - (ly + ht * p[k, 1]), 1e-4)),
          'vector to the goal in angstroms')


class _Cmp:
  """Sort key comparing the given squared distances."""

  def __init__(self, h, q):
    self.h, self.q = h, q

  def __call__(self, i):
    outer = self

    class K:

      def __init__(self, i):
        self.i = i

      def __lt__(self, other):
        return outer.h.branch(outer.q[self.i] < outer.q[other.i])
    return K(i)


@case(quick=[dict(n=2), dict(n=3)], bounds='n atoms anywhere, one of them the '
      'dopant; the image content is not part of this case')
def image(h, n):
  k = h.pick('si', range(n))
  z = [SI if i == k else C for i in range(n)]
  p = h.reals('p', (n, 2), 0, 1)
  f, lx, ly, w, ht = common.fov(h, minw=5.0, maxw=50.0)
  np = __import__('numpy')
  im = (np.arange(64.0).reshape(8, 8, 1) / 64.0)
  o = mu.MicroscopeObservation(grid=mu.AtomicGrid(p, h.int_array(z)), fov=f,
                               controls=(), elapsed_time=h.td(0.0), image=im)
  gx, gy = h.real('gx', -100, 100), h.real('gy', -100, 100)
  c = fc.ImageFeatureConstructor()
  c.reset()
  v = c.get_features(o, goal_at(h, gx, gy))
  s = c.observation_spec()
  h.check(c.requires_image, 'an image is needed')
  h.check(set(v) == set(s) == {'image', 'goal_delta_angstroms'}, 'two parts')
  for key in v:
    h.check(v[key].shape == s[key].shape and v[key].dtype == s[key].dtype,
            'shape and type')
  g = v['goal_delta_angstroms']
  h.check(h.and_(h.close(g[0], gx - (lx + w * p[k, 0]), 1e-4),
                 h.close(g[1], gy - (ly + ht * p[k, 1]), 1e-4)),
          'vector to the goal in angstroms')
  h.check_raises(RuntimeError, 'no image: refused', c.get_features,
                 mu.MicroscopeObservation(
                     grid=o.grid, fov=f, controls=(), elapsed_time=h.td(0.0)),
                 goal_at(h, gx, gy))


@case(quick=[dict(kind=k) for k in KIND],
      bounds='5 atoms, two of them dopants at different distances from the '
             'centre of the field of view', budget=500, validate=20)
def several(h, kind):
  """With two visible dopants all features are about the central one."""
  p = h.reals('p', (5, 2), 0, 1)
  z = [C, SI, C, SI, C]
  # the other atoms are far corners so that only the dopant choice varies
  f, lx, ly, w, ht = common.fov(h, minw=5.0, maxw=50.0)
  rest = [(0.01, 0.02), (0.99, 0.03), (0.02, 0.98)]
  q = [rest[0], (p[1, 0], p[1, 1]), rest[1], (p[3, 0], p[3, 1]), rest[2]]
  pos = h.array([[a, b] for a, b in q])
  c2 = [(q[i][0] - 0.5) * (q[i][0] - 0.5) + (q[i][1] - 0.5) * (q[i][1] - 0.5)
        for i in (1, 3)]
  h.apart(c2[0], c2[1], 1e-3)
  for a in (1, 3):
    h.assume(h.and_(q[a][0] >= 0.1, q[a][0] <= 0.9, q[a][1] >= 0.1,
                    q[a][1] <= 0.9))
  k = 1 if h.branch(c2[0] < c2[1]) else 3
  np = __import__('numpy')
  o = mu.MicroscopeObservation(
      grid=mu.AtomicGrid(pos, h.int_array(z)), fov=f, controls=(),
      elapsed_time=h.td(0.0), image=np.zeros((4, 4, 1)))
  gx, gy = h.real('gx', -100, 100), h.real('gy', -100, 100)
  v, e = h.call(KIND[kind]().get_features, o, goal_at(h, gx, gy))
  h.check(e is None, 'features are produced', repr(e))
  if e is not None:
    return
  mx, my = lx + w * q[k][0], ly + ht * q[k][1]
  g = v['goal_delta_angstroms'] if kind == 'image' else v[8:]
  h.check(h.and_(h.close(g[0], gx - mx, 1e-4), h.close(g[1], gy - my, 1e-4)),
          'the goal vector starts at the central dopant')
  if kind == 'frame':
    h.check(h.and_(h.close(v[0], q[k][0], 1e-5), h.close(v[1], q[k][1], 1e-5)),
            'position of the central dopant')
  elif kind == 'material':
    h.check(h.and_(h.close(v[0], mx, 1e-5), h.close(v[1], my, 1e-5)),
            'position of the central dopant')


@case(quick=[dict(kind=k) for k in KIND], bounds='4 carbon atoms anywhere')
def no_dopant(h, kind):
  np = __import__('numpy')
  o = mu.MicroscopeObservation(
      grid=common.grid(h, 'g', 4, 0, 1, numbers=[C] * 4),
      fov=common.simple_fov(h), controls=(), elapsed_time=h.td(0.0),
      image=np.zeros((4, 4, 1)))
  h.check_raises(graphene.SiliconNotFoundError, 'no dopant: reported',
                 KIND[kind]().get_features, o, goal_at(h, 0.0, 0.0))
  h.check_raises(ValueError, 'other kinds of goals are refused',
                 KIND[kind]().get_features, o, object())
