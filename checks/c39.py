"""C39: plots of rates and of transitions."""

import contextlib
import io
import math
import os
import shutil
import tempfile

import numpy as np

from symex.run import case
from checks import c24
from checks import common
from putting_dune import constants
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import plotting_utils as pu
from putting_dune.pipeline import train_rate_learner as trl
from putting_dune.rate_learning import learn_rates as lr

SI, C = constants.SILICON, constants.CARBON
flat = lambda x: list(np.ravel(np.asarray(x, dtype=object)))


class Sheet:
  """One figure: what is drawn on it, where it is saved."""

  def __init__(self):
    self.spots, self.images, self.contours, self.saved = [], [], [], []
    self.lines, self.lim = [], {}


class PyPlot:
  """Records figures."""

  def __init__(self):
    self.figures, self.shown = [], []

  @property
  def now(self):
    return self.figures[-1]

  def figure(self, *_, **__):
    self.figures.append(Sheet())
    return self.now

  def imshow(self, image, **_):
    self.now.images.append(image)

  def scatter(self, x, y, label=None, marker=None, c=None, alpha=None, **_):
    x, y = flat(x), flat(y)
    if c is not None and not isinstance(c, str):
      assert len(c) in (1, len(x)), 'as many colours as points'
    self.now.spots.append(dict(at=list(zip(x, y)), label=label, marker=marker,
                               c=c, alpha=alpha))

  def contourf(self, x, y, z, cmap=None, **_):
    self.now.contours.append((flat(x), flat(y), flat(z), cmap))

  def get_cmap(self, name):
    return name

  def savefig(self, f, **_):
    self.now.saved.append(getattr(f, 'name', f))

  def show(self, *_, **__):
    self.shown.append(self.now)

  def __getattr__(self, name):
    if name in ('legend', 'close', 'hlines', 'vlines', 'xlim', 'ylim', 'xlabel',
                'ylabel', 'title', 'tight_layout'):
      return lambda *_, **__: None
    raise AttributeError(name)

  def by_label(self, k=0):
    return {s['label']: s for s in self.figures[k].spots}


def same_spots(h, got, want, what, tol=1e-3):
  h.check(len(got) == len(want), f'number of {what}')
  h.check(h.and_(*[h.and_(h.close(a[0], b[0], tol), h.close(a[1], b[1], tol))
                   for a, b in zip(got, want)]), f'place of {what}')


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp()
  try:
    yield d
  finally:
    shutil.rmtree(d)


@case(quick=[dict(to=t, mirror=m, image=i, save=s) for t, m, i, s in (
    (0, False, None, True), (1, True, 8, False), (2, False, 16, True),
    (3, True, None, False))],
      thorough=[dict(to=t, mirror=m, image=i, save=s) for t in range(4)
                for m in (False, True) for i in (None, 8)
                for s in (False, True)],
      timeouts=(20, 60), budget=300,
      bounds='beam anywhere within 4 A of the dopant in any fields of view of one '
             'size each, dopant staying or moving to each neighbour, material '
             'up to 0.25 A displaced afterwards')
def transitions(h, to, mirror, image, save):
  sites = c24.mirrored(c24.SITES) if mirror else c24.SITES
  around = c24.CCW[::-1] if mirror else c24.CCW
  dx, dy = h.real('dx', -0.25, 0.25), h.real('dy', -0.25, 0.25)
  t, (bx, by) = c24.transition(h, 't', sites, sites, to=(to,), shift=(dx, dy))
  dist = [(sites[k][0] - bx) ** 2 + (sites[k][1] - by) ** 2 for k in around]
  for i in range(3):
    for j in range(i):
      h.apart(dist[i], dist[j], 1e-3)
  if image:
    t = mu.dataclasses.replace(
        t, image_before=np.zeros((image, image, 1), np.uint8),
        label_image_before=np.ones((image, image, 3), np.uint8))
  p, args = PyPlot(), c24.Args()
  with scratch() as d, common.swap((trl, 'plt', p)), \
      contextlib.redirect_stdout(io.StringIO()):
    out = trl.transitions_to_datapoints(
        [t], args, plot_transitions=True, show_plots=not save,
        save_path=os.path.join(d, 'plots') if save else None)
    saved = [[os.path.relpath(str(n), d) for n in f.saved] for f in p.figures]
  h.check(len(out) == 1 and len(p.figures) == (2 if image else 1),
          'a plot of the transition, and of its labels if any')
  size = image or 512
  f = t.fov_before
  ll, w, ht = f.lower_left, f.width, f.height
  # from the material to the pixels of the image before
  at = lambda x, y: ((x - ll.x) / w * size, size - (y - ll.y) / ht * size)
  s = p.by_label()
  same_spots(h, s['Atoms before transition']['at'],
             [at(*x) for x in sites], 'atoms before')
  same_spots(h, s['Atoms after transition']['at'],
             [at(x + dx, y + dy) for x, y in sites], 'atoms after')
  same_spots(h, s['Beam position']['at'], [at(bx, by)], 'the beam')
  same_spots(h, s['Si position (before)']['at'], [at(0, 0)], 'dopant before')
  x, y = sites[to]
  same_spots(h, s['Si position (after)']['at'], [at(x + dx, y + dy)],
             'dopant after')
  near = [k for k in range(3) if all(h.branch(dist[k] < dist[j])
                                     for j in range(3) if j != k)]
  h.check(len(near) == 1, 'one neighbour is nearest to the beam')
  for k in range(3):
    n = around[(near[0] + k) % 3]
    got = s[f'Neighbor {k + 1}']
    same_spots(h, got['at'], [at(*sites[n])], 'neighbors from the one nearest '
               'to the beam')
    mark = [s[f'Neighbor {i + 1}']['marker'] for i in range(3) if i != k]
    h.check((mark.count(got['marker']) == 0) if n == to else
            got['marker'] in mark, 'the neighbor moved to is marked')
  shape = p.figures[0].images[0].shape[:2]
  h.check(len(p.figures[0].images) == 1 and shape == (size, size),
          'drawn on the image')
  if image:
    h.check(p.figures[0].images[0] is t.image_before and
            p.figures[1].images[0] is t.label_image_before, 'the images')
  if save:
    h.check(all(len(n) == 1 for n in saved) and not p.shown, 'plots are saved')
    state = 0 if to == 0 else (around.index(to) - near[0]) % 3 + 1
    h.check(len({n[0] for n in saved}) == len(saved) and all(
        n[0].startswith(f'plots/class_{state}/') for n in saved),
            'by the state moved to')
  else:
    h.check(not any(saved) and p.shown == p.figures, 'plots are shown')


@case(quick=[dict(n=2)], thorough=[dict(n=3)],
      bounds='2 (thorough 3) datapoints of any state, place and dwell time')
def data(h, n):
  at = h.reals('p', (n, 2), -5, 5)
  state = [h.int(f's{k}', 0, 3) for k in range(n)]
  t = h.reals('t', n, 0.1, 10)
  k = [next(s for s in range(4) if s == 3 or h.branch(h.eq(x, s)))
       for x in state]
  p = PyPlot()
  with common.swap((trl, 'plt', p)):
    trl.visualize_data(h.array(state), at, t)
  s = p.by_label()
  top = t[0]
  for x in list(t)[1:]:
    top = h.ite(x > top, x, top)
  for i, name in enumerate(('No movement', 'Moved right', 'Moved up-left',
                            'Moved down-left')):
    mine = [j for j in range(n) if k[j] == i]
    h.check((name in s) == bool(mine), 'only states that occur')
    if not mine:
      continue
    same_spots(h, s[name]['at'], [tuple(at[j]) for j in mine],
               'beams that led to a state')
    h.check(h.and_(*[h.close(a * top, t[j], 1e-3) for a, j in
                     zip(flat(s[name]['alpha']), mine)]),
            'longer times are drawn more strongly')
  h.check(s['Silicon position']['at'] == [(0, 0)], 'the dopant in the middle')


@case(quick=[dict(points=4, context=2, top=(0, 1, 2)),
             dict(points=7, context=1, top=(3, 3, 0)),
             dict(points=4, context=0, top=(2, 0, 3))],
      thorough=[dict(points=n, context=c, top=(i, (i + c) % 4, (2 * i + n) % 4))
                for n in (4, 5, 8) for c in range(3) for i in range(4)],
      timeouts=(20, 60),
      bounds='grids of two by two points of any extent; any context; any rates, '
             'highest by 1e-3 at one point for each neighbor')
def predictions(h, points, context, top):
  h.formatting()
  r = h.real('range', 0.5, 10)
  fixed = h.reals('c', context, -5, 5) if context else None
  rates = h.reals('r', (4, 3), 0, 1)
  for k in range(3):
    for i in range(4):
      h.assume(i == top[k] or rates[i, k] <= rates[top[k], k] - 1e-3)
  asked = []

  def rate(x):
    asked.append(x)
    return rates
  p = PyPlot()
  with common.swap((lr, 'plt', p)), contextlib.redirect_stdout(io.StringIO()):
    fig, highest = lr.visualize_rates(None, rate, grid_range=r, num_points=points,
                                  fixed_context=fixed)
  h.check(fig is p.now and len(p.figures) == 1, 'the figure')
  h.check(len(asked) == 1 and asked[0].shape == (4, context + 2),
          'asked once, with a row for each point')
  rows = [list(x) for x in asked[0]]
  if context:
    h.check(h.and_(*[h.close(x[k], fixed[k], 1e-6) for x in rows
                     for k in range(context)]), 'the fixed inputs come first')
  at = [tuple(x[-2:]) for x in rows]
  h.check(h.all(h.any(h.and_(h.close(x, a * r, 1e-5), h.close(y, b * r, 1e-5))
                      for x, y in at) for a in (-1, 1) for b in (-1, 1)),
          'the points cover the range')
  s = p.now
  h.check(len(s.contours) == 3, 'contours for every neighbor')
  angle = lambda k: 2 * math.pi * k / 3
  for k, (xs, ys, zs, _) in enumerate(s.contours):
    h.check(len(xs) == len(ys) == len(zs) == 4, 'one value per point')
    h.check(h.all(h.any(h.and_(h.close(x, u, 1e-5), h.close(y, v, 1e-5),
                               h.close(z, rates[i, k], 1e-6))
                        for i, (u, v) in enumerate(at))
                  for x, y, z in zip(xs, ys, zs)),
            'rates are drawn where they hold')
    h.check(h.close(highest[k], rates[top[k], k], 1e-6), 'the highest rates')
    d = 1.6
    mark = (d * math.cos(angle(k)), d * math.sin(angle(k)))
    spots = [x for x in s.spots if len(x['at']) == 1]
    here = lambda q: [x for x in spots if h.branch(h.and_(
        h.close(x['at'][0][0], q[0], 0.02), h.close(x['at'][0][1], q[1], 0.02)))]
    best_at = here(at[top[k]])
    there = here(mark)
    h.check({x['c'] for x in best_at} & {x['c'] for x in there} != set(),
            'the highest rate of each neighbor is marked in its colour')


def sites(turn):
  c, s = math.cos(turn), math.sin(turn)
  near = [(1.42 * math.cos(a), 1.4 * math.sin(a))
          for a in (0.3, 0.3 + 2 * math.pi / 3, 0.3 + 4 * math.pi / 3)]
  return [(x * c - y * s, x * s + y * c) for x, y in
          [(2.6, 1.1)] + near[:1] + [(0.0, 0.0)] + near[1:] + [(-2.4, -1.9)]]


class Function:
  """Any rates of the three neighbours, at every beam position."""

  def __init__(self, h, points, low=0):
    self.h, self.asked, self.low = h, [], low
    self.points = points

  def __call__(self, grid, beam):
    h, g = self.h, grid.atom_positions
    n = len(self.asked)
    rates = [h.real(f'r{n}_{k}', self.low, 1) for k in range(3)]
    if n == 0:
      for i in range(3):
        for j in range(i):
          h.apart(rates[i], rates[j], 1e-3)
    z = np.asarray(grid.atomic_numbers)
    si = int(np.argmax(z == SI))
    self.asked.append(((beam.x - g[si, 0], beam.y - g[si, 1]), rates))
    out = []
    for k, i in enumerate((1, 3, 4)):
      swapped = np.array(z)
      swapped[si], swapped[i] = C, SI
      out.append(graphene.SuccessorState(mu.AtomicGridMaterialFrame(
          mu.AtomicGrid(g, swapped)), rates[k]))
    self.around = [(float(g[i, 0] - g[si, 0]), float(g[i, 1] - g[si, 1]))
                   for i in (1, 3, 4)]
    return graphene.Rates(out)


class Seaborn:

  def __init__(self):
    self.calls = []

  def _call(self, data=None, ax=None, x=None, y=None, weights=None, hue=None,
            cmap=None, **_):
    get = lambda k: None if k is None else (
        list(data[k]) if isinstance(k, str) else list(k))
    self.calls.append(dict(ax=ax, x=get(x), y=get(y), w=get(weights),
                           hue=get(hue), cmap=cmap))

  kdeplot = lineplot = _call


class Axes:

  def __init__(self):
    self.spots, self.lim, self.lines = [], {}, []

  def scatter(self, x, y, c=None, **_):
    self.spots.append((list(zip(flat(x), flat(y))), c))

  def set_xlim(self, *a):
    self.lim['x'] = a[0] if len(a) == 1 else a

  def set_ylim(self, *a):
    self.lim['y'] = a[0] if len(a) == 1 else a

  def vlines(self, x, ymin, ymax, **_):
    self.lines.append((list(x), ymin, ymax))

  def __getattr__(self, name):
    if name in ('set_title', 'set_xlabel', 'set_ylabel'):
      return lambda *_, **__: None
    raise AttributeError(name)


def surroundings(h, turn):
  s = sites(turn)
  ox, oy = 3.0, -7.0
  return mu.AtomicGridMaterialFrame(mu.AtomicGrid(
      np.array([(x + ox, y + oy) for x, y in s]),
      np.array([C, C, SI, C, C, C])))


def near(p, q):
  return math.dist(p, q) < 1e-6


@case(quick=[dict(n=2, turn=0.0), dict(n=3, turn=1.0)],
      thorough=[dict(n=n, turn=t) for n in (2, 4) for t in (0.0, 2.0, 4.0)],
      bounds='2x2 and 3x3 points in any range; any rates, distinct at the '
             'first point; two surroundings')
def raster(h, n, turn):
  a, b = h.real('a', -5, 0), h.real('b', 1, 5)
  f, s, ax = Function(h, n * n), Seaborn(), Axes()
  with common.swap((pu, 'sns', s)):
    pu.plot_rate_function3(ax, f, surroundings(h, turn), extent=(a, b),
                           num_raster_points=n)
  h.check(len(f.asked) == n * n, 'rates at every point')
  pts = [a + (b - a) * k / (n - 1) for k in range(n)]
  h.check(h.all(h.any(h.and_(h.close(x, u, 1e-5), h.close(y, v, 1e-5))
                      for (x, y), _ in f.asked) for u in pts for v in pts),
          'the points cover the range, around the dopant')
  h.check(len(s.calls) == 3 and all(c['ax'] is ax for c in s.calls),
          'contours for every neighbor')
  h.check(len({c['cmap'] for c in s.calls}) == 3, 'in three colours')
  colour = {}
  for i, p in enumerate(f.around):
    mine = []
    for c in s.calls:
      if len(c['x']) == n * n and all(h.branch(h.and_(
          h.close(c['x'][k], x, 1e-5), h.close(c['y'][k], y, 1e-5),
          h.close(c['w'][k], r[i], 1e-6))) for k, ((x, y), r) in
          enumerate(f.asked)):
        mine.append(c)
    h.check(len(mine) == 1, 'the rates of every neighbor, where they hold')
    colour[i] = mine[0]['cmap']
    drawn = [(p2, c) for at, cs in ax.spots if not isinstance(cs, str)
             for p2, c in zip(at, cs) if near(p2, p)]
    want = pu.matplotlib.colormaps[colour[i]](1.0)
    h.check(len(drawn) == 1 and tuple(drawn[0][1]) == tuple(want),
            'every neighbor in the colour of its rates')
  h.check(len(set(colour.values())) == 3, 'in three colours')
  h.check(any(at == [(0, 0)] for at, _ in ax.spots), 'the dopant in the middle')
  h.check(any(all(any(near(p, q) for p in at) for q in f.around)
              and len(at) == 6 for at, _ in ax.spots), 'all atoms')
  h.check(h.and_(*[h.and_(h.eq(ax.lim[k][0], a), h.eq(ax.lim[k][1], b))
                   for k in 'xy']), 'the range shown')


@case(quick=[dict(n=2, turn=0.0), dict(n=3, turn=1.0)],
      thorough=[dict(n=n, turn=t) for n in (2, 4) for t in (0.0, 2.0, 4.0)],
      bounds='up to 3 (thorough 4) points in any range; any rates, '
             'distinct at the first point')
def vector(h, n, turn):
  a, b = h.real('a', -5, 0), h.real('b', 1, 10)
  f, s, ax = Function(h, n, 0.01), Seaborn(), Axes()
  with common.swap((pu, 'sns', s)):
    pu.plot_rate_along_neighbor_vector3(ax, f, surroundings(h, turn),
                                        extent=(a, b), num_points=n)
  h.check(len(f.asked) == n and len(s.calls) == 1 and s.calls[0]['ax'] is ax,
          'rates at every point')
  c = s.calls[0]
  along = [a + (b - a) * k / (n - 1) for k in range(n)]
  h.check(len(c['x']) == n and len(c['y']) == n, 'one rate for every point')
  # the neighbor the line leads to
  which = [i for i, v in enumerate(f.around) if h.branch(h.and_(*[
      h.and_(h.close(x, t * v[0], 1e-4), h.close(y, t * v[1], 1e-4))
      for ((x, y), _), t in zip(f.asked, along)]))]
  h.check(len(which) == 1, 'along the line from the dopant to a neighbor')
  h.check(math.hypot(*f.around[which[0]]) <
          min(math.hypot(*v) for v in f.around) + 1e-6, 'the nearest one')
  for k in range(n):
    h.check(h.and_(h.close(c['x'][k], along[k], 1e-5),
                   h.close(c['y'][k], f.asked[k][1][which[0]], 1e-6)),
            'the rate of moving to that neighbor')
  h.check(len(ax.lines) == 1 and ax.lines[0][0] == [0.0, 1.0] and
          h.and_(*[ax.lines[0][2] >= y for y in c['y']]),
          'the two atoms are marked')


@case(quick=[dict(n=3, turn=0.0), dict(n=4, turn=1.0)],
      thorough=[dict(n=n, turn=t) for n in (3, 6) for t in (0.0, 2.0, 4.0)],
      bounds='up to 4 (thorough 6) angles, any radius and rates')
def arc(h, n, turn):
  q = h.real('radius', 0.1, 3)
  f, s, ax = Function(h, n), Seaborn(), Axes()
  with common.swap((pu, 'sns', s)):
    pu.plot_rate_along_arc3(ax, f, surroundings(h, turn),
                            normalized_radius=q, num_points=n)
  h.check(len(f.asked) == n and len(s.calls) == 1 and s.calls[0]['ax'] is ax,
          'rates at every angle')
  r = q * sum(math.hypot(*v) for v in f.around) / 3
  c = s.calls[0]
  h.check(len(c['x']) == 4 * n, 'each neighbor and the total at every angle')
  hues = {}
  for x, y, z in zip(c['x'], c['y'], c['hue']):
    hues.setdefault(z, []).append((x, y))
  h.check(len(hues) == 4 and all(len(v) == n for v in hues.values()),
          'the neighbors and the total are told apart')
  turns = [2 * math.pi * k / (n - 1) for k in range(n)]
  for k, ((x, y), _) in enumerate(f.asked):
    h.check(h.and_(h.close(x, r * math.sin(turns[k]), 1e-4),
                   h.close(y, r * math.cos(turns[k]), 1e-4)),
            'around the dopant, in units of the mean neighbor distance')
  told = set()
  for z, v in hues.items():
    total = not isinstance(z, (int, np.integer))
    h.check(all(abs(float(x) - t) < 1e-6 for (x, _), t in zip(v, turns)),
            'at its angle')
    if total:
      h.check(h.and_(*[h.close(y, r[0] + r[1] + r[2], 1e-5)
                       for (_, y), (_, r) in zip(v, f.asked)]), 'the total')
    else:
      same = [i for i in range(3) if h.branch(h.and_(*[
          h.close(y, r[i], 1e-6) for (_, y), (_, r) in zip(v, f.asked)]))]
      h.check(len(same) == 1, 'the rates of one neighbor')
      told.update(same)
  h.check(len(told) == 3, 'of every neighbor')


@case(bounds='any positions of three atoms none of which is a dopant')
def no_dopant(h):
  g = mu.AtomicGridMaterialFrame(mu.AtomicGrid(
      h.reals('p', (3, 2), -5, 5), np.array([C] * 3)))
  for f in (pu.plot_rate_function3, pu.plot_rate_along_neighbor_vector3,
            pu.plot_rate_along_arc3):
    with common.swap((pu, 'sns', Seaborn())):
      h.check_raises(ValueError, 'refused without a dopant', f, Axes(),
                     Function(h, 1), g)
