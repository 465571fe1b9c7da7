"""C30: videos and renderings."""

import numpy as np

from symex.run import case
from checks import common
from checks import simlib
from putting_dune import action_adapters as aa
from putting_dune import constants
from putting_dune import feature_constructors as fc
from putting_dune import goals
from putting_dune import microscope_utils as mu
from putting_dune import plotting_utils
from putting_dune import putting_dune_environment as pde
from putting_dune import simulator_observers as so

SI, C = constants.SILICON, constants.CARBON
COLOURS = {'o': 'carbon', 'ro': 'silicon', 'gx': 'goal', 'k.': 'beam'}


class Axes:
  """Records what is drawn since it was last cleared."""

  def __init__(self):
    self.clear()

  def clear(self):
    self.drawn, self.texts, self.images, self.lim = {}, [], [], {}
    self.outline = None

  def plot(self, x, y, fmt=None, **k):
    if fmt is None:
      self.outline = list(zip(x, y))
    else:
      self.drawn.setdefault(COLOURS.get(fmt, fmt), []).append((x, y))

  def text(self, x, y, s, **k):
    self.texts.append(s)

  def imshow(self, image, **k):
    self.images.append(image)

  def set_xlim(self, lim):
    self.lim['x'] = lim

  def set_ylim(self, lim):
    self.lim['y'] = lim

  def set_xticks(self, t):
    pass

  set_yticks = set_xticks


class Figure:

  def __init__(self):
    self.axes = []

  def subplots(self, rows=1, columns=1):
    self.axes = [Axes() for _ in range(columns)]
    return self.axes


class Plt:
  Axes = Axes

  def __init__(self):
    self.figures = []

  def figure(self, **k):
    self.figures.append(Figure())
    return self.figures[-1]


class Animation:
  """Keeps the frames and how to draw them."""

  Animation = object

  def FuncAnimation(self, fig, func, frames=None, **k):
    self.fig, self.func, self.frames = fig, func, list(frames)
    return self


def spots(h, drawn, want, what, tol=1e-4):
  """Exactly one drawing, of exactly these positions."""
  n = len(want)
  h.check(len(drawn) == (1 if want is not None else 0), f'{what} drawn')
  xs, ys = np.ravel(np.asarray(drawn[0][0], dtype=object)), np.ravel(
      np.asarray(drawn[0][1], dtype=object))
  h.check(len(xs) == n and len(ys) == n, f'number of {what}')
  # in any order
  if n > 1:
    h.check(h.all(h.any(h.and_(h.close(xs[i], x, tol), h.close(ys[i], y, tol))
                        for i in range(n)) for x, y in want), f'{what} drawn')
  elif n:
    h.check(h.and_(h.close(xs[0], want[0][0], tol),
                   h.close(ys[0], want[0][1], tol)), f'{what} drawn')


def clock(h, texts, t):
  h.check(len(texts) == 1, 'the time is shown')
  parts = texts[0].split(':')
  h.check(len(parts) == 3, 'as minutes, seconds and hundredths')
  (m, a), (s, b), (c, d) = (h.number(p, 2) for p in parts)
  h.check(h.and_(a, b, d), 'two digits each')
  h.check(h.and_(m >= 0, s >= 0, s < 60, c >= 0, c < 100),
          'seconds below 60, hundredths below 100')
  e = (m * 60 + s) * 100 + c - t * 100
  h.check(h.and_(e <= 0.501, -e <= 0.501), 'the time shown is the time elapsed')


@case(bounds='any duration up to 100 hours')
def duration(h):
  h.formatting()
  t = h.real('t', 0, 360000)
  clock(h, [plotting_utils.format_timedelta(h.td(t))], t)


def state(h, i, order=(SI, C)):
  """A grid with positions anywhere, and a view."""
  ps = [(h.real(f'p{i}{k}x', -50, 50), h.real(f'p{i}{k}y', -50, 50))
        for k in range(len(order))]
  g = mu.AtomicGrid(h.array([list(p) for p in ps]), h.int_array(list(order)))
  return mu.AtomicGridMaterialFrame(g), ps


def view(h, i):
  lx, ly = h.real(f'lx{i}', -50, 50), h.real(f'ly{i}', -50, 50)
  # The size of a view is fixed, which keeps conversions linear.
  w, ht = ((15.0, 20.0), (20.0, 16.0), (30.0, 25.0))[i % 3]
  return (mu.MicroscopeFieldOfView(h.Point(lx, ly), h.Point(lx + w, ly + ht)),
          (lx, ly, w, ht))


PLANS = ('RI', 'RIAI', 'RIATAII', 'RGIATTIG', 'RIGATAIG', 'RATATI', 'RIGATIRATI')


@case(quick=[dict(plan=p, order=o) for p, o in
             zip(PLANS, ((SI, C), (C, SI, C), (C, SI), (SI, C), (C, C, SI),
                         (C, SI), (SI, C)))],
      thorough=[dict(plan=p, order=o) for p in PLANS + (
          'RIGATTATIGATIG', 'RIATAIATAIATAI') for o in ((SI, C), (C, C, SI))],
      bounds='histories of up to 8 (thorough 14) events; any positions, views, '
             'commands, times and goal')
def video(h, plan, order):
  h.formatting()
  watch = so.EventObserver()
  goal = (h.real('gx', -50, 50), h.real('gy', -50, 50))
  frames = []
  now, fov, image, beam, cur = 0.0, None, None, None, None
  for i, e in enumerate(plan):
    if e == 'R':
      g, cur = state(h, i, order)
      f, fov = view(h, i)
      watch.observe_reset(g, f)
      frames, now, image, beam = [], 0.0, None, None
      watch.observe_fov_change(f)
    elif e == 'I':
      d = h.real(f'd{i}', 0, 100)
      f, fov = view(h, i)
      watch.observe_take_image(h.td(d), f)
      now = now + d
    elif e == 'G':
      image = f'image {i}'
      watch.observe_generated_image(image)
    elif e == 'A':
      d = h.real(f'd{i}', 0, 100)
      beam = (h.real(f'bx{i}', -50, 50), h.real(f'by{i}', -50, 50))
      watch.observe_apply_control(mu.BeamControlMaterialFrame(
          mu.BeamControl(h.Point(*beam), h.td(d))))
      frames.append((now, fov, image, beam, cur))
      now = now + d
    else:
      g, cur = state(h, i, order)
      watch.observe_transition(h.td(0.5), g)
  frames.append((now, fov, image, beam, cur))
  shown = 'G' in plan[plan.rindex('R'):]
  made = Animation()
  p = Plt()
  with common.swap((plotting_utils, 'plt', p),
                   (plotting_utils, 'animation', made)):
    out = plotting_utils.generate_video_from_simulator_events(
        list(watch.events), h.array(list(goal)))
    h.check(out is made, 'an animation')
    h.check(len(made.frames) == len(frames),
            'one frame per command, and one to end with')
    h.check(len(made.fig.axes) == (3 if shown else 2), 'panels')
    # out of order, as when an animation repeats
    todo = list(range(len(frames)))
    for k in todo[1:] + todo[:1]:
      made.func(made.frames[k])
      judge(h, made.fig.axes, frames[k], goal, order, shown)


def judge(h, axes, frame, goal, order, images):
  now, (lx, ly, w, ht), image, beam, cur = frame
  clock(h, axes[0].texts, now)
  at = lambda p: ((p[0] - lx) / w, (p[1] - ly) / ht)
  for ax, tr in ((axes[0], lambda p: p), (axes[1], at)):
    for z, name in ((SI, 'silicon'), (C, 'carbon')):
      spots(h, ax.drawn.get(name, []),
            [tr(p) for p, o in zip(cur, order) if o == z], name)
    spots(h, ax.drawn.get('goal', []), [tr(goal)], 'goal')
    if beam is None:
      h.check('beam' not in ax.drawn, 'no beam before the first command')
    else:
      spots(h, ax.drawn.get('beam', []), [tr(beam)], 'beam')
  h.check(axes[1].lim == {'x': (0, 1), 'y': (0, 1)}, 'the whole view')
  c = axes[0].outline
  want = {(a, b) for a in (0, 1) for b in (0, 1)}
  h.check(c is not None and h.all(
      h.any(h.and_(h.close(x, lx + a * w, 1e-4), h.close(y, ly + b * ht, 1e-4))
            for x, y in c) for a, b in want), 'the view is outlined')
  for k, n in ((0, 'x'), (1, 'y')):
    lo, hi = axes[0].lim[n]
    h.check(h.all(h.and_(lo <= p[k] + 1e-6, p[k] - 1e-6 <= hi) for p in cur),
            'all atoms within the overview')
  if images:
    h.check(axes[2].images == ([image] if image is not None else []),
            'the latest image so far')


class Other(goals.Goal):
  """A goal that is no position."""

  def reset(self, rng, initial_observation):
    pass

  def calculate_reward_and_terminal(self, observation):
    return goals.GoalReturn(0.0, False, False)


class Canvas:
  """A canvas of 4 by 2 pixels with known content."""

  def __init__(self):
    self.drawn = 0

  def draw(self):
    self.drawn += 1

  def get_width_height(self):
    return 4, 2

  def tostring_rgb(self):
    return bytes(range(24))

  def buffer_rgba(self):
    a = np.full((2, 4, 4), 255, np.uint8)
    a[..., :3] = np.arange(24).reshape(2, 4, 3)
    return memoryview(a)


class Sheet(Figure):

  def __init__(self):
    super().__init__()
    self.canvas = Canvas()

  def subplots(self, rows=1, columns=1):
    return super().subplots(rows, columns)[0]


@case(quick=[dict(controls=c, goal=g) for c, g in
             ((0, True), (1, True), (2, True), (2, False))],
      bounds='observations of three atoms, up to two commands; any view, '
             'positions and goal')
def render(h, controls, goal):
  env = pde.PuttingDuneEnvironment(
      simlib.Mat(h, quiet=True), aa.DirectActionAdapter(),
      fc.SingleSiliconPristineGrapheneFeatureConstuctor(),
      goals.SingleSiliconGoalReaching() if goal else Other())
  order = (C, SI, C)
  ps = [(h.real(f'p{k}x', 0, 1), h.real(f'p{k}y', 0, 1)) for k in range(3)]
  f, (lx, ly, w, ht) = view(h, 1)
  cs = [common.control(h, f'c{i}', 0, 1) for i in range(controls)]
  env.last_microscope_observation = mu.MicroscopeObservation(
      mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(
          h.array([list(p) for p in ps]), h.int_array(list(order)))),
      f, tuple(mu.BeamControlMicroscopeFrame(c) for c in cs), h.td(2.0))
  g = (h.real('gx', -50, 50), h.real('gy', -50, 50))
  if goal:
    env.goal.goal_position_material_frame = h.array(list(g))
  p = Plt()
  p.figure = lambda **k: p.figures.append(Sheet()) or p.figures[-1]
  with common.swap((pde, 'plt', p)):
    out = env.render()
  fig = p.figures[-1]
  ax = fig.axes[0]
  h.check(fig.canvas.drawn >= 1, 'the figure is drawn')
  h.check(np.array_equal(np.asarray(out), np.arange(24).reshape(2, 4, 3)),
          'the pixels of the figure, rows first')
  for z, name in ((SI, 'silicon'), (C, 'carbon')):
    spots(h, ax.drawn.get(name, []), [p for p, o in zip(ps, order) if o == z],
          name)
  if goal:
    spots(h, ax.drawn.get('goal', []), [((g[0] - lx) / w, (g[1] - ly) / ht)],
          'goal')
  else:
    h.check('goal' not in ax.drawn, 'no goal to draw')
  if controls:
    c = cs[-1].position
    spots(h, ax.drawn.get('beam', []), [(c.x, c.y)], 'last beam position')
  else:
    h.check('beam' not in ax.drawn, 'no beam before the first command')
  h.check(ax.lim == {'x': (0, 1), 'y': (0, 1)}, 'the whole view')
