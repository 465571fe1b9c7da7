"""A material whose dopant goes wherever the solver wants; a recorder."""

from putting_dune import constants
from putting_dune import graphene
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON


class Mat(graphene.PristineSingleDopedGraphene):
  """Dopant at any position, moved anywhere by every exposure."""

  def __init__(self, h, reach=100.0, hop=8.0, order=(SI, C), quiet=False,
               jumps=1):
    super().__init__(grid_columns=4)
    self.h, self.reach, self.hop, self.order = h, reach, hop, order
    self.jumps = jumps  # transitions during one exposure
    self.quiet = quiet  # the dopant hardly moves, nothing else is visible
    self.applied = []
    self.resets = 0

  def place(self, x, y, cx, cy):
    rows = [[x, y] if z == SI else [cx, cy] for z in self.order]
    self.grid = mu.AtomicGrid(self.h.array(rows),
                              self.h.int_array(list(self.order)))

  def reset(self, rng):
    h = self.h
    self._has_been_reset = True
    self.resets += 1
    if self.quiet:
      self.place(0.5, -0.5, 200.0, 200.0)
      return
    x, y = h.real('mx', -self.reach, self.reach), h.real('my', -self.reach,
                                                         self.reach)
    self.place(x, y, x + h.real('ox', 1, 60), y - 1.0)

  def apply_control(self, rng, control, observers=()):
    h = self.h
    p, z = self.grid.atom_positions, self.order.index(SI)
    c = 1 - z
    self.applied.append((rng, control, list(observers)))
    hop = 0.5 if self.quiet else self.hop
    for j in range(self.jumps):
      p = self.grid.atom_positions
      x = p[z, 0] + h.real('hx', -hop, hop)
      y = p[z, 1] + h.real('hy', -hop, hop)
      self.place(x, y, p[c, 0], p[c, 1])
      for o in observers:
        o.observe_transition(h.td(0.5 + j / 4), self.grid)


class Log(mu.SimulatorObserver):
  """Records all events in order."""

  def __init__(self):
    self.events = []

  def observe_reset(self, grid, fov):
    self.events.append(('reset', grid, fov))

  def observe_apply_control(self, control):
    self.events.append(('control', control))

  def observe_transition(self, time_since_control_was_applied, grid):
    self.events.append(('transition', time_since_control_was_applied, grid))

  def observe_fov_change(self, fov):
    self.events.append(('fov', fov))

  def observe_take_image(self, duration, fov):
    self.events.append(('image', duration, fov))

  def observe_generated_image(self, image):
    self.events.append(('generated', image))

  def kinds(self):
    return [e[0] for e in self.events]


class Images:
  """Stand-in for image generation."""

  def __init__(self):
    self.calls = []
    self.samples = 0

  def sample(self, rng, *a, **k):
    self.samples += 1
    return f'parameters {self.samples}'

  def generate(self, grid, fov, params, rng, *a, **k):
    self.calls.append((grid, fov, params, rng))
    return f'image {len(self.calls)}'
