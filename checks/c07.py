"""C07: exposing the material to the beam."""

from symex.run import case
from checks import common
from checks.c05 import ZeroRng
from putting_dune import constants
from putting_dune import graphene
from putting_dune import microscope_utils as mu

SI, C = constants.SILICON, constants.CARBON


class BeamRng:
  """At most `limit` draws may land within the dwell time."""

  def __init__(self, h, dwell, limit):
    self.h, self.dwell, self.limit = h, dwell, limit
    self.draws, self.scales, self.picks, self.probs = [], [], [], []

  def exponential(self, scale=1.0, size=None):
    assert size is None
    h = self.h
    v = h.real('wait', 1e-4, 7200)
    self.draws.append(v)
    self.scales.append(scale)
    if len(self.draws) > self.limit:
      h.assume(v > self.dwell)
    # keep concrete replays off the microsecond rounding of durations
    h.apart(self.dwell, sum(self.draws))
    return v

  def choice(self, a, size=None, replace=True, p=None):
    h = self.h
    self.probs.append(p)
    n = int(a)
    i = h.pick('choice', range(n))
    h.assume(p[i] > 0)
    self.picks.append(i)
    return i


class Watcher(mu.SimulatorObserver):

  def __init__(self):
    self.seen = []

  def observe_transition(self, time_since_control_was_applied, grid):
    self.seen.append((time_since_control_was_applied, grid))


def build(h, n_atoms=4):
  """A material whose successor states and rates are chosen by the solver."""
  pos = h.reals('p', (n_atoms, 2), -20, 20)
  asked = []

  def rate_fn(grid, beam):
    z = grid.atomic_numbers
    at = [i for i in range(n_atoms) if h.branch(h.eq(z[i], SI))]
    assert len(at) == 1, at
    succ = []
    rates = []
    for k, j in enumerate(i for i in range(n_atoms) if i != at[0]):
      if k == 2:
        break
      r = h.real('rate', 0.01, 10)
      nz = [SI if i == j else C for i in range(n_atoms)]
      succ.append(graphene.SuccessorState(
          mu.AtomicGrid(grid.atom_positions, h.int_array(nz)), r))
      rates.append(r)
    asked.append((grid, beam, succ, rates))
    return graphene.Rates(succ)

  m = graphene.PristineSingleDopedGraphene(rate_function=rate_fn,
                                           grid_columns=4)
  m.reset(ZeroRng(h))
  z = [C] * n_atoms
  z[1] = SI
  m.grid = mu.AtomicGrid(pos, h.int_array(z))
  return m, pos, asked


@case(quick=[dict(limit=0, atoms=4), dict(limit=1, atoms=4),
             dict(limit=2, atoms=3)],
      thorough=[dict(limit=l, atoms=4) for l in (0, 1, 2, 3)],
      bounds='atoms anywhere; at most `limit` transitions per exposure; two '
             'successor states with any positive rates; dwell 0..100 s')
def exposure(h, limit, atoms):
  m, pos, asked = build(h, atoms)
  dwell = h.real('dwell', 0, 100)
  h.assume(h.or_(h.eq(dwell, 0), dwell >= 1e-3))
  ctl = mu.BeamControl(common.pt(h, 'beam', -20, 20), h.td(dwell))
  rng = BeamRng(h, dwell, limit)
  w1, w2 = Watcher(), Watcher()
  m.apply_control(rng, ctl, (w1, w2))
  if h.branch(h.eq(dwell, 0)):
    h.check(not rng.draws and not w1.seen, 'no exposure: nothing happens')
    return
  # replay the drawn waiting times
  t = 0.0
  expected = []
  for i, d in enumerate(rng.draws):
    d = h.ite(d > 3600, 3600.0, d)
    t = t + d
    if i < len(rng.draws) - 1:
      h.check(t <= dwell, 'drawing goes on only within the dwell time')
      expected.append(t)
    elif h.branch(t <= dwell):
      expected.append(t)
      h.fail('exposure stops before the dwell time is over')
  h.check(len(rng.draws) == len(asked), 'one waiting time per state visited')
  h.check(len(rng.picks) == len(expected),
          'one transition per waiting time that ends within the dwell time')
  n = len(expected)
  for w in (w1, w2):
    h.check(len(w.seen) == n, 'every observer sees every transition once')
    for (tt, gg), te, nxt in zip(w.seen, expected, [a[0] for a in asked[1:]]):
      h.check(h.close(tt.total_seconds(), te, 1e-4),
              'transition times count from the start of the exposure')
      h.check(common.same_grid(h, gg, nxt, 0),
              'observers see the state after the transition')
  for k, (grid, beam, succ, rates) in enumerate(asked):
    h.check(common.same_pt(h, beam, ctl.position, 0), 'rates use the beam spot')
    tot = sum(rates)
    h.check(h.close(rng.scales[k] * tot, 1, 1e-5),
            'waiting time has the total rate')
    if k < n:
      i = rng.picks[k]
      h.check(len(rng.probs[k]) == len(rates), 'one probability per successor')
      h.check(h.close(sum(rng.probs[k]), 1, 1e-4), 'probabilities sum to one')
      for p, r in zip(rng.probs[k], rates):
        h.check(h.close(p * tot, r, 1e-4), 'successors weighted by rate')
      after = asked[k + 1][0] if k + 1 < len(asked) else m.grid
      h.check(common.same_grid(h, after, succ[i].grid, 0),
              'the state becomes the drawn successor')
  last = asked[-1][0]
  h.check(common.same_grid(h, m.grid, last, 0),
          'no change after the last transition')
  h.check(h.arr_close(m.grid.atom_positions, pos, 0), 'atoms never move')
  z = m.grid.atomic_numbers
  cnt = sum(1 for i in range(atoms) if h.branch(h.eq(z[i], SI)))
  h.check(cnt == 1, 'exactly one dopant')


@case(quick=[dict(limit=1), dict(limit=2)], budget=500,
      thorough=[dict(limit=l) for l in (1, 2, 3)],
      bounds='built-in rate predictor on 4 fixed atom sites (any distances), '
             'any non-negative rates, at most `limit` transitions')
def builtin(h, limit):
  """With the built-in predictor the dopant hops between neighbours."""
  pos = h.array([[0.0, 0.0], [1.42, 0.0], [-0.7, 1.25], [-0.75, -1.2],
                 [2.1, 1.3]])
  calls = []

  def fn(grid, beam, si_pos, idx):
    calls.append([int(i) for i in idx])
    return h.array([h.real('rate', 0, 10) for _ in range(3)])

  m = graphene.PristineSingleDopedGraphene(
      rate_function=graphene.PristineSingleSiGrRatePredictor(
          canonical_rate_prediction_fn=fn), grid_columns=4)
  m.reset(ZeroRng(h))
  m.grid = mu.AtomicGrid(pos, h.int_array([SI, C, C, C, C]))
  dwell = h.real('dwell', 0.01, 100)
  rng = BeamRng(h, dwell, limit)
  w = Watcher()
  m.apply_control(rng, mu.BeamControl(common.pt(h, 'beam', -20, 20),
                                      h.td(dwell)), [w])
  for k, (t, g) in enumerate(w.seen):
    z = g.atomic_numbers
    cnt = [i for i in range(5) if h.branch(h.eq(z[i], SI))]
    h.check(len(cnt) == 1, 'exactly one dopant')
    h.check(cnt[0] in calls[k] and cnt[0] == calls[k][rng.picks[k]],
            'the dopant moves to the drawn neighbour')
    h.check(h.arr_close(g.atom_positions, pos, 0), 'atoms never move')
    h.check(all(h.branch(h.eq(z[i], C)) for i in range(5) if i != cnt[0]),
            'all other atoms are carbon')
  h.check(h.arr_close(m.get_silicon_position(),
                      pos[[i for i in range(5) if h.branch(h.eq(
                          m.grid.atomic_numbers[i], SI))][0]], 0),
          'the dopant position is that of the silicon atom')


@case(bounds='use before the first reset')
def before_reset(h):
  m = graphene.PristineSingleDopedGraphene(grid_columns=4)
  h.check_raises(RuntimeError, 'exposure before reset fails', m.apply_control,
                 h.rng(), common.control(h, 'c'))
