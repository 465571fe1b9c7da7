"""C04: transitions, drifts and labelled trajectories survive storage."""

from symex.run import case
from checks import common
from putting_dune import microscope_utils as mu

IM = (0, 1)


@case(quick=[dict(ib=a, ia=b, lb=c, la=d) for a in IM for b in IM for c in IM
             for d in IM],
      bounds='2 atoms before, 3 after, 2 controls; every presence pattern of '
             'the four 2x2 images')
def transition(h, ib, ia, lb, la):
  im = lambda n, p: h.reals(n, (2, 2, 1), 0, 1) if p else None
  t = mu.Transition(
      grid_before=common.grid(h, 'gb', 2), grid_after=common.grid(h, 'ga', 3),
      fov_before=common.simple_fov(h, 'fb'),
      fov_after=common.simple_fov(h, 'fa'),
      controls=(common.control(h, 'c0'), common.control(h, 'c1')),
      image_before=im('ib', ib), image_after=im('ia', ia),
      label_image_before=im('lb', lb), label_image_after=im('la', la))
  for lab, r in common.trip(h, t):
    h.check(common.same_grid(h, t.grid_before, r.grid_before),
            lab + 'grid before')
    h.check(common.same_grid(h, t.grid_after, r.grid_after),
            lab + 'grid after')
    h.check(common.same_fov(h, t.fov_before, r.fov_before),
            lab + 'field of view before')
    h.check(common.same_fov(h, t.fov_after, r.fov_after),
            lab + 'field of view after')
    h.check(common.same_controls(h, t.controls, r.controls), lab + 'controls')
    for f in ('image_before', 'image_after', 'label_image_before',
              'label_image_after'):
      h.check(common.same_image(h, getattr(t, f), getattr(r, f)), lab + f)


def same_drift(h, a, b, lab):
  h.check(common.same_rows(h, a.drift, b.drift), lab + 'drift vector')
  h.check(common.same_rows(h, a.jitter, b.jitter), lab + 'jitter')


@case(quick=[dict(n=0), dict(n=3)], thorough=[dict(n=n) for n in (0, 1, 3, 6)],
      bounds='n atoms; drift and jitter components within 1000')
def drift(h, n):
  j = h.reals('j', (n, 2), -1000, 1000) if n else h.np.zeros((0, 2))
  d = mu.Drift(jitter=j, drift=h.reals('d', 2, -1000, 1000))
  for lab, r in common.trip(h, d):
    same_drift(h, d, r, lab)


@case(quick=[dict(steps=2)], thorough=[dict(steps=s) for s in (0, 1, 3)],
      bounds='steps observations of 1 atom, one drift per observation')
def labelled(h, steps):
  obs = [common.observation(h, f'o{i}', 1, i % 2) for i in range(steps)]
  ds = [mu.Drift(jitter=h.reals(f'j{i}', (1, 2), -1000, 1000),
                 drift=h.reals(f'd{i}', 2, -1000, 1000))
        for i in range(steps)]
  t = mu.LabeledAlignmentTrajectory(
      trajectory=mu.Trajectory(observations=obs), drifts=ds)
  for lab, r in common.trip(h, t):
    h.check(len(r.trajectory.observations) == steps, lab + 'observations')
    h.check(len(r.drifts) == steps, lab + 'drifts')
    for a, b in zip(obs, r.trajectory.observations):
      common.same_obs(h, a, b, label=lab)
    for a, b in zip(ds, r.drifts):
      same_drift(h, a, b, lab)
