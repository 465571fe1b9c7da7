"""C23: from trajectories to transitions."""

from symex.run import case
from checks import common
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import trajectories_to_transitions as t2t

LENGTHS = ((), (0,), (1,), (2,), (3,), (0, 2), (2, 1, 2), (2, 2), (3, 0, 2))
FIELDS = ('image_before', 'image_after', 'label_image_before',
          'label_image_after')


@case(quick=[dict(lengths=l, late=b) for l in LENGTHS for b in (False, True)],
      thorough=[dict(lengths=l, late=b) for l in LENGTHS + ((5, 4), (3, 1, 1, 3))
                for b in (False, True)],
      bounds='trajectories of the given numbers of observations, each with any '
             'atoms, field of view, commands, and any of them with images '
             'and label images')
def convert(h, lengths, late):
  ts = []
  for i, n in enumerate(lengths):
    obs = []
    for k in range(n):
      o = common.observation(h, f't{i}o{k}', 1, (i + k) % 3)
      has = h.branch(h.bool(f'image{i}_{k}'))
      labelled = (h.branch(h.bool(f'label{i}_{k}')) if sum(lengths) <= 3
                  else has != bool(k % 2))
      object.__setattr__(o, 'image', ('image', i, k) if has else None)
      object.__setattr__(o, 'label_image', ('label', i, k) if labelled else None)
      obs.append(o)
    ts.append(mu.Trajectory(observations=obs))
  out = t2t.trajectories_to_transitions(
      ts, previous_controls_at_current_timestep=late)
  want = [(t.observations[k], t.observations[k + 1]) for t in ts
          for k in range(len(t.observations) - 1)]
  h.check(len(out) == len(want),
          'one transition for each two successive observations')
  for tr, (a, b) in zip(out, want):
    h.check(h.and_(common.same_grid(h, tr.grid_before, a.grid, 0),
                   common.same_grid(h, tr.grid_after, b.grid, 0)),
            'atoms before and after')
    h.check(h.and_(common.same_fov(h, tr.fov_before, a.fov, 0),
                   common.same_fov(h, tr.fov_after, b.fov, 0)),
            'fields of view before and after')
    h.check(common.same_controls(h, tr.controls, (b if late else a).controls, 0),
            'the commands given in between')
    for f in FIELDS:
      o = a if f.endswith('before') else b
      h.check(getattr(tr, f) == getattr(o, f.rsplit('_', 1)[0]),
              'images before and after')


@case(bounds='default arguments')
def default(h):
  a, b = (common.observation(h, n, 1, 1) for n in 'ab')
  out = t2t.trajectories_to_transitions([mu.Trajectory([a, b])])
  h.check(len(out) == 1 and common.same_controls(h, out[0].controls, a.controls,
                                                 0),
          'by default an observation carries the commands given after it')
