"""C03: observations survive storage."""

from symex.run import case
from checks import common
from putting_dune import microscope_utils as mu


@case(quick=[dict(n=0), dict(n=1), dict(n=3)],
      thorough=[dict(n=n) for n in (0, 1, 2, 3, 5, 8)],
      bounds='n atoms within 1000 A, any element 1..99')
def grid(h, n):
  g = common.grid(h, 'g', n)
  for lab, r in common.trip(h, g):
    h.check(r.atom_positions.shape == (n, 2), lab + 'shape')
    h.check(common.same_grid(h, g, r), lab + 'atoms in order')
    for lab2, r2 in common.trip(h, r):
      h.check(common.same_grid(h, r, r2, 0), lab2 + 'second trip is exact')


@case(bounds='any control within 1000, dwell up to ten days')
def control(h):
  c = common.control(h, 'c')
  for lab, r in common.trip(h, c):
    h.check(common.same_control(h, c, r), lab + 'control')
    for lab2, r2 in common.trip(h, r):
      h.check(common.same_pt(h, r.position, r2.position, 0),
              lab2 + 'second trip is exact')


@case(bounds='control without beam voltage or current')
def control_unset(h):
  p = common.pt(h, 'c')
  kv = h.pick('kv', [None, 60.0])
  na = h.pick('na', [None, 0.5])
  c = mu.BeamControl(p, h.td(h.real('dwell', 0, 864000)), kv, na)
  for lab, r in common.trip(h, c):
    h.check(common.same_pt(h, p, r.position), lab + 'position')
    for name, was, got in (('voltage', kv, r.voltage_kv),
                           ('current', na, r.current_na)):
      if was is None:
        h.check(got is None, lab + 'unset ' + name)
      else:
        h.check(got is not None and abs(got - was) < 1e-4, lab + name)


@case(bounds='any field of view with sides 1..200 A')
def fov(h):
  f = common.simple_fov(h)
  for lab, r in common.trip(h, f):
    h.check(common.same_fov(h, f, r), lab + 'field of view')
    for lab2, r2 in common.trip(h, r):
      h.check(common.same_fov(h, r, r2, 0), lab2 + 'second trip is exact')


IM = ('none', 'some')


@case(quick=[dict(image=i, label=l, k=k) for i in IM for l in IM
             for k in (0, 2)],
      thorough=[dict(image=i, label=l, k=k, n=4) for i in IM for l in IM
                for k in (0, 1, 3)],
      bounds='n atoms, k controls, 2x2 images present or absent')
def observation(h, image, label, k, n=2):
  o = common.observation(h, 'o', n, k, image, label)
  for lab, r in common.trip(h, o):
    common.same_obs(h, o, r, label=lab)


@case(quick=[dict(steps=0), dict(steps=2)],
      thorough=[dict(steps=s) for s in (0, 1, 3, 4)],
      bounds='steps observations of 1 atom with different numbers of controls')
def trajectory(h, steps):
  obs = [common.observation(h, f'o{i}', 1, i % 3, 'some' if i % 2 else 'none',
                            'none' if i % 2 else 'some')
         for i in range(steps)]
  t = mu.Trajectory(observations=obs)
  for lab, r in common.trip(h, t):
    h.check(len(r.observations) == steps, lab + 'number of observations')
    for a, b in zip(obs, r.observations):
      common.same_obs(h, a, b, label=lab)
