"""C16: stepping a simulation."""

from symex.run import case
from checks import common
from checks.simlib import C, Images, Log, Mat, SI
from putting_dune import microscope_utils as mu
from putting_dune import simulator


@case(quick=[dict(n=0, image=False), dict(n=1, image=True),
             dict(n=2, image=False)], budget=500,
      thorough=[dict(n=n, image=i) for n in (0, 1, 2, 3)
                for i in (False, True)],
      bounds='n commands within -1..2 of the view with dwell times 0..100 s; '
             'each moves the dopant by up to 8 A; the rest as in C15; dopant '
             'not within 1e-4 of the margins of the view')
def step(h, n, image):
  im = Images()
  with common.swap((simulator.imaging, 'generate_stem_image', im.generate),
                   (simulator.imaging, 'sample_image_parameters', im.sample)):
    m = Mat(h)
    dur = h.td(h.real('dur', 0.1, 10))
    a, b = Log(), Log()
    sim = simulator.PuttingDuneSimulator(m, image_duration=dur,
                                         observers=(a, b))
    rng = h.rng()
    f0 = sim.reset(rng).fov
    a.events, b.events = [], []
    cs = [mu.BeamControl(common.pt(h, f'c{i}', -1, 2),
                         h.td(h.real(f'd{i}', 0, 100)),
                         h.real(f'kv{i}', 10, 300), h.real(f'na{i}', 0, 10))
          for i in range(n)]
    o = sim.step_and_image(rng, cs, return_image=image)
    h.check(len(m.applied) == n, 'every command is applied once')
    tot = 0.0
    for i, (r, c, obs) in enumerate(m.applied):
      want = (f0.lower_left.x + f0.width * cs[i].position.x,
              f0.lower_left.y + f0.height * cs[i].position.y)
      h.check(r is rng, 'the given random source is used')
      h.check(h.and_(h.close(c.position.x, want[0], 1e-5),
                     h.close(c.position.y, want[1], 1e-5)),
              'commands reach the material in its own frame, in order')
      h.check(h.close(c.dwell_time.total_seconds(),
                      cs[i].dwell_time.total_seconds(), 1e-6),
              'the dwell time is kept')
      h.check(h.and_(h.close(c.voltage_kv, cs[i].voltage_kv),
                     h.close(c.current_na, cs[i].current_na)),
              'voltage and current are kept')
      h.check(obs == [a, b], 'the material reports to all observers')
      tot = tot + cs[i].dwell_time.total_seconds()
    h.check(len(o.controls) == n and common.same_controls(
        h, cs, o.controls, 0), 'the observation lists the commands')
    si = m.get_silicon_position()
    # where the dopant is in the view at the time of the first image
    u = (si[0] - f0.lower_left.x) / f0.width
    v = (si[1] - f0.lower_left.y) / f0.height
    for t in (u, v):
      for e in (0.0, 0.25, 0.75, 1.0):
        h.apart(t, e, 1e-4)
    inside = h.branch(h.and_(u > 0.25, u < 0.75, v > 0.25, v < 0.75))
    f = o.fov
    h.observe('fov', (f.lower_left.x, f.lower_left.y))
    images = 1 if inside else 2
    if inside:
      h.check(common.same_fov(h, f, f0, 1e-9), 'the view stays')
    else:
      h.check(h.and_(h.close(f.offset.x, si[0], 1e-5),
                     h.close(f.offset.y, si[1], 1e-5)),
              'the view is centred on the dopant again')
    h.check(h.and_(h.close(f.width, f0.width, 1e-5),
                   h.close(f.height, f0.height, 1e-5)),
            'the view keeps its size')
    h.check(h.close(o.elapsed_time.total_seconds(),
                    tot + images * dur.total_seconds(), 1e-5),
            'elapsed time is dwelling plus every image taken')
    h.check(common.same_grid(
        h, o.grid, m.get_atoms_in_bounds(f.lower_left, f.upper_right), 1e-6),
            'the observation is the view of the material')
    want = ['control', 'transition'] * n + ['image']
    if not inside:
      want += ['fov', 'image']
    want += ['generated'] * image
    for l in (a, b):
      h.check(l.kinds() == want, 'observers are told everything in order')
      ev = [e[1] for e in l.events if e[0] == 'control']
      for i, c in enumerate(ev):
        h.check(common.same_control(h, m.applied[i][1], c, 1e-9),
                'observers see the commands in the material frame')
      fo = [e for e in l.events if e[0] == 'image']
      h.check(common.same_fov(h, fo[0][2], f0, 1e-9) if inside or
              len(fo) == 2 else False, 'first image in the old view')
      h.check(common.same_fov(h, fo[-1][2], f, 1e-9),
              'last image in the final view')
      if not inside:
        nf = [e for e in l.events if e[0] == 'fov']
        h.check(common.same_fov(h, nf[0][1], f, 1e-9),
                'observers see the new view')
    if image:
      h.check(len(im.calls) == 1 and o.image == 'image 1', 'one image')
      h.check(h.branch(common.same_grid(h, im.calls[0][0], o.grid, 0)) and
              h.branch(common.same_fov(h, im.calls[0][1], f, 0)),
              'the image shows the final view')
    else:
      h.check(o.image is None and not im.calls, 'no image when not asked for')


@case(quick=[dict(steps=2)], thorough=[dict(steps=2), dict(steps=3)],
      budget=500, bounds='`steps` steps of one command each after a reset')
def sequence(h, steps):
  """After every step the dopant is visible and off the margins."""
  m = Mat(h)
  sim = simulator.PuttingDuneSimulator(m, image_duration=h.td(1.5))
  rng = h.rng()
  f = sim.reset(rng).fov
  w = f.width
  for k in range(steps):
    c = mu.BeamControl(common.pt(h, f's{k}', -1, 2), h.td(h.real('d', 0, 10)))
    n = len(m.applied)
    o = sim.step_and_image(rng, (c,))
    got = m.applied[n][1]
    h.check(h.and_(
        h.close(got.position.x, f.lower_left.x + f.width * c.position.x, 1e-5),
        h.close(got.position.y, f.lower_left.y + f.height * c.position.y, 1e-5)
    ), 'commands are read in the view of the last observation')
    f = o.fov
    h.check(h.close(f.width, w, 1e-5), 'the view keeps its size')
    si = [i for i in range(o.grid.atomic_numbers.shape[0])
          if h.branch(h.eq(o.grid.atomic_numbers[i], SI))]
    h.check(len(si) == 1, 'the dopant is visible after every step')
    p = o.grid.atom_positions[si[0]]
    h.check(h.and_(p[0] >= 0.25 - 1e-5, p[0] <= 0.75 + 1e-5,
                   p[1] >= 0.25 - 1e-5, p[1] <= 0.75 + 1e-5),
            'the dopant is off the margins after every step')
