"""C15: starting a simulation."""

from symex.run import case
from checks import common
from checks.simlib import C, Images, Log, Mat, SI
from putting_dune import simulator


@case(quick=[dict(image=i, order=o) for i in (False, True) for o in (0, 1)],
      bounds='dopant anywhere within 100 A, another atom near or far; any view '
             'scale the random source can draw; any image duration; two resets')
def reset(h, image, order):
  im = Images()
  with common.swap((simulator.imaging, 'generate_stem_image', im.generate),
                   (simulator.imaging, 'sample_image_parameters', im.sample)):
    m = Mat(h, order=(SI, C) if order else (C, SI))
    dur = h.td(h.real('dur', 0.1, 10))
    a, b = Log(), Log()
    sim = simulator.PuttingDuneSimulator(m, image_duration=dur, observers=[a])
    sim.add_observer(b)
    rng = h.rng()
    for k in range(2):
      ncalls = len(rng.calls)
      a.events, b.events, im.calls = [], [], []
      o = sim.reset(rng, return_image=image)
      h.check(m.resets == k + 1, 'the material is prepared afresh')
      f = o.fov
      sx, sy = m.get_silicon_position()[0], m.get_silicon_position()[1]
      h.observe('fov', (f.lower_left.x, f.width))
      h.check(h.and_(h.close(f.offset.x, sx, 1e-5),
                     h.close(f.offset.y, sy, 1e-5)),
              'the view is centred on the dopant')
      h.check(h.close(f.width, f.height, 1e-5), 'the view is square')
      h.check(h.and_(f.width >= 15 - 1e-5, f.width <= 30 + 1e-5),
              'the view is 15 to 30 angstroms wide')
      u = [c for c in rng.calls[ncalls:] if c[0] == 'uniform']
      h.check(len(u) >= 1, 'the scale is drawn anew')
      h.check(o.controls == (), 'no commands yet')
      h.check(h.close(o.elapsed_time.total_seconds(), dur.total_seconds(),
                      1e-6), 'one image duration has passed')
      want = m.get_atoms_in_bounds(f.lower_left, f.upper_right)
      h.check(common.same_grid(h, o.grid, want, 1e-6),
              'the observation is the view of the material')
      si = [i for i in range(o.grid.atomic_numbers.shape[0])
            if h.branch(h.eq(o.grid.atomic_numbers[i], SI))]
      h.check(len(si) == 1, 'the dopant is visible')
      p = o.grid.atom_positions[si[0]]
      h.check(h.and_(h.close(p[0], 0.5, 1e-5), h.close(p[1], 0.5, 1e-5)),
              'in the middle')
      for l in (a, b):
        kinds = l.kinds()
        h.check(kinds == ['reset', 'fov', 'image'] + ['generated'] * image,
                'observers are told in order')
        h.check(common.same_grid(h, l.events[0][1], m.grid, 0) and
                all(h.branch(common.same_fov(h, x, f, 0)) for x in
                    (l.events[0][2], l.events[1][1], l.events[2][2])),
                'observers see the prepared material and the view')
        h.check(h.close(l.events[2][1].total_seconds(), dur.total_seconds(),
                        1e-6), 'observers see the imaging time')
        if image:
          h.check(l.events[3][1] is o.image, 'observers see the image')
      if image:
        h.check(len(im.calls) == 1 and o.image == 'image 1',
                'one image, returned')
        h.check(h.branch(common.same_grid(h, im.calls[0][0], o.grid, 0)) and
                h.branch(common.same_fov(h, im.calls[0][1], f, 0)),
                'the image shows the observed atoms')
      else:
        h.check(o.image is None and not im.calls, 'no image when not asked for')


@case(bounds='use before the first reset')
def before_reset(h):
  sim = simulator.PuttingDuneSimulator(Mat(h))
  h.check_raises(RuntimeError, 'stepping before reset fails',
                 sim.step_and_image, h.rng(), [common.control(h, 'c')])


@case(quick=[dict(k=0), dict(k=1)], bounds='observers added and removed')
def observers(h, k):
  m = Mat(h)
  logs = [Log(), Log()]
  given = [logs[0]]
  sim = simulator.PuttingDuneSimulator(m, observers=given)
  sim.add_observer(logs[1])
  h.check(given == [logs[0]], "the caller's list is left alone")
  sim.remove_observer(logs[k])
  sim.reset(h.rng())
  h.check(not logs[k].events, 'a removed observer is told nothing')
  h.check(logs[1 - k].kinds() == ['reset', 'fov', 'image'],
          'the others are still told')
  sim.step_and_image(h.rng(), [])
  h.check(not logs[k].events, 'a removed observer is told nothing')
  h.check(len(logs[1 - k].events) >= 4, 'the others are still told')


@case(quick=[dict(images=i, step=s) for i in ((0, 0), (0, 1), (1, 0), (1, 1))
             for s in (False, True)],
      bounds='two episodes, each with or without an image at the start and '
             'later')
def image_parameters(h, images, step):
  im = Images()
  with common.swap((simulator.imaging, 'generate_stem_image', im.generate),
                   (simulator.imaging, 'sample_image_parameters', im.sample)):
    sim = simulator.PuttingDuneSimulator(Mat(h))
    rng = h.rng()
    last = None
    for k in (0, 1):
      before = im.samples
      im.calls = []
      sim.reset(rng, return_image=bool(images[k]))
      if step:
        sim.step_and_image(rng, [], return_image=True)
      used = {c[2] for c in im.calls}
      h.check(len(used) <= 1, 'the images of an episode share their parameters')
      h.check(all(u not in (None, last) for u in used),
              'the parameters are drawn anew for every episode')
      h.check(not used or im.samples > before, 'parameters are drawn')
      last = next(iter(used), last)
