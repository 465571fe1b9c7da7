"""C40: rates are predicted for what they were learnt from."""

import numpy as np

from symex.run import case
from checks import c24
from checks import c25
from checks import ratenet
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import train_rate_learner as trl

USES = ((True, True), (True, False), (False, True), (False, False))


@case(quick=[dict(to=t, perm=c25.ORDERS[p], mirror=m, use=u) for t, p, m, u in (
    (1, 0, False, 0), (2, 1, True, 1), (3, 2, False, 2), (1, 3, True, 3),
    (2, 4, False, 0), (3, 5, True, 0), (0, 3, False, 1))],
      thorough=[dict(to=t, perm=p, mirror=m, use=k % 4) for t in range(4)
                for k, p in enumerate(c25.ORDERS) for m in (False, True)],
      timeouts=(20, 60, 60), budget=300,
      bounds='beam anywhere within 4 A of the dopant in any field of view of one '
             'size, dopant staying or moving to each neighbour, neighbours '
             'listed in any order and turning either way; any outputs of the '
             'network, current and voltage')
def agreement(h, to, perm, mirror, use):
  cur, vol = USES[use]
  sites = c24.mirrored(c24.SITES) if mirror else c24.SITES
  around = [c24.CCW[p] for p in perm]
  t, (bx, by) = c24.transition(h, 't', sites, sites, to=(to,))
  dist = [(sites[k][0] - bx) ** 2 + (sites[k][1] - by) ** 2 for k in around]
  for i in range(3):
    for j in range(i):
      h.apart(dist[i], dist[j], 1e-3)
  ds = c24.run(h, [t])
  h.check(len(ds) == 1, 'one datapoint')
  data = trl.stack_data(ds, use_current=cur, use_voltage=vol)
  c = t.controls[0]
  raw = [h.real(f'o{k}', -2, 2) for k in range(3)] + [h.real('total', 0.01, 5)]
  m = ratenet.predictor(h, None, 1, use_current=cur, use_voltage=vol)
  m.packaged_model = c25.Model(h, raw)
  # the same material, anywhere
  ox, oy = h.real('ox', -20, 20), h.real('oy', -20, 20)
  g = mu.AtomicGrid(h.array([[x + ox, y + oy] for x, y in sites]),
                    h.int_array([c24.SI] + [c24.C] * (len(sites) - 1)))
  out = m.predict(g, h.Point(bx + ox, by + oy), h.array([ox, oy]),
                  np.array(around), voltage_kv=c.voltage_kv,
                  current_na=c.current_na)
  h.check(len(m.packaged_model.seen) == 1, 'the network is asked once')
  x = m.packaged_model.seen[0]
  row = list(data['position'][0])
  if cur or vol:
    row = list(data['context'][0]) + row
  h.check(x.shape == (1, len(row)), 'one row of inputs')
  for k, want in enumerate(row):
    h.check(h.close(x[0][k], want, 1e-3),
            'the network is asked about the inputs it learnt from')
  s = data['next_state'][0]
  if to == 0:
    h.check(h.eq(s, 0), 'no transition')
    return
  e = [h.np.exp(r) for r in raw[:3]]
  got = out[around.index(to)]
  h.check(h.or_(*[h.and_(h.eq(s, k + 1), h.close(
      got * (e[0] + e[1] + e[2]), raw[3] * e[k], 1e-3)) for k in range(3)]),
      'a move to a neighbour is learnt at the output that gives its rate')
