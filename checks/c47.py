"""C47: the network which aligns graphs sees neighbors as neighbors."""

import itertools
import types

import haiku as hk
import jax.numpy as jnp
import jraph
from jax_md import partition
from jax_md import space
import numpy as np

from symex import arr
from symex.run import case
from checks import common
from checks import ratenet
from checks.c41 import Grad, Metrics, State, plain
from putting_dune.graph_alignment import model as gm
from putting_dune.graph_alignment import train as gt

SIDE = 30.0


def wrapped(h, d):
  """The component of a displacement in a periodic box."""
  return d - SIDE * h.ite(d >= SIDE / 2, 1.0, h.ite(d < -SIDE / 2, -1.0, 0.0))


def rows(h, xs):
  return h.array([list(x) for x in xs])


def closer(h, d, limit):
  """Whether |d| < limit; only the first component is symbolic."""
  left = limit ** 2 - sum(float(x) ** 2 for x in d[1:])
  return left > 0 and h.and_(d[0] < left ** 0.5, -d[0] < left ** 0.5)


class Library:
  """jax_md as documented; in replays it is jax_md itself."""

  def __init__(self, h):
    self.h = h

  def displacement(self):
    h = self.h
    if not h.symbolic:
      return space.periodic(jnp.ones(3) * SIDE)[0]
    return lambda a, b, **_: h.array(
        [wrapped(h, a[k] - b[k]) for k in range(3)])

  def map_bond(self, fn):
    return lambda a, b, **k: rows(
        self.h, [fn(x, y, **k) for x, y in zip(a, b)])

  def square_distance(self, d):
    return (d ** 2).sum(axis=-1)

  def neighbor_list(self, displacement, box, r_cutoff, dr_threshold=0.0,
                    capacity_multiplier=1.25, disable_cell_list=False,
                    mask_self=True, custom_mask_function=None,
                    fractional_coordinates=False,
                    format=partition.NeighborListFormat.Dense, **_):  # pylint: disable=redefined-builtin
    h, lib = self.h, self
    sparse = partition.Sparse, partition.OrderedSparse
    assert format in sparse and custom_mask_function is None
    assert not fractional_coordinates
    del box, disable_cell_list

    def near(a, b, limit):
      return closer(h, displacement(a, b), limit)

    def build(at, capacity, error, update):
      n = len(at)
      pairs = [(j, i) for i in range(n) for j in range(n)
               if (i != j or not mask_self) and
               (format is partition.Sparse or j < i) and
               h.branch(near(at[i], at[j], r_cutoff + dr_threshold))]
      if capacity is None:
        capacity = min(int(len(pairs) * capacity_multiplier), n ** 2)
      kept = (pairs + [(n, n)] * (n * n))[:min(capacity, n * n)]
      return partition.NeighborList(
          idx=h.int_array([[p[k] for p in kept] for k in (0, 1)]),
          reference_position=at, error=error, cell_list_capacity=None,
          max_occupancy=capacity, format=format, cell_size=None,
          cell_list_fn=None, update_fn=update)

    def update(at, neighbors, **_):
      assert len(at) == len(neighbors.reference_position)
      if h.branch(h.or_(*[
          lib.square_distance(displacement(a, b)) > (dr_threshold / 2) ** 2
          for a, b in zip(at, neighbors.reference_position)])):
        return build(at, neighbors.max_occupancy, neighbors.error,
                     neighbors.update_fn)
      return neighbors

    def allocate(at, extra_capacity=0, **_):
      return build(at, None, partition.PartitionError(np.zeros((), np.uint8)),
                   update)
    return types.SimpleNamespace(allocate=allocate, update=update)

  def to_jraph(self, neighbor, mask=None, nodes=None, edges=None, globals=None):  # pylint: disable=redefined-builtin
    h = self.h
    n = len(neighbor.reference_position)
    pairs = [(int(a), int(b)) for a, b in zip(*neighbor.idx)]
    keep = [a < n and (mask is None or h.branch(mask[i]))
            for i, (a, _) in enumerate(pairs)]
    if mask is not None:
      pairs = [p for p, k in zip(pairs, keep) if k]
      pairs += [(n, n)] * (len(keep) - len(pairs))
    return jraph.GraphsTuple(
        nodes=nodes, edges=edges, globals=globals,
        receivers=h.int_array([p[0] for p in pairs]),
        senders=h.int_array([p[1] for p in pairs]),
        n_node=np.array([n, 1]), n_edge=np.array([sum(keep),
                                                  len(keep) - sum(keep)]))

  def swapped(self, graphs, steps):
    class Network:
      """Keeps the graphs it sees."""

      def __init__(self, *_, **k):
        self.k = k

      def __call__(self, graph):
        graphs.append(graph)
        points = (len(graph.nodes) - 1) // steps
        return np.zeros((steps, 2)), np.zeros((steps, points, 2))
    items = [(gm, 'AlignmentGraphNetwork', Network)]
    if self.h.symbolic:
      items += [
          (gm, 'space', common.Over(gm.space, map_bond=self.map_bond,
                                    square_distance=self.square_distance)),
          (gm, 'partition', common.Over(
              gm.partition, neighbor_list=self.neighbor_list,
              to_jraph=self.to_jraph))]
      return Clamping(*items)
    return common.swap(*items)


class Clamping(common.swap):
  """Arrays are those of jax."""

  def __enter__(self):
    arr.CLAMP[0] = True
    return super().__enter__()

  def __exit__(self, *a):
    arr.CLAMP[0] = False
    super().__exit__(*a)


def near_pairs(h, at, cutoff):
  """Which pairs are closer than the cutoff (all points clearly so or not)."""
  n = len(at)
  found = set()
  for i, j in itertools.combinations_with_replacement(range(n), 2):
    d = [wrapped(h, at[i, k] - at[j, k]) for k in range(3)]
    for k in range(3):
      h.apart(at[i, k] - at[j, k], SIDE / 2, 1e-3)
      h.apart(at[j, k] - at[i, k], SIDE / 2, 1e-3)
    left = cutoff ** 2 - float(d[1]) ** 2 - float(d[2]) ** 2
    if left > 0:
      h.apart(d[0], left ** 0.5, 1e-2)
      h.apart(-d[0], left ** 0.5, 1e-2)
    if h.branch(closer(h, d, cutoff)):
      found |= {(i, j), (j, i)}
  return found


def graph_is(h, graph, at, feats, pairs):
  n = len(at)
  h.check(graph.nodes.shape == (n + 1, feats.shape[1]) and h.and_(
      h.arr_close(graph.nodes[:n], feats, 1e-5),
      h.arr_close(graph.nodes[n:], np.zeros((1, feats.shape[1])), 0)),
          'a node for every point, and one for padding')
  h.check([int(x) for x in graph.n_node] == [n, 1], 'two graphs')
  to = [int(x) for x in graph.receivers]
  from_ = [int(x) for x in graph.senders]
  real = [k for k in range(len(to)) if to[k] < n or from_[k] < n]
  h.check(sorted((to[k], from_[k]) for k in real) == sorted(pairs),
          'an edge for every pair of neighbors, and no other')
  h.check(real == list(range(len(real))) and
          int(graph.n_edge[0]) == len(real), 'real edges first')
  h.check(len(graph.edges) == len(to), 'every edge has a displacement')
  ok = True
  for k in real:
    for c in range(3):
      d = wrapped(h, at[to[k], c] - at[from_[k], c])
      ok = h.and_(ok, h.close(graph.edges[k, c], d, 1e-3))
  h.check(ok, 'edges hold the displacement of their points')


def device(h, x):
  """As arrays come from jax."""
  return x if h.symbolic else jnp.asarray(x)


def points(h, name, steps, n):
  """Points of which the first coordinate is anything."""
  x = h.reals(name, (steps, n), 0, 30)
  return h.array([[[x[t, i], 0.5 * i, 0.25 * t] for i in range(n)]
                  for t in range(steps)])


def room(pairs, n):
  """Places in the list; jax_md wants one spare unless all pairs are near."""
  return max(len(pairs), n * n - 1)


@case(quick=[dict(steps=1, n=3, cells=None), dict(steps=2, n=2, cells=None),
             dict(steps=2, n=1, cells=16)],
      thorough=[dict(steps=2, n=2, cells=8), dict(steps=4, n=1, cells=None),
                dict(steps=1, n=4, cells=None)],
      max_paths=4000, validate=20, timeouts=(20, 60, 60),
      bounds='up to four points of up to two steps, anywhere on lines of a '
             'periodic box, any cutoff up to three bond lengths')
def trained(h, steps, n, cells):
  """What the network sees in a step of training."""
  at, lib, graphs = points(h, 'x', steps, n), Library(h), []
  cutoff = h.pick('cutoff', (1.42 * 3, 1.5))
  flat = at.reshape(-1, 3)
  pairs = near_pairs(h, flat, cutoff)
  feats = h.array([[[1.0, 0.25 * i + t] for i in range(n)]
                   for t in range(steps)])
  state = State(params={}, metrics=Metrics([]))
  zeros = lambda *s: h.array(np.zeros(s).tolist())
  batch = dict(positions=device(h, at.reshape(1, steps, n, 3)),
               features=device(h, feats.reshape(1, steps, n, 2)),
               global_labels=zeros(1, steps, 2),
               local_labels=zeros(1, steps, n, 2))
  grad = Grad()
  with lib.swapped(graphs, steps), common.swap(
      (gt.jax, 'grad', grad), (gt.jax, 'vmap', ratenet.vmap(h))):
    neighbor_fn, _, apply_fn = gm.graph_network_neighbor_list(
        lib.displacement(), jnp.array(SIDE), cutoff, 0.0,
        sequence_length=steps, disable_cell_list=not cells)
    plain(gt.train_step)(
        state, batch, apply_fn, neighbor_fn.update, loss_start_timestep=0,
        neighbor_list_capacity=room(pairs, steps * n), cell_list_capacity=cells)
  h.check(len(graphs) == 1, 'the network sees the graph')
  graph_is(h, graphs[0], flat, feats.reshape(-1, 2), pairs)


@case(quick=[dict(n=2), dict(n=3)], max_paths=4000, validate=20,
      timeouts=(20, 60, 60),
      bounds='up to three points on lines of a periodic box, which move less '
             'than half the threshold between lists')
def moved(h, n):
  """Lists with a halo serve for points which moved."""
  lib, graphs, halo, cutoff = Library(h), [], 1.0, 2.0
  first = points(h, 'x', 1, n)
  by = h.reals('by', (n,), -0.45, 0.45)
  at = h.array([[first[0, i, 0] + by[i], first[0, i, 1], first[0, i, 2]]
                for i in range(n)])
  feats = h.array([[1.0, 0.25 * i] for i in range(n)])
  start = first.reshape(-1, 3)
  wide = near_pairs(h, start, cutoff + halo)
  pairs = near_pairs(h, at, cutoff)
  with lib.swapped(graphs, 1):
    neighbor_fn, _, apply_fn = gm.graph_network_neighbor_list(
        lib.displacement(), jnp.array(SIDE), cutoff, halo,
        sequence_length=1, disable_cell_list=True)
    neighbors = gm.create_sparse_neighbor_list(
        room(wide, n), device(h, start), neighbor_fn.update, None)
    neighbors = neighbors.update(device(h, start))
    neighbors = neighbors.update(device(h, at))
    apply_fn({}, device(h, at), neighbors, nodes=device(h, feats))
  graph_is(h, graphs[0], at, feats, pairs)


@case(quick=[dict(steps=2, n=2), dict(steps=3, n=1), dict(steps=1, n=2)],
      bounds='up to three steps and two points, any states of the nodes and of '
             'the graphs')
def answers(h, steps, n):
  """Every step is answered from its own points."""
  nodes = h.reals('nodes', (steps * n + 1, 3), -5, 5)
  glob = h.reals('globals', (2, 3), -5, 5)
  weights = {'GlobalDecoder': 2.0, 'PoolingDecoder': -3.0, 'LocalDecoder': 5.0}

  class Net:

    def __init__(self, *_, **__):
      pass

    def __call__(self, graph):
      return graph

  class Mlp:

    def __init__(self, output_sizes, name=None, **_):
      self.size, self.w = int(output_sizes[-1]), weights[name]

    def __call__(self, x):
      parts = [x[..., k % 3:k % 3 + 1] * (self.w * (k + 1))
               for k in range(self.size)]
      return h.np.concatenate(parts, axis=-1)
  graph = jraph.GraphsTuple(nodes=nodes, edges=None, globals=glob,
                            receivers=None, senders=None, n_node=None,
                            n_edge=None)

  def run(g):
    return gm.AlignmentGraphNetwork(2, (4,), sequence_length=steps,
                                    output_dims=2)(g)
  with common.swap((gm, 'GraphNetEncoder', Net), (hk.nets, 'MLP', Mlp)):
    f = hk.transform(run)
    total, local = f.apply({}, None, graph)
  ans = lambda w, v, k: v[k % 3] * (w * (k + 1))
  for t in range(steps):
    mine = [nodes[t * n + i] for i in range(n)]
    for c in range(2):
      pooled = sum(ans(-3.0, m, c) for m in mine) / n
      h.check(h.close(total[t, c], ans(2.0, glob[0], 2 * t + c) + pooled, 1e-4),
              'the answer for a step: of the graph, and the mean of its points')
      for i in range(n):
        h.check(h.close(local[t, i, c], ans(5.0, mine[i], c), 1e-4),
                'the answer for a point')
