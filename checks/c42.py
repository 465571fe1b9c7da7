"""C42: the program that trains rate learners."""

import contextlib
import io
import os
import shutil
import tempfile

from etils import epath
import numpy as np

from symex.run import case
from checks import c39
from checks import common
from putting_dune.pipeline import train_rate_learner as trl

NETWORKS = ('rate_network', 'classification_network')
CLASSIFIERS = ('random_forest', 'svm', 'knn', 'gp', 'sklearn_mlp')


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp()
  try:
    yield d
  finally:
    shutil.rmtree(d)


class World:
  """Stand-ins around the program, recording what it does, in order."""

  def __init__(self, h, points, models=2):
    self.h, self.points, self.models = h, points, models
    self.log, self.plots, self.dumped = [], [], []
    self.augmented = {k: np.array([i]) for i, k in enumerate(
        ('next_state', 'position', 'dt'))}

  def swaps(self):
    w, lr, du = self, trl.learn_rates, trl.data_utils

    class Predictor:

      def __init__(self, init_key=None, num_states=3, position_dim=2,
                   config=None):
        w.log.append('made')
        w.predictor, w.config = self, config
        w.h.check(num_states == 3 and position_dim == 2, 'three neighbors')

      def train(self, data, key, bootstrap=True):
        w.log.append('trained')
        w.data, w.bootstrap = dict(data), bootstrap
        return dict(train_loss=np.array([[3.0, 1.0], [2.0, 4.0]]),
                    test_rate_loss=np.array([[5.0, 6.0], [7.0, 8.0]]))

      def distill(self, data, config=None):
        w.log.append('distilled')
        w.distilled = data

      def save(self, directory, step=0, fixed_context=None):
        w.log.append('saved')
        w.saved = (str(directory), fixed_context)

      def apply_model(self, x, key=None, model_index=None):
        return ('rates', x)

    def splits(data, num_splits, key, bootstrap=True, augment_data=True,
               test_fraction=0.1):
      w.data, w.bootstrap = dict(data), bootstrap
      w.split_args = (num_splits, augment_data, test_fraction)
      w.sets = [{k: w.h.reals(f'{s}{k}', (num_splits, 2, 2), -5, 5)
                 for k in ('context', 'next_state')} for s in ('train', 'test')]
      first = [d['context'][i][0, 0] for d in w.sets for i in range(num_splits)]
      for i, a in enumerate(first):  # all sets differ
        for b in first[:i]:
          w.h.apart(a, b, 0.01)
      return w.sets

    class Model:

      def __init__(self, i):
        self.i, self.fits = i, []
        self.classes_ = np.arange(4)

      def fit(self, x, y):
        self.fits.append((x, y))
        return self

      def score(self, x, y):
        for k, s in enumerate(w.sets):
          if w.h.branch(w.h.and_(
              w.h.arr_close(x, s['context'][self.i], 0),
              w.h.arr_close(y, s['next_state'][self.i], 0))):
            return (0.25, 0.5)[k] + self.i
        return -1.0

      def predict_proba(self, x):
        return np.array([[0.1, 0.2, 0.3, 0.4], [0.4, 0.1, 0.25, 0.25]][self.i:]
                        + [[0.0, 0.5, 0.25, 0.25]])[:1].repeat(len(x), 0)

    self.made = []

    def classifier(learner_type, config=None, standardize=True, **_):
      w.log.append(str(getattr(learner_type, 'value', learner_type)))
      w.made.append(Model(len(w.made)))
      w.config = config
      return w.made[-1]

    class Dump:

      def dump(self, model, f):
        w.dumped.append((os.path.basename(f.name), model))

    def visualize(path, function, grid_range=1.5, num_points=0,
                  fixed_context=None):
      w.plots.append((os.path.basename(path), function, fixed_context))

    def transitions(ts, args, *_, **k):
      w.h.check(ts == ('transitions', 'trajectories'), 'of the trajectories')
      w.args = args
      return w.points

    def convert(ts, previous_controls_at_current_timestep=False):
      w.previous = previous_controls_at_current_timestep
      return ('transitions', ts)

    def load(path):
      w.source = path
      return 'trajectories'
    self.shown = []

    def show(next_states, positions, dwell, num_states=3, save_path=None):
      w.shown.append((next_states, positions, h_copy(dwell), save_path))

    def h_copy(x):
      return np.array(x, dtype=object).copy()

    return [(lr, 'LearnedTransitionRatePredictor', Predictor),
            (lr, 'create_dataset_splits', splits),
            (lr, 'visualize_rates', visualize),
            (du, 'augment_data', lambda **k: self.augmented),
            (trl, 'get_sklearn_classifier', classifier),
            (trl, 'joblib', Dump()), (trl, 'plt', Plots()),
            (trl, 'load_trajectories_from_records', load),
            (trl.trajectories_to_transitions, 'trajectories_to_transitions',
             convert),
            (trl, 'transitions_to_datapoints', transitions),
            (trl, 'visualize_data', show)]


class Plots(c39.PyPlot):

  def __getattr__(self, name):
    if name in ('plot', 'axvline', 'yscale', 'clf'):
      return lambda *_, **__: None
    return super().__getattr__(name)


def datapoints(h, n):
  return [trl.DataPoint(next_state=(0, 2, 1, 3)[k % 4],
                        beam_pos=h.reals(f'b{k}', 2, -5, 5),
                        seconds_between=h.real(f't{k}', 0, 100),
                        current=h.real(f'c{k}', 0, 1),
                        voltage=h.real(f'v{k}', 40, 200)) for k in range(n)]


def run(h, w, d, learner, **k):
  args = trl.Args(source_path=epath.Path('/nowhere/records'),
                  workdir=epath.Path(d), learner_type=learner, num_models=2,
                  **k)
  with common.swap(*w.swaps()), contextlib.redirect_stdout(io.StringIO()):
    trl.main(args)
  h.check(str(w.source) == '/nowhere/records', 'trajectories as asked for')
  h.check(w.args is args, 'datapoints made with the arguments given')
  return args


def dataset(h, w, cur, vol, dwell, unit):
  """The data handed to the learner."""
  n, d = len(w.points), w.data
  keys = ['current'] * cur + ['voltage'] * vol + ['seconds_between'] * dwell
  h.check(('context' in d) == bool(keys), 'context as configured')
  for k, p in enumerate(w.points):
    h.check(h.and_(h.eq(d['next_state'][k], p['next_state']),
                   h.arr_close(d['position'][k], p['beam_pos'], 1e-5),
                   h.close(d['dt'][k], 1 if unit else p['seconds_between'],
                           1e-4)), 'every datapoint is learnt from')
    for j, key in enumerate(keys):
      h.check(h.close(d['context'][k][j], p[key], 1e-4),
              'current, voltage and dwell time as configured')
  h.check(len(d['next_state']) == n, 'every datapoint is learnt from')
  return keys


def contexts(h, w, keys):
  """Lowest, highest and median inputs (three datapoints)."""
  out = []
  for key in keys:
    a, b, c = (p[key] for p in w.points)
    lo = lambda x, y: h.ite(x < y, x, y)
    hi = lambda x, y: h.ite(x < y, y, x)
    low, top = lo(lo(a, b), c), hi(hi(a, b), c)
    out.append((low, top, a + b + c - low - top))
  return out


def plots(h, w, at, function):
  names = {'min_context_rates.png': 0, 'max_context_rates.png': 1,
           'avg_context_rates.png': 2}
  h.check({p[0] for p in w.plots} == set(names) and len(w.plots) == 3,
          'rates are shown for low, high and median context')
  for name, f, fixed in w.plots:
    function(f)
    if not at:
      h.check(fixed is None, 'without context')
    else:
      h.check(len(fixed) == len(at) and h.and_(*[
          h.close(x, c[names[name]], 1e-4) for x, c in zip(fixed, at)]),
              'rates are shown for low, high and median context')


@case(quick=[dict(learner=l, cur=c, vol=v, distill=d, boot=b) for l, c, v, d, b
             in (('rate_network', True, True, True, True),
                 ('rate_network', False, False, False, False),
                 ('classification_network', True, False, True, False),
                 ('classification_network', False, True, False, True))],
      thorough=[dict(learner=l, cur=c, vol=v, distill=d, boot=b)
                for l in NETWORKS for c in (True, False) for v in (True, False)
                for d in (True, False) for b in (True, False)],
      timeouts=(20, 60),
      bounds='three datapoints of any values')
def networks(h, learner, cur, vol, distill, boot):
  w = World(h, datapoints(h, 3))
  with scratch() as d:
    args = run(h, w, d, learner, use_current=cur, use_voltage=vol,
               distill=distill, bootstrap=boot, epochs=7, learning_rate=0.125,
               previous_controls_at_current_timestep=boot)
    with np.load(os.path.join(d, 'metrics.npz')) as m:
      h.check(sorted(m) == ['test_rate_loss', 'train_loss'] and
              m['train_loss'].tolist() == [[3.0, 1.0], [2.0, 4.0]] and
              m['test_rate_loss'].tolist() == [[5.0, 6.0], [7.0, 8.0]],
              'metrics are kept')
  dwell = learner != 'rate_network'
  h.check(w.previous == boot, 'transitions as configured')
  h.check(w.bootstrap == boot, 'bootstrapping as configured')
  h.check(w.log == ['made', 'trained'] + ['distilled'] * distill + ['saved'],
          'trained, distilled if asked for, then saved')
  c = w.config
  h.check(c.use_current == cur and c.use_voltage == vol and c.epochs == 7 and
          c.learning_rate == 0.125 and c.num_models == 2 and
          bool(c.dwell_time_in_context) == dwell, 'the learner is configured')
  keys = dataset(h, w, cur, vol, dwell, unit=dwell)
  if distill:
    h.check(w.distilled is w.augmented, 'distilled over augmented data')
  at = contexts(h, w, keys)
  directory, fixed = w.saved
  h.check(directory == str(args.workdir), 'saved where asked for')
  if keys:
    h.check(len(fixed) == len(at) and h.and_(*[
        h.close(x, k[2], 1e-4) for x, k in zip(fixed, at)]),
            'saved with median context')
  else:
    h.check(fixed is None, 'saved without context')

  def function(f):
    h.check(f('x') == ('rates', 'x'), 'the rates of the trained model')
  plots(h, w, at, function)
  h.check(len(w.shown) == 2 and w.shown[1][0] is w.augmented['next_state'] and
          w.shown[1][1] is w.augmented['position'],
          'plots of data, before and after augmentation')
  for k, p in enumerate(w.points):
    h.check(h.arr_close(w.shown[0][1][k], p['beam_pos'], 1e-5),
            'plots of data')


@case(quick=[dict(learner=l, cur=c, vol=v, boot=b, frac=f) for l, c, v, b, f in
             (('random_forest', True, True, True, 0.0),
              ('svm', False, True, False, 0.25), ('knn', True, False, False, 0.5),
              ('gp', False, False, True, 0.0),
              ('sklearn_mlp', True, True, False, 0.25))],
      thorough=[dict(learner=l, cur=c, vol=v, boot=b, frac=0.25)
                for l in CLASSIFIERS for c in (True, False)
                for v in (True, False) for b in (True, False)],
      timeouts=(20, 60),
      bounds='three datapoints and any two different splits of two, of any '
             'values; two models')
def classifiers(h, learner, cur, vol, boot, frac):
  w = World(h, datapoints(h, 3))
  with scratch() as d:
    run(h, w, d, learner, use_current=cur, use_voltage=vol, bootstrap=boot,
        val_frac=frac, augment_data=not boot, epochs=7)
    with np.load(os.path.join(d, 'metrics.npz')) as m:
      h.check(m['train_accuracy'].reshape(-1).tolist() == [0.25, 1.25],
              'accuracies of each model on its training data')
      h.check(m['test_accuracy'].reshape(-1).tolist() == [0.5, 1.5],
              'accuracies of each model on its test data')
  h.check(w.log == [learner] * 2 and w.config.epochs == 7,
          'models of the kind asked for')
  h.check(w.bootstrap == boot and w.split_args == (2, not boot, frac),
          'split as configured')
  keys = dataset(h, w, cur, vol, True, unit=True)
  for i, m in enumerate(w.made):
    h.check(len(m.fits) == 1, 'every model is trained once')
    x, y = m.fits[0]
    h.check(h.and_(h.arr_close(x, w.sets[0]['context'][i], 0),
                   h.arr_close(y, w.sets[0]['next_state'][i], 0)),
            'every model learns from its own training data')
  h.check(len(w.dumped) == 3 and len({n for n, _ in w.dumped}) == 3 and
          [m for _, m in w.dumped[:2]] == w.made, 'every model is saved')
  probs = [m.predict_proba('x') for m in w.made]
  mean = (probs[0] + probs[1]) / 2
  h.check(np.allclose(w.dumped[2][1].predict_proba('x'), mean),
          'and their ensemble')

  def function(f):
    h.check(np.allclose(f('x'), mean[:, 1:]),
            'the mean probabilities of each neighbor')
  plots(h, w, contexts(h, w, keys), function)


@case(quick=[dict(learner=l, plain=p) for l in CLASSIFIERS
             for p in (False, True)],
      bounds='any weight decay and learning rate, up to 1000 epochs')
def construction(h, learner, plain):
  alpha, rate = h.real('alpha', 0, 1), h.real('rate', 1e-5, 1)
  epochs = h.int('epochs', 1, 1000)
  config = common_config(alpha, rate, epochs)
  kind = trl.LearnerType(learner) if plain else learner
  m = trl.get_sklearn_classifier(kind, config=config, standardize=not plain)
  steps = [m] if plain else [s for _, s in m.steps]
  h.check(len(steps) == (1 if plain else 2), 'standardized unless switched off')
  if not plain:
    h.check(isinstance(steps[0], trl.skpreprocessing.StandardScaler),
            'inputs are standardized first')
  want = dict(random_forest=trl.skensemble.RandomForestClassifier,
              svm=trl.sksvm.SVC, knn=trl.skneighbors.KNeighborsClassifier,
              gp=trl.skgp.GaussianProcessClassifier,
              sklearn_mlp=trl.sknn.MLPClassifier)[learner]
  h.check(isinstance(steps[-1], want), 'the learner asked for')
  h.check(hasattr(m, 'predict_proba'), 'which predicts probabilities')
  if learner == 'sklearn_mlp':
    p = steps[-1].get_params()
    h.check(h.and_(h.close(p['alpha'], alpha, 0), h.eq(p['max_iter'], epochs),
                   h.close(p['learning_rate_init'], rate, 0)),
            'regularized, for as long and as fast as configured')
    h.check(p['learning_rate'] in ('constant', 'invscaling', 'adaptive'),
            'a schedule which the learner knows')


def common_config(alpha, rate, epochs):
  class Config:
    weight_decay, learning_rate = alpha, rate

    def __getattr__(self, name):
      raise AttributeError(name)
  c = Config()
  c.epochs = epochs
  return c


@case(bounds='three names which are no learners')
def unknown(h):
  for name in ('', 'forest', 'rate_network'):
    h.check_raises(ValueError, 'unknown learners are refused',
                   trl.get_sklearn_classifier, name,
                   config=common_config(0.1, 0.1, 1))
