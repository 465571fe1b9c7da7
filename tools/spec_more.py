SIM = 'putting_dune/simulator.py'
AG = 'putting_dune/microscope_agent.py'

prop('C15', 'Starting a simulation',
     '''Resetting the simulator prepares the material afresh, centres a square
     view of 15 to 30 A, drawn anew, on the dopant and returns the material's
     own view of itself, with no commands and one image duration elapsed, and
     an image only when asked for. Every registered observer is told of the
     reset, the view and the image, in that order; removed observers are told
     nothing. The image parameters are drawn anew at every reset and kept for
     the episode. Stepping before a reset is refused.''',
     '''dopant anywhere within 100 A, every view scale the random source can
     draw, every image duration, repeated resets''',
     'tests run a few seeded resets and check attributes of one observer',
     [SIM], [('reset', 'PuttingDuneSimulator.reset')],
     '''The simulator runs on a material stand-in whose dopant is anywhere;
     random draws are symbolic within their declared range; image generation is
     replaced by a recorder.''',
     'two atoms, two resets', over=('inputs', 'histories'),
     observe=['observations', 'SimulatorObserver calls'])

prop('C16', 'Stepping a simulation',
     '''A step exposes the material to the given commands in order, converted
     from image to material coordinates with their dwell time, voltage and
     current, and returns the material as seen afterwards, with the commands as
     given and the sum of their dwell times plus one image duration as elapsed
     time. The view is recentred on the dopant exactly when it has come too
     close to the border, keeping its size; observers are told of every
     command, transition, view change and image, in order.''',
     '''up to 2 commands (thorough 3) per step and 2 steps, every beam position,
     dwell time, voltage, current and every movement of the dopant''',
     '''tests apply one or two seeded commands and cannot place the dopant at
     the border of the view''',
     [SIM], [('step', 'PuttingDuneSimulator.step_and_image')],
     '''As C15; each exposure moves the stand-in's dopant to any place within
     reach, so being just inside and just outside the border are separate
     paths.''',
     'at most 3 commands per step; dopant not within 1e-4 of the recentring limit',
     over=('inputs', 'histories'),
     observe=['observations', 'SimulatorObserver calls'])

prop('C17', 'Recording the events of a simulation',
     '''The event observer keeps, since the last reset, one record for every
     event it was told of, in order and with its kind: dwell time and beam
     position of a command, duration and view of an image and the image
     itself, grid and view at a reset, grid and time since the start of the
     command for every single transition, also where several happen within
     one exposure or none. A reset starts a new record and leaves the earlier
     one as it was.''',
     '''simulations of up to 2 (thorough 3) commands with up to 2 (thorough 3) transitions
     each, with every dwell time, duration, position and transition time''',
     'tests look at the kinds of the events of one seeded run',
     ['putting_dune/simulator_observers.py'],
     [('record', 'EventObserver.observe_*')],
     '''The real simulator and observer run on a material stand-in with symbolic
     times and positions; the record is compared with a log of what the
     stand-ins did.''',
     'at most 3 commands, 4 transitions', over=('inputs', 'histories'))

prop('C18', 'The environment protocol',
     '''The environment starts an episode with a first time step, on reset and
     on the first step of a new environment or after an ended episode, resetting
     material, adapter, features and goal once. Every other step applies the
     action, read against the previous observation, once, and returns the
     features of the new observation with the goal's reward: last and without
     future when terminal, last when truncated, middle otherwise, discounted by
     the per-second discount to the power of the elapsed time. A reset which
     fails is tried again by the next step. Seeding the environment, however
     often, determines everything random.''',
     '''every pattern of continuing, terminal and truncated steps in episodes of up
     to 2 (thorough 3) steps, every reward, dwell time and image duration''',
     '''tests run one seeded episode; terminal and truncated ends in every
     position, and the step after them, are not reached''',
     ['putting_dune/putting_dune_environment.py'],
     [('protocol', 'PuttingDuneEnvironment.reset, step, seed')],
     '''The real environment and simulator run on stand-ins for material,
     adapter, features and goal; rewards and times symbolic; patterns
     enumerated.''',
     'at most 3 steps per episode, two episodes', over=('inputs', 'histories'),
     observe=['dm_env time steps'])

prop('C19', 'Limiting the length of episodes',
     '''With a step limit, every episode ends at the latest with that many
     actions after its start, however it started: that time step is marked
     last, keeping its reward, discount and observation. Before that, and
     without a limit, every time step is that of the wrapped environment, and
     the step after an end starts a new episode. Everything else is forwarded.''',
     '''every sequence of 5 (thorough 8) calls, each a reset or a step that
     continues, terminates or truncates; limits 1 to 4 and none''',
     'tests run one sequence with one limit',
     ['putting_dune/run_helpers.py'], [('limit', 'StepLimitWrapper')],
     'All call sequences enumerated through solver choices, rewards symbolic.',
     'at most 8 calls', over=('histories',), observe=['dm_env time steps'])

prop('C20', 'Driving a microscope with an agent',
     '''Each observation is turned into features, reward and kind of step by the
     configured parts, and the agent is asked exactly once: the first step
     after a reset carries no reward, terminal steps have no future, truncated
     ones and the others are discounted by the elapsed time. The action is read
     against the same observation and its commands are returned unchanged. When
     no dopant is visible the agent is not asked and a single command without
     dwell time requests a new image, leaving the episode where it was.''',
     '''every pattern of continuing, terminal, truncated and dopant-less
     observations in episodes of up to 2 (thorough 4) steps, every reward and
     elapsed time''',
     'tests make one step, and one without a dopant',
     [AG], [('step', 'MicroscopeAgent.reset, step')],
     '''The real class runs on stand-ins for the agent, the adapter, the
     features and the goal.''',
     'at most 4 steps per episode', over=('inputs', 'histories'),
     observe=['the agent\'s time steps', 'commands'])

prop('C21', 'Logging a microscope session',
     '''A session's log has one row per step, numbered within its episode, with
     its reward (zero when no dopant was visible), elapsed time and end; one row
     per episode with at least one step, numbered like its steps, with its
     length, sum of rewards and goal; and one trajectory per such episode with
     its observations in order. Writing it any number of times, also while an
     episode is open, changes nothing in the session and gives the log so far;
     a failed session writes nothing.''',
     '''every session of up to 6 (thorough 11) resets, steps and writes in the
     enumerated patterns, with every reward, time and goal''',
     'tests count the rows of one session',
     [AG], [('log', 'MicroscopeAgentLogger')],
     '''The real logger runs on stand-ins for the agent and goal; the csv
     writers and the record writer are replaced by recorders.''',
     'patterns of up to 11 calls; file formats are not decided here',
     over=('inputs', 'histories'), observe=['csv rows', 'trajectory records'])

EV = 'putting_dune/eval_lib.py'
TRL = 'putting_dune/pipeline/train_rate_learner.py'
DU = 'putting_dune/rate_learning/data_utils.py'
LR = 'putting_dune/rate_learning/learn_rates.py'

prop('C22', 'Evaluating an agent over a suite of seeds',
     '''For every seed of a suite, in order, evaluation seeds and resets the
     environment and steps it with the agent's actions, the agent seeing the
     latest time step, until the episode ends or the simulated plus thinking
     time has passed the timeout. Each result reports whether the episode ended
     with a discount of zero, the number of actions, the sum of the rewards, and
     simulated and thinking time (not a number unless the goal was reached);
     aggregation averages exactly the runs that reached the goal. One video per
     seed, under its name, is made from the recorded events, and no observer
     stays registered.''',
     '''up to 3 seeds of up to 3 steps with every reward, discount, end,
     simulated and thinking time and timeout''',
     'tests evaluate one seeded agent and look at types and one timeout',
     [EV], [('evaluate', 'evaluate, aggregate_results')],
     '''The real evaluation loop runs on stand-ins for environment, agent, clock
     and video writer whose outcomes are symbolic.''',
     'at most 3 seeds and 3 steps', over=('inputs', 'histories'),
     observe=['evaluation results', 'files written'])

prop('C23', 'Turning trajectories into transitions',
     '''Every two successive observations of a trajectory give one transition, in
     order and never across trajectories: atoms, field of view and images before
     and after, with the commands of the earlier observation, or of the later
     one when the data says that observations carry the commands given before
     them.''',
     'up to 4 trajectories of up to 5 observations with any content',
     'tests convert one trajectory with one command per observation',
     ['putting_dune/pipeline/trajectories_to_transitions.py'],
     [('convert', 'trajectories_to_transitions')],
     'Direct symbolic execution on observations with symbolic content.',
     'at most 5 observations per trajectory', over=('inputs', 'histories'))

prop('C24', 'Labelling transitions for rate learning',
     '''A transition with exactly one command and one dopant before and after, a
     dopant with three bonded neighbours, and at most one jump gives one
     datapoint: the index, counter-clockwise from the neighbour nearest the
     beam, of the neighbour the dopant moved to (0 when it stayed), the beam
     relative to the dopant turned so that this neighbour is to the right, and
     the command's dwell time, current and voltage, whatever the fields of view
     and small displacements of the material. Other transitions are left out
     without affecting the rest; stacking keeps the order, with current, voltage
     and dwell time as context as configured.''',
     '''beam anywhere within 4 A of the dopant, every outcome, both mirror images
     of the surroundings, any place of the fields of view, shifts up to 0.25 A;
     thirteen reasons for leaving a transition out''',
     '''tests label two or three transitions of one grid in one field of view''',
     [TRL], [('label', 'transitions_to_datapoints, stack_data')],
     '''The real conversion runs on symbolic fields of view, beam positions and
     displacements around a fixed patch of material.''',
     'one patch of 12 atoms and its mirror image; one size of field of view each',
     over=('inputs',), observe=['datapoints', 'training arrays'])

prop('C25', 'The canonical orientation of a dopant and its rates',
     '''Standardizing turns beam and neighbours about the dopant so that the
     neighbour nearest to the beam lies to the right, keeping all lengths and
     angles, lists the neighbours counter-clockwise from it and leaves its
     inputs alone. Predicting rates for a dopant asks the network with current
     and voltage (as configured) and the beam so turned, in angstroms as it was
     trained, and
     returns for every neighbour, in the order given, the total rate times the
     softmax weight of that neighbour's direction.''',
     '''every beam position within 5 A, every orientation of a regular star of
     neighbours and four lopsided ones, in every order of listing; any network
     outputs, current and voltage''',
     'tests standardize a few fixed scenes; prediction is only run in a skipped test',
     [DU, LR], [('standardize', 'standardize_beam_and_neighbors'),
                ('predict', 'LearnedTransitionRatePredictor.predict')],
     '''Unit vectors stand for angles, so orders and rotations are polynomial
     facts; the network is replaced by arbitrary outputs.''',
     'beam not equally near to two neighbours (1e-3)', over=('inputs',))

prop('C26', 'Symmetric copies of rate-learning data',
     '''Augmentation gives, for every datapoint, exactly its images under the
     three turns by 120 degrees and, unless switched off, their mirror images,
     each with state, rates and beam position transformed alike and with time
     and context kept; mirroring other numbers of neighbours is refused.
     Synthetic data from the prior has rates within the prior's range that
     favour the neighbour the beam leans towards, valid states, and times within
     the requested range.''',
     '''up to 3 datapoints of any state, rates, position and context; any draws
     of the random source''',
     'tests check one datapoint and shapes of one seeded synthetic set',
     [DU], [('augment', 'augment_data'), ('synthetic', 'generate_synthetic_data')],
     '''The jitted and vmapped functions are unwrapped and run on symbolic
     arrays; jax.random is replaced by the solver's choices.''',
     'at most 3 datapoints; one synthetic datapoint per set', over=('inputs',))

prop('C27', 'Training and test sets keep datapoints whole and apart',
     '''Splitting puts every datapoint in exactly one of the sets, the test set
     having the requested share; bootstrapping draws as many datapoints as there
     are and tests on exactly those never drawn; without either, all data is
     used for both. In every set the fields of a datapoint stay together,
     augmentation happens within a set (no image of a datapoint is both trained
     and tested on), the beam position is appended to the context, and all test
     sets are cut to the length of the shortest.''',
     '''up to 3 (thorough 5) datapoints of any values, every sequence of draws
     of the random source, two splits''',
     '''tests use one seed and check sizes''',
     [DU, LR], [('split', 'split_dataset, bootstrap_dataset'),
                ('splits', 'create_dataset_splits')],
     'As C26, with every outcome of the draws a separate path.',
     'at most 5 datapoints, two splits', over=('inputs', 'schedules'))

prop('C28', 'What a rate ensemble predicts and is trained to predict',
     '''The predicted rate of a neighbour is the mean over the models of total
     rate times softmax weight (or that of one selected model), and a packaged
     ensemble of any size with any fixed context gives the same rates. The loss
     of a batch, flat or in columns, is the mean over its transitions of the
     weighted negative log-likelihoods of moving or staying within the time and,
     for moves only, of the direction; distillation compares the student's rates
     with the teachers' mean on inputs spread like the data.''',
     '''up to 3 models, 3 transitions to any states, any network outputs, times
     and weights''',
     'tests only check that training runs (the prediction test is skipped)',
     [LR], [('predict', 'apply_model, package_model'),
            ('loss', 'batched_loss_fn, distill_loss')],
     '''Networks are replaced by arbitrary outputs; exp and log are
     uninterpreted functions with their monotonicity and inverse axioms.''',
     'at most 3 models and 3 transitions', over=('inputs',))

AGL = 'putting_dune/agents/agent_lib.py'
REG = 'putting_dune/experiments/registry.py'
PLT = 'putting_dune/plotting_utils.py'

prop('C29', 'Built-in agents and registered experiments',
     '''The greedy agent aims, relative to the dopant, at its preferred position
     (plus offset and scaled noise) turned towards the neighbour nearest to the
     goal; a preferred position searched from a transition function is a best
     one of a grid spanning the bounds; the random agent stays within its
     bounds. Registered experiments are found under their name, share no state,
     cannot be overwritten, and the random and greedy ones, run from
     observation to command, put the beam where and for as long as their name
     says.''',
     '''goal within 5 A, the neighbour at the goal anywhere in a 10 A box, any
     preferred position, offset and noise; any transition rates on grids of up to 3x3
     (thorough 4x4); dopant and view anywhere''',
     'tests run agents on seeded episodes and check shapes and success rates',
     [AGL, REG, AG], [('greedy', 'GreedyAgent'), ('uniform', 'UniformRandomAgent'),
                     ('registered', 'create_*_experiment')],
     '''Agents, feature constructors and action adapters are run together;
     rotations use unit vectors for angles.''',
     'transition function sampled on grids of at most 4x4', over=('inputs',))

prop('C30', 'Videos and renderings show what happened',
     '''The video of an episode has one frame per command and one to end with;
     each shows the atoms, the view and the last image as they were right before
     the command, in both frames of reference, the beam where the command put
     it, the goal, and the time elapsed as minutes, seconds and hundredths,
     correctly carried. A rendering of the environment shows the last
     observation, the goal and the last command of the last step, and returns
     the figure's pixels.''',
     '''histories of up to 8 (thorough 14) events; any positions, views,
     commands, times and goal''',
     'the test only checks that an animation object comes back',
     [PLT, 'putting_dune/putting_dune_environment.py',
      'putting_dune/simulator_observers.py'],
     [('video', 'generate_video_from_simulator_events, format_timedelta'),
      ('render', 'PuttingDuneEnvironment.render')],
     '''matplotlib is replaced by axes that record what is drawn; positions,
     times and views stay symbolic.''',
     'three atoms, 14 events; view sizes fixed', over=('inputs', 'histories'))

IMG = 'putting_dune/imaging.py'
ALN = 'putting_dune/alignment.py'

prop('C31', 'Simulated images and masks depict the atoms',
     '''A clean image has, before blurring, every atom by its brightness in the
     pixel it lies in (row 0 at the top of the view), with spots equally wide in
     Angstroms along both axes, and is cut to the size asked for; a mask carries
     the atomic number of the atoms within reach of a pixel and 0 elsewhere, for
     images and views of any shape. Each noise has the strength and randomness
     it is given, rows jitter as a whole, sampled parameters stay in range, and
     an image goes through every effect once, each with its own strength.''',
     '''images up to 4x4 pixels, up to two atoms (thorough three) anywhere, views
     anywhere; any draws''',
     'tests check shapes and run seeded images', [IMG],
     [('mask', 'generate_grid_mask'), ('clean', 'generate_clean_image'),
      ('noise', 'apply_*_noise, apply_jitter'),
      ('pipeline', 'generate_stem_image')],
     '''Filters of scipy and skimage return arbitrary images; what they are given
     is compared with what should be there.''',
     'view sizes are fixed per case; images of at most 4x4 pixels',
     over=('inputs',))

prop('C33', 'Estimating drift and merging observations',
     '''Offsets go from each point to its nearest reference, within the cut-off;
     the estimated shift brings shifted atoms back onto their references, from
     any first guess, is never longer than the limit, leaves out the matches
     asked to trim and whatever has no reference, and depends on nothing aligned
     before. Merged observations are the means of the points near each other,
     with their counts; what clique merging leaves is further apart than the
     distance; atomic numbers and graphene classes are handed on to the right
     atoms. Inputs are left alone.''',
     '''any positions of up to 3 points per observation, up to 3 observations;
     shifts up to 0.45 A for five atoms of two classes; up to 2 (thorough 3)
     iterations''',
     'tests align seeded graphene sheets and compare within tolerances',
     [ALN], [('align', 'get_offsets, align_latest'),
             ('merge', 'naive_merge, clique_merge'),
             ('hand on', 'propagate_atomic_numbers, '
              'propagate_graphene_classes')],
     '''Nearest neighbours are decided by the solver; scipy's tree is replaced
     by one that compares symbolic distances.''',
     'at most 4 points at symbolic places, 3 iterations', over=('inputs',
                                                                'histories'))

DET = 'putting_dune/atom_detector.py'

prop('C32', 'Atoms are found where they are in an image',
     '''A detected blob of either kind, of any shape and size from a single pixel
     up, gives one atom of that kind, at its centre in the view (x to the right,
     y up), in images of any shape; no blobs give no atoms. Atoms too close to
     the border asked to be left out are left out with their atomic numbers, the
     others keep their order, places and kinds, and each atom's kind comes from
     the map it was found in.''',
     '''every hole-free pattern of 3x3 pixels, disks of radius up to 14 at 9
     places, any blob moments; up to two atoms of each kind anywhere''',
     'tests only look at the types returned, if at all', [DET, ALN],
     [('blobs', 'compute_centroids, ImageAligner.compute_centroids'),
      ('atoms', 'AtomDetector.__call__, ImageAligner.process_detection_predictions')],
     '''The network's labels are arbitrary; OpenCV runs for real on patterns the
     solver enumerates, or returns arbitrary moments.''',
     'networks not covered; disks by enumeration of their parameters',
     over=('inputs',))

prop('C34', 'A history of observations stays aligned',
     '''An observation is compared with the right number of earlier ones, in
     order, and later ones only with what was kept; reset forgets. The shift
     found is applied to atoms, images and labels alike, once, and a recent
     shift given is respected; a shift applied to the history moves all of it; the hybrid aligner falls back as described.
     Cropping a shifted image takes the pixels that show the view left. Aligning
     a trajectory gives back as many observations, in order, moved by their own
     drift and with unchanged relative places, images, controls and times.
     Observations given are left alone.''',
     '''histories of up to 5 observations (thorough 6) with any drift; images up
     to 6x6; up to 4 atoms''',
     'tests align a seeded history and look at the distance left',
     [ALN, MU, 'putting_dune/pipeline/align_trajectories.py'],
     [('filter', 'IterativeAlignmentFiltering'),
      ('images', 'ImageAligner'),
      ('trajectory', 'align_trajectories.do_alignment'),
      ('drift', 'Drift.apply_to_observation')],
     '''What the network and a single alignment answer is arbitrary (C33 decides
     the latter); how answers are used over a history is decided.''',
     'networks not covered; hybrid views square as documented',
     over=('inputs', 'histories'))

prop('C35', 'Grids are equal exactly when they hold the same atoms',
     '''Two grids are equal when they hold the same atoms, whatever the order,
     and then have the same hash; they are not when an atom is elsewhere, of
     another kind, added or missing; this includes grids without atoms, and
     holds for sets and dictionaries of grids.''',
     '''up to 3 (thorough 4) atoms anywhere, in any order, any kinds; up to 12
     at fixed places, any one of them elsewhere''',
     'tests compare a handful of grids', [MU],
     [('equality', 'AtomicGrid.__eq__'), ('hash', 'AtomicGrid.__hash__')],
     '''Distances are symbolic; kd-trees are replaced by solver-decided nearest
     neighbours.''',
     'atoms of one grid are further apart than the tolerance',
     over=('inputs',))

prop('C36', 'Record files and pipelines hand on every record',
     '''Trajectories written to a record file (in either format, by any kind of
     path) come back whole, equal and in order, and a file of another kind is
     refused. Turning trajectories into transitions writes one transition per
     pair of consecutive observations, in order, and none for a trajectory
     without a pair. Aligning record files writes every trajectory of every
     file, or of every record file of a directory, once and in order, each
     shifted by its own drift. Loading trajectories for training reads all of
     the files named.''',
     '''up to 3 (thorough 5) trajectories of up to 3 (4) observations of any
     contents in up to 2 files''',
     'the pipelines are programs which no test runs',
     ['putting_dune/io.py', 'putting_dune/pipeline/align_trajectories.py',
      'putting_dune/pipeline/trajectories_to_transitions.py', TRL],
     [('files', 'read_records/write_records'),
      ('transitions', 'trajectories_to_transitions.main'),
      ('alignment', 'align_trajectories.main')],
     '''Record files are replaced by lists which may hold symbolic records; the
     programs run as they are over symbolic observations and are compared with
     what was written.''',
     'TensorFlow record encoding itself is not covered',
     over=('inputs', 'histories'))

prop('C37', 'Uploading microscope data keeps frames, controls and times',
     '''A directory of microscope data becomes one trajectory with as many
     observations as frames; each has its own image, the atoms of its own frame
     in the order and places given, the view of its frame, and the time elapsed
     since the one before; the control between two frames has the beam position
     and dwell time recorded for it. Each readable run is written once under a
     name which tells its directory, unreadable ones are reported and do not
     keep others from being uploaded; sources are left alone.''',
     '''runs of 4 or 5 (thorough 8) frames of 4x4 pixels, two atoms anywhere; up
     to 2 (4) runs''',
     'there is no test for uploads',
     ['putting_dune/pipeline/upload_microscope_data.py'],
     [('conversion', 'convert_data_to_trajectory'),
      ('upload', 'upload_microscope_data.main')],
     '''Frames, positions, times and shifts are symbolic; the file formats are
     replaced by stand-ins which return them.''',
     'square images and one width of view per run; runs of at least four frames',
     over=('inputs', 'histories'))

prop('C38', 'Rate models are trained on their data, and survive saving',
     '''An epoch of training takes each full batch of a shuffled pass over the
     data once, each step from where the last went; every model is trained from
     its own start on its own data for as many epochs as asked for, and losses
     reported are those after each epoch on the right data. Distilling moves one
     network towards the mean prediction of the ensemble over inputs spread like
     the data. After training or distilling predictions follow the new
     parameters; a saved and loaded model, whether or not some inputs are fixed,
     predicts what it predicted before.''',
     '''up to 5 datapoints, batches of up to 4, up to 3 models and epochs; any
     data, gradients, parameters and states''',
     'tests look at the loss going down on a seeded dataset', [LR],
     [('training', 'train_epoch, train_model, train_multiple_models'),
      ('distillation', 'distill_multiple_models_to_single'),
      ('predictor', 'LearnedTransitionRatePredictor')],
     '''Networks are replaced by one which mixes parameters, inputs, state and
     mode; gradients are arbitrary; the training code runs over symbolic data
     and is checked step by step.''',
     'gradients, Haiku layers and TensorFlow files are not covered',
     over=('inputs', 'histories'))

PLOT = 'putting_dune/plotting_utils.py'

prop('C39', 'Plots show the data and rates they are given, where they are',
     '''A plotted transition shows the image, the silicon, the neighbours, the
     beam and the next place of the silicon where they are in the material, for
     the frames before and after, and is saved only when asked for. Plots of
     training data show every point once, under its next state, coloured by its
     dwell time. Plots of rates ask the model at every point of the grid shown
     with the context given, show each rate at its point, and mark the best
     point of every neighbour. Plots of rates about a silicon ask for the rates
     of that silicon at the points shown, and material without one is
     refused.''',
     '''beam anywhere within 4 A of the silicon, every next state; up to 3
     datapoints; grids up to 3x3 (thorough 4x4) over any range; any context and
     any rates''',
     'there is no test which looks at a plot, and people judge models by them',
     ['putting_dune/pipeline/train_rate_learner.py', PLOT, LR],
     [('transitions', 'train_rate_learner.plot_transition'),
      ('data', 'train_rate_learner.visualize_data'),
      ('predictions', 'learn_rates.visualize_rates'),
      ('rates', 'plotting_utils')],
     '''The plotting library is replaced by one which records what is drawn;
     positions, rates and contexts are symbolic and what was drawn is compared
     with them.''',
     'how matplotlib paints is not covered', over=('inputs',))

prop('C40', 'Rate models are asked in the terms in which they are trained',
     '''The datapoint made from a transition and the question asked of the model
     for the material and control of that transition have the same beam position
     and context, and the neighbour which the datapoint names as next state is
     the one to which prediction assigns the rate of that state.''',
     '''beam anywhere within 4 A of the silicon, staying or moving to every
     neighbour, neighbours listed in several orders, mirrored or not, every
     combination of inputs used''',
     'training and prediction are tested apart, if at all',
     [TRL, LR, DU],
     [('training', 'transitions_to_datapoints'),
      ('prediction', 'LearnedTransitionRatePredictor.predict'),
      ('both', 'standardize_beam_and_neighbors')],
     '''One symbolic scene goes through both programs; the network is replaced
     by a recorder with arbitrary outputs, whose inputs must equal the
     datapoint.''',
     'regular surroundings of three neighbours', over=('inputs',))

prop('C41', 'Image and alignment networks are trained and judged on their labels',
     '''A training step of the atom detector, the image aligner and the graph
     aligner takes the gradient of the mean cross-entropy of the pixels (or
     edges) with their own labels, plus the weighted squared error of drift
     where it is learned, over real data only (padding does not count), and goes
     one step along it; evaluation leaves the model alone. Accuracy counts the
     pixels whose most probable class is their label. Training examples keep
     images, masks and drifts together: sizes as asked for, values normalised,
     one class per pixel. They come from the training and the test set of the
     data named, in batches as asked for, each of several processes taking its
     own.''',
     '''up to two images or sequences of up to two pixels, graphs of up to three
     steps and two points; any outputs of the networks, weights and drifts''',
     'training is not tested at all',
     ['putting_dune/atom_detection/train.py',
      'putting_dune/atom_detection/dataset.py',
      'putting_dune/image_alignment/train.py',
      'putting_dune/image_alignment/dataset.py',
      'putting_dune/graph_alignment/train.py'],
     [('atoms', 'atom_detection.train'), ('images', 'image_alignment.train'),
      ('graphs', 'graph_alignment.train'), ('examples', 'datasets')],
     '''Networks are replaced by arbitrary outputs, gradients by a recorder of
     the loss; the step runs over symbolic values and is compared with the
     losses worked out pixel by pixel.''',
     'gradients, network layers and TensorFlow input pipelines are not covered',
     over=('inputs',))

prop('C42', 'The training program trains, keeps and shows what it was asked for',
     '''For every kind of learner the program learns from every datapoint of the
     trajectories named, with exactly the inputs configured (dwell time as input
     for classifiers, as time for rate networks), splits and bootstraps as
     configured, trains each model on its own training data, distills only if
     asked for, reports accuracies of each model on the right data, and saves
     the models trained. Rates are shown, and models saved, at the lowest,
     highest and median context. Unknown learners are refused; those which are
     known can be made with any configuration and predict probabilities.''',
     '''three datapoints of any values; two models; every kind of learner and
     several (thorough: all) combinations of inputs, distilling and
     bootstrapping''',
     'no test runs the program', [TRL],
     [('program', 'train_rate_learner.main'),
      ('classifiers', 'get_sklearn_classifier')],
     '''Learners and files are replaced by recorders; the program runs as it is
     over symbolic data, and what the recorders saw is compared with it.''',
     'the learning algorithms of scikit-learn themselves are not covered',
     over=('inputs',))

prop('C43', 'Interrupted training goes on where it stopped',
     '''Training the atom detector, the image aligner and the graph aligner runs
     each epoch for as many full batches as configured, of the size configured,
     and keeps a checkpoint after each, numbered by the epochs completed, with
     the metrics of that epoch alone. Run again after an interruption at any
     point, it goes on with the state the last checkpoint kept, repeats no epoch
     and skips none, and ends with the same epochs trained; a finished run is
     not trained further and still returns its result. The checkpoint taken for
     the best is the one with the best result on test data. Names of the
     checkpoint's entries are fit for files, distinct, and found again.''',
     '''up to three epochs of up to two batches for training and evaluation, up
     to two interruptions, each at any step, evaluation or save; any metrics and
     batch size''',
     'training is not tested; crash points multiply runs',
     ['putting_dune/atom_detection/train.py',
      'putting_dune/image_alignment/train.py',
      'putting_dune/graph_alignment/train.py'],
     [('atoms', 'atom_detection.train'), ('images', 'image_alignment.train'),
      ('graphs', 'graph_alignment.train'),
      ('names', 'sanitize_state_keys')],
     '''Training steps, datasets and the checkpoint manager are stand-ins which
     keep what they are given; the program runs with symbolic places of
     interruption and is started again until it ends; the history of steps must
     be one run's.''',
     '''checkpoints themselves are written whole (the checkpoint library's part);
     order of examples after resuming is not fixed''',
     over=('inputs', 'crash_points'))

prop('C44', 'Packaged models are the best ones, whole',
     '''Packaging a trained atom detector or image aligner writes a zip file at
     the place named (or named by default), which holds exactly the exported
     model, every file under its path relative to the model, so that it unpacks
     to a model wherever it is unpacked; the model exported is the checkpoint
     with the best result on test data, for the sizes asked for, without the
     layers used only for training; the package can be loaded by the detector or
     aligner it is for. An existing file is replaced only if asked for, and the
     working directory stays what it was.''',
     '''up to three checkpoints of any metrics, relative and absolute
     destinations, destination present or not''',
     'packaging is not tested',
     ['putting_dune/atom_detection/save_model.py',
      'putting_dune/image_alignment/save_model.py'],
     [('atoms', 'atom_detection.save_model'),
      ('images', 'image_alignment.save_model')],
     '''Export is replaced by a recorder which writes marked files; checkpoints
     have symbolic metrics; the zip written is opened and compared.''',
     'the conversion of networks to TensorFlow itself is not covered',
     over=('inputs',))

prop('C45', 'Models fetched are whole, whatever interrupts fetching them',
     '''Fetching the atom detector, an image aligner or a trained agent gives a
     model with every file of the archive named, also when earlier attempts
     failed or the process ended at any point of asking, receiving, unpacking or
     moving: what such an attempt left is never taken for a model. A model which
     is there is not fetched again; asked to reload, the new one takes its place
     entirely or not at all.''',
     '''models of three files, up to one (thorough two) attempts failing or ending
     at any of up to 60 steps, then one which does not''',
     'tests have no network; crash points multiply runs',
     ['putting_dune/atom_detector.py', 'putting_dune/alignment.py',
      'putting_dune/experiments/registry.py', 'putting_dune/io.py'],
     [('detector', 'AtomDetector.from_url'), ('aligner', 'ImageAligner.from_path'),
      ('agents', '_TfAgentCreator')],
     '''The real code runs in a scratch directory; network, archive and file
     operations are stand-ins which may fail or be the last thing to happen, at a
     symbolic time; afterwards the code runs again and the files are compared.''',
     'two processes fetching at the same time are not covered',
     over=('inputs', 'crash_points'))

prop('C46', 'The evaluation program evaluates what it is asked to',
     '''The program evaluates the agent of the experiment named, made for that
     experiment, on an environment of that experiment (its material, image
     duration, adapters and goal made together), over the suite named, keeps
     videos where asked, and reports each aggregate under its own name; unknown
     suites are refused. Environments are made with the seed and the observers
     given and end episodes after the steps asked for (600 by default). A saved
     agent acts as its model answers to the observation.''',
     '''any seed, image duration and outcome; up to two observers; limits up to
     four steps and the default''',
     'no test runs the program',
     ['putting_dune/eval.py', 'putting_dune/run_helpers.py',
      'putting_dune/agents/tf_eval_agent.py'],
     [('program', 'eval.main'), ('environments', 'create_putting_dune_env'),
      ('saved agents', 'TfEvalAgent')],
     '''The parts of an experiment and the evaluation are recorders with symbolic
     values; what they were made of and asked for is compared with what was
     given.''',
     'the evaluation loop itself is C22, step limits C19', over=('inputs',))

prop('C47', 'The network which aligns graphs sees neighbors as neighbors',
     '''In every step of training the network sees a graph with a node for each
     point of each step, holding its features, and an edge, both ways, for each
     pair of points closer than the cutoff in the periodic box and for each point
     with itself, and no other; edges hold the displacement of their points,
     also when points moved by less than half the threshold since the neighbors
     were listed. What it answers for a step is of the whole graph and the
     points of that step, for a point of that point alone; padding has no
     part in it.''',
     '''up to four points of up to two steps, one coordinate of each anything in
     the box, two cutoffs; any states of the nodes''',
     'the lists are built under transformations which no test runs',
     ['putting_dune/graph_alignment/model.py',
      'putting_dune/graph_alignment/train.py'],
     [('graphs', 'graph_network_neighbor_list'),
      ('lists', 'create_sparse_neighbor_list'),
      ('answers', 'AlignmentGraphNetwork')],
     '''The real code runs with the neighbor lists of jax_md replaced by their
     documented behaviour over symbolic positions (every pair forks on being
     near); replays of each path use jax_md itself. The network is replaced by a
     recorder, its layers by fixed linear ones where answers are decided.''',
     '''Dense lists, lists too small for their edges (jax_md drops what does not
     fit; with exactly as many places as pairs it may leave a stray edge), and
     what the layers compute are not covered''', over=('inputs',))
