"""The properties, and how each is decided."""
L = 'src/skmultiflow/'
EFFECT = ('summary-based whole-program abstract interpretation of the source (access-path aliasing, allocation-site types, '
          'mutation effects), per concrete class')
TERMS = ('path-sensitive term dataflow over the source with quantified loops (every value described by which draw, row and model it '
         'comes from), all paths, no execution')
PROPS = []


def P(id, title, statement, over, quant, tests, files, mech, technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests,
                      files=[L + f if not f.startswith(('src/', 'tests/')) else f for f in files], mech=mech,
                      technique=technique, note=note, na=na))


P('C01', 'Predicting never changes the learner',
  'Calling predict, predict_proba or score on any learner, trained or not, leaves the learner as it was: what it predicts '
  'afterwards, how it continues to learn, and everything it reports stay the same as if the prediction had not been asked for. '
  '(The sampling chain MonteCarloClassifierChain is allowed to advance its own random generator.)',
  ['inputs', 'histories'],
  'every learner class, every training history (also none), every batch passed to predict/predict_proba/score, every number of '
  'prediction calls between training calls',
  'The tests call predict at a few fixed points of one stream and never compare the learner before and after; a prediction that '
  'mutates shows only in later training or on another call order.',
  ['core/base.py', 'lazy/', 'trees/', 'meta/', 'rules/', 'bayes/', 'prototype/', 'neural_networks/', 'anomaly_detection/'],
  [('predict / predict_proba / score compute from the model without assigning to it', L + 'core/base.py (ClassifierMixin, RegressorMixin)')],
  EFFECT,
  'Sound modulo the engine\'s stated assumptions: every write, in-place mutator call and RNG draw reachable from the three '
  'methods is resolved to the objects it can affect; any effect on the receiver or on globals is reported.')

P('C02', 'Asking for information never changes anything',
  'Every query of a learner, stream, drift detector, metric, buffer or evaluator (properties, get_* and is_*/has_*/n_* queries, '
  'descriptions, measurements, printing and representation) leaves the object unchanged, so asking twice gives the same answer and not '
  'asking gives the same run. (Asking ADWIN for detected change is documented to advance it.)',
  ['inputs', 'histories'],
  'every public query method and property of every public class, in every state, any number of times',
  'Tests read each measurement once at the end of a run; a query that updates internal counters changes nothing they look at.',
  ['core/base.py', 'data/', 'drift_detection/', 'metrics/', 'evaluation/', 'utils/data_structures/', 'trees/', 'rules/', 'meta/'],
  [('getters, get_info, get_model_*, measurements only read', L)],
  EFFECT, 'As C01, for 767 (class, query) pairs; the set of queries is computed from names and property decorators.')

P('C03', 'Data passed in by the caller is never modified',
  'No library call modifies arrays, lists or other data objects passed to it (samples, labels, weights, class lists, metric '
  'lists, data frames, initial prototypes ...), neither during the call nor later through a kept reference. Only the model, stream or '
  'random generator an operation is explicitly asked to train or advance may change.',
  ['inputs', 'histories'],
  'every public method of every public class, every argument, every later call on the same object',
  'Tests pass fresh arrays and never look at them again after the call.',
  ['data/', 'transform/', 'evaluation/', 'metrics/', 'lazy/', 'meta/', 'trees/', 'prototype/', 'bayes/'],
  [('inputs are copied before they are changed (np.array(X), deepcopy)', L + 'transform/, ' + L + 'evaluation/, ' + L + 'metrics/')],
  EFFECT, 'Direct and delayed (kept reference later mutated in place) modification through any alias; contents of external '
  'libraries are trusted to their documented behaviour.')

P('C05', 'Objects never share mutable state with one another',
  'Two objects of the library created independently never influence one another: no call on one instance changes state held in a '
  'class attribute, in a module global or in a default argument value that another instance sees. Creating and using any '
  'number of streams, learners, detectors and evaluators in one process gives each the results it would have alone.',
  ['programs', 'histories'],
  'every public class, every method, every number and order of instances in one process',
  'Each test builds one instance per process or re-creates everything; leakage between instances needs a second instance after the first was used.',
  ['data/', 'drift_detection/', 'trees/', 'meta/', 'evaluation/', 'utils/'],
  [('state lives in self, class attributes are constants, defaults are immutable', L)],
  EFFECT, 'Every effect whose target is rooted at a class attribute, module global or default-argument object is reported; '
  'process-wide RNG is C04.')

P('C06', 'Ensembles train private copies of what they are configured with',
  'An estimator, detector or other object passed to a learner as a constructor parameter is only ever copied: training, resetting or '
  'drift handling of the learner never changes it, and no two members of an ensemble are the same object or share state. '
  '(Nested set_params is the explicit request to do so.) Building several ensembles from one base estimator, or using the base estimator afterwards, gives the same results as with separate ones.',
  ['histories', 'programs', 'configurations'],
  'every meta-learner and every learner with object-valued parameters, all training/reset histories',
  'Tests build one ensemble from one fresh base estimator and never look at that estimator again.',
  ['meta/', 'trees/', 'core/base.py'],
  [('copy.deepcopy / clone of base_estimator before training', L + 'meta/')],
  EFFECT, 'Aliases of configured objects are followed through fields and containers; repeated elements and shallow copies in '
  'member containers are reported.')

P('C04', 'A fixed seed fixes all randomness',
  'Two learners or streams built with the same parameters, including an integer random_state (or the separate model, tree and sample '
  'seeds of a generator), and driven by the same calls behave identically: every random draw comes from a private generator '
  'seeded from that parameter. Nothing draws from the process-wide numpy or random generators, from the clock, from process '
  'identity or from entropy, nothing re-seeds the process-wide generators, nothing depends on the iteration order of a set of '
  'strings, and unrelated random draws elsewhere in the process never change results. (KSWIN has no seed parameter.)',
  ['histories', 'configurations', 'programs'],
  'every learner, stream, detector and transform, every method, every call history and every other use of random numbers in the process',
  'Tests seed everything and run one object at a time in a fixed order, so draws from the process-wide generator look deterministic.',
  ['utils/validation.py', 'data/', 'meta/', 'trees/', 'lazy/', 'prototype/', 'anomaly_detection/', 'neural_networks/', 'transform/'],
  [('check_random_state(self.random_state) builds the private generator every draw goes through', L + 'utils/validation.py')],
  EFFECT + '; provenance of every random source',
  'Every draw is resolved to the object it draws from; generators are traced to the seed expression they were built from; '
  'random_state=None (caller asks for no seed) is the only accepted route to the process-wide generator.')

P('C07', 'An object keeps the parameters it was configured with',
  'After construction every constructor parameter of a learner, drift detector, transform or synthetic generator is available '
  'unchanged as the attribute of the same name, and no later call (training, predicting, resetting, restarting, measuring) '
  'replaces it, so get_params(), get_info(), clone() and reset() always describe and rebuild the configuration the user '
  'asked for. (Invalid options documented to fall back to a default, and generate_drift, which switches the classification function '
  'on request, are not meant; data-holding streams, ConceptDriftStream and evaluators normalise their data and metric arguments.)',
  ['configurations', 'histories'],
  'every constructor parameter of 68 classes and every method that could replace it, for all values and all call histories',
  'Tests print get_info() once for one configuration, usually the default one, right after construction.',
  ['core/base.py', 'lazy/', 'meta/', 'trees/', 'rules/', 'drift_detection/', 'data/', 'transform/', 'prototype/', 'bayes/',
   'neural_networks/', 'anomaly_detection/'],
  [('self.<parameter> = <parameter> in __init__ (directly or through a property setter)', L)],
  EFFECT, 'Values of parameter attributes at constructor exit are compared with the parameters by value flow; every later write to one is reported.')

P('C08', 'reset() returns an object to its freshly constructed state',
  'After reset() a learner, drift detector, metric or window is in the state it had right after construction with the same '
  'parameters: nothing that training, adding elements or adding results has changed survives, on no path through reset(), and what is '
  'put back are the same initial values. Using a reset object gives the results a new one would give. '
  '(random_state given as a generator object, and buffers rebuilt eagerly instead of lazily, aside.)',
  ['histories', 'configurations'],
  'every learner, detector, metric and window class with a reset, every state attribute, all histories before the reset',
  'Tests call reset once at the end, or never; an attribute left behind shows only when the object is used again after a drift.',
  ['core/base.py', 'drift_detection/', 'lazy/', 'meta/', 'trees/', 'rules/', 'metrics/', 'utils/data_structures/', 'bayes/', 'neural_networks/'],
  [('reset() re-assigns every state attribute, or BaseSKMObject.reset re-runs the constructor with get_params()', L + 'core/base.py')],
  EFFECT + '; must-write comparison of reset with the constructor',
  'Set of attributes mutated by any public method versus attributes certainly rewritten by reset on all paths, and comparison of the '
  'constants, parameters and kinds of object; the numerical content of computed initial values is not compared.')

P('C09', 'restart() makes a stream start over',
  'After restart() a stream is as it was after construction: its position, its last sample, every private random generator and every '
  'value that drawing samples evolves (weights, centroids, drift directions, balancing flags, inner streams) are set back, so a '
  'stream built with integer seeds produces exactly the same sequence again.',
  ['histories', 'configurations'],
  'every stream class, every state attribute, every number of samples drawn before the restart',
  'Tests restart a stream at one position and compare a few samples, for some of the generators.',
  ['data/'],
  [('restart() resets sample_idx and current_sample_*, and calls _prepare_for_use, which re-creates the generators from the seeds', L + 'data/base_stream.py')],
  EFFECT + '; must-write comparison of restart with the constructor', 'As C08, for streams.')

P('C11', 'Prequential evaluation tests on every batch first, then trains on it',
  'While EvaluatePrequential evaluates, each batch drawn from the stream in the evaluation loop is predicted whole, exactly once by every '
  'model; every prediction is recorded exactly once, together with the true label of the same row, in the mean and in the current '
  'measurements of the model that made it; only after predicting is every model trained on that batch, exactly once and with its own labels, '
  'before the next batch is drawn. Pre-training samples are trained on once by every model and never tested.',
  ['inputs', 'histories', 'configurations'],
  'every path through evaluate(): any stream, batch size, pre-training, number of models, task type and number of iterations',
  'Tests run the evaluator on a few streams and compare end figures; training a batch before testing it only shifts figures.',
  ['evaluation/evaluate_prequential.py', 'evaluation/base_evaluator.py'],
  [('_train_and_test: draw, predict, add_result, partial_fit, draw ...', L + 'evaluation/evaluate_prequential.py')],
  TERMS, 'Loop unrolled twice; what happens in an iteration does not depend on earlier ones except through the values the paths carry.')

P('C12', 'Holdout evaluation never trains on what it tests with',
  'While EvaluateHoldout evaluates, no batch is both trained on and tested with. Each batch drawn for training trains every model exactly once '
  'with its own labels. Each test predicts the whole current holdout set (the newest one, with dynamic_test_set) once with every '
  'model and records each prediction once, with the true label of the same row, in the mean and current measurements of its model.',
  ['inputs', 'histories', 'configurations'],
  'every path through evaluate(): static and dynamic test sets, any stream, sizes, number of models and iterations',
  'Tests run the evaluator on one stream per mode and compare end figures.',
  ['evaluation/evaluate_holdout.py', 'evaluation/base_evaluator.py'],
  [('_periodic_holdout: X_test/y_test set aside, never passed to partial_fit', L + 'evaluation/evaluate_holdout.py')],
  TERMS, 'As C11.')

P('C13', 'Delayed evaluation uses a label only once it is available',
  'While EvaluatePrequentialDelayed evaluates, the label of a batch drawn from the stream is neither learned nor scored until the delay '
  'queue releases it: the clock is moved to the arrival of the last sample of the batch, samples whose available_time is not later than '
  'the clock are released and removed from the queue (the others stay), each released sample is scored once per model with the prediction '
  'made for it on arrival and its own true label, and every model is trained once on the released samples with their own labels and '
  'weights; then the new batch is predicted once by every model and queued whole. After the stream, what is left in the queue is scored and '
  'trained on in the same way, every sample once. This also holds without pre-training.',
  ['inputs', 'histories', 'configurations'],
  'every path through evaluate() and through TimeManager: any delays, weights, batch sizes, number of models',
  'Tests run two small streams and compare end figures.',
  ['evaluation/evaluate_prequential_delayed.py', 'data/time_manager.py'],
  [('queue of predicted samples ordered by available_time', L + 'data/time_manager.py'),
   ('evaluation loop: update_timestamp, get_available_samples, learn, predict, update_queue', L + 'evaluation/evaluate_prequential_delayed.py')],
  TERMS, 'TimeManager is decided by comparing the row selections released and kept.')

P('C14', 'All models of one evaluation are treated alike',
  'In every evaluator, every model under evaluation gets the same calls in the same order with the same samples, labels, weights and '
  'classes, whichever its position in the list; predictions are recorded in the measurements of the model that made them against the '
  'same true labels for all models; running times are measured around the work of the model they are attributed to; and in a '
  'classification task the first training call tells every model the classes of the stream.',
  ['inputs', 'histories', 'configurations'],
  'every path through evaluate() of the three evaluators, any number of models',
  'Tests evaluate one or two models and mostly look at the first.',
  ['evaluation/'],
  [('loops over range(self.n_models)', L + 'evaluation/')],
  TERMS, 'Loops over the models are entered once with a symbolic index standing for every model; a loop that stops early or decides on '
  'something it changes is reported.')

P('C15', 'Every reported metric is the one it is reported as',
  'For every metric an evaluator accepts, the value kept in the data buffer, written to the result file and printed in the summary for '
  'that metric and a model is that metric computed from that model\'s measurements: the running mean where it says mean, the window of the '
  'last n_sliding results where it says current, its own training/testing/total time, its own size, its own last prediction. The '
  'columns of the result file follow the header. Every accepted metric can be computed for its task type and is in the summary. '
  'get_measurements, get_mean_measurements and get_current_measurements return the mean and current measurements they name.',
  ['inputs', 'configurations'],
  'every metric constant, every task type, any number of models',
  'Tests look at few metrics and compare whole output files for one configuration.',
  ['evaluation/base_evaluator.py', 'evaluation/evaluation_data_buffer.py', 'utils/constants.py', 'metrics/'],
  [('dispatch over the metric constants in _init_metrics, _update_metrics, _init_file, _update_file, evaluation_summary', L + 'evaluation/base_evaluator.py')],
  TERMS + ', once per metric constant', 'Oracle: a table metric -> measurement method. Values built in ways the terms do not describe are left undecided.')

P('C17', 'Training calls return the learner itself',
  'fit and partial_fit of every learner, transform and pipeline return the object they were called on, whenever they return, on '
  'every path (first call, empty ensemble, undersized batch ...), so that calls can be chained as the API documents.',
  ['inputs', 'histories', 'configurations'],
  'every fit/partial_fit of every learner, transform and Pipeline, all paths',
  'Tests use the return value of only a few training calls, on the main path.',
  ['core/base.py', 'core/pipeline.py', 'lazy/', 'meta/', 'trees/', 'rules/', 'transform/', 'bayes/', 'neural_networks/', 'prototype/', 'anomaly_detection/'],
  [('"Returns self" of fit/partial_fit', L + 'core/base.py')],
  EFFECT, 'Set of values returned over all paths must be the receiver.')

P('C16', 'One prediction per row, in order, from that row',
  'predict and predict_proba of every learner return exactly one entry per row of X, in the order of the rows, on every path: also while '
  'the model is still empty, for rows the model cannot place, and for batches of any size. The entry of row i is computed from row i '
  '(or from entry i of a computation over the batch), never from another row or from an aggregate over the batch.',
  ['inputs', 'histories'],
  'every path through predict/predict_proba of all 49 learners, batches of any size',
  'Tests predict one row at a time or one fixed batch with a trained model.',
  ['bayes/', 'lazy/', 'meta/', 'trees/', 'rules/', 'neural_networks/', 'prototype/', 'anomaly_detection/'],
  [('loops over range(r) appending to predictions', L + 'trees/hoeffding_tree_regressor.py')],
  TERMS, 'Decided where the result is a list appended to, an allocated array, a comprehension or elementwise arithmetic and axis-1 '
  'reductions of those; other result expressions are counted as undecided_returns and not reported.')

P('C21', 'A sample is learned with its own label and its own weight',
  'Wherever partial_fit or fit of a learner works through the rows of X, or passes them on to a base learner, tree, node, window or '
  'statistic, row i goes together with label y[i] and weight sample_weight[i], and the whole batch with all labels and all weights; '
  'every row is gone through; and learners that support sample weights pass them on.',
  ['inputs', 'histories'],
  'every path through fit/partial_fit of all learners, batches of any size, any weights',
  'Tests train sample by sample or with unit weights, where mixing up weights within a batch changes nothing.',
  ['bayes/', 'lazy/', 'meta/', 'trees/', 'rules/', 'neural_networks/', 'prototype/', 'anomaly_detection/'],
  [('loops over range(row_cnt) calling _partial_fit(X[i], y[i], sample_weight[i])', L + 'trees/'),
   ('ensembles training their members one sample at a time', L + 'meta/')],
  TERMS, 'Index terms are compared symbolically at every hand-over; indices that are not affine in a loop variable are left undecided. '
  'Which learners support weights is a fixed list.')

P('C18', 'What a drift detector reports is about the element added last',
  'After add_element, detected_change and detected_warning_zone tell about that element: on every path the flags they report are '
  'rewritten (no alarm outlives its element, none is suppressed by an early return), drift and warning are never both set, the element '
  'is counted exactly once and used, a drift (warning) is set only when the monitored quantity is on the alarming side of the drift '
  '(warning) level and after the minimum number of elements the detector promises, and after a drift the detector continues with fresh '
  'statistics. Asking changes nothing (except in ADWIN, which looks for a cut when asked). In ADWIN, width, total and buckets are '
  'changed together, merging keeps totals, and a change is reported exactly when the window was cut.',
  ['inputs', 'histories', 'configurations'],
  'every path through add_element, reset and the queries of the seven detectors, any element values and history',
  'Tests feed one random sequence and compare the positions of the alarms.',
  ['drift_detection/'],
  [('in_concept_change/in_warning_zone set in add_element', L + 'drift_detection/'),
   ('ADWIN bucket rows', L + 'drift_detection/adwin.py')],
  TERMS, 'Path conditions and final field values are compared as terms with a table of the documented levels per detector; the '
  'statistical quality of the tests themselves is not decided (see C30).')

P('C22', 'Metrics follow their definitions; windowed metrics cover exactly the window',
  'Windowed classification, multi-label and regression metrics describe exactly the last window_size results: every result enters the '
  'window once, one leaves exactly when the window is full, and what a leaving result takes off every sum is what it added when it '
  'entered, also with sample weights. The confusion matrix adds a weight once to its cell, the row sum of the true class, the column sum '
  'of the predicted class and, for a correct prediction only, to the diagonal. Accuracy, kappa, kappa-T, kappa-M, precision, recall, F1, exact match, '
  'Jaccard, Hamming loss, MSE, MAE and their multi-target averages are the quotients of the sums they are defined by. reset() keeps the configuration (window '
  'size, number of classes, labels). The deprecated classification *Measurements classes are not covered.',
  ['inputs', 'histories', 'configurations'],
  'every path through add_result, reset and the metric methods of the performance evaluators and regression measurements, any results and weights',
  'Tests compare the metrics of one sequence of results, mostly unweighted and shorter than the window.',
  ['metrics/', 'utils/data_structures.py'],
  [('add_result and its removal from the window', L + 'metrics/_classification_performance_evaluator.pyx'),
   ('corrections buffers', L + 'metrics/measure_collection.py'), ('__setitem__', L + 'metrics/_confusion_matrix.pyx')],
  TERMS + ' and polynomial normal forms of the sums', 'Floating-point rounding is ignored: sums are compared as polynomials.')

P('C28', 'Split criteria, observers and split tests follow their definitions',
  'What a tree or rule learner weighs its splits by is what its documentation defines: Gini, entropy, information gain, Hellinger distance, FOIL gain, (intra-cluster) '
  'variance reduction as functions of the class distributions before and after the split, with the minimum branch fraction respected; the Gaussian '
  'estimator keeps the weighted mean and variance of what it was shown and its density and tail weights follow from them; observers answer with the probability of a value '
  'given the class and hand every class weight to the side of the split it belongs to; split tests and rule predicates send an instance to the branch their '
  'attribute, value and operator name.',
  ['inputs', 'histories', 'configurations'],
  'every path through the criteria, estimators, observers, split tests and predicates, with distributions of up to three entries told apart, any weights and values',
  'Tests compare whole trees grown on one stream, where a criterion that is slightly wrong seldom changes the printed tree.',
  ['trees/', 'rules/'],
  [('add_observation', L + 'trees/gaussian_estimator.py'), ('get_merit_of_split', L + 'trees/_split_criterion/info_gain_split_criterion.py'),
   ('branch_for_instance', L + 'trees/_attribute_test/numeric_attribute_binary_test.py'), ('covers_instance', L + 'rules/base_predicate.py')],
  TERMS + ' and random interpretation of the two sides of each definition', 'Loops are told apart up to two or three rounds; floating-point rounding is ignored.')

P('C29', 'Transforms replace values by what their window or option defines',
  'MissingValuesCleaner replaces exactly the missing cells of every row: by zero, the mean, median or mode of the column over the window, or the configured new value, and by the '
  'new value while the window is empty; WindowedStandardScaler maps every value to (value - mean) / standard deviation of its column over the window, with a '
  'standard deviation of zero counting as one; the minimum and maximum WindowedMinmaxScaler works with are those of the column over the window (how it combines them is not '
  'covered); NaN never counts; every row transformed or partially fitted enters the window once.',
  ['inputs', 'histories', 'configurations'],
  'every path through transform, partial_fit, partial_fit_transform and the window statistics of the three windowed transforms, any data',
  'Tests compare one array transformed in one call, with one strategy at a time.',
  ['transform/'],
  [('_get_substitute', L + 'transform/missing_values_cleaner.py'), ('_get_std', L + 'transform/windowed_standard_scaler.py'), ('_get_min', L + 'transform/windowed_minmax_scaler.py')],
  TERMS + ' and random interpretation of the two sides of each definition', 'The scaling formula of WindowedMinmaxScaler and OneHotToCategorical are not covered; the order of '
  'remembering and replacing a row is not compared.')

P('C30', 'Drift detectors keep their statistical promises',
  'The false alarm rate and detection delay of ADWIN, DDM, EDDM, HDDM, KSWIN and Page-Hinkley stay within the bounds their '
  'confidence parameters promise.',
  ['inputs', 'histories'], 'every input distribution', 'Tests feed one sequence.',
  ['drift_detection/'], [('cut expression', L + 'drift_detection/adwin.py')],
  '', '', na='The promise is about probabilities over input distributions and about numeric bounds over unbounded windows; no static argument '
  'in reach bounds them. C18 decides the part that is control and data flow.')

P('C10', 'Streams hand out each sample once, in order, with its own label',
  'next_sample(n) returns the next n samples: sample_idx advances by the number of samples handed out, finite streams return exactly the rows '
  'following the ones returned before, the same rows of features, labels, time, delay and weight; n_remaining_samples and '
  'has_more_samples of finite streams agree with that; generators build each row on its own and split features from the label. '
  'last_sample returns what next_sample returned last, never an older sample. Loading a table makes the columns target_idx ... target_idx + n_targets - 1 the '
  'labels and all other columns, and only those, the features. A concept drift stream takes features and label of a row from one sample of '
  'one of its two streams, and the drift stream becomes more likely as samples go by.',
  ['inputs', 'histories', 'configurations'],
  'every path through next_sample, last_sample, n_remaining_samples, has_more_samples and loading of all 19 streams, any batch sizes',
  'Tests draw one or a few batches of one size and compare a few values.',
  ['data/'],
  [('next_sample', L + 'data/'), ('_load_data', L + 'data/file_stream.py')],
  TERMS + ', polynomial normal forms of indices and a monotonicity analysis',
  'ConceptDriftStream.n_remaining_samples with one infinite stream and batches reaching past the end of the data are not covered; '
  'sample_idx of RandomRBFGeneratorDrift (advanced through super()) is undecided.')

P('C26', 'Generators label samples by the published concept',
  'The n-th concept of SEAGenerator, SineGenerator, STAGGERGenerator, MIXEDGenerator and AGRAWALGenerator assigns to attribute values the class that the published concept '
  'assigns to them; a row of these generators, of HyperplaneGenerator, LEDGenerator, LEDGeneratorDrift and WaveformGenerator holds the drawn attribute values and the label '
  'of the configured concept at those values (inverted only by the configured noise; perturbed only after labelling; with balance_classes the classes alternate); LED segments '
  'and waveforms are the published tables, and only the first attributes carry the concept, the others being noise.',
  ['inputs', 'configurations'],
  'every path through the concept functions and next_sample; any attribute value inside the documented ranges, any concept, noise, perturbation and balance setting',
  'Tests compare ten rows per seed with recorded arrays, so a boundary or a rarely met branch of a concept is not reached.',
  ['data/'],
  [('_classification_functions', L + 'data/agrawal_generator.py'), ('next_sample', L + 'data/sea_generator.py'), ('next_sample', L + 'data/led_generator.py'),
   ('_generate_drift', L + 'data/hyper_plane_generator.py')],
  'path summaries over symbolic terms of the syntax tree, compared with reference definitions by value numbering under random interpretation (nothing is executed)',
  'A concept rewritten with operations the reference does not use is left undecided. The distribution of the attributes is compared through the draws, not statistically.')

P('C27', 'Using the library leaves the rest of the process and the disk alone',
  'Importing the package, or constructing and using any of its objects, changes no process-wide setting (warning filters, numpy, pandas, '
  'matplotlib or logging configuration, global random state, environment, working directory, signal handlers) beyond the call itself, '
  'rebinds or mutates no variable of any module and no class, ends no process, deletes, renames or executes nothing, and writes only '
  'the file the user named. The plot window of EvaluationVisualizer and the root logger of EvaluateStreamGenerationSpeed are recorded exceptions.',
  ['inputs', 'histories', 'configurations'],
  'every call and every store in every module of the package (._demos and setup excluded), reached or not by the tests',
  'Tests run in one process of their own and do not look at what they leave behind.',
  ['**/*.py', 'evaluation/', 'visualization/'],
  [('evaluate', L + 'evaluation/evaluate_prequential.py'), ('_init_file', L + 'evaluation/base_evaluator.py')],
  EFFECT + ' over calls resolved through imports, with context managers and save/restore pairs recognised',
  'Calls whose target cannot be named (through a variable or a returned function) are not classified.')

P('C25', 'Trees and rules grow only where the Hoeffding bound allows it',
  'A Hoeffding tree turns a leaf into a split, extremely fast trees replace or remove a split, and decision rules gain a predicate, exactly when the '
  'comparison of the configured criterion says so: the best suggestion beats the second best (or the null split, or the current split) by more than '
  'sqrt(R^2 ln(1/confidence) / 2n) with the range R of that criterion, the configured confidence and the weight n that leaf or rule has seen, or that bound is '
  'below tie_threshold; an attempt is made only for an active leaf after grace_period more weight, and a split installs the best suggestion, with a child '
  'per branch, at the place of the leaf, updating the counts of nodes that the tree reports. Attributes are disabled as poor only when they are worse than the best by the bound.',
  ['inputs', 'histories', 'configurations'],
  'every path through the split attempts of all Hoeffding trees (classification, regression, multi-target, multi-label, adaptive, extremely fast) and through rule creation and '
  'expansion of the very fast decision rules, any merits, weights and configuration',
  'Tests train on one stream with one seed and compare the final predictions or the model description.',
  ['trees/', 'rules/very_fast_decision_rules.py'],
  [('_attempt_to_split', L + 'trees/hoeffding_tree.py'), ('_reevaluate_best_split', L + 'trees/extremely_fast_decision_tree.py'),
   ('_expand_rule', L + 'rules/very_fast_decision_rules.py')],
  TERMS + '; split conditions compared as normalised rational functions of merits, bound and threshold',
  'The merits themselves are not computed. Alternate trees of the adaptive trees and the counts they change are not covered.')
