"""The definitions of the metrics and the ranges their attributes are taken from."""
from .. import laws
B = [True, False]
COUNT = [0, 1, 2, 7, 30]
REG = {'sample_count': COUNT, '_sample_count': COUNT, 'call .get_current_size': COUNT, 'total_square_error': (0.0, 50.0), 'average_error': (0.0, 30.0),
       'param y_true': (-5.0, 5.0), 'param y_pred': (-5.0, 5.0), 'param y': (-5.0, 5.0), 'param prediction': (-5.0, 5.0), 'n_targets': (1, 5),
       'window_size': (1, 50), 'len': (1, 5), 'size': (1, 5)}
TIME = {'_training_time': (0.0, 9.0), '_testing_time': (0.0, 9.0), '_sample_count': (0, 90), '_training_start': (0.0, 5.0), '_testing_start': (0.0, 5.0),
        'param increment': (-2, 5), 'call timer': (0.0, 9.0)}
BUF = {'current_size': (0, 4), 'max_size': (0, 4), 'len': (0, 4), 'buffer': 'opaque'}
TRY = {'param true_labels': 'opaque', 'param predicts': 'opaque', 'call sum': [0, 1, 2], 'len': (0, 2), 'elem ?[1]': (0, 2)}
SINGLE = ['__init__', 'reset', 'add_result', 'get_mean_square_error', 'get_average_error', 'get_last']
MULTI = ['__init__', 'reset', 'add_result', 'get_average_mean_square_error', 'get_average_absolute_error', 'get_average_root_mean_square_error', 'get_last']
TABLE = [('RegressionMeasurements', m, REG) for m in SINGLE] + [('WindowRegressionMeasurements', m, REG) for m in SINGLE if m != 'add_result']
TABLE += [('MultiTargetRegressionMeasurements', m, REG) for m in MULTI] + [('WindowMultiTargetRegressionMeasurements', m, REG) for m in MULTI if m != 'add_result']
TABLE += [('RunningTimeMeasurements', m, TIME) for m in (
    '__init__', 'reset', 'compute_training_time_begin', 'compute_training_time_end', 'compute_testing_time_begin', 'compute_testing_time_end', 'update_time_measurements',
    'get_current_training_time', 'get_current_testing_time', 'get_current_total_running_time')]
TABLE += [('FastBuffer', m, BUF, dict(watch=('append', 'pop'))) for m in ('get_next_element', 'is_full', 'is_empty', 'get_current_size', 'get_queue')]
TABLE += [('FastBuffer', 'add_element', dict(BUF, **{'param element_list': 'opaque', 'len': (0, 3)}), dict(watch=('append', 'pop', 'extend'), unroll=2, skip=('buffer',)))]
SUMS = [0.0, 1.0, 2.0, 7.0, 0.5]
CLS = {'n_samples': COUNT, '_total_weight_observed': [0.0, 1.5, 4.0, 7.0], 'sample_weight': (0.0, 3.0), 'param sample_weight': [0.0, 1.0, 2.5], 'param y_true': (0, 2),
       'param y_pred': (0, 2), 'last_true': (0, 2), 'last_pred': (0, 2), 'weight_majority_classifier': SUMS, 'weight_correct_no_change_classifier': SUMS,
       'elem confusion_matrix.sum_row[]': SUMS, 'elem confusion_matrix.sum_col[]': SUMS,
       'sum_diag': (0.0, 9.0), 'n_classes': (2, 4), 'param n_classes': (0, 4), 'param class_value': [-1, 0, 1, 2], 'window_size': (1, 3), 'call .majority_class': (0, 2), 'len': (0, 3),
       'confusion_matrix': 'opaque', 'sum_row': 'opaque', 'sum_col': 'opaque', 'data': 'opaque', 'classes': 'opaque', '_queue': 'opaque', 'param true_pred_tuple': 'opaque', 'param key': 'opaque', 'call isinstance': [True, True, True, False], 'elem true_pred_tuple[0]': (0, 1), 'elem true_pred_tuple[1]': (0, 1),
       'elem key[0]': (0, 5), 'elem key[1]': [-1, 0, 1, 1, 0, 2], 'elem key[2]': [0, 1, 0, 1, 2, -1], 'elem ?[3]': [0, 1], 'elem ?[4]': [0, 1], 'exact_match_cnt': (0, 9), 'jaccard_sum': (0.0, 9.0), 'n_labels': (2, 5), '_max_label': (0, 5)}
ML = dict(CLS, **{'param y_true': 'opaque', 'param y_pred': 'opaque', 'elem y_true[]': [0, 1], 'elem y_pred[]': [0, 1], 'call sum': [0, 1, 2, 3], 'exact_match_cnt': (0, 9), 'last_true': 'opaque', 'last_pred': 'opaque'})
INNER = dict(unroll=2, opaque=('_precision_per_class', '_recall_per_class', '_f1_per_class'))
PART = {'add_result': dict(opaque=('majority_class',)), 'majority_class': dict(unroll=3), 'kappa_score': dict(unroll=2, opaque=('accuracy_score',)),
        'kappa_t_score': dict(opaque=('accuracy_score',)), 'kappa_m_score': dict(opaque=('accuracy_score',)),
        'precision_score': INNER, 'recall_score': INNER, 'f1_score': INNER, '_f1_per_class': dict(opaque=('precision_score', 'recall_score'))}
TABLE += [('ClassificationPerformanceEvaluator', m, CLS, PART.get(m, {})) for m in (
    '__init__', 'add_result', 'majority_class', 'accuracy_score', 'kappa_score', 'kappa_t_score', 'kappa_m_score', 'precision_score', 'recall_score', 'f1_score',
    '_precision_per_class', '_recall_per_class', '_f1_per_class', 'get_last')]
TABLE += [('WindowClassificationPerformanceEvaluator', 'add_result', CLS, dict(watch=('append', 'popleft'), opaque=('majority_class',)))]
TABLE += [('MultiLabelClassificationPerformanceEvaluator', 'get_last', CLS),
          ('MultiLabelClassificationPerformanceEvaluator', 'add_result', ML, dict(unroll=3, opaque=('_check_multi_label_inputs',))),
          ('WindowMultiLabelClassificationPerformanceEvaluator', 'add_result', ML, dict(unroll=2, opaque=('_check_multi_label_inputs',), watch=('append', 'popleft')))]
TABLE += [('ConfusionMatrix', '__init__', CLS), ('ConfusionMatrix', '__setitem__', CLS), ('ConfusionMatrix', '__getitem__', CLS)]
TABLE += [('MultiLabelConfusionMatrix', m, CLS) for m in ('__setitem__', '__getitem__', '_reshape')]
TABLE += [(None, m, TRY, dict(unroll=2)) for m in ('hamming_score', 'j_index', 'exact_match')]


def check(prog, res):
    for cname, m, ranges, *kw in TABLE:
        if cname is None or prog.cls(cname) is not None:
            laws.compare(prog, res, cname, m, ranges, **(kw[0] if kw else {}))
