"""The update laws of the drift detectors and the ranges their states are taken from."""
B = [True, False]
BIT = [0, 1]
INFO = {'.SampleInfo': {'EWMA_estimator': -1.0, 'independent_bounded_condition_sum': None}}


def ewma(pt, rng):
    return rng.choice([-1.0, rng.random(), rng.random(), rng.random()])


def upto(other):
    return lambda pt, rng: 0 if pt.leaf(other) == 0 else rng.randint(1, pt.leaf(other))


def maybe0(f):
    return lambda pt, rng: f(pt, rng)


def warned(count, least):
    # a warning is only ever raised after `least` elements, and never together with a drift
    return lambda pt, rng: rng.random() < .6 and not pt.leaf('in_concept_change') and pt.leaf(count) >= (pt.leaf(least) if isinstance(least, str) else least)


DDM = {'sample_count': (1, 60), 'min_instances': (20, 40), 'miss_prob_sd_min': [float('inf'), .1, .2, .3, .4, .6, .8], 'miss_prob_min': (0.0, .5),
       'miss_sd_min': (0.0, .2), 'out_control_level': (2.5, 4.0), 'warning_level': (1.0, 2.4), 'in_concept_change': B, 'in_warning_zone': warned('sample_count', 'min_instances'), 'param prediction': BIT}
EDDM = {'m_n': (1, 80), 'm_num_errors': (0, 40), 'm_d': (0, 60), 'm_lastd': (0, 60), 'm_mean': (1.0, 20.0), 'm_std_temp': (0.0, 50.0), 'm_m2s_max': (1.0, 40.0),
        'm_min_num_errors': (10, 30), 'in_concept_change': B, 'in_warning_zone': warned('m_n', 30), 'param prediction': BIT}
PH = {'sample_count': (1, 60), 'min_instances': (20, 40), 'threshold': (0.2, 3.0), 'sum': (0.0, 4.0), 'alpha': (.9, 1.0), 'in_concept_change': B, 'in_warning_zone': B}
HA = {'total_n': [0, 1, 2, 5, 9, 14, 30, 60, 100], 'n_min': upto('total_n'), 'n_max': upto('total_n'), 'c_min': lambda pt, r: r.randint(0, pt.leaf('n_min')),
      'c_max': lambda pt, r: r.randint(0, pt.leaf('n_max')), 'total_c': lambda pt, r: r.randint(0, pt.leaf('total_n')), 'n_estimation': (0, 60), 'c_estimation': (0, 30),
      'drift_confidence': (.001, .1), 'warning_confidence': (.1, .6), 'two_side_option': B, 'in_concept_change': B, 'in_warning_zone': B, 'param prediction': BIT}
HW = {'EWMA_estimator': ewma, 'independent_bounded_condition_sum': (.005, .2), 'incr_cutpoint': [float('inf'), .3, .5, .7, .9], 'decr_cutpoint': [float('inf'), .1, .3, .5],
      'width': (0, 50), 'delay': (0, 50), 'lambda_option': (.02, .3), 'drift_confidence': (.001, .3), 'warning_confidence': (.3, .7), 'two_side_option': B,
      'in_concept_change': B, 'in_warning_zone': B, 'param prediction': BIT}
KS = {'window': 'opaque', 'n': (0, 200), 'window_size': (8, 14), 'stat_size': (2, 6), 'len': (4, 18), 'alpha': (.2, .6), 'change_detected': B}
TABLE = [
    ('DDM', 'add_element', DDM, {}, {}), ('DDM', 'reset', DDM, {}, {}),
    ('EDDM', 'add_element', EDDM, {}, {}), ('EDDM', 'reset', EDDM, {}, {}),
    ('PageHinkley', 'add_element', PH, {}, {}), ('PageHinkley', 'reset', PH, {}, {}),
    ('HDDM_A', 'add_element', HA, {}, {}), ('HDDM_A', 'reset', HA, {}, {}),
    ('HDDM_W', 'add_element', HW, INFO, {}), ('HDDM_W', 'reset', HW, INFO, {}),
    ('KSWIN', 'add_element', KS, {}, {}),
]
AD = {'_width': (6, 90), '_total': (0.0, 40.0), '_variance': (0.0, 20.0), 'last_bucket_row': (0, 4), 'bucket_number': (0, 30), 'bucket_num_max': (0, 30),
      'mint_min_window_length': 5, 'param n0': (5, 40), 'param n1': (5, 40), 'param abs_value': (-1.5, 1.5), 'param delta': (.001, .5), 'list_row_bucket': 'opaque',
      'param row': (0, 8), 'bucket_size_row': [0, 0, 1, 2, 5, 6]}
W = ('insert_bucket', 'remove_bucket', 'remove_from_tail', 'set_next_item', 'compress_bucket_row', '__compress_buckets', '_ADWIN__compress_buckets')
LI = {'_first': [None, 'opaque'], '_last': [None, 'opaque'], '_count': (0, 9)}
IT = {'bucket_total': 'opaque', 'bucket_variance': 'opaque', 'next': 'opaque', 'previous': 'opaque', 'param index': (0, 5), 'bucket_size_row': (0, 5)}
TABLE += [('ADWIN', m, AD, {}, dict(watch=W, opaque=W)) for m in ('add_element', 'delete_element', 'bucket_size', '_ADWIN__bln_cut_expression')]
TABLE += [('List', m, LI, {}, dict(watch=W)) for m in ('add_to_head', 'add_to_tail', 'remove_from_tail')]
TABLE += [('Item', m, IT, {}, dict(watch=W, opaque=W)) for m in ('insert_bucket', 'remove_bucket', 'get_next_item', 'set_next_item', 'get_previous', 'set_previous',
                                                       'get_total', 'get_variance', 'set_total', 'set_variance')]
