"""Definitions of split criteria, observers and split tests, and the ranges their inputs are taken from."""
B = [True, False]
W = [0.0, 0.25, 1.0, 2.0, 7.0, 3.5]
EST = {'_weight_sum': [0.0, 0.5, 1.0, 2.0, 9.0], '_mean': [1.0, 2.0, 3.0], '_variance_sum': [0.0, 4.0, 11.0], 'param value': [1.0, 2.0, 3.0, 2.5, None],
       'param weight': [1.0, 2.0, 0.5], '_NORMAL_CONSTANT': 2.5066, 'call normal_probability': W}
DIST = {'len': (0, 3), 'param pre_split_dist': 'opaque', 'param post_split_dist': 'opaque', 'param dist': 'opaque', 'param dists': 'opaque', 'param distributions': 'opaque',
        'call sum': W, 'param dist_sum_of_weights': [0.0, 3.0, 5.0], 'min_branch_frac_option': [0.01, .2, .4], 'param min_frac': [0.01, .2, .4], 'lowest_entropy': [None, .1, .5],
        'best_idx': [0, 1], 'class_idx': [0, 1], 'elem dist[]': W, 'elem dist[0][]': W, 'elem dist[1][]': W, 'elem pre_split_dist[]': [5.0, 9.0, 30.0],
        'call isinstance': B, 'call num_subsets_greater_than_frac': [0, 1, 2, 3]}
VAR = {'len': (0, 3), 'param pre_split_dist': 'opaque', 'param post_split_dist': 'opaque', 'param dist': 'opaque', 'elem dist[0]': [2.0, 9.5], 'elem dist[1]': [1.0, 7.0],
       'elem dist[2]': [1.0, 60.0, 8.0], 'elem pre_split_dist[]': [10.0, 30.0], 'call compute_SD': [.5, 1.0, 3.0]}
VAR.update({'elem post_split_dist[%d][]' % i: [2.0, 5.0, 5.0, 6.0, 9.0] for i in range(3)})
OBS = {'len': (0, 3), 'param class_val': 'opaque', 'param att_val': 'opaque', 'call sum': W, '_att_val_dist_per_class': 'opaque', '_min_value_observed_per_class': 'opaque',
       '_max_value_observed_per_class': 'opaque', 'elem _min_value_observed_per_class[]': [0.0, 1.0, 2.0, 3.0], 'elem _max_value_observed_per_class[]': [4.0, 1.0, 2.0, 3.0],
       'param split_value': [0.5, 1.0, 2.0, 3.0, 4.0], 'num_bin_options': [0, 1, 2], '_root': ['opaque', None]}
TEST = {'_att_idx': [-1, 0, 0, 1, 2, 12], 'len': (4, 9), '_att_value': [0.0, 1.0, 2.0], '_equals_passes_test': B, 'param X': 'opaque', 'elem X[]': [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0], 'param branch': [0, 1],
        '_operator': ['>', '<', '>=', '<=', '==', '=', '!=', '~'], '_value': [0.0, 1.0, 2.0], '_branch_mapping': 'opaque', '_reverse_branch_mapping': 'opaque', 'param att_val': 'opaque'}
IN = ('compute_gini', 'compute_entropy', 'compute_SD', 'num_subsets_greater_than_frac', 'compute_hellinger', 'probability_density', 'get_std_dev', '_compute_entropy_list',
      '_compute_entropy_dict')
U = dict(unroll=2)
TABLE = [('GaussianEstimator', m, EST, {}) for m in ('__init__', 'add_observation', 'get_total_weight_observed', 'get_mean', 'get_variance', 'get_std_dev', 'probability_density')]
TABLE += [('GaussianEstimator', 'estimated_weight_lessthan_equalto_greaterthan_value', dict(EST, **{'call probability_density': W, 'call get_std_dev': [0.0, 1.5]}),
           dict(opaque=('probability_density', 'get_std_dev')))]
TABLE += [('GiniSplitCriterion', 'get_merit_of_split', DIST, dict(unroll=2, opaque=IN)), ('GiniSplitCriterion', 'compute_gini', dict(DIST, **{'elem dist[]': W}), U),
          ('GiniSplitCriterion', 'get_range_of_merit', DIST, {})]
for where, cname, hell in (('trees', 'InfoGainSplitCriterion', None), ('trees', 'HellingerDistanceCriterion', 'hellinger'), ('rules', 'InfoGainExpandCriterion', None),
                           ('rules', 'HellingerDistanceCriterion', 'rule_hellinger'), ('rules', 'FoilGainExpandCriterion', None)):
    TABLE += [(cname, m, DIST, dict(unroll=2, opaque=IN, within=where)) for m in ('get_merit_of_split',) + (
        ('compute_entropy', '_compute_entropy_list') if hell is None and 'Foil' not in cname else ())]
    TABLE += [(cname, m, DIST, dict(unroll=2, within=where)) for m in ('num_subsets_greater_than_frac', 'get_range_of_merit') + (('_compute_entropy_dict',) if 'Info' in cname else ())]
    if hell:
        TABLE += [(cname, 'compute_hellinger', DIST, dict(within=where, bname=hell))]
TABLE += [('FoilGainExpandCriterion', 'compute_entropy', DIST, {})]
for cname in ('VarianceReductionSplitCriterion', 'IntraClusterVarianceReductionSplitCriterion'):
    TABLE += [(cname, 'get_merit_of_split', VAR, dict(unroll=2, opaque=('compute_SD',))), (cname, 'compute_SD', VAR, {}), (cname, 'get_range_of_merit', VAR, {})]
TABLE += [('NominalAttributeClassObserver', 'probability_of_attribute_value_given_class', OBS, dict(within=w)) for w in ('trees', 'rules')]
for w, cname in (('trees', 'NumericAttributeClassObserverGaussian'), ('rules', 'GaussianNumericAttributeClassObserver')):
    TABLE += [(cname, m, OBS, dict(within=w, law='NumericAttributeClassObserverGaussian', unroll=2)) for m in (
        'probability_of_attribute_value_given_class', 'get_class_dists_from_binary_split')]
TABLE += [(cname, 'get_split_point_suggestions', dict(OBS, len=(0, 2)), dict(within=w, law='NumericAttributeClassObserverGaussian', unroll=2, watch=('add', 'append', 'update'), bname=b,
                                                               skip=('result',)))
          for w, cname, b in (('trees', 'NumericAttributeClassObserverGaussian', None), ('rules', 'GaussianNumericAttributeClassObserver', 'rule_split_point_suggestions'))]
TABLE += [('NumericAttributeRegressionObserver', 'update', OBS, dict(watch=('insert_value',)))]
TABLE += [('NominalAttributeMultiwayTest', m, TEST, {}) for m in ('branch_for_instance', 'branch_rule', 'add_new_branch', 'max_branches', 'get_atts_test_depends_on')]
TABLE += [('NominalAttributeBinaryTest', m, TEST, {}) for m in ('branch_for_instance', 'branch_rule', 'max_branches', 'get_atts_test_depends_on')]
TABLE += [('NumericAttributeBinaryTest', m, TEST, {}) for m in ('branch_for_instance', 'max_branches', 'get_atts_test_depends_on', 'get_split_value')]
TABLE += [('Predicate', 'covers_instance', TEST, {})]
TABLE += [(cname, '__init__', {}, dict(within=w)) for w, cname in (('trees', 'HellingerDistanceCriterion'), ('rules', 'HellingerDistanceCriterion'), ('trees', 'InfoGainSplitCriterion'),
                                                                   ('rules', 'InfoGainExpandCriterion'), ('rules', 'FoilGainExpandCriterion'), ('rules', 'Predicate'),
                                                                   ('trees', 'NominalAttributeBinaryTest'), ('trees', 'NumericAttributeBinaryTest'))]
SEEN = {'param att_val': [None, 1.0, 2.0, 3.0], 'param weight': [1.0, 2.0, 0.5], 'param target': [1.0, 2.0, 5.0], 'elem _min_value_observed_per_class[]': [0.0, 1.5, 2.5],
        'elem _max_value_observed_per_class[]': [1.5, 2.5, 4.0], 'param class_val': 'opaque'}
TABLE += [('NominalAttributeClassObserver', 'update', SEEN, dict(within=w)) for w in ('trees', 'rules')]
TABLE += [(cname, 'update', SEEN, dict(within=w, law='NumericAttributeClassObserverGaussian', watch=('add_observation',))) for w, cname in (
    ('trees', 'NumericAttributeClassObserverGaussian'), ('rules', 'GaussianNumericAttributeClassObserver'))]
TABLE += [('NominalAttributeRegressionObserver', 'update', SEEN, {})]


def check(prog, res):
    from .. import laws
    for cname, m, ranges, kw in TABLE:
        if prog.cls(cname) is not None:
            laws.compare(prog, res, cname, m, ranges, **kw)
