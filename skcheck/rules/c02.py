"""C02: queries (information, state and metric accessors) are free of side effects."""
from .. import whole
from .common import effect_findings

PREFIX = ('get_', 'is_', 'has_', 'n_remaining', 'last_sample', 'measure_', 'detected_', 'n_features', 'n_samples', 'accuracy',
          'kappa', 'precision', 'recall', 'f1_', 'geometric_mean', 'majority_class', 'true_', 'false_', 'hamming', 'exact_match',
          'j_index', 'sum_', 'matrix', 'row', 'column', 'value_at', 'shape', 'get', 'mean_', 'average_', '__repr__', '__str__',
          '__len__', '__iter__', 'peek', 'isfull', 'total', 'weighted_')
SKIP = {'get_votes_for_instance', 'predict', 'predict_proba', 'score'}
# private helpers are covered through their callers; names below are not queries despite their prefix
NOT_QUERY = {'get_next_element', 'get_oldest_sample', 'get_expired_samples', 'get_available_samples'}

FLOORS = {'query_method_obligations': 500, 'classes_analysed': 90}


def queries(c):
    out = []
    for k in c.mro():
        for n in sorted(k.methods):
            if n.startswith(PREFIX) and n not in SKIP and n not in NOT_QUERY and n not in out:
                out.append(n)
        for n in sorted(k.getters):
            if n not in out and not (n.startswith('_') and not n.startswith('__')):
                out.append(n)
    return out


def check(prog, res):
    res.rule('the effect summary of every information, state or metric accessor and of every property getter of every '
             'public class contains no write to anything reachable from self or from global state')
    # ADWIN.detected_change is documented to shrink the window: it is the detection step, not a query
    effect_findings(prog, res, whole.all_roots(prog),
                    lambda c: [n for n in queries(c) if not (n == 'detected_change' and c.name == 'ADWIN')], 'query-effect')
