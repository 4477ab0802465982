"""C01: prediction never changes the model."""
from .. import whole
from .common import effect_findings

QUERIES = ('predict', 'predict_proba', 'predict_log_proba', 'decision_function', 'score', 'get_votes_for_instance')

# predict() of the Monte Carlo chain is documented to sample label vectors; only the draw itself is exempt
SAMPLING = {('MonteCarloClassifierChain', 'rng')}

FLOORS = {'query_method_obligations': 80, 'classes_analysed': 40}


def check(prog, res):
    fams = whole.families(prog)
    roots = fams['learner'] + [c for c in fams['other'] if c.name == 'Pipeline']
    res.rule('for every concrete learner class and every prediction method, the interprocedural effect summary '
             '(callees resolved through the class hierarchy, user supplied estimators assumed to honour the same '
             'contract) contains no write to, in-place mutation of or random draw from anything reachable from self, '
             'a module global, a class attribute or a default argument')
    res.assumptions += ['third-party estimators (scikit-learn) do not change in predict/predict_proba',
                        'effects through reflection other than setattr/getattr with constant names are not modelled']
    effect_findings(prog, res, roots, lambda c: QUERIES, 'prediction-effect', SAMPLING)
