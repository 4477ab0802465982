"""Definitions of the transforms, and the ranges their inputs are taken from."""
STRATEGY = {'strategy': ['zero', 'mean', 'median', 'mode', 'custom', 'other'], 'call is_empty': [True, False], 'missing_value': 'opaque', 'new_value': [1.0, 5.0],
            'param column_index': [0, 1, 3], 'param X': 'opaque', 'call isnan': [True, False], 'elem X[][]': [0.0, 1.0, 2.5, float('nan')], 'call nanstd': [0.0, 1.5, 2.0], 'call nanmean': [0.0, 1.5, -2.0],
            'call nanmin': [0.0, 1.5, 2.0], 'call nanmax': [2.0, 3.5], 'call _get_std': [1.0, 2.0, .5], 'call _get_mean': [0.0, 2.0, .5], 'call _get_min': [0.0, 2.0, .5],
            'call _get_max': [2.0, 3.0], 'elem array(X)[][]': [0.0, 1.0, 2.5, float('nan')], 'call dims': 'opaque'}
W = dict(watch=('add_element',), opaque=('_get_substitute', '_get_mean', '_get_std', '_get_min', '_get_max'))
TABLE = [('MissingValuesCleaner', '_get_substitute', STRATEGY, {}), ('MissingValuesCleaner', 'transform', STRATEGY, W),
         ('WindowedMinmaxScaler', '_get_min', STRATEGY, {}), ('WindowedMinmaxScaler', '_get_max', STRATEGY, {}),
         ('WindowedStandardScaler', '_get_mean', STRATEGY, {}), ('WindowedStandardScaler', '_get_std', STRATEGY, {}), ('WindowedStandardScaler', 'transform', STRATEGY, W)]
TABLE += [(c, 'partial_fit', STRATEGY, W) for c in ('MissingValuesCleaner', 'WindowedMinmaxScaler', 'WindowedStandardScaler')]
TABLE += [(c, 'partial_fit_transform', STRATEGY, dict(opaque=('transform',))) for c in ('MissingValuesCleaner', 'WindowedMinmaxScaler', 'WindowedStandardScaler')]


def check(prog, res):
    from .. import laws
    for cname, m, ranges, kw in TABLE:
        if prog.cls(cname) is not None:
            laws.compare(prog, res, cname, m, ranges, nested=True, also=['call ' + x for x in ('min', 'max', 'mean', 'median', 'std', 'var', 'nanvar', 'sum')], **kw)
