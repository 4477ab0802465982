"""The concepts of the stream generators and the ranges their attributes are taken from."""
B = [True, False]
BIT = [0, 1]
STATE = {'call None': BIT, 'call .randint': [0, 1, 2], '_random_state': 'opaque', '_classification_functions': 'opaque', '_classification_function': (0, 9),
         'classification_function': (0, 9), '_balance_classes': B, '_classification_function_idx': (0, 9),
         'balance_classes': B, 'next_class_should_be_zero': B, '_next_class_should_be_zero': B, 'sample_idx': (0, 50), 'n_features': (5, 40), '_n_features': (5, 40),
         'batch_size': (1, 4), 'param batch_size': (1, 4), '_has_noise': B, 'has_noise': B, '_noise_percentage': (0.0, 1.0), 'noise_percentage': (0.0, 1.0),
         '_perturbation': [0.0, .1, .5, 1.0], 'perturbation': [0.0, .1, .5, 1.0], 'n_classes': (2, 10), '_n_classes': (2, 10), '_weights': 'opaque', '_sigma': 'opaque',
         '_H_FUNCTION': 'opaque', '_ORIGINAL_INSTANCES': 'opaque', '_numberAttribute': 'opaque', '_mag_change': (0.0, 1.0), '_sigma_percentage': (0.0, 1.0),
         '_n_drift_features': (0, 6), 'n_drift_features': (0, 6)}
PERTURB = {'param val': (-50.0, 200.0), 'param val_min': (0.0, 40.0), 'param val_max': (60.0, 150.0), 'param val_range': [None, 50.0, 90.0], '_perturbation': (0.0, 1.0)}
AGE = [20, 25, 30, 39, 40, 41, 50, 59, 60, 61, 70, 80]
CONCEPTS = {
    'SEAGenerator': (4, [(0.0, 10.0)] * 3),
    'SineGenerator': (4, [(0.0, 1.0)] * 2),
    'STAGGERGenerator': (3, [(0, 2)] * 3),
    'MIXEDGenerator': (2, [BIT, BIT, (0.0, 1.0), (0.0, 1.0)]),
    'AGRAWALGenerator': (10, [(20000.0, 150000.0), (0.0, 85000.0), AGE, (0, 4), (0, 19), (0, 8), (50000.0, 1350000.0), (1, 30), (0.0, 500000.0)]),
}
ROWS = ['SEAGenerator', 'SineGenerator', 'STAGGERGenerator', 'MIXEDGenerator', 'AGRAWALGenerator', 'HyperplaneGenerator', 'LEDGenerator', 'LEDGeneratorDrift',
        'WaveformGenerator']


def noisy(few, many):
    return {k: lambda pt, rng: many if pt.leaf('_has_noise') else few for k in ('_n_features', 'n_features')}


def always(n):
    return {'_n_features': [n], 'n_features': [n]}


SIZE = {'SEAGenerator': always(3), 'STAGGERGenerator': always(3), 'MIXEDGenerator': always(4), 'AGRAWALGenerator': always(9), 'SineGenerator': noisy(2, 4),
        'LEDGenerator': noisy(7, 24), 'LEDGeneratorDrift': noisy(7, 24), 'WaveformGenerator': noisy(21, 40)}
