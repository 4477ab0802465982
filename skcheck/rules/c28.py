"""C28: split criteria, attribute observers and split tests follow their definitions."""
from . import laws_statistics

FLOORS = {'laws': 16, 'law_obligations': 100}


def check(prog, res):
    res.rule('every path through the split criteria, the Gaussian estimator, the attribute observers and the split tests is compared, under random '
                'interpretations of what it reads, with the definition written down in skcheck/lawbook/statistics.py')
    laws_statistics.check(prog, res)
