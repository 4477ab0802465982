"""C29: transforms replace values by what their window or option defines."""
from . import laws_transforms

FLOORS = {'laws': 4, 'law_obligations': 20}


def check(prog, res):
    res.rule('every path through the transforms is compared, under random interpretations of what it reads, with the definition written down in '
             'skcheck/lawbook/transforms.py: which cells are replaced, by what, and what enters the window')
    laws_transforms.check(prog, res)
