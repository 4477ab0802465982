"""C17: training calls return the learner."""
from .. import whole
from ..interp import NONE

FLOORS = {'training_method_obligations': 80, 'classes_analysed': 40}
NAMES = ('fit', 'partial_fit')


def collect(I, c, ents):
    out = []
    for f, _ in ents:
        if f.name not in NAMES or f.kind in ('getter', 'setter') or f.static:
            continue
        s = I.summ.get((f, c, ()))
        if s is None:
            continue
        me = ('p', f.params[0], ())
        out.append((f.name, f.qual, f.file, f.node.lineno, bool(s.noreturn), sorted(
            'None' if a == NONE else str(a) for a in s.ret if a != me)))
    return out


def check(prog, res):
    res.rule('on every path on which fit or partial_fit of a learner or pipeline returns, it returns its receiver')
    fams = whole.families(prog)
    roots = fams['learner'] + [c for c in fams['other'] if c.name == 'Pipeline'] + fams['transform']
    for c, facts in whole.run(prog, roots, collect, res):
        for n, q, file, line, noret, other in facts:
            res.count('training_method_obligations')
            if other:
                res.add('training-call-result', q, '%s.%s may return %s instead of self' % (c.name, n, other[0]), (file, line))
