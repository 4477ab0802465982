"""C08: reset() returns an object to its freshly constructed state."""
import ast
from .. import whole
from . import restore

FLOORS = {'state_field_obligations': 350, 'classes_analysed': 60}
# The start of a timing is set anew by every begin call; nothing is ever read across a reset.
EXEMPT = {('RunningTimeMeasurements', '_testing_start'), ('RunningTimeMeasurements', '_training_start')}


def check(prog, res):
    res.rule('every attribute that a public method may change is certainly rewritten by reset (or the object it holds is itself '
             'reset), and no constant, parameter or kind of object put there differs from what the constructor puts there')
    fams = whole.families(prog)
    roots = [c for k in ('learner', 'detector', 'metric', 'buffer') for c in fams[k] if c.find('reset') is not None
             or c.find('restart') is not None and k in ('metric', 'buffer')]
    restore.run(prog, res, roots, ('reset', 'restart'), EXEMPT, 'state_field_obligations')
    restart(res, roots)


def restart(res, roots):
    res.rule('a reset() that runs the constructor again passes on every constructor parameter as the object was given it')
    seen = set()
    for c in roots:
        got, init = c.find('reset') or c.find('restart'), c.find('__init__')
        f = got[1] if isinstance(got, tuple) else got
        init = init[1] if isinstance(init, tuple) else init
        if f is None or init is None or f.qual in seen and f.cls is c:
            continue
        seen.add(f.qual)
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and
                    isinstance(n.func.value, ast.Name) and n.func.value.id == f.all_params[0]):
                continue
            if any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
                continue
            params = init.all_params[1:]
            given = dict(zip(params, n.args))
            given.update({k.arg: k.value for k in n.keywords})
            res.count('constructor_runs')
            for p in params:
                if p not in given or isinstance(given[p], ast.Constant):
                    res.add('restart', '%s %s' % (c.name, p), '%s runs the constructor again without the %s the object was created with' % (f.qual, p),
                            (f.file, n.lineno))
