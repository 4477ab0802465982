"""C26: the generators label their samples by the published concepts."""
import ast

from .. import laws
from . import laws_generators as G

FLOORS = {'concept_lists': 2, 'concept_obligations': 10, 'law_obligations': 100}


def literal(node):
    try:
        return ast.literal_eval(node)
    except (ValueError, SyntaxError):
        return None


def concept_list(c):
    """Names of the functions in the list the constructor sets up, in order."""
    for k in c.mro():
        for x in ast.walk(k.node):
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.Tuple)) and any(
                    isinstance(t, ast.Attribute) and t.attr == '_classification_functions' or isinstance(t, ast.Name) and t.id == '_classification_functions'
                    for t in x.targets):
                out = [y.attr if isinstance(y, ast.Attribute) else y.id if isinstance(y, ast.Name) else None for y in x.value.elts]
                if all(out):
                    return out, x.lineno
    return None, None


def table(c, name):
    for k in c.mro():
        for s in k.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                v = s.value
                if isinstance(v, ast.Call) and v.args:
                    v = v.args[0]
                return literal(v), s.lineno
    return None, None


SEGMENTS = [[1, 1, 1, 0, 1, 1, 1], [0, 0, 1, 0, 0, 1, 0], [1, 0, 1, 1, 1, 0, 1], [1, 0, 1, 1, 0, 1, 1], [0, 1, 1, 1, 0, 1, 0], [1, 1, 0, 1, 0, 1, 1],
            [1, 1, 0, 1, 1, 1, 1], [1, 0, 1, 0, 0, 1, 0], [1, 1, 1, 1, 1, 1, 1], [1, 1, 1, 1, 0, 1, 1]]
TRIANGLE = [max(6 - abs(i - 6), 0) for i in range(21)]
WAVES = [TRIANGLE, [max(6 - abs(i - 14), 0) for i in range(21)], [max(6 - abs(i - 10), 0) for i in range(21)]]


def check(prog, res):
    res.rule('i-th concept function and next_sample of a generator equal the published ones in skcheck/lawbook/generators.py '
             '(path summaries, value numbering with random interpretation)')
    for cname, (n, dom) in sorted(G.CONCEPTS.items()):
        c = prog.cls(cname)
        if c is None:
            continue
        names, line = concept_list(c)
        if names is None:
            res.count('laws_undecided')
            continue
        res.count('concept_lists')
        if len(names) != n:
            res.add('concept-list', cname, '%s lists %d concepts instead of %d' % (cname, len(names), n), (c.module.rel, line))
            continue
        for i, name in enumerate(names):
            f = laws.find(c, name)
            if f is None:
                continue
            ref = laws.find(laws.book().cls(cname), 'concept_%d' % i)
            rng = dict(zip(['param ' + p for p in ref.all_params], dom))
            got = laws.compare(prog, res, cname, name, rng, n=1500, bname='concept_%d' % i, quiet=True, count='concept_obligations')
            if got is None or not got[3]:
                continue
            old = 'recorded_%d' % i
            if laws.find(laws.book().cls(cname), old) is not None:
                alt = laws.compare(prog, res, cname, name, rng, n=1500, bname=old, quiet=True, count='concept_obligations')
                if alt is not None and alt[0] and not alt[3]:
                    res.add('concept', '%s.%s as recorded' % (cname, name), '%s is not concept %d of %s' % (f.qual, i, cname), (f.file, f.node.lineno))
                    continue
            res.add('concept', '%s %d' % (cname, i), '%s is not concept %d of %s: %s' % (f.qual, i, cname, got[3]), (f.file, f.node.lineno))
    for cname in G.ROWS:
        if prog.cls(cname) is not None:
            laws.compare(prog, res, cname, 'next_sample', dict(G.STATE, **G.SIZE.get(cname, {})), opaque=('_generate_drift', '_perturb_value'),
                         skip=('current_sample_x', 'current_sample_y', 'result'))
    laws.compare(prog, res, 'AGRAWALGenerator', '_perturb_value', G.PERTURB)
    laws.compare(prog, res, 'HyperplaneGenerator', '_generate_drift', G.STATE)
    for cname, name, want in (('LEDGenerator', '_ORIGINAL_INSTANCES', SEGMENTS), ('LEDGeneratorDrift', '_ORIGINAL_INSTANCES', SEGMENTS),
                              ('WaveformGenerator', '_H_FUNCTION', WAVES)):
        c = prog.cls(cname)
        if c is None:
            continue
        got, line = table(c, name)
        if got is None:
            res.count('laws_undecided')
            continue
        res.count('tables')
        for i, row in enumerate(want):
            if i >= len(got) or list(got[i]) != row:
                res.add('table', '%s.%s row %d' % (cname, name, i), 'row %d of %s.%s is not the published one' % (i, cname, name), (c.module.rel, line))
