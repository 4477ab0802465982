"""C05: instances never share mutable state."""
import ast

from .. import whole
from ..interp import Frame, kinds

FLOORS = {'method_obligations': 1500, 'classes_analysed': 90}


def mutable_default(d):
    """The default is an object created once, when the function is defined, that methods could change."""
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(d, ast.Call):
        return ast.unparse(d.func) not in ('float', 'int', 'str', 'bool', 'tuple', 'frozenset', 'complex', 'range')
    return False


def collect(I, c, ents):
    out = []
    n = 0
    shared = []
    for f, _ in ents:
        s = I.summ.get((f, c, ()))
        if s is None or f.static or not f.params:
            continue
        md = {p for p, d in f.defaults.items() if mutable_default(d)}
        if not md:
            continue
        for p in sorted(md):
            for (a, k), w in sorted(s.muts.items(), key=repr):
                if a[0] == 'p' and a[1] == p:
                    out.append((f.name, 'default:%s:%s' % (f.qual, p), tuple(map(str, a[2])), k, whole.chain2(w)))
        for (a, fld), v in s.heap.items():
            if a[0] == 'p' and a[1] == f.params[0]:
                for x in v:
                    if x[0] == 'p' and x[1] in md:
                        shared.append((f, x[1], a[2] + (fld,)))
    for f0, p, where in shared:
        for f, _ in ents:
            s = I.summ.get((f, c, ()))
            if s is None or f.static or not f.params or f.name == 'set_params':
                continue    # set_params(base__x=...) is the explicit request to reconfigure the held object
            for (a, k), w in sorted(s.muts.items(), key=repr):
                if a[0] == 'p' and a[1] == f.params[0] and a[2][:len(where)] == where:
                    out.append((f.name, 'default:%s:%s' % (f0.qual, p), tuple(map(str, a[2])), k, whole.chain2(w)))
    # class-level and module-level objects kept in a field, and changed through the field
    kept = {}
    for f, _ in ents:
        s = I.summ.get((f, c, ()))
        if s is None or f.static or not f.params:
            continue
        I.frame = Frame(f, c, (f, c, ()))
        I.frame.selfname = f.params[0]
        for (a, fld), v in s.heap.items():
            if a[0] == 'p' and a[1] == f.params[0]:
                for x in v:
                    if x[0] == 'g' and x[1] not in ('numpy.random', 'random'):
                        ts = kinds(I.types(x))
                        if ts & {'list', 'dict', 'set', 'deque'} or any(isinstance(t, tuple) and t[0] in ('inst', 'nd') for t in ts):
                            kept.setdefault(a[2] + (fld,), x[1])
    for f, _ in ents:
        s = I.summ.get((f, c, ()))
        if s is None or f.static or not f.params or f.name == 'set_params' or not kept:
            continue
        for (a, k), w in sorted(s.muts.items(), key=repr):
            if a[0] == 'p' and a[1] == f.params[0]:
                for where, g in kept.items():
                    if a[2][:len(where)] == where:
                        out.append((f.name, g, a[2][len(where):], k, whole.chain2(w)))
    for f, _ in ents:
        s = I.summ.get((f, c, ()))
        if s is None:
            continue
        n += 1
        for (a, k), w in sorted(s.muts.items(), key=repr):
            if a[0] == 'g' and a[1] not in ('numpy.random', 'random'):
                out.append((f.name, a[1], tuple(map(str, a[2])), k, whole.chain2(w)))
    return n, out


def check(prog, res):
    res.rule('no method of any public class writes to, or changes in place, a class attribute, a module-level object or the '
             'object created once for a default argument (followed through fields, containers, copies and calls)')
    seen = {}
    for c, (n, facts) in whole.run(prog, whole.all_roots(prog), collect, res):
        res.count('method_obligations', n)
        for m, g, path, k, tr in facts:
            seen.setdefault((tr[0][2], g, k) if not g.startswith('default:') else (g, '', ''), []).append((c.name + '.' + m, path, tr))
    for (q, g, k), l in sorted(seen.items()):
        if q.startswith('default:'):
            who = sorted({x[0] for x in l})
            tr = l[0][2]
            res.add('shared-default-modified', q, '%s change the object shared by every instance created with the default value '
                    '(%s)' % (', '.join(who[:5]) + (' ...' if len(who) > 5 else ''), '.'.join(l[0][1])), tr[0][:2],
                    ['%s:%s %s' % t[:3] for t in tr])
            continue
        who = sorted({x[0] for x in l})
        tr = l[0][2]
        res.add('shared-state-modified', '%s %s %s' % (q, g, k), '%s change %s%s (%s), which every instance shares' % (
            ', '.join(who[:5]) + (' ...' if len(who) > 5 else ''), g, ''.join('.' + x for x in l[0][1]), k), tr[0][:2],
            ['%s:%s %s' % t[:3] for t in tr])
