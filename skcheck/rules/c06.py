"""C06: meta-learners train private copies of the estimators and detectors they are configured with."""
import ast

from .. import whole
from ..interp import Frame, kinds

FLOORS = {'configured_object_obligations': 200, 'classes_analysed': 40}
SKIP = {'random_state'}


def below_self(f, s):
    """(path below self, reference to something else) for the fields of fresh objects that are stored below self"""
    at, todo = {}, []
    for (a, fld), v in s.heap.items():
        if a[0] == 'p' and a[1] == f.params[0]:
            where = tuple(x for x in a[2] if x != '[:]') + (fld,)
            for x in v:
                if x[0] == 'n' and not x[2]:
                    todo.append((x[1], where))
    while todo:
        site, where = todo.pop()
        if len(where) > 5 or where in at.setdefault(site, set()) or len(at[site]) > 6:
            continue
        at[site].add(where)
        for (a, fld), v in s.heap.items():
            if a[0] == 'n' and a[1] == site:
                w2 = where + a[2] + (fld,)
                for x in v:
                    if x[0] == 'n' and not x[2]:
                        todo.append((x[1], w2))
    out = []
    for (a, fld), v in s.heap.items():
        if a[0] == 'n':
            for where in at.get(a[1], ()):
                for x in v:
                    if x[0] == 'p':
                        out.append((where + a[2] + (fld,), x))
    return out


def is_object(I, x):
    ts = kinds(I.types(x)) - {'none'}
    return not ts & {'num', 'str', 'bool', 'tuple'} and any(isinstance(t, tuple) and t[0] in ('inst', 'ext') for t in ts)


def repeated(I, key, ev):
    """container.append(x) where x is already an element of the container, or is created once before the loop that appends it"""
    out = []
    f = key[0]
    call, recv, val = ev[1], ev[2], ev[3]
    loops, own = [], None

    def find(n, stack):
        nonlocal own, loops
        if n is call:
            loops = list(stack)
        for ch in ast.iter_child_nodes(n):
            find(ch, stack + [n] if isinstance(n, (ast.For, ast.While)) else stack)
    find(f.node, [])
    I.frame = Frame(f, key[1], key)
    I.frame.selfname = f.params[0] if f.cls is not None and not f.static and f.params else None
    if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.args and moved(f, call):
        base = ast.unparse(call.func.value)
        alts, i = [call.args[-1]], 0
        while i < len(alts):
            e = alts[i]
            alts += [e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values if isinstance(e, ast.BoolOp) else []
            i += 1
        again = any(isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice) and ast.unparse(e.value) == base for e in alts)
        if again and any(is_object(I, x) or x[0] == 'n' and x[1].endswith(':deepcopy') for x in val):
            out.append((f.qual, f.file, call.lineno, 'an element of %s is put into it a second time' % base))
            return out
    for x in val:
        if x[0] == 'p' and recv[0] == 'p' and recv[1] == x[1] and x[2] == recv[2] + ('[]',) and recv[2]:
            ts = kinds(I.types(x)) - {'none'}
            if ts & {'num', 'str', 'bool', 'tuple'} or ts and not is_object(I, x) or not moved(f, call):
                continue
            out.append((f.qual, f.file, call.lineno, 'an element of self.%s is put into it a second time' % '.'.join(map(str, recv[2]))))
        elif x[0] == 'n' and not x[2] and loops and x[1].endswith(':deepcopy'):
            mod, line = x[1].rsplit(':', 3)[:2]
            inner = loops[-1]
            if mod == f.module.name and not inner.lineno <= int(line) <= inner.end_lineno and \
                    f.node.lineno <= int(line) <= f.node.end_lineno and not stops(inner, call):
                out.append((f.qual, f.file, call.lineno, 'one copy, made before the loop, is added in every iteration'))
    return out


def stops(loop, call):
    """the loop is left right after the call"""
    for n in ast.walk(loop):
        for b in ('body', 'orelse'):
            l = getattr(n, b, None)
            if isinstance(l, list):
                for i, s in enumerate(l):
                    if any(m is call for m in ast.walk(s)) and any(isinstance(t, (ast.Break, ast.Return)) for t in l[i + 1:]):
                        return True
    return False


def moved(f, call):
    """False when the function takes elements out of containers as well (rotation, replacement)"""
    base = ast.unparse(call.func.value) if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) else ''
    for n in ast.walk(f.node):
        if isinstance(n, ast.Delete) and any(ast.unparse(t).startswith(base) for t in n.targets) or \
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popleft', 'remove') and \
                ast.unparse(n.func.value) == base:
            return False
    return True


def collect(I, c, ents):
    init = c.find('__init__')
    if init is None:
        return 0, [], []
    params = [p for p in init.all_params[1:] if p not in SKIP]
    out = []
    # fields that (may) hold an un-copied reference to a configured object: {field path: param}
    alias = {(p,): p for p in params}
    heaps = []
    for f, _ in ents:
        s = I.summ.get((f, c, ()))
        if s is None or f.static or not f.params or f.name == 'set_params':
            continue    # set_params(base__x=...) is the explicit request to reconfigure the held object
        heaps.append((f, s))
    for _ in range(3):
        for f, s in heaps:
            for (a, fld), v in s.heap.items():
                if a[0] != 'p' or a[1] != f.params[0]:
                    continue
                where = tuple(x for x in a[2] if x != '[:]') + (fld,)
                for x in v:
                    if x[0] != 'p':
                        continue
                    if f is init and x[1] in params:
                        src = x[1]
                    elif x[1] == f.params[0] and x[2] in alias:
                        src = alias[x[2]]
                    else:
                        continue
                    if where not in alias:
                        alias[where] = src
    # references kept in the fields of objects created by the learner and stored below self
    held = []
    for f, s in heaps:
        I.frame = Frame(f, c, (f, c, ()))
        I.frame.selfname = f.params[0]
        for where, x in below_self(f, s):
            if x[1] == f.params[0] and x[2] in alias and where not in alias:
                alias[where] = alias[x[2]]
            elif f is init and x[1] in params and not x[2] and where not in alias:
                alias[where] = x[1]
            elif x[1] == f.params[0] and len(x[2]) == 1 and '[]' in where and x[2][0] != where[0]:
                ts = kinds(I.types(x))
                if 'rng' not in ts and not x[2][0].endswith('random_state') and any(isinstance(t, tuple) and t[0] == 'inst' for t in ts):
                    held.append((where, x[2][0], f))
    shared = []
    fields = {}
    for where, g, f in held:
        fields.setdefault(where, []).append((g, f.qual, f.file, f.node.lineno))
    for f, s in heaps:
        for (a, fld), v in s.heap.items():
            if a[0] == 'p' and a[1] == f.params[0] and fld == '[]' and a[2]:
                for x in v:
                    if x[0] == 'p' and x[1] == f.params[0] and len(x[2]) == 1 and x[2] != a[2][:1]:
                        fields.setdefault(a[2] + ('[]',), []).append((x[2][0], f.qual, f.file, f.node.lineno))
    for f, s in heaps:
        for (a, k), w in s.muts.items():
            if a[0] == 'p' and a[1] == f.params[0]:
                path = tuple(x for x in a[2] if x != '[:]')
                for w2, l in fields.items():
                    if path[:len(w2)] == w2:
                        for g, q, fl, ln in l:
                            shared.append((q, fl, ln, 'self.%s holds self.%s itself and %s changes its elements' %
                                           ('.'.join(map(str, w2[:-1])), g, f.name)))
    for key, evs in I.events.items():
        for ev in evs:
            if ev[0] == 'add':
                shared += repeated(I, key, ev)
            elif ev[0] == 'shared':
                shared.append((key[0].qual, key[0].file, ev[1].lineno, 'one mutable object fills several positions of a container'))
            elif ev[0] == 'ext' and ev[1] == 'copy.copy' and ev[3]:
                I.frame = Frame(key[0], key[1], key)
                I.frame.selfname = key[0].params[0] if key[0].cls is not None and key[0].params else None
                for x in ev[3][0]:
                    ts = kinds(I.types(x)) if x[0] in 'png' else set()
                    if x[0] in 'pg' and (not ts - {'none'} or any(isinstance(t, tuple) and t[0] in ('inst', 'ext') for t in ts)):
                        shared.append((key[0].qual, key[0].file, ev[2].lineno, 'a shallow copy shares the inner state of '
                                       'the object it is made from'))
    n = 0
    for f, s in heaps:
        n += len(params)
        for (a, k), w in sorted(s.muts.items(), key=repr):
            if a[0] != 'p':
                continue
            if f is init and a[1] in params:
                out.append((f.name, a[1], tuple(map(str, a[2])), k, whole.chain2(w)))
            elif a[1] == f.params[0] and a[2]:
                path = tuple(x for x in a[2] if x != '[:]')
                for w2, src in alias.items():
                    if path[:len(w2)] == w2:
                        out.append((f.name, src, tuple(map(str, path)), k, whole.chain2(w)))
    return n, out, shared


def check(prog, res):
    res.rule('no method of a learner trains, resets or otherwise changes an object it was given as a constructor parameter, '
             'neither through the parameter, nor through the field that keeps it, nor through any other field or container '
             'that holds an un-copied reference to it')
    agg = {}
    res.rule('ensemble containers are filled with distinct objects: never with another field of the learner itself, and never '
             'with one object repeated ([obj] * n, [obj for _ in ...]), nor with shallow copies of one')
    for c, (n, facts, shared) in whole.run(prog, whole.families(prog)['learner'], collect, res):
        res.count('configured_object_obligations', n)
        for q, fl, ln, msg in shared:
            res.add('shared-member', q, msg, (fl, ln))
        for m, p, path, k, tr in facts:
            agg.setdefault((c.name, p, tr[0][2]), []).append((m, path, k, tr))
    for (cn, p, q), l in sorted(agg.items()):
        m, path, k, tr = l[0]
        who = sorted({x[0] for x in l})
        res.add('configured-object-modified', '%s(%s) in %s' % (cn, p, q), '%s of %s change the object passed as %s (self.%s, %s)'
                % (', '.join(who[:6]), cn, p, '.'.join(path), k), tr[0][:2], ['%s:%s %s' % t[:3] for t in tr])
