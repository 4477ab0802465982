"""C07: constructor parameters are kept as given."""
import ast

from .. import whole
from .options import Options, UNK

FLOORS = {'parameter_obligations': 300, 'classes_analysed': 65}
FAMS = ('learner', 'stream', 'detector', 'transform')
# Their parameters are the data itself (replaced by its parsed form) or describe one another; the statement excludes them.
OUTSIDE = ('DataStream', 'FileStream', 'TemporalDataStream', 'ConceptDriftStream')
# Documented fallback when the value passed is not one of the valid options: parameter -> value types of the fallback.
FALLBACK = {'leaf_prediction': ('str',), 'split_criterion': ('str',), 'rule_prediction': ('str',), 'ordered_rules': ('bool',),
            'drift_detection_method': ('NoneType',), 'warning_detection_method': ('NoneType',)}
# generate_drift is documented to switch the classification function.
DRIFT = {'generate_drift': {'classification_function'}}


def fallback(p, atoms):
    rest = [a for a in atoms if a != ('p', p, ())]
    if p == 'nominal_attributes':
        return all(a[0] == 'n' and a[1].endswith(':list') for a in rest)
    return p in FALLBACK and all(a[0] == 'c' and a[1] in FALLBACK[p] for a in rest)


def value_of(I, c, p, s, selfname):
    """Atoms self.p denotes when the constructor has finished."""
    g = c.find_any(p)
    root = ('p', selfname, ())
    if g and g[0] == 'getter':
        gs = I.summ.get((g[1], c, ()))
        if gs is None:
            return None
        out = set()
        for a in gs.ret:
            if a[0] == 'p' and a[1] == g[1].params[0]:
                if len(a[2]) == 1:
                    v = s.heap.get((root, a[2][0]))
                    if v is None:
                        return None
                    out |= v
                else:
                    out.add(a)
            else:
                out.add(a)
        return out
    return s.heap.get((root, p))


def only_from(prog, base):
    """base and the private methods mentioned only by functions of that name."""
    got = getattr(prog, '_only_from', None)
    if got is None:
        users = {}
        prog._users = {}
        for f in prog.funcs:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute):
                    users.setdefault(x.attr, set()).add(f.name)
                    prog._users.setdefault(x.attr, set()).add(f.cls)
        got = set(base)
        while True:
            more = {f.name for f in prog.funcs if f.name.startswith('_') and not f.name.startswith('__') and f.name not in got
                    and users.get(f.name) and users[f.name] <= got}
            if not more:
                break
            got |= more
        prog._only_from = got
    return got


def collect(I, c, ents):
    init = c.find('__init__')
    bad, n, acc = [], 0, []
    if init is None:
        return 0, [], []
    s = I.summ.get((init, c, ()))
    params = [p for p in init.all_params[1:]]
    for p in params:
        n += 1
        v = value_of(I, c, p, s, init.params[0])
        where = (init.file, init.node.lineno)
        if v is None or not v:
            bad.append(('parameter-not-kept', '%s(%s)' % (c.name, p), 'the value passed as %s is not available as %s.%s' % (p, c.name, p),
                        where, []))
            continue
        if ('p', p, ()) not in v:
            bad.append(('parameter-replaced', '%s(%s)' % (c.name, p), '%s.%s is not the value passed as %s (%s)' % (
                c.name, p, p, sorted(map(str, v))[:2]), where, []))
        elif len(v) > 1 and not fallback(p, v):
            acc.append((p, sorted(str(x) for x in v if x != ('p', p, ()))))
    opts = Options(I.P, c)
    mro = set(c.mro())
    funcs = sorted({k[0] for k in I.summ if k[1] is c and k[0].cls in mro}, key=lambda f: f.qual)
    for p in params:
        v = value_of(I, c, p, s, init.params[0])
        if not v or len(v) < 2 or p not in FALLBACK:
            continue
        g = c.find_any(p)
        names = {p}
        if g and g[0] == 'getter':
            gs = I.summ.get((g[1], c, ()))
            names |= {a[2][0] for a in (gs.ret if gs else ()) if a[0] == 'p' and len(a[2]) == 1}
        for val in sorted(opts.accepted(p, names, funcs), key=repr):
            n += 1
            for fld in sorted(names):
                got = opts.keeps(init, p, val, fld)
                if got is not UNK and (type(got) is not type(val) or got != val):
                    bad.append(('option-replaced', '%s(%s)' % (c.name, p), '%s=%r is a known option, yet the constructor keeps %r' % (
                        p, val, got), (init.file, init.node.lineno), []))
    # fields behind the parameters
    fields = {}
    for p in params:
        fields[p] = p
        g = c.find_any(p)
        if g and g[0] == 'getter':
            gs = I.summ.get((g[1], c, ()))
            for a in (gs.ret if gs else ()):
                if a[0] == 'p' and a[1] == g[1].params[0] and len(a[2]) == 1:
                    fields[a[2][0]] = p
    exempt = only_from(I.P, {'__init__', 'set_params', '__setstate__'})
    for f, _ in ents:
        if f.name in exempt or f.kind == 'setter' or f.static or not f.params:
            continue
        if f.name.startswith('_') and not f.name.startswith('__') and I.P._users.get(f.name, set()) <= set(c.mro()):
            continue    # seen through the public methods of this class that call it, if any does
        fs = I.summ.get((f, c, ()))
        if fs is None:
            continue
        n += 1
        for (a, k), w in sorted(fs.muts.items(), key=repr):
            if a == ('p', f.params[0], ()) and k.startswith('attr:') and k[5:] in fields:
                if fields[k[5:]] in DRIFT.get(f.name, ()):
                    continue
                v = fs.heap.get((a, k[5:]))
                if v is not None and v <= {('p', f.params[0], (k[5:],))}:
                    continue    # puts the value back
                ch = whole.chain2(w)
                bad.append(('parameter-overwritten', '%s %s' % (ch[0][2].rsplit('.', 1)[0], fields[k[5:]]),
                            '%s.%s changes the parameter %s' % (c.name, f.name, fields[k[5:]]), ch[0][:2], ch))
    return n, bad, acc


def check(prog, res):
    res.rule('when a constructor returns, attribute p of the object is the very value passed as parameter p')
    res.rule('no method other than the constructor, set_params and property setters assigns a parameter attribute')
    roots = [c for c in whole.all_roots(prog, None, FAMS) if c.name not in OUTSIDE]
    seen = {}
    for c, (n, bad, acc) in whole.run(prog, roots, collect, res):
        res.count('parameter_obligations', n)
        for rule, con, msg, where, tr in bad:
            seen.setdefault((rule, con), []).append((msg, where, tr))
        for p, other in acc:
            res.add('parameter-substituted', '%s(%s)' % (c.name, p), '%s.%s may differ from the value passed as %s: %s' % (
                c.name, p, p, other[:3]))
    for (rule, con), l in sorted(seen.items()):
        msg, where, tr = l[0]
        res.add(rule, con, msg, where, ['%s:%s %s' % tuple(t[:3]) for t in tr])
