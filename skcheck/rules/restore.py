"""Does reset()/restart() put back every piece of state that using the object changes?  Shared by C08 and C09."""
import ast

NOT_USE = {'__init__', '__new__', 'reset', 'restart', 'set_params', '__setstate__', '__getstate__', 'generate_drift',
           'prepare_for_use', 'clear', '__del__'}
RESETS = ('reset', 'restart', 'clear', '__init__')


def parents(node):
    out = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


class Musts:
    """Facts about statements a method certainly executes."""

    def __init__(self, I):
        self.I = I
        self._par = {}

    def par(self, f):
        if f not in self._par:
            self._par[f] = parents(f.node)
        return self._par[f]

    def unconditional(self, f, node, field=None):
        """Every normal run of f executes `node` (for a guard on the field itself: when there is something to reset)."""
        par = self.par(f)
        x = node
        chain = set()
        while x is not f.node:
            chain.add(x)
            p = par.get(x)
            if p is None:
                return False
            if isinstance(p, (ast.If, ast.IfExp)):
                if x is not p.test:
                    if not (field and x in getattr(p, 'body', []) and self.guards(p.test, field)):
                        return False
            elif isinstance(p, (ast.For, ast.AsyncFor)):
                if x is not p.iter and not (isinstance(p.iter, (ast.Tuple, ast.List)) and p.iter.elts) and not (
                        field and x in p.body):
                    return False
            elif isinstance(p, ast.While):
                if x is not p.test:
                    return False
            elif isinstance(p, ast.Try):
                if x in p.handlers or x in p.orelse:
                    return False
            elif isinstance(p, ast.ExceptHandler):
                return False
            elif isinstance(p, ast.BoolOp):
                if x is not p.values[0]:
                    return False
            elif isinstance(p, (ast.FunctionDef, ast.Lambda)) and p is not f.node:
                return False
            elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                return False
            x = p
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n not in chain and (n.lineno, n.col_offset) < (node.lineno, node.col_offset):
                return False
        return True

    @staticmethod
    def guards(test, field):
        names = {n.attr for n in ast.walk(test) if isinstance(n, ast.Attribute)}
        consts = {n.value for n in ast.walk(test) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        return field in names | consts and not (names - {field})

    def delegated(self, f, ctx, seen=None):
        """Fields x for which f certainly calls self.x.reset() (or restart/clear), or that it certainly refills."""
        seen = set() if seen is None else seen
        if (f, ctx) in seen or not f.params:
            return {}
        seen.add((f, ctx))
        me = ('p', f.params[0], ())
        out = {}
        for key, evs in self.I.events.items():
            if key[0] is not f or key[1] is not ctx:
                continue
            for ev in evs:
                if ev[0] == 'call':
                    g, gctx, node, bound = ev[1:5]
                    if not g.params or g.static:
                        continue
                    recv, name = bound.get(g.params[0]) or (), g.name
                elif ev[0] == 'mcall':
                    g, name, recv, node = None, ev[1], ev[2], ev[3]
                else:
                    continue
                if g is not None and set(recv) == {me}:
                    if self.unconditional(f, node):
                        for k, v in self.delegated(g, gctx, seen).items():
                            out.setdefault(k, v)
                    continue
                if name not in RESETS:
                    continue
                flds = [a[2][0] for a in recv if a[0] == 'p' and a[1] == f.params[0] and len(a[2]) == 1]
                if flds and len(flds) == len(recv):
                    for x in flds:
                        if self.unconditional(f, node, x):
                            if out.get(x, (0, None))[1] is None:
                                out[x] = ('call', g, gctx if g is not None else None)
        for n in ast.walk(f.node):
            if isinstance(n, ast.For):
                vs = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                for b in self.refilled(n.body, f, ctx, vs):
                    if self.unconditional(f, n):
                        out.setdefault(b, ('refill', n.iter, f))
            elif isinstance(n, ast.Assign) and self.unconditional(f, n):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and not (t.slice.lower or t.slice.upper or t.slice.step):
                        b = self.self_attr(self.alias(t.value, f), f)
                        if b:
                            out.setdefault(b, ('refill', n.value, f))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'fill' and len(n.args) == 1:
                b = self.self_attr(self.alias(n.func.value, f), f)
                if b and self.unconditional(f, n):
                    out.setdefault(b, ('refill', n.args[0], f))
        return out

    def refilled(self, body, f, ctx, vs, depth=0):
        """Fields of self of which every pass of the loop stores the element at the loop's index."""
        out = set()
        for s in body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for t in t.elts if isinstance(t, ast.Tuple) else [t]:
                        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Name) and t.slice.id in vs:
                            b = self.self_attr(self.alias(t.value, f), f)
                            if b:
                                out.add(b)
            elif isinstance(s, ast.If):
                if s.orelse:
                    out |= self.refilled(s.body, f, ctx, vs, depth) & self.refilled(s.orelse, f, ctx, vs, depth)
            elif isinstance(s, ast.With):
                out |= self.refilled(s.body, f, ctx, vs, depth)
            if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and depth < 3 and ctx is not None:
                c = s.value
                if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and f.params and c.func.value.id == f.params[0]:
                    g = ctx.find(c.func.attr)
                    if g is not None and not g.static and g.params:
                        sub = {q for q, a in zip(g.params[1:], c.args) if isinstance(a, ast.Name) and a.id in vs}
                        sub |= {k.arg for k in c.keywords if isinstance(k.value, ast.Name) and k.value.id in vs}
                        if sub and not any(isinstance(x, ast.Return) for x in ast.walk(g.node)):
                            out |= self.refilled(g.node.body, g, ctx, sub, depth + 1)
            if any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for x in ast.walk(s)):
                break
        return out

    @staticmethod
    def alias(e, f):
        """The expression a local name stands for, if it is assigned once."""
        if isinstance(e, ast.Name):
            d = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(d) == 1:
                return d[0]
        return e

    @staticmethod
    def self_attr(e, f):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == f.params[0]:
            return e.attr
        return None


def tag(a):
    return a[1].split(':')[-1]


def abstract(v, selfname, ctor_params, old):
    """Value of a field in terms both the constructor and reset can express."""
    out = set()
    for a in v or ():
        if a[0] == 'c':
            out.add(('const', a[1], a[2]))
        elif a[0] == 'p' and a[1] in ctor_params and not a[2]:
            out.add(('param', a[1]))
        elif a[0] == 'p' and a[1] == selfname and len(a[2]) == 1:
            x = a[2][0]
            out.add(('param', x.lstrip('_') if x not in ctor_params else x))
        elif a[0] == 'n':
            out.add(('new', a[1], a[2]))
        else:
            out.add(('other', str(a)))
    return out


def site_event(I, site):
    """The external or constructor call at an allocation site."""
    mod, line, col = site.split(':')[:3]
    for key, evs in I.events.items():
        if key[0].module.name != mod:
            continue
        for ev in evs:
            node = ev[2] if ev[0] == 'ext' else ev[3] if ev[0] in ('call', 'mcall') else None
            if node is not None and str(node.lineno) == line and str(node.col_offset) == col:
                yield key[0], ev


def args_of(I, site, ctor_params):
    """{argument: abstract constant/parameter} of the call allocating at `site`."""
    res = {}
    for f, ev in site_event(I, site):
        me = f.params[0] if f.params and not f.static else None
        if ev[0] == 'call' and ev[1].name == '__init__':
            items = [(p, v) for p, v in ev[4].items() if p != ev[1].params[0]]
            res['()'] = ev[1].qual
        elif ev[0] == 'ext':
            items = list(enumerate(ev[3])) + [(k, v) for k, v in ev[4].items()]
            res['()'] = ev[1]
        else:
            continue
        for k, v in items:
            ab = set()
            for a in v:
                if a[0] == 'c':
                    ab.add(('const', a[2]))
                elif a[0] == 'p' and a[1] == me and len(a[2]) == 1 and (a[2][0] in ctor_params or a[2][0].lstrip('_') in ctor_params):
                    ab.add(('param', a[2][0].lstrip('_')))
                elif a[0] == 'p' and a[1] in ctor_params and not a[2] and f.name == '__init__':
                    ab.add(('param', a[1]))
                else:
                    ab = None
                    break
            res[k] = ab or None
    return res


FILL = {'numpy.zeros': '0', 'numpy.ones': '1', 'numpy.zeros_like': '0', 'numpy.ones_like': '1'}


def differs(I, ci, cr, ctor_params):
    """Why the value reset gives a field cannot be the one the constructor gives it (None if it can)."""
    if not ci or not cr or any(a[0] == 'other' for a in ci | cr):
        return None
    if ci == cr or ci & cr and (len(ci) > 1 or len(cr) > 1) and cr <= ci:
        return None
    kc, kr = {a for a in ci if a[0] == 'const'}, {a for a in cr if a[0] == 'const'}
    none = ('const', 'NoneType', 'None')
    if kc == ci and kr == cr:
        if ci == {none} and len(cr) == 1:
            return 'the constructor starts from None, reset from %s' % sorted(cr)[0][2]
        num = {float(a[2]) if a[1] in ('int', 'float') else a[2] for a in ci if a[2] != '?'}
        numr = {float(a[2]) if a[1] in ('int', 'float') else a[2] for a in cr if a[2] != '?'}
        if not numr <= num and all(a[2] != '?' for a in ci | cr):
            return 'the constructor sets it to %s, reset to %s' % (sorted(a[2] for a in ci), sorted(a[2] for a in cr))
        return None
    if ci == {none}:
        return None      # built eagerly by reset, lazily after construction
    pc, pr = {a for a in ci if a[0] == 'param'}, {a for a in cr if a[0] == 'param'}
    if pc == ci and pr == cr and len(pc) == len(pr) == 1 and pc != pr:
        if next(iter(pr))[1] in ctor_params:
            return 'the constructor sets it to the parameter %s, reset to %s' % (next(iter(pc))[1], next(iter(pr))[1])
        return None
    if kr == cr and len(cr) == 1 and not kc:
        if pc == ci and pc:
            return 'the constructor sets it to the parameter %s, reset to the constant %s' % (sorted(pc)[0][1], sorted(cr)[0][2])
        if cr == {none} or all(a[0] == 'new' for a in ci) and not all(tag(a) in ('bin', 'b.len', 'dim') for a in ci):
            return 'the constructor builds a value for it, reset sets it to %s' % sorted(cr)[0][2]
        return None
    if kc == ci and all(a[0] == 'new' for a in cr) and len(ci) == 1:
        t = {tag(a) for a in cr}
        if t & {'list', 'dict', 'set', 'tuple', 'deque', 'rng'} or any(x.startswith('inst.') for x in t):
            return 'the constructor sets it to %s, reset to a new %s' % (sorted(ci)[0][2], sorted(t)[0])
        return None
    if len(ci) == len(cr) == 1 and {a[0] for a in ci | cr} == {'new'}:
        a, b = next(iter(ci)), next(iter(cr))
        if a[2] or b[2]:
            return None
        ta, tb = tag(a), tag(b)
        if ta.startswith('inst.') and tb.startswith('inst.') and ta != tb:
            return 'the constructor builds %s, reset builds %s' % (ta[5:], tb[5:])
        xa, xb = args_of(I, a[1], ctor_params), args_of(I, b[1], ctor_params)
        fa, fb = FILL.get(xa.get('()')), FILL.get(xb.get('()'))
        if fa and fb and fa != fb:
            return 'the constructor fills it with %s, reset with %s' % (fa, fb)
        if xa.get('()') == xb.get('()') and xa:
            for k in sorted(set(xa) & set(xb), key=str):
                if k != '()' and xa[k] and xb[k] and xa[k] != xb[k]:
                    return 'argument %s of %s differs: %s / %s' % (k, xa['()'], sorted(xa[k]), sorted(xb[k]))
            miss = (set(xa) ^ set(xb)) - {'()'}
            if miss and ta.startswith('inst.'):
                return 'argument %s of %s is given only by one of them' % (sorted(map(str, miss))[0], xa['()'])
    return None


def analyse(I, c, ents, name, exempt=()):
    """(number of state fields, [(field, kind, message, where)]) for one class."""
    init, r = c.find('__init__'), c.find(name)
    if r is None:
        return None
    si = I.summ.get((init, c, ())) if init is not None else None
    sr = I.summ.get((r, c, ()))
    if sr is None:
        return None
    me_i = ('p', init.params[0], ()) if init is not None else None
    me_r = ('p', r.params[0], ())
    params = list(init.all_params[1:]) if init is not None else []
    pfields = set(params)
    for p in params:
        g = c.find_any(p)
        if g and g[0] == 'getter':
            gs = I.summ.get((g[1], c, ()))
            for a in (gs.ret if gs else ()):
                if a[0] == 'p' and a[1] == g[1].params[0] and len(a[2]) == 1:
                    pfields.add(a[2][0])
    state = {}
    for f, _ in ents:
        if f.name in NOT_USE or f.static or not f.params or f.kind in ('setter', 'deleter'):
            continue
        if f.name.startswith('_') and not (f.name.startswith('__') and f.name.endswith('__')):
            continue
        s = I.summ.get((f, c, ()))
        if s is None:
            continue
        for (a, k), w in s.muts.items():
            if a[0] == 'p' and a[1] == f.params[0]:
                fld = a[2][0] if a[2] else k[5:] if k.startswith('attr:') else None
                if fld and fld not in ('*',):
                    deep = bool(a[2])
                    state.setdefault(fld, {})[f.name] = deep
    M = Musts(I)
    deleg = M.delegated(r, c)
    subs, bad, n = set(), [], 0
    for fld in sorted(state):
        deep_only = all(state[fld].values())
        if fld in pfields and not (deep_only and fld in deleg) and not deep_only:
            continue                      # constructor parameters: C07
        if (c.name, fld) in exempt:
            continue
        vi = si.heap.get((me_i, fld)) if si is not None else None
        vr = sr.heap.get((me_r, fld))
        if fld in pfields and fld not in deleg:
            if vr is None and deep_only:
                if name == 'restart':
                    n += 1
                    bad.append((fld, 'held-not-restarted', '%s.%s draws from %s, which %s leaves where it is' % (c.name, sorted(state[fld])[0], fld, name),
                                (r.file, r.node.lineno), r.qual))
                continue
        n += 1
        who = sorted(state[fld])
        old = [a for a in vr or () if a[0] == 'p' and a[1] == r.params[0] and a[2][:1] == (fld,)]
        if vr is None or old:
            if fld in deleg:
                d = deleg[fld]
                if d[0] == 'call' and d[1] is not None and d[1].cls is not None:
                    subs.add((d[2].qual if d[2] is not None else d[1].cls.qual, d[1].name))
                continue
            if vi is None:
                continue                  # established by the first training call, whatever it was before
            if old and ('p', init.params[0], (fld,)) in vi or vi and any(
                    a[0] == 'p' and a[1] == init.params[0] and a[2][:1] == (fld,) for a in vi):
                continue                  # conditional in the constructor as well
            bad.append((fld, 'not-restored' if vr is None else 'maybe-not-restored',
                        '%s.%s %s leave %s as %s left it' % (c.name, name, 'does' if vr is None else 'may', fld, who[0]),
                        (r.file, r.node.lineno), r.qual))
            continue
        if si is None or vi is None:
            continue
        why = differs(I, abstract(vi, init.params[0], params, fld), abstract(vr, r.params[0], params, fld), params)
        if why:
            bad.append((fld, 'restored-differently', '%s.%s: %s' % (c.name, fld, why), (r.file, r.node.lineno), r.qual))
    return n, bad, sorted(subs)


def run(prog, res, roots, names, exempt, count):
    """Analyse the roots and, transitively, the classes their reset delegates to."""
    from .. import whole
    agg = {}
    done = set()
    todo = [(c, None) for c in roots]
    while todo:
        cur = sorted({c for c, _ in todo}, key=lambda c: c.qual)
        want = {}
        for c, n in todo:
            want.setdefault(c, set()).update([n] if n else [x for x in names if c.find(x) is not None][:1])
        done |= {(c, n) for c in want for n in want[c]}

        def collect(I, c, ents):
            return [(n, analyse(I, c, ents, n, exempt)) for n in sorted(want[c])]
        todo = []
        for c, facts in whole.run(prog, cur, collect, res):
            for name, r in facts:
                if r is None:
                    continue
                n, bad, subs = r
                res.count(count, n)
                res.sample('%s.%s: %d state fields' % (c.name, name, n))
                for fld, kind, msg, where, q in bad:
                    agg.setdefault((kind, q, fld), []).append((c.name, msg, where))
                for q, m in subs:
                    k = prog.by_qual(q) if hasattr(prog, 'by_qual') else next((x for x in prog.classes if x.qual == q), None)
                    if k is not None and (k, m) not in done and m != '__init__':
                        todo.append((k, m))
    for (kind, q, fld), l in sorted(agg.items()):
        who = sorted({x[0] for x in l})
        res.add(kind, '%s %s' % (q, fld), l[0][1] + (' (also %s)' % ', '.join(who[1:6]) if len(who) > 1 else ''), l[0][2])
