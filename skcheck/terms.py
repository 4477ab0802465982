"""Path-sensitive term dataflow with quantified loops.

A function is followed statement by statement; values are symbolic *terms* describing where they come from (which parameter,
which drawn batch, which element of which sequence).  A `for` loop over all elements of a known sequence is entered once with a
symbolic index standing for every element, so `zip`, `enumerate`, index loops and comprehensions give the same terms.  Helper
methods are inlined.  Calls of interest are recorded in order, per path.  Nothing is executed and no solver is involved.

Terms: ('c', value) ('param', name) ('self',) ('attr', t, name) ('elem', t, idx) ('idx', L) ('len', t) ('slice', t, lo, hi)
       ('op', name, a, ...) ('call', name, args...) ('tuple', t...) ('wrap', t) ('obj', site, n) ('comp', L, t) ('watch', name, uid)
       ('unk', site)
"""
import ast

IDENT_FUNCS = {'array', 'asarray', 'asanyarray', 'copy', 'deepcopy', 'list', 'tuple', 'atleast_2d', 'ascontiguousarray',
               'check_array', 'asfarray', 'atleast_1d', 'ravel', 'squeeze', 'float', 'int'}
IDENT_METHODS = {'copy', 'tolist', 'astype', 'ravel', 'flatten', 'squeeze', 'item', 'to_numpy'}
MAXPATHS = 20000


class TooManyPaths(Exception):
    pass


class Loop:
    _n = 0

    def __init__(self, domain, node):
        Loop._n += 1
        self.id = Loop._n
        self.domain = domain        # canonical sequence this loop runs over completely, or None
        self.node = node


class Event:
    __slots__ = ('name', 'recv', 'args', 'kw', 'loops', 'node', 'func', 'uid')

    def __init__(self, name, recv, args, kw, loops, node, func, uid):
        self.name, self.recv, self.args, self.kw, self.loops, self.node, self.func, self.uid = name, recv, args, kw, loops, node, func, uid

    def key(self):
        return (self.name, self.recv, self.args, tuple(sorted((k, v) for k, v in self.kw.items() if k != 'classes')), self.loops)

    def arg(self, pos, name, default=None):
        if name in self.kw:
            return self.kw[name]
        return self.args[pos] if pos is not None and pos < len(self.args) else default

    def __repr__(self):
        return '%s(%s)@%s' % (self.name, ', '.join(map(show, self.args)), self.node.lineno)


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'param':
        return t[1]
    if k == 'self':
        return 'self'
    if k == 'attr':
        return show(t[1]) + '.' + t[2]
    if k == 'elem':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'idx':
        return '#%d' % t[1]
    if k == 'watch':
        return '%s@%s' % (t[1], t[2][0])
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:] if isinstance(x, tuple)))


class St:
    __slots__ = ('env', 'fld', 'objs', 'trace', 'facts', 'ret')

    def __init__(self, env, fld, objs, trace, facts):
        self.env, self.fld, self.objs, self.trace, self.facts = env, fld, objs, trace, facts
        self.ret = None

    def copy(self):
        return St(dict(self.env), dict(self.fld), dict(self.objs), self.trace, dict(self.facts))

    def key(self):
        return (tuple(sorted(self.env.items(), key=lambda kv: kv[0])), tuple(sorted(self.fld.items(), key=repr)),
                tuple(sorted(self.objs.items(), key=repr)), tuple(e.key() for e in self.trace))


def subst(t, L, idx):
    if not isinstance(t, tuple):
        return t
    if t == ('idx', L):
        return idx
    return tuple(subst(x, L, idx) if isinstance(x, tuple) else x for x in t)


def mentions(t, what):
    if t == what:
        return True
    return isinstance(t, tuple) and any(mentions(x, what) for x in t)


def subterms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def fixed(t):
    """A constant or a name of a module."""
    return t[0] == 'c' or t[0] == 'attr' and (t[1] == ('mod',) or fixed(t[1])) or t == ('mod',)


class Walker:
    """watch: names of calls recorded as events (a set, or a predicate on (name, call node))."""

    def __init__(self, prog, cls, watch, rows=None, inline=None, maxdepth=10, watch_fields=()):
        self.P, self.cls, self.watch = prog, cls, watch
        self.rows_of = rows or (lambda t: None)
        self.maxdepth = maxdepth
        self.loops = {}
        self._loops = {}
        self.nonempty = set()
        self.objlen = {}
        self.mark = None
        self.on_store = None
        self.iters = 2
        self.sites = []
        self.watch_fields = set(watch_fields)
        self.inline_ok = inline or (lambda f: True)
        self._interesting = {}
        self.stack = []
        self.cur = None
        self.paths_seen = 0

    # ------------------------------------------------------------------ which helpers matter
    def interesting(self, f, seen=None):
        if f in self._interesting:
            return self._interesting[f]
        seen = seen or set()
        if f in seen:
            return False
        seen.add(f)
        r = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = self.callname(n)
                if nm in self.watch:
                    r = True
                    break
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and f.params and n.func.value.id == f.params[0]:
                    g = self.cls.find(n.func.attr) if self.cls is not None else None
                    if g is not None and self.interesting(g, seen):
                        r = True
                        break
            elif isinstance(n, ast.Attribute) and self.watch_fields and n.attr in self.watch_fields and isinstance(n.ctx, ast.Store):
                r = True
                break
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and self.cls is not None and f.params and \
                    n.value.id == f.params[0]:
                g = self.cls.find(n.attr, 'getters')
                if g is not None and g is not f and self.interesting(g, seen):
                    r = True
                    break
        self._interesting[f] = r
        return r

    @staticmethod
    def callname(n):
        return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None

    # ------------------------------------------------------------------ driver
    def run(self, func, args=None):
        """All paths through func: list of (state, how) with how in return/raise."""
        env = {}
        for i, p in enumerate(func.all_params):
            env[p] = ('self',) if i == 0 and func.cls is not None and not func.static else ('param', p)
        if args:
            env.update(args)
        st = St(env, {}, {}, (), {})
        self.stack = [func]
        out = self.function(func, st)
        return out

    def function(self, func, st):
        saved = self.cur
        self.cur = func
        res = []
        outs = self.block(func.node.body if isinstance(func.node.body, list) else [ast.Return(value=func.node.body)], [st])
        for how, s in outs:
            if how == 'fall':
                s.ret = ('c', None)
                res.append(('return', s))
            elif how in ('return', 'raise'):
                res.append((how, s))
        self.cur = saved
        return self.dedupe(res)

    def dedupe(self, outs):
        seen = {}
        for how, s in outs:
            k = (how, s.ret, s.key())
            o = seen.get(k)
            if o is None:
                seen[k] = (how, s)
            else:
                f = o[1].facts
                o[1].facts = {a: b for a, b in f.items() if s.facts.get(a, not b) == b}
        if len(seen) > MAXPATHS:
            raise TooManyPaths(self.cur.qual)
        self.paths_seen = max(self.paths_seen, len(seen))
        return list(seen.values())

    def block(self, stmts, sts):
        cur = [('fall', s) for s in sts]
        for s in stmts:
            nxt = []
            for how, st in cur:
                if how != 'fall':
                    nxt.append((how, st))
                else:
                    nxt.extend(self.stmt(s, st))
            cur = self.dedupe(nxt)
        return cur

    # ------------------------------------------------------------------ statements
    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [('fall', st)]
        return m(s, st)

    def s_Expr(self, s, st):
        return [('fall', a) for _, a in self.ev(s.value, st)]

    def s_Return(self, s, st):
        if s.value is None:
            st.ret = ('c', None)
            return [('return', st)]
        out = []
        for t, a in self.ev(s.value, st):
            a.ret = t
            out.append(('return', a))
        return out

    def s_Raise(self, s, st):
        return [('raise', st)]

    def s_Break(self, s, st):
        return [('break', st)]

    def s_Continue(self, s, st):
        return [('continue', st)]

    def s_Assert(self, s, st):
        return [('fall', a) for v, a in self.cond(s.test, st) if v]

    def s_Assign(self, s, st):
        out = []
        for t, a in self.ev(s.value, st):
            for tg in s.targets:
                self.assign(tg, t, a)
            out.append(('fall', a))
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [('fall', st)]
        out = []
        for t, a in self.ev(s.value, st):
            self.assign(s.target, t, a)
            out.append(('fall', a))
        return out

    def s_AugAssign(self, s, st):
        out = []
        for t, a in self.ev(s.value, st):
            load = _load(s.target)
            for o, b in self.ev(load, a):
                if isinstance(s.op, ast.Add) and o[0] == 'obj':
                    self.obj_add(o, 'ext', t, b)
                    out.append(('fall', b))
                    continue
                v = self.binop(type(s.op).__name__, o, t)
                self.assign(s.target, v, b, aug=(type(s.op).__name__, t))
                out.append(('fall', b))
        return out

    def assign(self, tg, t, st, aug=None):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = t
        elif isinstance(tg, (ast.Tuple, ast.List)):
            star = next((i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, ('unk', id(e)), st)
                else:
                    self.assign(e, self.elem(t, ('c', i if star is None or i < star else i - len(tg.elts)), st), st)
        elif isinstance(tg, ast.Attribute):
            for b, _ in self.ev(tg.value, st):
                st.fld[(b, tg.attr)] = t
                if tg.attr in self.watch_fields:
                    self.event(st, '=' + tg.attr if aug is None else aug[0] + '=' + tg.attr, b, (t if aug is None else aug[1],), {}, tg)
                break
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, st)[0][0]
            i = self.index(tg.slice, st)
            if self.on_store is not None:
                self.on_store(self, tg, b, i, t, st)
            root, path = self.obj_path(b)
            if root is not None:
                st.objs[root] = st.objs.get(root, ()) + ((path + (i,), 'set', t),)
            else:
                nm = (b, '[]')
                st.fld[nm] = ('unk', id(tg)) if nm in st.fld and st.fld[nm] != t else t

    def s_Delete(self, s, st):
        return [('fall', st)]

    def s_If(self, s, st):
        out = []
        for v, a in self.cond(s.test, st):
            out.extend(self.block(s.body if v else s.orelse, [a]))
        return out

    def s_With(self, s, st):
        sts = [st]
        for it in s.items:
            nxt = []
            for a in sts:
                for t, b in self.ev(it.context_expr, a):
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, t, b)
                    nxt.append(b)
            sts = nxt
        return self.block(s.body, sts)

    def watched(self, name):
        return name in self.watch

    def s_Try(self, s, st):
        pre = st.copy()
        outs = self.block(s.body, [st])
        res = []
        for how, a in outs:
            if how == 'fall' and s.orelse:
                res.extend(self.block(s.orelse, [a]))
            else:
                res.append((how, a))
        for h in s.handlers:
            if not any(isinstance(n, ast.Call) and self.watched(self.callname(n)) for x in h.body for n in ast.walk(x)) and \
                    not any(isinstance(n, (ast.Assign, ast.Return)) for x in h.body for n in ast.walk(x)):
                continue        # only reports and gives up: nothing happens that the normal paths do not show
            start = [pre.copy()] + [a.copy() for how, a in outs if how == 'raise']
            for b in start:
                b.trace = b.trace + (Event('!except', ('c', None), (), {}, tuple(self.active(b)), h, self.cur, 0),)
                if h.name:
                    b.env[h.name] = ('unk', id(h))
            res.extend(self.block(h.body, start))
        if s.finalbody:
            fin = []
            for how, a in res:
                for h2, b in self.block(s.finalbody, [a]):
                    fin.append((how if h2 == 'fall' else h2, b))
            res = fin
        return res

    def active(self, st):
        return st.facts.get('loops', ())

    def s_For(self, s, st):
        out = []
        for it, a in self.ev(s.iter, st):
            L, bind = self.loop_over(it, s, a)
            if L.domain is not None:
                out.extend(self.loop_once(s, a, L, bind, True))
            else:
                z = a.copy()
                out.extend(self.block(s.orelse, [z]) if s.orelse else [('fall', z)])
                out.extend(self.loop_once(s, a, L, bind, False))
        return out

    def loop_once(self, s, a, L, bind, full):
        before = self.active(a)
        a.facts['loops'] = before + (L.id,)
        self.assign(s.target, bind, a)
        res = []
        for how, b in self.block(s.body, [a]):
            b.facts['loops'] = before
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name) and n.id in b.env and mentions(b.env[n.id], ('idx', L.id)):
                    b.env[n.id] = subst(b.env[n.id], L.id, ('last', L.id))
            if how in ('fall', 'continue'):
                res.extend(self.block(s.orelse, [b]) if s.orelse else [('fall', b)])
            elif how == 'break':
                b.trace = b.trace + (Event('!break', ('c', None), (), {}, before + (L.id,), s, self.cur, 0),)
                res.append(('fall', b))
            else:
                if how == 'return':
                    b.trace = b.trace + (Event('!return', ('c', None), (), {}, before + (L.id,), s, self.cur, 0),)
                res.append((how, b))
        return res

    def s_While(self, s, st):
        out = []
        cur = [st]
        for n in range(self.iters + 1):
            nxt = []
            for a in cur:
                self.widen(a, n)
                self.gc(a)
            cur = [x for _, x in self.dedupe([('fall', x) for x in cur])]
            for a in cur:
                for v, b in self.cond(s.test, a, fresh=True):
                    if not v:
                        out.extend(self.block(s.orelse, [b]) if s.orelse else [('fall', b)])
                    elif n < self.iters:
                        b.trace = b.trace + (Event('!iter', ('c', n), (), {}, self.active(b), s, self.cur, n),)
                        for how, c in self.block(s.body, [b]):
                            if how in ('fall', 'continue'):
                                nxt.append(c)
                            elif how == 'break':
                                out.append(('fall', c))
                            else:
                                out.append((how, c))
            cur = [x for _, x in self.dedupe([('fall', x) for x in nxt])]
        return self.dedupe(out)

    @staticmethod
    def gc(st, extra=()):
        """Drop containers nothing refers to any more."""
        if not st.objs:
            return
        live, todo = set(), list(st.env.values()) + list(st.fld.values()) + list(extra)
        while todo:
            for x in subterms(todo.pop()):
                if x[0] == 'obj' and x not in live:
                    live.add(x)
                    for c in st.objs.get(x, ()):
                        todo.append(c[2])
        st.objs = {k: v for k, v in st.objs.items() if k in live}

    @staticmethod
    def widen(st, n):
        """Forget how counters were computed: only constants and values that come from recorded calls are kept."""
        for d in (st.env, st.fld):
            for k, t in d.items():
                if t[0] in ('op', 'len', 'unk', 'lv') or t[0] == 'call' and not any(x[0] in ('watch', 'obj') for x in subterms(t)) or \
                        t[0] == 'attr' and k != (t[1], t[2]) and isinstance(k, tuple):
                    d[k] = ('lv', str(k))
        st.facts = {k: v for k, v in st.facts.items() if k == 'loops' or not any(x[0] == 'lv' for x in subterms(k))}

    def loop_over(self, it, node, st):
        """Loop and the term its target is bound to."""
        L = None

        def mk(dom):
            k = (dom, len(st.trace), self.active(st)) if dom is not None else (
                id(node), sum(1 for x in st.trace if x.name == '!iter'), tuple(self.sites))
            l = self._loops.get(k)
            if l is None:
                l = self._loops[k] = Loop(dom, node)
                self.loops[l.id] = l
            return l
        if it[0] == 'call' and it[1] == 'range':
            a = it[2:]
            if len(a) == 3 and a[2] == ('c', 1):
                a = a[:2]
            if len(a) == 1 or len(a) == 2 and a[0] == ('c', 0):
                n = a[-1]
                L = mk(self.domain_of_len(n))
            else:
                L = mk(None)
            return L, ('idx', L.id)
        if it[0] == 'call' and it[1] == 'enumerate' and len(it) >= 3:
            L = mk(self.domain_in(it[2], st))
            return L, ('tuple', ('idx', L.id), self.elem(it[2], ('idx', L.id), st))
        if it[0] == 'call' and it[1] == 'zip':
            doms = [self.domain_in(x, st) for x in it[2:]]
            L = mk(next((d for d in doms if d is not None), None))
            return L, ('tuple',) + tuple(self.elem(x, ('idx', L.id), st) for x in it[2:])
        if it[0] == 'call' and it[1] in ('reversed', 'sorted', 'iter') and len(it) >= 3:
            L = mk(self.domain_in(it[2], st))
            return L, ('unk', id(node)) if it[1] == 'sorted' else self.elem(it[2], ('idx', L.id), st)
        if it[0] in ('tuple',):
            L = mk(None)
            return L, self.elem(it, ('idx', L.id), st)
        L = mk(self.domain_in(it, st))
        return L, self.elem(it, ('idx', L.id), st)

    def domain_of_len(self, n):
        r = self.rows_of(n)
        if r is not None:
            return r
        if n[0] == 'len':
            return self.domain(n[1])
        return None

    def domain_in(self, t, st):
        d = self.domain(t)
        if d is None:
            n = self.length(t, st)
            if n[0] == 'len' and n[1] != t:
                d = self.domain_of_len(n)
        return d

    def domain(self, t):
        """Canonical sequence whose elements t enumerates, if known."""
        r = self.rows_of(t)
        if r is not None:
            return r
        if t[0] == 'comp':
            return self.loops[t[1]].domain
        return None

    # ------------------------------------------------------------------ conditions
    def cond(self, e, st, fresh=False):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [(isand, st)], []
            for v in e.values:
                nxt = []
                for _, a in cur:
                    for b, c in self.cond(v, a, fresh):
                        if b == isand:
                            nxt.append((b, c))
                        else:
                            out.append((b, c))
                cur = nxt
            return out + cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not v, a) for v, a in self.cond(e.operand, st, fresh)]
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return self.cond(ast.BoolOp(op=ast.And() if isinstance(e.op, ast.BitAnd) else ast.Or(), values=[e.left, e.right]), st, fresh)
        out = []
        for t, a in self.ev(e, st):
            out.extend(self.cond_term(t, a, fresh))
        return out

    def cond_term(self, t, a, fresh=False):
        if t[0] == 'op' and t[1] == 'Not' and len(t) == 3:
            return [(not v, b) for v, b in self.cond_term(t[2], a, fresh)]
        if t[0] == 'op' and t[1] in ('And', 'Or'):
            isand = t[1] == 'And'
            cur, out = [(isand, a)], []
            for x in t[2:]:
                nxt = []
                for _, b in cur:
                    for v, c in self.cond_term(x, b, fresh):
                        (nxt if v == isand else out).append((v, c))
                cur = nxt
            return out + cur
        v = self.truth(t)
        if v is None and not fresh:
            v = self.known(t, a)
        if v is not None:
            return [(v, a)]
        out = []
        for v in (True, False):
            b = a.copy()
            if not fresh:
                self.learn(t, v, b)
            out.append((v, b))
        return out

    @staticmethod
    def norm(t):
        neg = False
        if t[0] == 'op' and t[1] in ('IsNot', 'NotEq', 'NotIn'):
            t, neg = ('op', {'IsNot': 'Is', 'NotEq': 'Eq', 'NotIn': 'In'}[t[1]]) + t[2:], True
        if t[0] == 'op' and t[1] in ('Gt', 'GtE'):
            t, neg = ('op', {'Gt': 'LtE', 'GtE': 'Lt'}[t[1]]) + t[2:], True
        if t[0] == 'op' and len(t) == 4 and fixed(t[2]) and not fixed(t[3]):
            if t[1] == 'Eq':
                t = ('op', 'Eq', t[3], t[2])
            elif t[1] in ('Lt', 'LtE'):
                t, neg = ('op', 'LtE' if t[1] == 'Lt' else 'Lt', t[3], t[2]), not neg
        elif t[0] == 'op' and len(t) == 4 and t[1] in ('Eq', 'Lt', 'LtE') and not fixed(t[3]) and repr(t[3]) < repr(t[2]):
            if t[1] == 'Eq':
                t = ('op', 'Eq', t[3], t[2])
            else:
                t, neg = ('op', 'LtE' if t[1] == 'Lt' else 'Lt', t[3], t[2]), not neg
        return t, neg

    def known(self, t, st):
        n, neg = self.norm(t)
        v = st.facts.get(n)
        if v is not None:
            return v != neg
        if n[0] == 'op' and n[1] == 'Is' and n[3] == ('c', None):
            if n[2][0] in ('obj', 'tuple', 'comp', 'idx', 'len', 'self'):
                return neg
            if n[2][0] == 'watch' and n[2][1][:1].isupper():
                return neg
        if n[0] == 'op' and n[1] == 'LtE' and n[3] == ('c', 0) and n[2][0] == 'len' and n[2][1] in self.nonempty:
            return neg
        return None

    def learn(self, t, v, st):
        n, neg = self.norm(t)
        v = v != neg
        st.facts[n] = v
        if self.mark is not None and self.mark(n):
            st.trace = st.trace + (Event('!fact', n, (('c', v),), {}, tuple(self.active(st)), None, self.cur, 0),)
        gone = None
        if n[0] == 'op' and n[1] == 'Is' and n[3] == ('c', None) and v:
            gone = n[2]
        elif n[0] == 'op' and len(n) == 4 and n[2][0] == 'len' and v and (n[1], n[3]) in (('LtE', ('c', 0)), ('Eq', ('c', 0)), ('Lt', ('c', 1))):
            gone = n[2][1]
        elif n[0] == 'len' and not v:
            gone = n[1]
        if gone is not None and any(x[0] in ('watch', 'rows') for x in subterms(gone)):
            st.trace = st.trace + (Event('!none', gone, (), {}, tuple(self.active(st)), None, self.cur, 0),)

    @staticmethod
    def truth(t):
        if t[0] == 'c':
            return bool(t[1])
        if t[0] == 'op' and len(t) == 4 and t[2][0] == 'c' and t[3][0] == 'c':
            a, b = t[2][1], t[3][1]
            try:
                if t[1] in ('Lt', 'Gt', 'LtE', 'GtE'):
                    return {'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[t[1]]
                return {'Is': a is b, 'IsNot': a is not b, 'Eq': a == b, 'NotEq': a != b}.get(t[1])
            except Exception:
                return None
        return None

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(('unk', id(e)), st)]
        return m(e, st)

    def evs(self, es, st):
        cur = [((), st)]
        for e in es:
            nxt = []
            for ts, a in cur:
                for t, b in self.ev(e.value if isinstance(e, ast.Starred) else e, a):
                    nxt.append((ts + (t,), b))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        return [(('c', e.value), st)]

    def e_Name(self, e, st):
        return [(st.env.get(e.id, ('attr', ('mod',), e.id)), st)]

    def e_Attribute(self, e, st):
        out = []
        for b, a in self.ev(e.value, st):
            t = a.fld.get((b, e.attr))
            if t is None and b == ('self',) and self.cls is not None:
                g = self.cls.find(e.attr, 'getters')
                if g is not None and g not in self.stack and len(self.stack) < self.maxdepth and \
                        (self.interesting(g) or self.trivial(g)):
                    out.extend(self.call_inline(g, [b], {}, a, e))
                    continue
            if t is None:
                t = ('attr', b, e.attr)
                if e.attr == 'values':
                    t = b
                elif e.attr == 'T':
                    t = self.transpose(b)
            out.append((t, a))
        return out

    @staticmethod
    def trivial(g):
        body = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute)

    def index(self, sl, st):
        if isinstance(sl, ast.Tuple):
            first = sl.elts[0]
            rest = sl.elts[1:]
            if all(isinstance(r, ast.Slice) and r.lower is None and r.upper is None and plain_step(r) for r in rest):
                return self.index(first, st)
            return ('tuple',) + tuple(self.index(x, st) for x in sl.elts)
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower, st)[0][0] if sl.lower is not None else None
            hi = self.ev(sl.upper, st)[0][0] if sl.upper is not None else None
            if not plain_step(sl):
                return ('stepsl', lo or ('c', None), hi or ('c', None), self.ev(sl.step, st)[0][0])
            if lo is None and hi is None:
                return ('all',)
            return ('sl', lo or ('c', None), hi or ('c', None))
        return self.ev(sl, st)[0][0]

    def e_Subscript(self, e, st):
        out = []
        for b, a in self.ev(e.value, st):
            i = self.index(e.slice, a)
            out.append((self.elem(b, i, a), a))
        return out

    def elem(self, b, i, st):
        if i == ('all',):
            return b
        if i[0] == 'sl':
            lo, hi = i[1], i[2]
            if hi[0] == 'op' and hi[1] == 'Add' and hi[2] == lo and hi[3] == ('c', 1):
                return ('wrap', self.elem(b, lo, st))
            return ('slice', b, lo, hi)
        if i[0] == 'stepsl':
            return ('call', 'stepped', b) + i[1:]
        if i[0] == 'tuple':
            if len(i) > 1 and i[1] == ('all',):
                return ('column', b) + i[2:]
            if len(i) > 1 and i[1][0] in ('sl', 'stepsl'):
                return ('column', self.elem(b, i[1], st)) + i[2:]
            r = self.elem(b, i[1], st)
            for x in i[2:]:
                r = self.elem(r, x, st)
            return r
        if i[0] in ('wrap',) :
            return ('wrap', self.elem(b, i[1], st))
        if b[0] == 'tuple':
            if i[0] == 'c' and isinstance(i[1], int) and -len(b) < i[1] < len(b) - 1:
                return b[1:][i[1]]
            if len(b) == 2:
                return b[1]
        if b[0] == 'wrap' and i == ('c', 0):
            return b[1]
        if b[0] == 'column' and len(b) == 3:
            return self.elem(self.elem(b[1], i, st), b[2], st)
        if b[0] == 'T':
            return ('column', b[1], i)
        if b[0] == 'comp':
            return subst(b[2], b[1], i)
        if b[0] == 'call' and b[1] in ('dims', 'shape_of') and i[0] == 'c':
            return ('len', b[2]) if i[1] == 0 else ('call', 'ncols', b[2])
        if b[0] == 'attr' and b[2] == 'shape' and i[0] == 'c':
            if i[1] == 1 and self.obj_path(b[1])[0] is not None:
                return self.length(('elem', b[1], ('c', 0)), st)
            return self.length(b[1], st) if i[1] == 0 else ('call', 'ncols', b[1])
        if b[0] == 'call' and b[1] == 'shape' and len(b) == 3 and i[0] == 'c':
            return ('len', b[2]) if i[1] == 0 else ('call', 'ncols', b[2])
        root, path = self.obj_path(('elem', b, i))
        if root is not None:
            r = self.obj_read(root, path, st)
            if r is not None:
                return r
        return ('elem', b, i)

    @staticmethod
    def transpose(b):
        return b[1] if b[0] == 'T' else ('T', b)

    # mutable containers built locally
    @staticmethod
    def obj_path(t):
        path = ()
        while t[0] == 'elem':
            path = (t[2],) + path
            t = t[1]
        return (t, path) if t[0] == 'obj' else (None, ())

    def obj_add(self, t, how, v, st):
        root, path = self.obj_path(t)
        if root is not None:
            lp = tuple(self.active(st))
            v = self.freeze(v, st)
            st.objs[root] = st.objs.get(root, ()) + ((path, how, v, lp),)

    def freeze(self, v, st):
        """A list filled by one append in one complete loop is the comprehension it amounts to."""
        cs = st.objs.get(v, ()) if v[0] == 'obj' else ()
        if len(cs) == 1 and cs[0][1] == 'app' and cs[0][0] == () and cs[0][3] and self.loops[cs[0][3][-1]].domain is not None \
                and cs[0][3][-1] not in self.active(st):
            return ('comp', cs[0][3][-1], cs[0][2])
        if len(cs) == 1 and cs[0][1] == 'ext' and cs[0][0] == ():
            return cs[0][2]
        return v

    def obj_read(self, root, path, st):
        """Value of root[path...] as described by what was appended/extended/stored."""
        cs = st.objs.get(root, ())
        vals = []
        for c in cs:
            p, how, v = c[:3]
            if how == 'set':
                if len(p) <= len(path):
                    m = self.match(p, path)
                    if m is not None:
                        r = v
                        for L, i in m:
                            r = subst(r, L, i)
                        for i in path[len(p):]:
                            r = self.elem(r, i, st)
                        vals.append(r)
                continue
            if len(p) >= len(path):
                continue
            m = self.match(p, path)
            if m is None:
                continue
            r = v
            for L, i in m:
                r = subst(r, L, i)
            i = path[len(p)]
            if how == 'app':
                used = {x for q in p for x in subterms(q) if x[0] == 'idx'}
                inner = [x for x in c[3] if ('idx', x) not in used]
                if len(inner) >= 1 and self.loops[inner[-1]].domain is not None:
                    r = subst(r, inner[-1], i)
                elif i[0] == 'c' and isinstance(i[1], int) and not c[3] and 0 <= i[1] < len(cs) and cs[i[1]] is not c:
                    continue
            else:
                r = self.elem(r, i, st)
            for j in path[len(p) + 1:]:
                r = self.elem(r, j, st)
            vals.append(r)
        vals = [v for k, v in enumerate(vals) if v not in vals[:k]]
        if len(vals) == 1:
            return vals[0]
        if vals:
            return ('phi',) + tuple(vals)
        return None

    def match(self, p, path):
        m = []
        for a, b in zip(p, path):
            if a == b:
                continue
            if a[0] == 'idx' and self.loops[a[1]].domain is not None:
                m.append((a[1], b))
            else:
                return None
        return m

    def e_Tuple(self, e, st):
        return [(('tuple',) + ts, a) for ts, a in self.evs(e.elts, st)]

    def newobj(self, e, st):
        n = sum(1 for k in st.objs if k[1] == id(e))
        o = ('obj', id(e), n)
        st.objs[o] = ()
        return o

    def e_List(self, e, st):
        if not e.elts:
            return [(self.newobj(e, st), st)]
        if len(e.elts) == 1:
            return [(('wrap', ts[0]), a) for ts, a in self.evs(e.elts, st)]
        return [(('tuple',) + ts, a) for ts, a in self.evs(e.elts, st)]

    def e_Dict(self, e, st):
        out = []
        for ts, a in self.evs([v for v in e.values], st):
            o = self.newobj(e, a)
            for k, t in zip(e.keys, ts):
                if isinstance(k, ast.Constant):
                    a.objs[o] = a.objs[o] + (((('c', k.value),), 'set', t),)
            out.append((o, a))
        return out

    def e_ListComp(self, e, st):
        if len(e.generators) != 1:
            return [(('unk', id(e)), st)]
        g = e.generators[0]
        it, a = self.ev(g.iter, st)[0]
        L, bind = self.loop_over(it, e, a)
        saved = dict(a.env)
        before = self.active(a)
        a.facts['loops'] = before + (L.id,)
        self.assign(g.target, bind, a)
        n = len(a.trace)
        r = self.ev(e.elt, a)
        out = []
        for t, b in r:
            b.env = dict(saved)
            b.facts['loops'] = before
            if isinstance(e.elt, (ast.List, ast.Dict)) and t[0] == 'obj':
                o = self.newobj(e, b)
                if L.domain is not None and not g.ifs:
                    self.objlen[o] = L.domain
                out.append((o, b))
            elif g.ifs:
                out.append((('call', 'filter', t), b))
            else:
                out.append((('comp', L.id, t), b))
        return out

    e_GeneratorExp = e_ListComp

    def e_BinOp(self, e, st):
        out = []
        for ts, a in self.evs([e.left, e.right], st):
            out.append((self.binop(type(e.op).__name__, *ts), a))
        return out

    @staticmethod
    def binop(op, a, b):
        if op in ('Add', 'Mult') and repr(b) < repr(a) and b[0] != 'c':
            pass
        return ('op', op, a, b)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            try:
                return [(('c', -e.operand.value), st)]
            except TypeError:
                pass
        return [(('op', type(e.op).__name__, t), a) for t, a in self.ev(e.operand, st)]

    def e_BoolOp(self, e, st):
        return [(('op', type(e.op).__name__) + ts, a) for ts, a in self.evs(e.values, st)]

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            return [(('op', type(e.ops[0]).__name__) + ts, a) for ts, a in self.evs([e.left, e.comparators[0]], st)]
        return [(('op', 'Compare') + ts, a) for ts, a in self.evs([e.left] + e.comparators, st)]

    def e_IfExp(self, e, st):
        out = []
        for v, a in self.cond(e.test, st):
            out.extend(self.ev(e.body if v else e.orelse, a))
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for t, a in self.ev(e.value, st):
            self.assign(e.target, t, a)
            out.append((t, a))
        return out

    def e_JoinedStr(self, e, st):
        if 'format' not in self.watch:
            return [(('unk', id(e)), st)]
        text = ''.join(str(v.value) if isinstance(v, ast.Constant) else '{}' for v in e.values)
        out = []
        for ts, a in self.evs([v.value for v in e.values if isinstance(v, ast.FormattedValue)], st):
            ev = self.event(a, 'format', ('c', text), ts, {}, e)
            out.append((('watch', 'format', (e.lineno, e.col_offset, ev.uid), ('c', text)) + tuple(ev.args), a))
        return out

    def e_Lambda(self, e, st):
        return [(('unk', id(e)), st)]

    def event(self, st, name, recv, args, kw, node):
        n = sum(1 for x in st.trace if x.name == name and x.node is node)
        args = [self.view(t, st) for t in args]
        kw = {k: self.view(t, st) for k, t in kw.items()}
        ev = Event(name, recv, tuple(args), dict(kw), tuple(self.active(st)), node, self.cur, n)
        st.trace = st.trace + (ev,)
        return ev

    def view(self, t, st):
        """What a locally built container holds at [#row][#column], as far as known."""
        if t[0] == 'comp' and not mentions(t, ('idx', t[1])):
            return t
        if t[0] not in ('obj', 'T', 'comp', 'column'):
            return t
        r = self.elem(self.elem(t, ('idx', 0), st), ('idx', -1), st)
        return t if r[0] == 'elem' and r[1][0] == 'elem' and r[1][1] == t else ('view', r)

    def e_Call(self, e, st):
        name = self.callname(e)
        out = []
        recvs = [(None, st)]
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
                recvs = [(('super',), st)]
            else:
                recvs = self.ev(e.func.value, st)
        if name == 'zip' and recvs == [(None, st)] and len(e.args) == 1 and isinstance(e.args[0], ast.Starred):
            return [(self.transpose(t), a) for t, a in self.ev(e.args[0].value, st)]
        for recv, a in recvs:
            for ts, b in self.evs(e.args, a):
                kws = [('', b, {})]
                cur = [({}, b)]
                for k in e.keywords:
                    nxt = []
                    for d, c in cur:
                        for t, c2 in self.ev(k.value, c):
                            d2 = dict(d)
                            d2[k.arg or '**'] = t
                            nxt.append((d2, c2))
                    cur = nxt
                for d, c in cur:
                    out.extend(self.call(e, name, recv, ts, d, c))
        return out

    def call(self, e, name, recv, args, kw, st):
        if name in self.watch and not (recv in (('self',), ('super',)) and self.resolve(recv, name) is not None
                                       and self.resolve(recv, name) not in self.stack
                                       and self.interesting(self.resolve(recv, name))):
            ev = self.event(st, name, recv, args, kw, e)
            return [(('watch', name, (e.lineno, e.col_offset, ev.uid), recv if recv is not None else ('c', None)) + tuple(args)
                     + tuple(v for _, v in sorted(kw.items())), st)]
        g = self.resolve(recv, name)
        if g is not None and g not in self.stack and len(self.stack) < self.maxdepth and self.inline_ok(g) and \
                (self.interesting(g) or self.transparent(g)):
            pos = ([('self',)] if not g.static and g.cls is not None else []) + list(args)
            return self.call_inline(g, pos, kw, st, e)
        return [(self.plain_call(e, name, recv, args, kw, st), st)]

    def transparent(self, g):
        """Small helpers that only compute a value from their arguments."""
        n = sum(1 for x in ast.walk(g.node) if isinstance(x, ast.stmt))
        return n <= 14 and not any(isinstance(x, (ast.While, ast.Try, ast.Yield)) for x in ast.walk(g.node))

    def resolve(self, recv, name):
        if self.cls is None:
            return None
        if recv == ('self',):
            return self.cls.find(name)
        if recv == ('super',):
            cur = self.cur.cls
            mro = self.cls.mro()
            if cur in mro:
                for k in mro[mro.index(cur) + 1:]:
                    if name in k.methods:
                        return k.methods[name]
            return None
        if recv is None and self.cur is not None:
            b = self.cur.module.names.get(name)
            return b[1] if isinstance(b, tuple) and len(b) > 1 and hasattr(b[1], 'all_params') else None
        return None

    def call_inline(self, g, pos, kw, st, e):
        env = {}
        names = list(g.params)
        for n, t in zip(names, pos):
            env[n] = t
        for k, t in kw.items():
            if k in g.all_params:
                env[k] = t
        for n in g.all_params:
            if n not in env:
                d = g.defaults.get(n)
                env[n] = ('c', d.value) if isinstance(d, ast.Constant) else ('unk', id(g.node))
        if g.vararg:
            env[g.vararg] = ('tuple',) + tuple(pos[len(names):])
        saved_env, saved_loops = st.env, self.active(st)
        st = st.copy()
        st.env = env
        self.stack.append(g)
        self.sites.append(id(e))
        res = []
        for how, s in self.function(g, st):
            s.env = dict(saved_env)
            s.facts['loops'] = saved_loops
            r, s.ret = s.ret, None
            self.gc(s, [x for x in (r,) if x is not None])
            if how == 'return':
                res.append((r, s))
        self.stack.pop()
        self.sites.pop()
        return res

    def plain_call(self, e, name, recv, args, kw, st):
        if recv is not None and recv[0] in ('obj', 'elem') and name in ('append', 'add', 'extend', 'appendleft', 'insert'):
            root, path = self.obj_path(recv)
            if root is not None and args:
                a = e.args[0] if name == 'append' and isinstance(e, ast.Call) and len(e.args) == 1 else None
                if not path and (isinstance(a, ast.List) and not a.elts or isinstance(a, ast.Dict) and not a.keys) and \
                        not st.objs.get(root, ()) and self.active(st) and root[0] == 'obj':
                    # one empty container per pass, as in [[] for ...]: the containers are told apart by their position
                    d = self.loops[self.active(st)[-1]].domain
                    if d is not None:
                        self.objlen[root] = d
                    return ('c', None)
                self.obj_add(recv, 'ext' if name == 'extend' else 'app', args[-1], st)
                return ('c', None)
        mod = recv is not None and recv[0] == 'attr' and recv[1] == ('mod',)
        if name in ('deque', 'list') and recv is None and not args and not kw:
            return self.newobj(e, st)
        if name == 'len' and args and recv is None:
            return self.length(args[0], st)
        if name == 'get_dimensions' and args:
            return ('call', 'dims', args[0])
        if name in ('transpose', 'column_stack') and len(args) == 1 and (recv is None or mod):
            return self.transpose(args[0])
        if name == 'transpose' and recv is not None and not mod and not args:
            return self.transpose(recv)
        if name in ('stack',) and mod and args:
            return self.transpose(args[0]) if kw.get('axis', args[1] if len(args) > 1 else ('c', 0)) in (('c', 1), ('c', -1)) else args[0]
        if name in IDENT_FUNCS and args and (recv is None or mod):
            return args[0]
        if recv is not None and not mod and name in IDENT_METHODS:
            return recv
        if recv is not None and not mod and name == 'reshape':
            if args[:1] == (('c', 1),) or args[:1] == (('tuple', ('c', 1), ('c', -1)),):
                return ('wrap', recv)
            return recv
        if recv is not None and not mod:
            return ('call', '.' + str(name), recv) + tuple(args) + tuple(v for _, v in sorted(kw.items()))
        return ('call', str(name)) + tuple(args) + tuple(v for _, v in sorted(kw.items()))

    def length(self, t, st):
        if t[0] == 'T':
            return self.length(('elem', t[1], ('c', 0)), st) if self.obj_path(t[1])[0] is not None else ('call', 'ncols', t[1])
        if t[0] == 'column':
            return self.length(t[1], st)
        root, path = self.obj_path(t)
        if root is not None:
            if not path and root in self.objlen:
                return ('len', self.objlen[root])
            if not path and not st.objs.get(root, ()):
                return ('c', 0)
            for c in st.objs.get(root, ()):
                p, how, v = c[:3]
                if len(p) == len(path) and how == 'ext':
                    m = self.match(p, path)
                    if m is not None:
                        for L, i in m:
                            v = subst(v, L, i)
                        return self.length(v, st)
                if len(p) == len(path) and how == 'app' and c[3]:
                    d = self.loops[c[3][-1]].domain
                    if d is not None:
                        return ('len', d)
        d = self.domain(t)
        return ('len', d if d is not None else t)


def _load(t):
    import copy
    n = copy.deepcopy(t)
    for x in ast.walk(n):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return n


def plain_step(sl):
    return sl.step is None or isinstance(sl.step, ast.Constant) and sl.step.value in (None, 1)
