"""On which rows of a batch each entry of a value depends (C16).

Every value gets a shape with respect to the rows of X (one entry per row on its first or second axis, the number of rows, the row a loop
is at, ...) and the set of rows its entries depend on: their own row, a fixed row, a neighbouring row, what earlier rows left behind,
or the batch as a whole.  Whatever is not understood becomes 'B' (made of the batch, in a way not known) and is never reported."""
import ast

OWN = ('own',)
NONE = frozenset()
AXIS = {'sum', 'mean', 'max', 'min', 'argmax', 'argmin', 'prod', 'average', 'median', 'std', 'var', 'any', 'all', 'amax', 'amin', 'nansum',
        'nanmax', 'nanmin', 'nanmean', 'count_nonzero', 'mode'}
SAME = {'asarray', 'array', 'copy', 'deepcopy', 'astype', 'tolist', 'round', 'around', 'rint', 'where', 'exp', 'log', 'abs', 'absolute', 'nan_to_num',
        'list', 'tuple', 'normalize', 'clip', 'maximum', 'minimum', 'sqrt', 'power', 'floor', 'ceil', 'sign', 'isnan', 'multiply', 'divide',
        'add', 'subtract', 'true_divide', 'asanyarray', 'ascontiguousarray', 'atleast_2d', 'float64', 'int_', 'logical_not', 'logical_and',
        'logical_or', 'equal', 'not_equal', 'greater', 'less', 'sigmoid', 'check_array', 'tanh', 'log2', 'log10', 'square', 'to_numpy', 'asmatrix'}
ALLOC = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'full_like', 'empty_like'}
META = {'len', 'isinstance', 'hasattr', 'type', 'callable', 'id', 'print', 'issubclass', 'warn', 'shape', 'ndim', 'size'}
PRED = ('predict', 'transform', 'decision_function', 'score_samples')
GROW = {'append', 'add', 'extend', 'update', 'insert', 'setdefault', 'appendleft'}
MAXDEPTH = 8


class V:
    __slots__ = ('k', 'd', 'x')

    def __init__(self, k, d=NONE, x=None):
        self.k, self.d, self.x = k, d, x

    def __eq__(self, o):
        return isinstance(o, V) and self.k == o.k and self.d == o.d and self.x == o.x

    def __hash__(self):
        return hash((self.k, self.d))

    def __repr__(self):
        return '%s%s%s' % (self.k, sorted(self.d), '' if self.x is None else ':%r' % (self.x,))


S0 = V('S')


def join(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return a or b
    d = a.d | b.d
    if a.k == b.k:
        if a.k == 'T':
            if len(a.x) == len(b.x):
                return V('T', d, tuple(join(p, q) for p, q in zip(a.x, b.x)))
            return V('B', d)
        if a.k in ('I', 'O', 'SELF'):
            return a if a.x == b.x else V('B', d)
        return V(a.k, d, a.x if a.x == b.x else None)
    for p, q in ((a, b), (b, a)):
        if p.k == 'E' or p.k == 'S' and not p.d and p.x == 'none':
            return V(q.k, d, q.x)
    return V('B', d)


class St:
    def __init__(self, env=None, heap=None):
        self.env, self.heap = {} if env is None else env, {} if heap is None else heap

    def copy(self):
        return St(dict(self.env), dict(self.heap))

    def same(self, o):
        return self.env == o.env and self.heap == o.heap


def jst(a, b):
    if a is None or b is None:
        return a or b
    r = St()
    for f in ('env', 'heap'):
        x, y, z = getattr(a, f), getattr(b, f), getattr(r, f)
        for k in set(x) | set(y):
            z[k] = jval(x[k], a, y[k], b) if k in x and k in y else x.get(k, y.get(k))
    return r


def jval(p, a, q, b):
    if p == q:
        return p
    if p is not None and q is not None and 'O' in (p.k, q.k) and not (p.k == q.k and p.x == q.x):
        c, d = look(p, a), look(q, b)
        r = join(c, d)
        if p.k == 'O' and q.x == 'none' and not q.d:
            return p
        if q.k == 'O' and p.x == 'none' and not p.d:
            return q
        return r
    return join(p, q)


def look(v, st):
    while v.k == 'O':
        v = st.heap.get(v.x, S0)
    return V('S', v.d) if v.k == 'E' else v


class RowDep:
    def __init__(self, prog, cls, X):
        self.prog, self.cls, self.X = prog, cls, X
        self.frames, self.pc, self.loops, self.breaks = [], [], [], []
        self.steps = 0
        self.used = set()
        self.made, self.birth = {}, {}

    # ---- entry
    def run(self, f):
        st = St()
        env = {}
        for p in f.all_params:
            env[p] = V('A0', frozenset([OWN]), 'X') if p == self.X else S0
        if f.params and not f.static:
            env[f.params[0]] = V('SELF')
        st.env = env
        self.frames.append((f, []))
        self.block(f.node.body, st)
        f, rets = self.frames.pop()
        return rets

    @property
    def f(self):
        return self.frames[-1][0]

    def tag(self, kind, what, node):
        return (kind, what, self.f.qual, self.f.file, getattr(node, 'lineno', 0))

    # ---- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            self.steps += 1
            if self.steps > 60000:
                raise RecursionError
            st = getattr(self, 's_' + type(s).__name__, self.s_other)(s, st)
        return st

    def s_other(self, s, st):
        return st

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Return(self, s, st):
        v = V('S', NONE, 'none') if s.value is None else self.ev(s.value, st)
        self.frames[-1][1].append((self.under_pc(self.deref(v, st)), v, s, self.f, st))
        return None

    def s_Raise(self, s, st):
        return None

    def s_Assert(self, s, st):
        return st

    def s_Break(self, s, st):
        self.breaks[-1][0].append(st)
        return None

    def s_Continue(self, s, st):
        self.breaks[-1][1].append(st)
        return None

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        if isinstance(s.target, ast.Subscript):
            self.store(s.target, self.scalar(v, st), st)
            return st
        old = self.ev(s.target, st)
        if old.k == 'O':
            c = st.heap.get(old.x)
            if c is not None and c.k in ('A0', 'A1') and self.deref(v, st).k in ('A0', 'A1', 'S'):
                st.heap[old.x] = V(c.k, self.widen(c.d | self.deref(v, st).d | self.pcd(), c.k), c.x)
            elif isinstance(s.op, ast.Add):
                self.grow(old, v, st, s, many=True)
            return st
        self.assign(s.target, self.binary(old, v, st, s), st)
        return st

    def s_If(self, s, st):
        t = self.scalar(self.ev(s.test, st), st)
        self.pc.append(t.d)
        a = self.block(s.body, st.copy())
        b = self.block(s.orelse, st.copy())
        self.pc.pop()
        return jst(a, b)

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        post = self.block(s.body, st)
        mid = jst(pre, post)
        if post is not None and s.orelse:
            post = self.block(s.orelse, post)
        for h in s.handlers:
            a = mid.copy()
            if h.name:
                a.env[h.name] = S0
            post = jst(post, self.block(h.body, a))
        if s.finalbody:
            post = self.block(s.finalbody, post if post is not None else mid.copy())
        return post

    def s_While(self, s, st):
        t = self.scalar(self.ev(s.test, st), st)
        return self.iterate(s, st, lambda a: None, t.d, None)

    def s_FunctionDef(self, s, st):
        st.env[s.name] = V('S')
        return st

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        L, elem, dep = self.elements(it, s, st)
        return self.iterate(s, st, lambda a: self.assign(s.target, elem, a, weak=False), dep, L)

    def iterate(self, s, st, bind, dep, L):
        self.loops.append((id(s), L))
        self.pc.append(dep)
        head, out = st, None
        for k in range(4):
            a = head.copy()
            bind(a)
            self.breaks.append(([], []))
            e = self.block(s.body, a)
            br, co = self.breaks.pop()
            for x in co:
                e = jst(e, x)
            out = jst(head, e)
            for x in br:
                out = jst(out, x)
            nxt = jst(st, self.next_pass(e, L)) if e is not None else st
            if nxt.same(head):
                break
            head = nxt
        self.pc.pop()
        self.loops.pop()
        if L is not None:
            out = self.next_pass(out, L)
        out = out.copy()
        return self.block(s.orelse, out) if s.orelse else out

    def next_pass(self, st, L):
        """What a row left behind is, for the next row, what earlier rows left behind."""
        if L is None or st is None:
            return st
        r = St()
        for f in ('env', 'heap'):
            z = getattr(r, f)
            for k, v in getattr(st, f).items():
                z[k] = self.subst(v, ('row', L), ('carry', self.f.qual, self.f.file, self.line_of(L)))
        return r

    def line_of(self, L):
        return self.made.get(L, 0)

    def subst(self, v, a, b):
        if v.k == 'T':
            return V('T', v.d, tuple(self.subst(x, a, b) for x in v.x))
        if v.k == 'I' and v.x == a[1]:
            return V('S', frozenset([b]))
        if a not in v.d:
            return v
        return V(v.k, frozenset(b if t == a else t for t in v.d), v.x)

    # ---- loops over rows
    def new_loop(self, node):
        L = (id(node), tuple(id(f[0].node) for f in self.frames))
        self.made[L] = getattr(node, 'lineno', 0)
        return L

    def at_row(self, d, L):
        return frozenset(('row', L) if t == OWN else t for t in d)

    def elements(self, it, node, st):
        """(row loop or None, element, deps that decide the number of passes)"""
        it0, it = it, self.deref(it, st)
        k = it.k
        if it0.k == 'RANGE':
            if it.x == 'N':
                L = self.new_loop(node)
                return L, V('I', NONE, L), NONE
            return None, V('S', it.d, 'ix' if it.x != 'odd' else None), NONE
        if it0.k == 'ENUM':
            L, e, d = self.elements(it0.x, node, st)
            return L, V('T', NONE, (V('I', NONE, L) if L is not None else S0, e)), d
        if it0.k == 'ZIP':
            rs = [self.elements(x, node, st) for x in it0.x]
            Ls = [r[0] for r in rs if r[0] is not None]
            return (Ls[0] if Ls else None), V('T', NONE, tuple(r[1] for r in rs)), NONE
        if k == 'A0':
            L = self.new_loop(node)
            x = it.x if isinstance(it.x, tuple) and it.x[0] == 'of' else None
            e = self.at_row(it.d, L)
            if it0.k == 'O':
                return L, V('S', e, ('el', it0.x, V('I', NONE, L))), NONE
            return L, V('S', e), NONE
        if k == 'A1':
            return None, V('A0', it.d), NONE
        if k in ('B', 'AC'):
            return None, V('B', it.d), NONE
        if k == 'T':
            e = None
            for x in it.x:
                e = join(e, x)
            return None, e or S0, NONE
        return None, V('S', it.d), it.d

    # ---- values
    def deref(self, v, st):
        while v is not None and v.k == 'O':
            v = st.heap.get(v.x, S0)
        if v.k == 'E':
            return V('S', v.d)
        if v.k == 'RANGE':
            return V('A0', NONE, 'N') if v.x == 'N' else V('S', v.d, v.x)
        if v.k in ('ENUM', 'ZIP'):
            return V('B', v.d)
        return v

    def pcd(self):
        r = NONE
        for d in self.pc:
            r |= d
        return r

    def under_pc(self, v):
        p = self.pcd()
        return v if not p or v.k not in ('S', 'A0', 'A1') else V(v.k, v.d | p, v.x)

    def scalar(self, v, st):
        """v as one opaque value: what it depends on."""
        v = self.deref(v, st)
        if v.k == 'T':
            d = v.d
            for x in v.x:
                d |= self.scalar(x, st).d
            return V('S', d)
        if v.k in ('A0', 'A1', 'B', 'N', 'C', 'AC', 'SELF', 'I'):
            return V('S', frozenset(t for t in v.d if t != OWN))
        return v

    def widen(self, d, k='A0'):
        """Deps of an entry: what depends on the current row of a row loop is not its own row when stored for all rows."""
        return d

    def alloc(self, node, c, st):
        o = (id(node), len(self.frames))
        st.heap[o] = c
        self.birth[o] = tuple(self.loops)
        return V('O', NONE, o)

    def assign(self, t, v, st, weak=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = self.under_pc(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            w = self.deref(v, st)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, V('B', w.d), st)
                return
            for i, x in enumerate(t.elts):
                if w.k == 'T' and len(w.x) == len(t.elts):
                    e = w.x[i]
                elif w.k in ('B', 'A0', 'A1', 'AC'):
                    e = V('B', w.d) if w.k != 'A1' else V('A0', w.d)
                else:
                    e = V('S', w.d)
                self.assign(x, e, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            if b.k == 'SELF':
                st.env[('self', t.attr)] = self.under_pc(v)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, st)

    def store(self, t, v, st):
        chain = []
        b = t
        while isinstance(b, ast.Subscript):
            chain.append(b.slice)
            b = b.value
        base = self.ev(b, st)
        idx = [self.index(s, st) for s in reversed(chain)]
        name = b.id if isinstance(b, ast.Name) else ('self', b.attr) if isinstance(b, ast.Attribute) and self.ev(b.value, st).k == 'SELF' else None
        w = self.deref(v, st)
        d = w.d | self.pcd()
        if base.k == 'S' and isinstance(base.x, tuple) and base.x[0] == 'el':
            # an element of a list, held in a variable
            idx = [base.x[2]] + idx
            base = V('O', NONE, base.x[1])
            name = None
        c = self.deref(base, st) if base.k != 'O' else st.heap.get(base.x, S0)
        new = self.stored(c, idx, w, d, t)
        if new is None:
            return
        if base.k == 'O':
            st.heap[base.x] = new
        elif name is not None and base.k in ('A0', 'A1', 'S', 'B'):
            st.env[name] = new

    def stored(self, c, idx, w, d, node):
        first = idx[0]
        if isinstance(first, tuple):
            first, rest = first[0], first[1:]
        else:
            rest = idx[1:]
        rows = {t for t in d if t[0] == 'row'}
        if c.k in ('S', 'E'):
            if w.k in ('B', 'A1'):
                return V('B', c.d | d)
            if w.k == 'A0':
                if any(l is not None for _, l in self.loops):
                    return V('B', c.d | d)
                return V('A1', c.d | d)
            e = d
            for i in idx:
                for y in (i if isinstance(i, tuple) else (i,)):
                    e |= y.d if isinstance(y, V) else NONE
            if c.k == 'E' and isinstance(first, V) and first.k == 'I':
                return V('A0', self.own(e, first.x, node))
            return V('S', c.d | e)
        if c.k == 'A0' and c.x == 'shared' and (rest or len(idx) > 1 or rows) and any(l for _, l in self.loops):
            return V('A0', c.d | self.own(d, None, node) - rows | {self.tag('const', 'an object that all rows share', node)}, c.x)
        if c.k == 'A0':
            if isinstance(first, V) and first.k == 'I':
                return V('A0', c.d | self.own(d, first.x, node), c.x)
            if first == 'full':
                if w.k == 'S' and rows:
                    d = frozenset(self.tag('all', 'what it computes from one row is stored for all rows', node) if t[0] == 'row' else t for t in d)
                return V('A0', c.d | d, c.x) if w.k in ('A0', 'S') else V('B', c.d | d)
            if isinstance(first, V) and first.k == 'OFF' and first.x[1] in {t[1] for t in rows}:
                return V('A0', c.d | {self.tag('off', 'what it computes from row i is stored as the entry of another row', node)}, c.x)
            if isinstance(first, V) and first.k == 'K' and rows & {('row', l) for _, l in self.loops}:
                return V('A0', c.d | {self.tag('const', 'what it computes from row i is stored as entry %s' % first.x, node)}, c.x)
            if isinstance(first, V) and first.k == 'K' and not w.d:
                return V('A0', c.d | d, c.x)
            if isinstance(first, V) and first.k == 'S' and first.x == 'ix' and not first.d:
                if w.k == 'A0' and OWN in w.d:
                    return V('A0', c.d | {self.tag('all', 'all rows together', node)}, c.x)
                if w.k == 'S' and rows & {('row', l) for _, l in self.loops}:
                    return V('A0', c.d | {self.tag('const', 'what it computes from row i is stored as the entry of another row', node)}, c.x)
            return V('B', c.d | d)
        if c.k == 'A1':
            second = rest[0] if rest else None
            if isinstance(second, V) and second.k == 'I':
                return V('A1', c.d | self.own(d, second.x, node), c.x)
            if w.k == 'A0' and not isinstance(first, str):
                return V('A1', c.d | d, c.x)
            if w.k == 'S' and second in (None, 'full'):
                if rows:
                    d = frozenset(self.tag('all', 'what it computes from one row is stored for all rows', node) if t[0] == 'row' else t for t in d)
                return V('A1', c.d | d, c.x)
            return V('B', c.d | d)
        if c.k == 'T':
            return None
        return V('B', c.d | d)

    def own(self, d, L, node):
        return frozenset(OWN if t == ('row', L) else t for t in d)

    def grow(self, base, v, st, node, many=False, name='append'):
        w = self.deref(v, st)
        d = w.d | self.pcd()
        if base.k == 'S' and isinstance(base.x, tuple) and base.x[0] == 'el':
            c = st.heap.get(base.x[1], S0)
            n = self.stored(c, [base.x[2]], V('S', d) if w.k in ('S', 'T', 'I', 'N', 'C') else w, d, node)
            if n is not None:
                st.heap[base.x[1]] = n
            return
        if base.k != 'O':
            return
        c = st.heap.get(base.x, S0)
        if many:
            if c.k in ('S',) and w.k == 'S':
                st.heap[base.x] = V('S', c.d | d)
            elif c.k == 'E' and w.k in ('S', 'A0', 'A1'):
                st.heap[base.x] = V('A0' if w.k == 'A0' else w.k if w.k == 'A1' else 'S', d)
            else:
                st.heap[base.x] = V('B', c.d | d)
            return
        created = self.birth.get(base.x, ())
        inner = [l for l in self.loops if l not in created]
        new = None
        if not inner:
            new = V('S', c.d | d) if c.k in ('E', 'S') and w.k in ('S', 'I', 'N', 'C', 'SELF', 'T') else \
                V('A1', c.d | d) if c.k in ('E', 'A1') and w.k == 'A0' else V('B', c.d | d)
        elif inner[-1][1] is not None:
            L = inner[-1][1]
            if w.k in ('S', 'I', 'N', 'C', 'SELF', 'T') and not any(l for _, l in inner[:-1]):
                e = self.scalar(w, st).d | self.pcd() | ({('row', L)} if w.k == 'I' else NONE)
                new = V('A0', self.own(e, L, node) | c.d) if c.k in ('E', 'A0') else V('B', c.d | d)
            else:
                new = V('B', c.d | d)
        else:
            rows = [l for _, l in inner if l is not None]
            if w.k == 'A0' and not rows and c.k in ('E', 'A1'):
                new = V('A1', c.d | d)
            elif w.k in ('S', 'I', 'N', 'C', 'SELF', 'T') and not rows and c.k in ('E', 'S'):
                new = V('S', c.d | self.scalar(w, st).d | self.pcd())
            else:
                new = V('B', c.d | d)
        if name in ('insert', 'appendleft') and new.k == 'A0':
            i = node.args[0] if name == 'insert' and isinstance(node, ast.Call) and node.args else None
            if name == 'insert' and not (isinstance(i, ast.Constant) and i.value == 0):
                new = V('B', new.d)
            elif any(t[0] == 'perm' for t in new.d):
                new = V('A0', frozenset(t for t in new.d if t[0] != 'perm'))
            else:
                new = V('A0', new.d | {self.tag('perm', 'the rows in reverse order', node)})
        st.heap[base.x] = new

    # ---- indices
    def index(self, s, st):
        """An index: V of kind I, K (constant), OFF (row +- constant), S, A0 ...; 'full', ('part',) for slices; tuples of these."""
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, st) for x in s.elts)
        if isinstance(s, ast.Slice):
            lo = self.ev(s.lower, st) if s.lower is not None else None
            hi = self.ev(s.upper, st) if s.upper is not None else None
            if s.step is not None:
                if s.lower is None and s.upper is None and ast.unparse(s.step) == '-1':
                    return 'reversed'
                return 'odd'
            if isinstance(s.lower, ast.Constant) and s.lower.value == 0:
                lo = None
            if hi is not None and self.deref(hi, st).k == 'N' and hi.x is None:
                hi = None
            if lo is None and hi is None:
                return 'full'
            for x in (s.lower, s.upper):
                if x is None:
                    continue
                neg = isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant)
                if not (isinstance(x, ast.Constant) and isinstance(x.value, int) or neg):
                    return 'odd'
            return 'part'
        if isinstance(s, ast.Constant):
            if s.value is Ellipsis or s.value is None:
                return 'odd'
            return V('K', NONE, s.value)
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant):
            return V('K', NONE, -s.operand.value)
        if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.Add, ast.Sub)):
            l, r = self.ev(s.left, st), self.ev(s.right, st)
            if l.k == 'I' and isinstance(s.right, ast.Constant) and s.right.value:
                return V('OFF', NONE, (s.right.value if isinstance(s.op, ast.Add) else -s.right.value, l.x))
            if r.k == 'I' and isinstance(s.left, ast.Constant) and s.left.value and isinstance(s.op, ast.Add):
                return V('OFF', NONE, (s.left.value, r.x))
        v = self.ev(s, st)
        return self.deref(v, st) if v.k == 'O' else v

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        c = self.deref(b, st)
        i = self.index(e.slice, st)
        first, rest = (i[0], i[1:]) if isinstance(i, tuple) else (i, ())
        if isinstance(i, tuple) and not i:
            return V('B', c.d)
        if c.k == 'T' and isinstance(first, V) and first.k == 'K' and isinstance(first.x, int) and -len(c.x) <= first.x < len(c.x):
            return c.x[first.x]
        if c.k == 'A0':
            if isinstance(first, V):
                if first.k == 'I':
                    return V('S', self.at_row(c.d, first.x), ('el', b.x, first) if b.k == 'O' and not rest else None)
                if first.k == 'K':
                    if isinstance(first.x, str):
                        return V('A0', c.d)
                    if OWN not in c.d:
                        return V('S', c.d, ('el', b.x, first) if b.k == 'O' else None)
                    return V('S', frozenset(t for t in c.d if t != OWN) | {self.tag('const', 'row %s' % first.x, e)},
                             ('el', b.x, first) if b.k == 'O' and not rest else None)
                if first.k == 'OFF':
                    if OWN not in c.d:
                        return V('S', c.d)
                    return V('S', frozenset(t for t in c.d if t != OWN) | {self.tag('off', 'row i %s %d' % ('+' if first.x[0] > 0 else '-', abs(first.x[0])), e)})
                if first.k == 'N' and OWN in c.d:
                    return V('S', frozenset(t for t in c.d if t != OWN) | {self.tag('const', 'row %s' % (first.x or 'n_rows'), e)})
                return V('B', c.d)
            if first == 'full':
                if not rest or all(isinstance(x, str) and x in ('full', 'part', 'odd') or isinstance(x, V) for x in rest):
                    return V('A0', c.d)
                return V('B', c.d)
            if first == 'part':
                return V('A0', c.d | {self.tag('badlen', 'only some of the rows', e)})
            if first == 'reversed':
                return V('A0', c.d | {self.tag('perm', 'rows in another order', e)})
            return V('B', c.d)
        if c.k == 'A1':
            second = rest[0] if rest else None
            if second is None:
                if isinstance(first, V) and first.k in ('K', 'S'):
                    return V('A0', c.d | first.d)
                return V('A1', c.d) if first in ('full', 'part') else V('B', c.d)
            if isinstance(second, V) and second.k == 'I':
                return V('S', self.at_row(c.d, second.x))
            if isinstance(second, V) and second.k == 'K' and OWN in c.d:
                return V('S', frozenset(t for t in c.d if t != OWN) | {self.tag('const', 'row %s' % second.x, e)})
            return V('B', c.d)
        if c.k in ('B', 'AC'):
            if isinstance(first, V) and first.k == 'I':
                return V('S', self.at_row(frozenset([OWN]), first.x))
            return V('B', c.d)
        d = c.d
        if isinstance(first, str):
            return V('S', d)
        for y in ((first,) + rest):
            if isinstance(y, V):
                if y.k in ('A0', 'A1', 'B'):
                    return V(y.k, d | y.d)
                d |= y.d
                if y.k == 'I':
                    d |= {('row', y.x)}
        return V('S', d, ('el2', b.x) if b.k == 'O' else None)

    # ---- expressions
    def ev(self, e, st):
        if e is None:
            return S0
        return getattr(self, 'e_' + type(e).__name__, self.e_other)(e, st)

    def e_other(self, e, st):
        d = NONE
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                v = self.deref(self.ev(n, st), st)
                if v.k in ('A0', 'A1', 'B'):
                    return V('B', d | v.d)
                d |= v.d
        return V('S', d)

    def e_Constant(self, e, st):
        return V('S', NONE, 'none') if e.value is None else S0

    def e_Lambda(self, e, st):
        return S0

    def e_JoinedStr(self, e, st):
        return S0

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Name(self, e, st):
        return st.env.get(e.id, S0)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        if b.k == 'SELF':
            return st.env.get(('self', e.attr), S0)
        c = self.deref(b, st)
        if c.k in ('A0', 'A1', 'B'):
            if e.attr == 'shape':
                if c.k == 'A0':
                    return V('T', NONE, (V('N'), V('C') if c.x == 'X' else S0))
                return S0 if c.k == 'B' else V('T', NONE, (S0, V('N')))
            if e.attr in ('ndim', 'size', 'dtype', 'columns'):
                return S0
            if e.attr == 'T':
                return V('A1', c.d) if c.k == 'A0' else V('A0', c.d) if c.k == 'A1' else V('B', c.d)
            if e.attr in ('values', 'flat', 'real') and c.k == 'A0':
                return V('A0', c.d)
            return V('B', c.d)
        return V('S', c.d)

    def e_Tuple(self, e, st):
        return V('T', NONE, tuple(self.ev(x, st) for x in e.elts))

    def e_List(self, e, st):
        if not e.elts:
            return self.alloc(e, V('E'), st)
        d, k = NONE, None
        for x in e.elts:
            v = self.deref(self.ev(x, st), st)
            d |= self.scalar(v, st).d if v.k not in ('A0', 'A1', 'B') else v.d
            if v.k == 'I':
                d |= {('row', v.x)}
            k = v.k if k in (None, v.k) else 'mix'
        if k == 'A0':
            return self.alloc(e, V('A1', d), st)
        if k in ('A1', 'B') or OWN in d:
            return self.alloc(e, V('B', d), st)
        return self.alloc(e, V('S', d), st)

    def e_Set(self, e, st):
        return self.e_other(e, st)

    def e_Dict(self, e, st):
        d = NONE
        for x in e.keys + e.values:
            if x is not None:
                d |= self.scalar(self.ev(x, st), st).d
        return self.alloc(e, V('S', d), st)

    def comp(self, e, gens, st, body):
        st2 = St(dict(st.env), st.heap)
        Ls = []
        pushed = 0
        for g in gens:
            it = self.ev(g.iter, st2)
            L, elem, dep = self.elements(it, g, st2)
            self.loops.append((id(g), L))
            self.pc.append(dep)
            pushed += 1
            self.assign(g.target, elem, st2)
            Ls.append(L)
            for c in g.ifs:
                self.pc[-1] = self.pc[-1] | self.scalar(self.ev(c, st2), st2).d
        vals = [self.deref(self.ev(b, st2), st2) for b in body]
        local = NONE
        for _ in range(pushed):
            self.loops.pop()
            local |= self.pc.pop()
        return Ls, vals, local, any(g.ifs for g in gens)

    def e_ListComp(self, e, st):
        Ls, (v,), local, ifs = self.comp(e, e.generators, st, [e.elt])
        rows = [L for L in Ls if L is not None]
        d = v.d | local
        if rows:
            if ifs or len(Ls) > 1 or v.k in ('A0', 'A1', 'B'):
                return self.alloc(e, V('B', d), st)
            if v.k == 'I' and v.x == rows[0]:
                return self.alloc(e, V('A0', frozenset([OWN])), st)
            return self.alloc(e, V('A0', self.own(self.scalar(v, st).d | local, rows[0], e)), st)
        if v.k == 'A0':
            return self.alloc(e, V('A1', d), st)
        if v.k in ('A1', 'B'):
            return self.alloc(e, V('B', d), st)
        if v.k == 'I':
            d |= {('row', v.x)}
        return self.alloc(e, V('S', self.scalar(v, st).d | d), st)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        v = self.deref(self.e_ListComp(e, st), st)
        return V('B', v.d) if v.k in ('A0', 'A1', 'B') else v

    def e_DictComp(self, e, st):
        Ls, vals, local, ifs = self.comp(e, e.generators, st, [e.key, e.value])
        d = local
        for v in vals:
            d |= v.d
        if any(Ls) or any(v.k in ('A0', 'A1', 'B') for v in vals):
            return V('B', d)
        return self.alloc(e, V('S', d), st)

    def binary(self, a, b, st, node):
        a0, b0 = a, b
        a, b = self.deref(a, st), self.deref(b, st)
        if a.k == 'I' or b.k == 'I':
            i = a if a.k == 'I' else b
            return V('S', a.d | b.d | {('row', i.x)})
        ks = {a.k, b.k}
        d = a.d | b.d
        if ks <= {'S', 'N', 'C', 'SELF'}:
            if ks & {'N'} and isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub)):
                o = node.right if a.k == 'N' else node.left
                if isinstance(o, ast.Constant) and isinstance(o.value, int) and o.value:
                    return V('N', d, ast.unparse(node))
            return V('S', d)
        if 'B' in ks or 'T' in ks or 'AC' in ks:
            return V('B', d)
        if ks <= {'A0', 'S', 'N', 'C'}:
            if any(t[0] == 'row' for t in (a if a.k == 'S' else b if b.k == 'S' else S0).d):
                return V('B', d)
            return V('A0', d)
        if ks <= {'A1', 'S', 'N', 'C'}:
            return V('A1', d)
        return V('B', d)

    def e_BinOp(self, e, st):
        l, r = self.ev(e.left, st), self.ev(e.right, st)
        if isinstance(e.op, ast.Mult):
            for p, q, pn in ((l, r, e.left), (r, l, e.right)):
                if isinstance(pn, (ast.List, ast.ListComp)):
                    qq = self.deref(q, st)
                    if qq.k == 'N' and qq.x is None:
                        el = pn.elts[0] if isinstance(pn, ast.List) and len(pn.elts) == 1 else None
                        mut = isinstance(el, (ast.Dict, ast.List, ast.Set)) or isinstance(el, ast.Call) and isinstance(el.func, ast.Name) and \
                            el.func.id in ('dict', 'list', 'set')
                        return self.alloc(e, V('A0', self.deref(p, st).d, 'shared' if mut else None), st)
                    if qq.k == 'N':
                        return self.alloc(e, V('A0', self.deref(p, st).d | {self.tag('badlen', '%s entries' % qq.x, e)}), st)
                    return self.alloc(e, V('S', self.deref(p, st).d) if qq.k == 'S' else V('B', self.deref(p, st).d | qq.d), st)
        return self.binary(l, r, st, e)

    def e_UnaryOp(self, e, st):
        v = self.deref(self.ev(e.operand, st), st)
        return V('S', v.d | {('row', v.x)}) if v.k == 'I' else v if v.k in ('A0', 'A1', 'B') else V('S', v.d)

    def e_BoolOp(self, e, st):
        r = None
        for x in e.values:
            v = self.ev(x, st)
            r = v if r is None else self.binary(r, v, st, None) if self.deref(v, st).k != self.deref(r, st).k else join(self.deref(r, st), self.deref(v, st))
        return self.deref(r, st)

    def e_Compare(self, e, st):
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            return S0
        r = self.ev(e.left, st)
        for o, c in zip(e.ops, e.comparators):
            v = self.ev(c, st)
            if isinstance(o, (ast.In, ast.NotIn)):
                r = V('S', self.scalar(r, st).d | self.scalar(v, st).d)
            else:
                r = self.binary(r, v, st, None)
        if self.deref(r, st).k == 'I':
            return S0
        # the position of a row is not its content
        return r

    def e_IfExp(self, e, st):
        t = self.scalar(self.ev(e.test, st), st).d
        a, b = self.ev(e.body, st), self.ev(e.orelse, st)
        v = join(a, b) if a.k == b.k == 'O' and a.x == b.x else join(self.deref(a, st), self.deref(b, st))
        return V(v.k, v.d | t, v.x) if t and v.k in ('S', 'A0', 'A1') else v

    # ---- calls
    def e_Call(self, e, st):
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        ext = self.external(fn)
        recv = None
        if isinstance(fn, ast.Attribute) and not ext:
            recv = self.ev(fn.value, st)
        args = []
        for a in e.args:
            args.append(self.ev(a, st))
        kw = {k.arg: self.ev(k.value, st) for k in e.keywords}
        return self.call(e, name, ext, recv, args, kw, st)

    def external(self, fn):
        b = self.prog.resolve_expr(self.f.module, fn)
        return b[1] if b and b[0] == 'ext' else None

    def target(self, e, recv, name):
        """The function of the library a call runs, and whether it is bound to self."""
        fn = e.func
        if isinstance(fn, ast.Attribute):
            if recv is not None and recv.k == 'SELF':
                return self.cls.find(name), True
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                cur = self.f.cls
                return (self.cls.find(name, after=cur) if cur is not None else None), True
            b = self.prog.resolve_expr(self.f.module, fn.value)
            if b and b[0] == 'class':
                return b[1].find(name), False
        b = self.prog.resolve_expr(self.f.module, fn)
        if b and b[0] == 'func':
            return b[1], False
        return None, False

    def call(self, e, name, ext, recv, args, kw, st):
        vals = list(args) + list(kw.values())
        dv = [self.deref(a, st) for a in vals]
        if name == 'get_dimensions' and args:
            a = self.deref(args[0], st)
            if a.k == 'A0':
                return V('T', NONE, (V('N'), V('C') if a.x == 'X' else S0))
            if a.k == 'B':
                return V('T', NONE, (S0, S0))
            return V('T', NONE, (S0, S0))
        if recv is None or ext:
            r = self.builtin(e, name, ext, args, kw, st)
            if r is not None:
                return r
        g, bound = self.target(e, recv, name)
        batchy = any(a.k in ('A0', 'A1', 'B', 'N', 'T', 'SELF') for a in dv) or any(a.k in ('O', 'I') for a in vals)
        if g is not None and batchy and g not in [x[0] for x in self.frames] and len(self.frames) < MAXDEPTH:
            return self.inline(g, bound, args, kw, st, e)
        if recv is not None:
            r = self.method(e, name, recv, args, kw, st)
            if r is not None:
                return r
        d = NONE
        shapes = set()
        for a in ([self.deref(recv, st)] if recv is not None else []) + dv:
            d |= self.scalar(a, st).d if a.k not in ('A0', 'A1', 'B') else a.d
            if a.k == 'I':
                d |= {('row', a.x)}
            shapes.add(a.k)
        if name in META:
            return S0
        if shapes & {'A0', 'A1', 'B', 'AC'}:
            if name in ('predict', 'predict_proba') and self.batch_arg(dv) == 'A0' and recv is not None and recv.k != 'SELF':
                for k in self.prog.classes:
                    if k.module is self.f.module and name in k.methods and k.methods[name].params[1:2] == ['X']:
                        self.used.add((k, k.methods[name]))
            if name and any(p in name for p in PRED) and self.batch_arg(dv) == 'A0':
                return V('A0', d)
            return V('B', d)
        for a in vals:
            if a.k == 'O':
                c = st.heap.get(a.x)
                if c is not None and c.k in ('S', 'E'):
                    st.heap[a.x] = V('S', c.d | d) if d else c
        return V('S', d)

    @staticmethod
    def batch_arg(dv):
        ks = {a.k for a in dv} & {'A0', 'A1', 'B', 'AC'}
        return 'A0' if ks == {'A0'} else None

    def inline(self, g, bound, args, kw, st, e):
        env = {}
        names = list(g.params)
        pos = ([V('SELF')] if bound and not g.static else []) + list(args)
        if not bound and g.cls is not None and not g.static and args and args[0].k == 'SELF':
            pos = list(args)
        for n, v in zip(names, pos):
            env[n] = v
        for k, v in kw.items():
            if k in g.all_params:
                env[k] = v
        for n in g.all_params:
            env.setdefault(n, V('S', NONE, 'none') if isinstance(g.defaults.get(n), ast.Constant) and g.defaults[n].value is None else S0)
        if g.vararg:
            env[g.vararg] = V('T', NONE, tuple(pos[len(names):]))
        for k, v in st.env.items():
            if isinstance(k, tuple):
                env[k] = v
        inner = St(env, st.heap)
        self.frames.append((g, []))
        sb = self.breaks
        self.breaks = []
        end = self.block(g.node.body, inner)
        self.breaks = sb
        _, rets = self.frames.pop()
        out, heap = None, None
        fields = {}
        if len({raw.x if raw.k == 'O' else id(raw) for _, raw, _, _, _ in rets}) == 1 and rets[0][1].k == 'O':
            out = rets[0][1]
        else:
            for v, _, _, _, _ in rets:
                out = join(out, v)
        sts = [s for _, _, _, _, s in rets] + ([end] if end is not None else [])
        for s in sts:
            heap = jst(heap, St({k: v for k, v in s.env.items() if isinstance(k, tuple)}, s.heap))
        if heap is not None:
            new = dict(heap.heap)
            st.heap.clear()
            st.heap.update(new)
            for k, v in heap.env.items():
                st.env[k] = v
        return out if out is not None else S0

    def builtin(self, e, name, ext, args, kw, st):
        a = [self.deref(x, st) for x in args]
        np = bool(ext)
        if not np and name in ('dict', 'list', 'set') and not args:
            return self.alloc(e, V('E') if name == 'list' else V('S'), st)
        if name in META or name == 'range' and not np:
            if name == 'len' and a:
                return V('N') if a[0].k == 'A0' else S0
            if name == 'range' and a:
                if len(args) == 1 and args[0].k == 'N' and args[0].x is None:
                    return V('RANGE', NONE, 'N')
                if len(args) == 2 and isinstance(e.args[0], ast.Constant) and e.args[0].value == 0 and args[1].k == 'N' and args[1].x is None:
                    return V('RANGE', NONE, 'N')
                if any(x.k in ('N', 'B', 'A0') for x in a):
                    return V('RANGE', NONE, 'odd')
                d = NONE
                for x in a:
                    d |= x.d
                return V('RANGE', d, 'S')
            if name == 'shape' and a and a[0].k == 'A0':
                return V('T', NONE, (V('N'), V('C') if a[0].x == 'X' else S0))
            return S0
        if np and name in ALLOC and not a and 'shape' in kw:
            args, a = [kw['shape']], [self.deref(kw['shape'], st)]
        if not a:
            return None
        x = a[0]
        if name in ('zip', 'zip_longest') and len(e.args) == 1 and isinstance(e.args[0], ast.Starred):
            return V('A1', x.d) if x.k == 'A0' else V('A0', x.d) if x.k == 'A1' else V('B', x.d) if x.k == 'B' else V('S', x.d)
        if name == 'enumerate' and not np:
            return V('ENUM', NONE, args[0])
        if name == 'zip' and not np:
            return V('ZIP', NONE, tuple(args))
        if not np and name in ('reversed', 'sorted'):
            if x.k == 'A0' and OWN in x.d and (args[0].k != 'RANGE'):
                return V('A0', x.d | {self.tag('perm', 'rows in another order', e)}) 
            return V('B', x.d) if x.k in ('A0', 'A1', 'B') else V('S', x.d)
        if not np and name in ('sum', 'max', 'min', 'any', 'all') and len(args) == 1:
            return self.reduce(x, 0, e)
        if not np and name in ('str', 'float', 'int', 'bool', 'repr', 'round', 'abs'):
            return V('S', self.scalar(x, st).d | ({('row', x.x)} if x.k == 'I' else NONE)) if x.k not in ('A0', 'A1', 'B') else x if name == 'abs' else V('B', x.d)
        if not np and name in ('list', 'tuple'):
            if x.k in ('A0', 'A1', 'B'):
                return x
            if x.k == 'S':
                return V('S', x.d)
            return None
        if np and name in ALLOC:
            if name.endswith('_like'):
                return self.alloc(e, V(x.k, NONE, None) if x.k in ('A0', 'A1', 'B') else V('S'), st)
            sh = e.args[0] if e.args else None
            n = x
            if x.k == 'T' and x.x:
                n = self.deref(x.x[0], st)
            fill = a[1].d if name == 'full' and len(a) > 1 and a[1].k == 'S' else NONE
            if n.k == 'N':
                return self.alloc(e, V('A0', fill if n.x is None else fill | {self.tag('badlen', '%s entries' % n.x, e)}), st)
            if x.k == 'T' and len(x.x) > 1 and self.deref(x.x[1], st).k == 'N':
                return self.alloc(e, V('A1', fill), st)
            if n.k == 'C':
                return self.alloc(e, V('AC', fill), st)
            return self.alloc(e, V('S', fill), st)
        if np and name in AXIS:
            return self.reduce(x, self.axis(e, args, kw), e, rest=a[1:])
        if np and name in ('argsort', 'sort', 'unique', 'flip', 'flipud', 'permutation', 'cumsum'):
            if x.k in ('A0', 'A1', 'B') and name in ('flipud',):
                return V('A0', x.d | {self.tag('perm', 'rows in another order', e)}) if x.k == 'A0' else V('B', x.d)
            return V('B', x.d) if x.k in ('A0', 'A1', 'B') else V('S', x.d)
        if np and name in ('column_stack', 'hstack', 'c_'):
            t = x.x if x.k == 'T' else None
            if t is not None:
                ys = [self.deref(y, st) for y in t]
            else:
                ys = [x] if x.k == 'A1' else None
            if ys and all(y.k in ('A0',) for y in ys) and (name == 'column_stack'):
                d = NONE
                for y in ys:
                    d |= y.d
                return V('A0', d)
            if ys and x.k == 'A1' and name == 'column_stack':
                return V('A0', x.d)
            return V('B', x.d)
        if np and name in ('transpose', 'swapaxes'):
            return V('A1', x.d) if x.k == 'A0' else V('A0', x.d) if x.k == 'A1' else V('B', x.d) if x.k == 'B' else V('S', x.d)
        if np and name in SAME or name in ('deepcopy', 'copy', 'normalize', 'check_array'):
            r = x
            for y in a[1:] if name not in ('normalize', 'check_array', 'array', 'asarray', 'copy', 'deepcopy', 'round', 'around', 'astype') else ():
                r = self.binary(r, y, st, None)
                r = self.deref(r, st)
            if r.k in ('A0', 'A1', 'B', 'AC'):
                return self.alloc(e, V(r.k, r.d), st) if r.k != 'B' else V('B', r.d)
            d = self.scalar(r, st).d | ({('row', r.x)} if r.k == 'I' else NONE)
            if r.k == 'T':
                ks = {self.deref(y, st).k for y in r.x}
                if ks == {'A0'}:
                    return V('A1', d | {OWN})
                if ks & {'A0', 'A1', 'B'}:
                    return V('B', d)
            return self.alloc(e, V('S', d), st) if not isinstance(r.x, tuple) else V('S', d)
        return None

    def axis(self, e, args, kw):
        for k in e.keywords:
            if k.arg == 'axis':
                try:
                    return ast.literal_eval(k.value)
                except ValueError:
                    return 'odd'
        n = e.args
        k = 1 if self.external(e.func) else 0
        if len(n) > k and e.func.attr != 'average' if isinstance(e.func, ast.Attribute) else False:
            try:
                return ast.literal_eval(n[k])
            except ValueError:
                return 'odd'
        return None

    def reduce(self, x, axis, e, rest=()):
        if x.k == 'B':
            return V('B', x.d)
        if x.k == 'A0':
            if axis in (1, -1):
                return V('A0', x.d)
            if axis in (None, 0):
                if OWN not in x.d:
                    return V('S', x.d)
                return V('S', frozenset(t for t in x.d if t != OWN) | {self.tag('all', 'the whole batch', e)})
            return V('B', x.d)
        if x.k == 'A1':
            if axis == 0:
                return V('A0', x.d)
            if axis in (1, None) and OWN in x.d:
                return V('S', frozenset(t for t in x.d if t != OWN) | {self.tag('all', 'the whole batch', e)})
            return V('B', x.d)
        d = x.d
        for y in rest:
            d |= y.d if y.k == 'S' else NONE
        return V('S', d)

    def method(self, e, name, recv, args, kw, st):
        x = self.deref(recv, st)
        a = [self.deref(y, st) for y in args]
        if name in GROW and args and (recv.k == 'O' or recv.k == 'S' and isinstance(recv.x, tuple) and recv.x[0] == 'el'):
            v = args[-1]
            if name in ('extend', 'update'):
                self.grow(recv, v, st, e, many=True)
            else:
                self.grow(recv, v, st, e, name=name)
            return S0
        if recv.k == 'O' and name in ('reverse', 'sort') and x.k == 'A0' and OWN in x.d:
            st.heap[recv.x] = V('B', x.d) if kw else V('A0', x.d | {self.tag('perm', 'rows in another order', e)})
            return S0
        if x.k in ('A0', 'A1', 'B', 'AC'):
            if name in AXIS:
                return self.reduce(x, self.axis(e, args, kw), e) if x.k in ('A0', 'A1') else V('B', x.d)
            if name in ('transpose',) and not args:
                return V('A1', x.d) if x.k == 'A0' else V('A0', x.d) if x.k == 'A1' else V('B', x.d)
            if name in ('reshape',) and x.k == 'A0':
                n = a[0] if a else S0
                if n.k == 'T' and n.x:
                    n = self.deref(n.x[0], st)
                if n.k == 'N':
                    return V('A0', x.d)
                f = e.args[0].elts[0] if isinstance(e.args[0], ast.Tuple) and e.args[0].elts else e.args[0]
                l = e.args[-1].elts[-1] if isinstance(e.args[-1], ast.Tuple) and e.args[-1].elts else e.args[-1]
                if ast.unparse(f) == '-1' and ast.unparse(l) == '1':
                    return V('A0', x.d)
                return V('B', x.d)
            if name in ('ravel', 'flatten', 'squeeze') and x.k == 'A0':
                return V('A0', x.d)
            if name in SAME:
                return V(x.k, x.d)
            return V('B', x.d)
        return None
