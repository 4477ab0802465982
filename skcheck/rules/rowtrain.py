"""Rows of X, y and sample_weight in training methods: what is handed over together is about the same rows (C21).

The row-dependence interpreter of C16 with the labels and weights as batches besides X: a label or weight of a fixed or neighbouring row
used while a loop is at some row, or a batch handed over together with one in another order or with other rows missing."""
import ast
from .rowdep import RowDep, V, St, OWN, NONE

TRAIN = {'fit', 'partial_fit', '_partial_fit', 'learn_one', 'fit_single_sample', 'train_model', '_train_model', 'add_sample'}
BAD = ('perm', 'badlen', 'off', 'const', 'all')


class RowTrain(RowDep):
    def __init__(self, prog, cls, x, y, w):
        super().__init__(prog, cls, x)
        self.ps = [p for p in (x, y, w) if p]
        self.y, self.w = y, w
        self.found = {}
        self.n = 0
        self.kept = {}

    def run(self, f):
        env = {p: V('A0', frozenset([OWN]), 'X' if p == self.X else 'par') if p in self.ps else V('S') for p in f.all_params}
        if f.params and not f.static:
            env[f.params[0]] = V('SELF')
        st = St(env)
        self.frames.append((f, []))
        self.block(f.node.body, st)
        self.frames.pop()

    def report(self, rule, key, text, node):
        self.found[(rule, '%s %s' % (self.f.qual, key))] = ('%s %s' % (self.f.qual, text), (self.f.file, getattr(node, 'lineno', 0)))

    def measured(self, e):
        if not hasattr(self.f, '_par'):
            self.f._par = {id(c): n for n in ast.walk(self.f.node) for c in ast.iter_child_nodes(n)}
        p = self.f._par.get(id(e))
        while isinstance(p, (ast.Subscript, ast.Attribute)) and not (isinstance(p, ast.Attribute) and p.attr in ('shape', 'size', 'dtype', 'ndim')):
            p = self.f._par.get(id(p))
        return isinstance(p, ast.Attribute) or isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in (
            'len', 'type', 'isinstance', 'hasattr') or isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in ('shape', 'size')

    def at_some_row(self):
        return any(l is not None for _, l in self.loops)

    def e_Subscript(self, e, st):
        v = super().e_Subscript(e, st)
        if self.at_some_row() and isinstance(e.value, (ast.Name, ast.Attribute)) and v.k == 'S':
            b = self.deref(self.ev(e.value, st), st)
            if b.k == 'A0' and OWN in b.d:
                self.n += 1
                for t in v.d:
                    if t[0] in ('const', 'off') and t not in b.d and not self.measured(e):
                        self.report('own-row', 'uses', 'uses %s of %s while it learns row i' % (t[1], ast.unparse(e.value)), e)
        if v.k == 'S' and isinstance(e.ctx, ast.Load) and self.index(e.slice, st) == 'reversed':
            return V('S', v.d | {self.tag('perm', 'another order', e)})
        return v

    def stored(self, c, idx, w, d, node):
        first = idx[0][0] if isinstance(idx[0], tuple) else idx[0]
        if c.k == 'A0' and w.k == 'A0' and first in ('part', 'reversed'):
            return V('A0', c.d | d | {self.tag('off', 'other rows', node)}, c.x)
        return super().stored(c, idx, w, d, node)

    def builtin(self, e, name, ext, args, kw, st):
        if name in ('sort', 'flip', 'roll', 'permutation', 'flipud') and ext and args:
            x = self.deref(args[0], st)
            if x.k == 'S' or x.k == 'A0' and OWN in x.d:
                return V(x.k, x.d | {self.tag('perm', 'another order', e)})
        if name == 'check_X_y' and len(args) == 2:
            return V('T', NONE, tuple(self.deref(a, st) for a in args))
        return super().builtin(e, name, ext, args, kw, st)

    def call(self, e, name, ext, recv, args, kw, st):
        if name in TRAIN or name and name.endswith('partial_fit'):
            vs = [(k, self.deref(v, st)) for k, v in list(enumerate(args)) + list(kw.items())]
            plain = [v for k, v in vs if v.k == 'S' and k != 'classes']
            vs = [(k, v) for k, v in vs if v.k == 'A0' and OWN in v.d]
            self.n += 1
            if len(plain) > 1 and any(t[0] == 'perm' for t in plain[-1].d | plain[0].d | plain[1].d):
                ss = {frozenset(t[1] for t in v.d if t[0] == 'perm') for v in (plain[0], plain[1], plain[-1])}
                if len(ss) > 1:
                    self.report('own-row', name, 'hands samples to %s together with labels or weights in another order' % name, e)
            self.selected(e, name)
            sig = [frozenset((t[0], t[1]) for t in v.d if t[0] in ('perm', 'badlen', 'off')) for k, v in vs]
            if len(vs) > 1 and len(set(sig)) > 1:
                t = next(t for s in sig for t in s)
                self.report('own-row', name, 'hands %s to %s together with all rows in their order' % (t[1], name), e)
            elif vs and any(t[0] == 'badlen' for t in sig[0]):
                self.report('row-skipped', name, 'hands only some of the rows to %s' % name, e)
        return super().call(e, name, ext, recv, args, kw, st)

    def selected(self, e, name):
        """fit(A[i], B[j]) with different selections i and j."""
        sel = []
        once = {}
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                once.setdefault(n.targets[0].id, []).append(n.value)
        for a in list(e.args[:2]) + [k.value for k in e.keywords if k.arg in ('X', 'y', 'sample_weight')]:
            for _ in range(4):
                if isinstance(a, ast.Name) and len(once.get(a.id, ())) == 1:
                    a = once[a.id][0]
            if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Name):
                i = a.slice
                for _ in range(4):
                    if isinstance(i, ast.Name) and len(once.get(i.id, ())) == 1 and isinstance(once[i.id][0], ast.Name):
                        i = once[i.id][0]
                sel.append((ast.dump(a.value), i.id))
        if len({b for b, _ in sel}) > 1 and len({i for _, i in sel}) > 1:
            self.report('own-label', name, 'hands samples to %s together with labels or weights of another selection' % name, e)

    def method(self, e, name, recv, args, kw, st):
        if name in ('append', 'insert', 'appendleft') and e.args and isinstance(e.args[-1], ast.Subscript) and isinstance(e.args[-1].value, ast.Name) \
                and e.args[-1].value.id in self.ps:
            self.kept.setdefault(self.f, {}).setdefault(e.args[-1].value.id, set()).add((name, tuple(ast.dump(a) for a in e.args[:-1])))
            d = self.kept[self.f]
            for p in d:
                if p != self.X and self.X in d and d[p] != d[self.X] and len(d[p]) == len(d[self.X]) == 1:
                    self.report('own-label', 'keeps', 'keeps rows of X and of %s in different orders' % p, e)
        return super().method(e, name, recv, args, kw, st)


def aligned(prog, res, c, f, x, y, w):
    D = RowTrain(prog, c, x, y, w)
    try:
        D.run(f)
    except RecursionError:
        res.count('undecided_rows')
        return
    res.count('row_alignment_obligations', D.n)
    for (rule, key), (text, at) in D.found.items():
        res.add(rule, key, text, at)
