"""Which rows of X, y and sample_weight a learner passes on, path by path (C16, C21)."""
import ast
from ..terms import Walker, TooManyPaths, subterms, mentions, Event
from .. import whole

ROWS = ('rows',)
IGNORE_CALLS = {'dims', 'ncols', 'unique', 'set', 'type', 'isinstance', 'shape', 'get_dimensions', 'hasattr', 'str', 'print', 'ndim', 'size'}
NOSHARE = {'format', 'len', 'isinstance', 'type', 'print', 'ValueError', 'TypeError', 'get_dimensions', 'check_array', 'warn', 'range', 'zip',
           'enumerate', 'hasattr', 'str', 'RuntimeError', 'append', 'unique', 'max', 'min', 'any', 'all', 'isnan', 'array', 'asarray', 'shape'}


class RowWalker(Walker):
    def __init__(self, prog, cls, params, on_call=None, **k):
        self.pr = {('param', p): p for p in params}
        super().__init__(prog, cls, set(), rows=self._rows, **k)
        self.on_call = on_call

    def _rows(self, t):
        if t == ROWS or t in self.pr:
            return ROWS
        if t[0] == 'column':
            return self._rows(t[1])
        if t[0] == 'call' and t[1] in ('ones', 'zeros', 'full', 'empty') and len(t) > 2:
            n = t[2][1] if t[2][0] in ('tuple', 'wrap') and len(t[2]) > 1 else t[2]
            return self.domain_of_len(n)
        if t[0] == 'call' and t[1] == '.predict' and len(t) > 3:
            return self._rows(t[3])
        if t[0] == 'call' and t[1] in ('zeros_like', 'ones_like') and len(t) > 2:
            return self._rows(t[2])
        return None

    def watched(self, name):
        return name in ('fit', 'partial_fit', 'learn_one', 'update', 'add_sample', 'add_element')

    def interesting(self, f, seen=None):
        return False

    def call(self, e, name, recv, args, kw, st):
        g = self.resolve(recv, name)
        whole_x = any(a in self.pr or a[0] == 'column' and a[1] in self.pr for a in list(args) + list(kw.values()))
        fills = any(a[0] == 'obj' for a in list(args) + list(kw.values())) and recv in (None, ('self',))
        if g is not None and (whole_x or fills or tiny(g) and recv in (None, ('self',))) and g not in self.stack and len(self.stack) < self.maxdepth:
            pos = ([('self',)] if not g.static and g.cls is not None else []) + list(args)
            return self.call_inline(g, pos, kw, st, e)
        if name == 'check_weights' and args:
            return [(args[0], st)]
        if self.on_call is not None and name not in NOSHARE:
            self.on_call(self, e, name, recv, args, kw, st)
        return [(self.plain_call(e, name, recv, args, kw, st), st)]


def tiny(g):
    """Computes one expression."""
    b = [s for s in g.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(b) == 1 and isinstance(b[0], ast.Return)


def parts(t, p, out=None, calls=False):
    """Which parts of parameter p a term hands over: 'whole', ('row', i), ('slice', lo, hi), ('other', ...)."""
    out = set() if out is None else out
    if not isinstance(t, tuple) or not t:
        return out
    P = ('param', p)
    if t == P:
        out.add('whole')
        return out
    k = t[0]
    if k == 'len' or k == 'attr' and t[2] in ('shape', 'size', 'dtype', 'ndim') or k == 'call' and t[1] in IGNORE_CALLS:
        return out
    if k == 'elem':
        b = t[1]
        while b[0] == 'column':
            b = b[1]
        q = b
        while calls and q[0] == 'elem' and q[2][0] == 'c':
            q = q[1]
        if q[0] == 'call' and (calls and t[2][0] != 'c' or not calls and q[1].startswith('.predict')) and parts(q, p) == {'whole'}:
            out.add(('row', t[2]))
            return out
        if b == P:
            out.add(('row', t[2]))
            parts(t[2], p, out, calls)
            return out
    if k == 'slice':
        b = t[1]
        while b[0] == 'column':
            b = b[1]
        if b == P:
            out.add(('slice',) + t[2:])
            return out
    if k == 'view':
        out.add(('other', t))
        return out
    for x in t[1:]:
        if isinstance(x, tuple):
            parts(x, p, out, calls)
    return out


def learners(prog):
    return [c for c in whole.families(prog)['learner']]


def entry(c, names):
    seen = set()
    for n in names:
        f = c.find(n)
        if f is None or f.abstract or f in seen or not f.node.body:
            continue
        seen.add(f)
        yield n, f


def incomplete(W, L, x):
    """How a loop visibly misses rows: range(1, n), range(n - 1), range(0, n, 2) over the rows of X."""
    it = getattr(L.node, 'iter', None)
    if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range'):
        return None
    a = it.args
    num = [x.value if isinstance(x, ast.Constant) else None for x in a]
    step = num[2] if len(a) == 3 else 1
    if len(a) == 3 and isinstance(a[2], ast.UnaryOp):
        return None
    stop = a[1] if len(a) > 1 else a[0]
    if step not in (1, None) or len(a) > 1 and num[0] not in (0, None) or \
            isinstance(stop, ast.BinOp) and isinstance(stop.op, ast.Sub) and isinstance(stop.right, ast.Constant):
        return ast.unparse(it)
    return None
