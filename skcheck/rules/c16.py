"""C16: one prediction per row, in order, from that row."""
import ast
from .rowdep import RowDep
from .rowflow import RowWalker, parts, learners, entry, incomplete, ROWS
from ..terms import TooManyPaths, Event, show, subterms

FLOORS = {'prediction_methods': 60, 'decided_returns': 60}
ALLOC = ('zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'full_like', 'empty_like')
REDUCE = ('argmax', 'argmin', 'mean', 'sum', 'average', 'median', 'max', 'min', 'amax', 'amin', 'normalize', 'round', 'around')
ORDER = ('sort', 'sorted', 'flip', 'flipud', 'reversed', 'unique', 'set', 'permutation', 'argsort')


class W16(RowWalker):
    def loop_once(self, s, a, L, bind, full):
        old = {o: len(q) for o, q in a.objs.items()}
        res = super().loop_once(s, a, L, bind, full)
        if L.domain == ROWS:
            # which lists get an entry in some pass of the loop and none in another
            new = [{o for o, q in b.objs.items() if o in old and any(x[1] == 'app' and x[0] == () and x[3] for x in q[old[o]:])} for how, b in res]
            for (how, b), mine in zip(res, new):
                if how == 'fall':
                    for o in sorted(set().union(*new) - mine):
                        b.trace = b.trace + (Event('!none', o, (), {}, (), s, self.cur, 0),)
        return res


def dim(W, n):
    if n[0] == 'c' and isinstance(n[1], int) and not isinstance(n[1], bool):
        return ('const', n[1])
    if W.domain_of_len(n) == ROWS:
        return 'rows'
    if n[0] == 'op' and n[1] in ('Add', 'Sub') and W.domain_of_len(n[2]) == ROWS and n[3][0] == 'c' and n[3][1] != 0:
        return ('const', 'n_rows %s %s' % ('+' if n[1] == 'Add' else '-', n[3][1]))
    return None


def height(W, t, s):
    """How many entries a returned term has: 'rows', ('const', k), ('order', why) or None when not known."""
    if W._rows(t) == ROWS:
        return 'rows'
    k = t[0]
    if k == 'call' and t[1] in ALLOC and len(t) > 2:
        n = t[2]
        if t[1].endswith('_like'):
            return height(W, n, s)
        return dim(W, n[1] if n[0] in ('tuple', 'wrap') and len(n) > 1 else n)
    if k == 'call' and t[1].lstrip('.') in ORDER and len(t) > 2:
        inner = height(W, t[2], s)
        return ('order', t[1]) if inner == 'rows' else inner if isinstance(inner, tuple) else None
    if k == 'call' and t[1].lstrip('.') in REDUCE and len(t) > 2:
        return height(W, t[2], s) if ('c', 1) in t[3:] or ('c', -1) in t[3:] or t[1] in ('normalize', 'round', 'around') else None
    if k == 'op':
        for x in t[2:]:
            h = height(W, x, s) if isinstance(x, tuple) else None
            if h is not None and x[0] != 'c':
                return h
        return None
    if k == 'column':
        return height(W, t[1], s)
    if k == 'slice':
        if height(W, t[1], s) == 'rows' and (t[2][0] == 'c' and t[2][1] not in (0, None) or t[3][0] == 'c' and t[3][1] is not None):
            return ('const', 'rows %s:%s' % (show(t[2]), show(t[3])))
        return None
    if k == 'obj':
        cs = [q for q in s.objs.get(t, ()) if q[0] == ()]
        if len(cs) == 1 and cs[0][1] == 'app' and cs[0][3] and W.loops[cs[0][3][-1]].domain == ROWS:
            return 'rows'
        return None
    if k == 'comp':
        return 'rows' if W.loops[t[1]].domain == ROWS else None
    return None


KIND = {'const': 'other-row', 'off': 'other-row', 'carry': 'other-row', 'all': 'whole-batch', 'perm': 'row-order', 'badlen': 'row-skipped',
        'row': 'other-row'}


def depends(prog, res, c, f, x):
    """What the entries of every returned value depend on."""
    R = RowDep(prog, c, x)
    try:
        rets = R.run(f)
    except RecursionError:
        res.count('undecided')
        return set()
    for v, raw, node, g, st in rets:
        at = (f.file, node.lineno)
        if v.k == 'B' or v.k == 'S' and not v.d:
            res.count('undecided_dependences' if v.k == 'B' else 'empty_returns')
            continue
        res.count('dependence_obligations')
        if v.k == 'AC':
            res.add('not-one-per-row', f.qual, '%s returns one entry per feature, not per row' % f.qual, at)
        elif v.k == 'A1' and ('own',) in v.d:
            res.add('row-order', f.qual, '%s returns the rows of X on the second axis' % f.qual, at)
        for t in sorted(v.d, key=str):
            if t[0] == 'own':
                continue
            if v.k == 'S' and t[0] == 'row':
                continue
            if t[0] == 'row':
                res.add('other-row', f.qual, '%s lets the entries of all rows depend on one row of X' % f.qual, at)
                continue
            what = {'const': 'the entry of row i depends on %s', 'off': 'the entry of row i depends on %s', 'all': 'the entry of row i depends on %s',
                    'perm': 'the results are those of %s', 'badlen': 'there are results for %s', 'carry': 'the entry of row i depends on what earlier '
                    'rows left behind%s'}[t[0]] % ('' if t[0] == 'carry' else t[1])
            where = t[-2:] if isinstance(t[-2], str) and t[-2].endswith(('.py', '.pyx')) else at
            res.add(KIND[t[0]], '%s %s' % (f.qual, t[0]), '%s: %s' % (f.qual, what), where)
    return R.used


def check(prog, res):
    helpers = set()
    res.rule('predict and predict_proba return exactly one entry per row of X on every path: lists get one append per pass of a complete '
             'in-order loop over the rows, arrays are allocated with one entry per row, and what is appended or stored for row i is '
             'computed and decided from row i (or entry i of a batch computation), never from another fixed row or from the batch as a whole')
    for c in learners(prog):
        for n, f in entry(c, ('predict', 'predict_proba')):
            x = 'X' if 'X' in f.all_params else None
            if x is None:
                continue
            res.count('prediction_methods')
            helpers |= depends(prog, res, c, f, x)
            stored = {}

            def on_store(W, tg, b, i, t, st):
                k = i[1] if i[0] == 'tuple' and len(i) > 1 else i
                while b[0] == 'elem':
                    b, k = b[1], b[2]
                if k[0] == 'c' and height(W, b, st) == 'rows' and any(
                        W.loops[l].domain == ROWS and ('row', ('idx', l)) in parts(t, x, calls=True) for l in W.active(st)):
                    res.add('other-row', W.cur.qual + ' stores', '%s stores what it computes from row i as entry %s' % (W.cur.qual, show(k)),
                            (W.cur.file, tg.lineno))
                if k[0] != 'idx':
                    return
                stored[(tg.lineno, tg.col_offset)] = 1
                own(W, k, t, W.cur.qual + ' stores', (W.cur.file, tg.lineno), b)

            def own(W, k, t, key, at, base=None, f=f):
                fn = W.cur or f
                ps = parts(t, x, calls=True)
                L = W.loops[k[1]]
                rows = {p for p in ps if isinstance(p, tuple) and p[0] == 'row'}
                if L.domain == ROWS:
                    res.count('row_value_obligations')
                    for p in rows:
                        q = p[1]
                        if q[0] == 'c' or q[0] == 'op' and q[1] in ('Add', 'Sub') and q[2] == k and q[3][0] == 'c' and q[3][1] != 0 \
                                or q[0] == 'last':
                            res.add('other-row', key, '%s computes the entry of row i from row %s of X' % (fn.qual, show(q)), at)
                    if 'whole' in ps and not rows:
                        res.add('whole-batch', key, '%s computes the entry of row i from all rows of X together' % fn.qual, at)
                elif L.node is not None and any(p[1] == k for p in rows):
                    r = incomplete(W, L, x)
                    if r:
                        res.add('row-skipped', key, '%s does not go through all rows of X: %s' % (fn.qual, r), at)
                    it = getattr(L.node, 'iter', None)
                    if base is None and isinstance(it, ast.Call) and getattr(it.func, 'id', None) in ('reversed', 'sorted'):
                        src = ast.unparse(fn.node)
                        if not any(w in src for w in ('insert(', 'appendleft(', '[::-1]', '.reverse()', 'flip')):
                            res.add('row-order', key, '%s goes through the rows of X in another order: %s' % (fn.qual, ast.unparse(it)), at)

            W = W16(prog, c, [x])
            W.on_store = on_store

            def mark(n, W=W, x=x):
                return any(y == ('param', x) for y in subterms(n))
            W.mark = mark
            try:
                paths = W.run(f)
            except TooManyPaths:
                res.count('undecided')
                continue
            at = (f.file, f.node.lineno)
            values = any(how == 'return' and s.ret is not None and s.ret != ('c', None) for how, s in paths)
            for how, s in paths:
                for ev in s.trace:
                    if ev.name == '!fact':
                        decided(W, ev, x, res)
                    if ev.name in ('!break', '!return') and ev.loops and W.loops[ev.loops[-1]].domain == ROWS:
                        res.add('row-skipped', ev.func.qual + ' loop', '%s leaves the loop over the rows early' % ev.func.qual, (ev.func.file, ev.node.lineno))
                if how != 'return' or s.ret is None:
                    continue
                t = s.ret
                if t == ('c', None) and values and falls(f):
                    res.add('no-result', f.qual, '%s returns nothing on some path' % f.qual, at)
                    continue
                while t[0] == 'call' and t[1].lstrip('.') in REDUCE and len(t) > 3 and t[2][0] == 'obj':
                    t = t[2]
                if t[0] == 'obj':
                    cs = [q for q in s.objs.get(t, ()) if q[0] == ()]
                    inrow = [q for q in cs if q[1] == 'app' and any(W.loops[l].domain == ROWS for l in q[3])]
                    if inrow:
                        res.count('decided_returns')
                        L = next(l for l in inrow[0][3] if W.loops[l].domain == ROWS)
                        if len(inrow) != 1 or inrow[0][3][-1] != L or len([q for q in cs if q[1] == 'app']) != 1:
                            res.add('not-one-per-row', f.qual, '%s appends %d results for a row on some path' % (f.qual, len(inrow)), at)
                            continue
                        own(W, ('idx', L), inrow[0][2], f.qual + ' appends', at)
                    elif cs and all(q[1] == 'app' and not q[3] for q in cs):
                        res.add('not-one-per-row', f.qual, '%s returns %d result(s) whatever the number of rows on some path' % (f.qual, len(cs)), at)
                    elif not cs and any(ev.name == '!none' and ev.recv == t for ev in s.trace):
                        res.add('not-one-per-row', f.qual, '%s appends no result for a row on some path' % f.qual, at)
                    else:
                        for q in cs:
                            if q[3] and q[1] == 'app':
                                own(W, ('idx', q[3][-1]), q[2], f.qual + ' appends', at)
                        res.count('undecided_returns')
                    continue
                h = height(W, t, s)
                if h == 'rows':
                    res.count('decided_returns')
                elif h is None:
                    res.count('undecided_returns')
                elif h[0] == 'order':
                    res.add('row-order', f.qual, '%s returns its results in another order (%s)' % (f.qual, h[1]), at)
                else:
                    res.add('not-one-per-row', f.qual, '%s returns %s result(s) whatever the number of rows on some path' % (f.qual, h[1]), at)
            res.count('stores', len(stored))
    done = {f for c in learners(prog) for n, f in entry(c, ('predict', 'predict_proba'))}
    for c, f in sorted(helpers, key=lambda p: (p[0].qual, p[1].qual)):
        if f not in done:
            done.add(f)
            res.count('member_methods')
            depends(prog, res, c, f, 'X')




def decided(W, ev, x, res):
    """A condition that decides what happens to row i must be about row i."""
    ls = [l for l in ev.loops if W.loops[l].domain == ROWS]
    n = ev.recv
    if not ls or n[0] == 'op' and n[1] in ('Is', 'In'):
        return
    ps = parts(n, x, calls=True)
    rows = {p for p in ps if isinstance(p, tuple) and p[0] == 'row'}
    res.count('row_decisions')
    fn = ev.func
    for p in rows:
        q = p[1]
        if q[0] == 'c' or q[0] == 'last' or q[0] == 'op' and q[1] in ('Add', 'Sub') and q[2] in [('idx', l) for l in ls] and q[3][0] == 'c' and q[3][1] != 0:
            res.add('other-row', fn.qual + ' decides', '%s decides the entry of row i from row %s of X' % (fn.qual, show(q)), (fn.file, fn.node.lineno))
    if 'whole' in ps and not rows:
        res.add('whole-batch', fn.qual + ' decides', '%s decides the entry of row i from the whole batch: %s' % (fn.qual, show(n)[:80]),
                (fn.file, fn.node.lineno))


def falls(f):
    """The end of the function can be reached without a return."""
    def ends(body):
        if not body:
            return False
        s = body[-1]
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
        if isinstance(s, ast.If):
            return ends(s.body) and ends(s.orelse)
        if isinstance(s, (ast.With,)):
            return ends(s.body)
        if isinstance(s, ast.Try):
            return (ends(s.body) or ends(s.orelse)) and all(ends(h.body) for h in s.handlers) or ends(s.finalbody)
        if isinstance(s, ast.While):
            return isinstance(s.test, ast.Constant)
        return False
    return not ends(f.node.body)
