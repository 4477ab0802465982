"""C10: streams hand out each sample once, in order, features with their own label."""
from ..terms import TooManyPaths, subterms, mentions, show
from ..poly import poly, plus, times
from .c18 import SELF
from .c22 import MetricWalker, replace

FLOORS = {'streams': 15, 'path_obligations': 60, 'row_obligations': 40}
FINITE = ('DataStream', 'FileStream', 'TemporalDataStream', 'RegressionGenerator', 'MultilabelGenerator', 'AnomalySineGenerator')
SOURCE = {'_X': 'X', 'X': 'X', '_y': 'y', 'y': 'y', 'time': 'time', 'sample_delay': 'sample_delay', 'sample_weight': 'sample_weight'}
HELD = {'_current_sample_x': 'X', 'current_sample_x': 'X', 'current_sample_y': 'y', 'current_sample_time': 'time',
        'current_sample_delay': 'sample_delay', 'current_sample_weight': 'sample_weight'}
IDX = ('attr', SELF, 'sample_idx')


class StreamWalker(MetricWalker):
    def __init__(self, prog, cls):
        super().__init__(prog, cls)
        self.inline_ok = lambda g: True
        self.watch_fields = {'sample_idx'}


def advance(W, s, size):
    """Polynomial by which a path moves sample_idx, or None when that cannot be told."""
    tot = {}
    for e in s.trace:
        if not e.name.endswith('=sample_idx') or e.recv != SELF:
            continue
        op = e.name.split('=')[0]
        if op in ('Add', 'Sub'):
            d = poly(e.args[0])
            d = d if op == 'Add' else plus({}, d, -1)
        elif op == '':
            if not mentions(e.args[0], IDX):
                return None
            d = plus(poly(e.args[0]), poly(IDX), -1)
            if any('sample_idx' in x for m in d for x in m) and not e.loops == ():
                return None
        else:
            return None
        for l in e.loops:
            dom = W.loops[l].domain
            n = dom[1] if dom is not None and dom[0] == 'rows' else None
            if n is None:
                return None
            d = times(d, poly(n))
        tot = plus(tot, d)
    return tot


def check(prog, res):
    res.rule('on every path through next_sample the returned values are what last_sample would return afterwards; sample_idx moves by the number '
             'of samples asked for (or left); finite streams return the rows [sample_idx, sample_idx + batch_size) of X, y, time, delay and '
             'weight alike; generators write row j only while generating row j, and split features and label at one column')
    base = prog.need_cls('Stream')
    for c in sorted(prog.classes, key=lambda k: k.qual):
        if base not in c.mro() or c is base or '.data.' not in c.qual or c.name == 'UnsupervisedStream':
            continue
        f = c.find('next_sample')
        if f is None or 'batch_size' not in f.all_params:
            continue
        res.count('streams')
        at = (f.file, f.node.lineno)
        W = StreamWalker(prog, c)
        try:
            paths = [s for how, s in W.run(f) if how == 'return']
        except TooManyPaths:
            res.count('undecided')
            continue
        last = lasts(prog, c)
        size = ('param', 'batch_size')
        for s in paths:
            res.count('path_obligations')
            t = s.ret
            if t is None or t[0] != 'tuple':
                res.count('undecided_returns')
                continue
            none = all(x == ('c', None) for x in t[1:])
            # what last_sample gives afterwards
            final = {('attr', SELF, a): v for (b, a), v in s.fld.items() if b == SELF}
            for l in last:
                got = replace(l, final)
                if got[1:] != t[1:]:
                    bad = [i for i, (a, b) in enumerate(zip(got[1:], t[1:])) if a != b]
                    res.add('last-sample', '%s %s' % (c.name, bad), '%s: last_sample would return something else than what was returned (position %s)' %
                            (f.qual, bad or 'number of values'), at)
            stale = {x[2] for v in t[1:] for x in subterms(v) if x[0] == 'attr' and x[1] == SELF and x[2] in HELD}
            if stale:
                res.add('stale', '%s %s' % (c.name, sorted(stale)), '%s returns the %s of the sample before on some path' % (f.qual, sorted(stale)), at)
            # progress
            if not none:
                d = advance(W, s, size)
                left = plus(poly(('attr', SELF, 'n_samples')), poly(IDX), -1)
                if d is None or any("'min'" in x for m in d for x in m):
                    res.count('undecided_progress')
                elif d != poly(size) and not (d == left and any(
                        n != 'loops' and n[0] == 'op' and n[1] in ('Lt', 'LtE') and mentions(n, size) and mentions(n, IDX) for n in s.facts)):
                    if c.name == 'RandomRBFGeneratorDrift' and not d:
                        res.count('undecided_progress')
                    else:
                        res.add('progress', c.name, '%s moves sample_idx by %s on some path, expected batch_size' % (f.qual, text(d)), at)
            # where the rows come from
            for held, x in zip([h for h in (last[0][1:] if last else ())], t[1:]):
                what = HELD.get(held[2]) if held[0] == 'attr' else None
                picked = x
                while picked[0] == 'column' or picked[0] == 'call' and picked[1] in ('stepped', 'flip', 'fliplr', 'flipud', 'roll') and len(picked) > 2:
                    picked = picked[1] if picked[0] == 'column' else picked[2]
                if c.name in FINITE and picked != x and any(y[0] == 'attr' and y[1] == SELF and y[2] in SOURCE for y in subterms(picked)):
                    res.add('picked', '%s %s' % (c.name, what), '%s does not return the %s of its samples as they are (%s)' % (f.qual, what, show(x)[:120]), at)
                if x[0] == 'slice' and x[1][0] == 'attr' and x[1][1] == SELF:
                    res.count('slice_obligations')
                    src = SOURCE.get(x[1][2])
                    if what and src and src != what:
                        res.add('wrong-source', '%s %s' % (c.name, what), '%s returns %s in the place of %s' % (f.qual, x[1][2], what), at)
                    lo, hi = poly(x[2]) if x[2] != ('c', None) else {}, poly(x[3])
                    n = poly(size) if advance(W, s, size) == poly(size) else advance(W, s, size)
                    if n is not None and not any("'min'" in y for m in n for y in m) and (lo != poly(IDX) or plus(hi, lo, -1) != n):
                        res.add('rows', '%s %s' % (c.name, what), '%s returns the rows [%s, %s) of %s, expected [sample_idx, sample_idx + batch_size)' %
                                (f.qual, text(lo), text(hi), x[1][2]), at)
            # generated rows
            arrays = {x[1] if x[0] == 'column' else x for x in t[1:3]}
            for e in s.trace:
                if e.name != '!store' or e.recv not in arrays or e.recv[0] not in ('call', 'lv', 'obj'):
                    if e.name == '!store' and e.recv[0] == 'elem' and e.recv[1] in arrays:
                        i = e.recv[2]
                    else:
                        continue
                else:
                    i = e.args[0]
                rowloops = [l for l in e.loops if W.loops[l].domain == ('rows', size)]
                if not rowloops:
                    continue
                res.count('row_obligations')
                i = i[1] if i[0] == 'tuple' else i
                here = ('idx', rowloops[0])
                others = {y[2] for a in e.args for y in subterms(a) if y[0] == 'elem' and y[1] in arrays and y[2] != here and
                          (y[2][0] == 'c' or y[2][0] == 'op' and mentions(y[2], here))}
                if others:
                    res.add('other-row', c.name, '%s reads row %s while generating row #%d' % (f.qual, show(sorted(others, key=repr)[0]), rowloops[0]),
                            (f.file, e.node.lineno))
                if i[0] in ('sl', 'stepsl', 'all') and i[1:] != (here, ('op', 'Add', here, ('c', 1))):
                    res.add('row', c.name, '%s writes to several rows while generating row #%d' % (f.qual, rowloops[0]), (f.file, e.node.lineno))
                elif i != ('idx', rowloops[0]) and (i[0] in ('c', 'idx', 'param') or i[0] == 'op' and not any(x[0] in ('unk', 'call', 'lv') for x in subterms(i))):
                    res.add('row', '%s' % c.name, '%s writes to row %s while generating row #%d' % (f.qual, show(i), rowloops[0]), (f.file, e.node.lineno))
            x, y = t[1], t[2]
            if x[0] == y[0] == 'column' and x[1] == y[1] and x[2][0] == y[2][0] == 'sl':
                res.count('split_obligations')
                if x[2][1] not in (('c', None), ('c', 0)) or y[2][2] != ('c', None) or poly(x[2][2]) != poly(y[2][1]):
                    res.add('split', c.name, '%s: features and label are not split at one column (features up to %s, label from %s)' %
                            (f.qual, show(x[2][2]), show(y[2][1])), at)
        remaining(prog, res, c)
        if c.name in ('DataStream', 'FileStream'):
            loaded(prog, res, c)
    drift(prog, res)


def text(p):
    def v(m):
        return '*'.join(x.replace("('attr', ('self',), '", '').replace("('param', '", '').rstrip("')") for x in m)
    return ' + '.join(('%s*%s' % (k, v(m)) if k != 1 else v(m)) if m else str(k) for m, k in sorted(p.items())) or '0'


def lasts(prog, c):
    f = c.find('last_sample')
    W = StreamWalker(prog, c)
    return [s.ret for how, s in W.run(f) if how == 'return' and s.ret is not None and s.ret[0] == 'tuple']


def remaining(prog, res, c):
    res.rule('finite streams: n_remaining_samples is n_samples - sample_idx, has_more_samples says whether that is positive')
    if c.name not in FINITE:
        return
    left = plus(poly(('attr', SELF, 'n_samples')), poly(IDX), -1)
    f = c.find('n_remaining_samples')
    W = StreamWalker(prog, c)
    for how, s in W.run(f):
        if how == 'return' and s.ret is not None:
            res.count('bound_obligations')
            if poly(s.ret) != left and not (s.ret == ('c', 0) and s.facts):
                if s.ret[0] == 'c' or all(x[0] in ('op', 'attr', 'self', 'c') for x in subterms(s.ret)):
                    res.add('remaining', c.name, '%s returns %s, expected n_samples - sample_idx' % (f.qual, text(poly(s.ret))), (f.file, f.node.lineno))
    f = c.find('has_more_samples')
    W = StreamWalker(prog, c)
    for how, s in W.run(f):
        if how == 'return' and s.ret is not None:
            res.count('bound_obligations')
            v = positive(s.ret, s.facts, left)
            if v is False:
                res.add('has-more', c.name, '%s does not say whether samples are left (%s)' % (f.qual, show(s.ret)), (f.file, f.node.lineno))
            elif v is None:
                res.count('undecided_bounds')


def positive(t, facts, left):
    """Does t say `left > 0`?  True / False / None."""
    neg = plus({}, left, -1)

    def one(n, v):
        if n[0] == 'op' and n[1] == 'Not':
            return one(n[2], not v)
        if n[0] == 'call' and n[1] == 'bool':
            return one(n[2], v)
        if n[0] == 'op' and n[1] in ('Lt', 'LtE', 'Gt', 'GtE') and len(n) == 4:
            a, b, op = n[2], n[3], n[1]
            if op in ('Gt', 'GtE'):
                a, b, op = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[op]
            d = plus(poly(b), poly(a), -1)          # a < b  <=>  d > 0
            if not v:
                d, op = plus({}, d, -1), 'LtE' if op == 'Lt' else 'Lt'
            if op == 'Lt' and d == left or op == 'LtE' and d == plus(left, {(): 1}, -1):
                return True
            return False if all(x[0] in ('op', 'attr', 'self', 'c') for x in subterms(n)) else None
        if n[0] == 'op' and n[1] in ('Eq', 'NotEq'):
            return None
        return None
    if t == ('c', True) or t == ('c', False):
        rel = [(n, v) for n, v in facts.items() if n != 'loops']
        if not rel:
            return False
        if len(rel) == 1:
            r = one(*rel[0])
            if r is None:
                return None
            flip = one(rel[0][0], not rel[0][1])
            return r if t[1] else (True if flip else False)
        return None
    return one(t, True)


def loaded(prog, res, c):
    res.rule('loading: the labels are the columns [target_idx, target_idx + n_targets) of the data, the features are all other columns, '
             'n_samples is the number of rows')
    f = c.find('_prepare_for_use')
    if f is None:
        return
    W = StreamWalker(prog, c)
    try:
        paths = [s for how, s in W.run(f) if how == 'return']
    except TooManyPaths:
        res.count('undecided')
        return
    at = (f.file, f.node.lineno)
    lo0 = ('attr', SELF, '_target_idx')
    hi0 = ('op', 'Add', lo0, ('attr', SELF, '_n_targets'))
    for s in paths:
        get = lambda *n: next((v for a in n for (b, k), v in s.fld.items() if b == SELF and k == a), None)
        X, y, n = get('_X', 'X'), get('_y', 'y'), get('n_samples')
        if X is None or y is None:
            continue
        res.count('load_obligations')
        if y[0] == 'column' and y[1][0] == 'attr' and y[1][2] == 'iloc' and y[2][0] == 'sl':
            D, lo, hi = y[1][1], y[2][1], y[2][2]
            end = any(m != 'loops' and m[0] == 'op' and m[1] == 'Eq' and v and poly(hi0) in (poly(m[2]), poly(m[3])) for m, v in s.facts.items())
            if poly(lo) != poly(lo0) or (hi == ('c', None) and not end) or hi != ('c', None) and poly(hi) != poly(hi0):
                res.add('targets', c.name, '%s takes the columns [%s, %s) as labels' % (c.name, show(lo), show(hi)), at)
            if X[0] == 'call' and X[1] == '.drop' and len(X) >= 4:
                T = X[3]
                ok = T == ('attr', y, 'columns') or T[0] == 'slice' and T[1] == ('attr', D, 'columns') and (T[2], T[3]) == (lo, hi)
                known = T[0] in ('slice', 'attr') and mentions(T, D)
                if not ok and known:
                    res.add('features', c.name, '%s drops the columns %s from the features, the labels are %s' % (c.name, show(T)[:80], show(y)[:80]), at)
            elif X == D or X[0] == 'column' and X[1] == ('attr', D, 'iloc') and X[2][0] == 'sl' and \
                    (X[2][1], X[2][2]) not in ((('c', None), lo), (hi, ('c', None))):
                res.add('features', c.name, '%s keeps label columns among the features' % c.name, at)
            if n is not None and n[0] == 'len' and n[1] != D or n is not None and n[0] == 'elem' and n[1] == ('attr', D, 'shape') and n[2] != ('c', 0):
                res.add('n-samples', c.name, '%s: n_samples is not the number of rows' % c.name, at)


def mono(t, var):
    """Does t grow (+1), fall (-1) or not depend (0) on var?  Parameters of width are taken as positive.  None: unknown."""
    if t == var:
        return 1
    if not mentions(t, var):
        return 0
    if t[0] == 'call' and t[1] in ('float', 'exp', 'expm1', 'tanh', 'int', 'log') and len(t) == 3:
        return mono(t[2], var)
    if t[0] == 'wrap':
        return mono(t[1], var)
    if t[0] != 'op':
        return None
    op = t[1]
    if op == 'USub':
        m = mono(t[2], var)
        return None if m is None else -m
    if len(t) != 4:
        return None
    a, b = mono(t[2], var), mono(t[3], var)
    if a is None or b is None:
        return None
    if op == 'Add':
        return a if a == b or b == 0 else b if a == 0 else None
    if op == 'Sub':
        return a if b == 0 else -b if a == 0 or a == -b else None
    if op == 'Mult' and (a == 0 or b == 0):
        k, o = (sign(t[2]), b) if a == 0 else (sign(t[3]), a)
        return None if k is None else k * o
    if op == 'Div' and b == 0:
        k = sign(t[3])
        return None if k is None else k * a
    if op == 'Div' and a == 0:
        k, p = sign(t[2]), sign(t[3])
        return None if k is None or p is None else -k * b
    return None


def sign(t):
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return (t[1] > 0) - (t[1] < 0)
    if t[0] == 'attr' and t[2] == 'width':
        return 1
    if t[0] == 'call' and t[1] == 'exp':
        return 1
    if t[0] == 'call' and t[1] in ('float', 'int') and len(t) == 3:
        return sign(t[2])
    if t[0] == 'op' and t[1] == 'USub':
        k = sign(t[2])
        return None if k is None else -k
    if t[0] == 'op' and len(t) == 4:
        a, b = sign(t[2]), sign(t[3])
        if a is not None and b is not None:
            if t[1] in ('Mult', 'Div'):
                return a * b
            if t[1] == 'Add' and a == b:
                return a
    return None


def drift(prog, res):
    res.rule('a concept drift stream takes features and label of a row from one sample of one of its streams, and the chance of taking it '
             'from the drift stream grows with the number of samples')
    c = prog.cls('ConceptDriftStream')
    f = c and c.find('next_sample')
    if f is None:
        return
    W = StreamWalker(prog, c)
    try:
        paths = [s for how, s in W.run(f) if how == 'return']
    except TooManyPaths:
        return
    at = (f.file, f.node.lineno)
    for s in paths:
        vals = [e.args[1] for e in s.trace if e.name == '!store']
        srcs = set()
        for v in vals:
            if v[0] == 'elem' and v[1][0] == 'call' and v[1][1] == '.next_sample':
                srcs.add(v[1][2])
                res.count('drift_row_obligations')
        parts = sorted(v[2][1] for v in vals if v[0] == 'elem' and v[1][0] == 'call' and v[1][1] == '.next_sample')
        if len(srcs) > 1:
            res.add('mixed', 'ConceptDriftStream', '%s takes features and label of one row from different streams' % f.qual, at)
        if parts and parts != [0, 1]:
            res.add('mixed', 'ConceptDriftStream parts', '%s does not store features and label of the sample it drew' % f.qual, at)
        if len(srcs) == 1:
            drifted = srcs == {('attr', SELF, 'drift_stream')}
            for n, v in s.facts.items():
                if n == 'loops' or n[0] != 'op' or n[1] not in ('Lt', 'LtE') or not mentions(n, IDX):
                    continue
                ra = any(x[0] == 'call' and x[1] in ('.rand', '.random_sample', '.uniform') for x in subterms(n[2]))
                rb = any(x[0] == 'call' and x[1] in ('.rand', '.random_sample', '.uniform') for x in subterms(n[3]))
                if ra == rb:
                    continue
                m = mono(n[3] if ra else n[2], IDX)
                if not m:
                    continue
                res.count('drift_direction_obligations')
                # u < p (true) : taken with probability p ; direction of p in sample_idx is m
                taken_with_p = (ra == v)
                grows = m > 0 if taken_with_p else m < 0
                if grows != drifted:
                    res.add('direction', 'ConceptDriftStream', '%s: the chance of the %s stream grows with the number of samples' %
                            (f.qual, 'first' if not drifted else 'first instead of the drift'), at)
