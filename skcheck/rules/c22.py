"""C22: windowed metrics are about the last window_size results."""
import ast
from ..terms import Event, TooManyPaths, subterms, mentions, show
from ..poly import poly, plus
from .c18 import StateWalker, SELF

FLOORS = {'classes': 4, 'pairs': 20, 'matrix_paths': 2}
CLASSES = ('WindowClassificationPerformanceEvaluator', 'WindowMultiLabelClassificationPerformanceEvaluator',
           'WindowRegressionMeasurements', 'WindowMultiTargetRegressionMeasurements')
POP = ('popleft', 'pop', 'get_next_element')
PUSH = ('append', 'add_element')
CUMULATIVE = {'_total_weight_observed'}     # by name and documentation: everything observed, not the window


class MetricWalker(StateWalker):
    def __init__(self, prog, cls):
        super().__init__(prog, cls, set(POP) | set(PUSH), rows=self._rows)
        self.on_store = self._store
        self.inline_ok = lambda g: any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) or
                                       isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) or
                                       isinstance(n, ast.Call) and self.callname(n) in self.watch for n in ast.walk(g.node))

    @staticmethod
    def _rows(t):
        return t if t[0] == 'rows' else ('rows', t) if t[0] in ('param', 'elem', 'watch') else None

    @staticmethod
    def _store(W, tg, b, i, t, st):
        st.trace = st.trace + (Event('!store', b, (i, t), {}, tuple(W.active(st)), tg, W.cur, 0),)


def anon(t):
    """Loop counters have no identity of their own."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'idx':
        return ('idx', 0)
    return tuple(anon(x) for x in t)


def replace(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple):
        return t
    return tuple(replace(x, m) for x in t)


def leaving(t):
    """Sub-terms that stand for something taken out of the window."""
    return [x for x in subterms(t) if x[0] == 'watch' and (x[1] in POP or x[1] == 'add_element')]


class Step:
    """What one path adds to, and takes off, every accumulated quantity."""

    def __init__(self, s):
        self.add, self.sub = {}, {}
        self.raw = {}
        self.facts = {anon(n): v for n, v in s.facts.items() if n != 'loops'}
        for (b, a), t in s.fld.items():
            if b == SELF and isinstance(a, str) and mentions(t, ('attr', SELF, a)):
                self.split(a, t, ('attr', SELF, a))
        for e in s.trace:
            if e.name == '!store':
                self.split(('cell', anon(e.recv), anon(e.args[0])), e.args[1], None)

    def split(self, key, t, entry):
        t = anon(t)
        self.raw.setdefault(key, []).append((t, entry))


def flat(t, entry, sign=1, out=None):
    """Signed summands of t."""
    out = [] if out is None else out
    if t == entry:
        return out
    if t[0] == 'op' and t[1] in ('Add', 'Sub') and len(t) == 4:
        flat(t[2], entry, sign, out)
        flat(t[3], entry, sign if t[1] == 'Add' else -sign, out)
    else:
        out.append((sign, t))
    return out


def total(ts):
    p = {}
    for s, t in ts:
        p = plus(p, poly(t), s)
    return p


def check(prog, res):
    res.rule('every path of add_result enters the new result into the window once and takes at most one result out, exactly when the window is '
             'full; whatever a leaving result takes off a sum is what it added to that sum when it entered (the removal formula, with the '
             'remembered values put in, cancels the addition formula)')
    res.rule('the confusion matrix adds the same amount to the cell, to the row sum of the true class, to the column sum of the predicted '
             'class, and to the diagonal exactly when both are the same')
    for name in CLASSES:
        c = prog.cls(name)
        if c is None:
            continue
        f = c.find('add_result')
        res.count('classes')
        at = (f.file, f.node.lineno)
        W = MetricWalker(prog, c)
        try:
            paths = [s for how, s in W.run(f) if how == 'return']
        except TooManyPaths:
            res.count('undecided')
            continue
        adds, subs, deltas = [], [], []
        for s in paths:
            push = [e for e in s.trace if e.name in PUSH and e.recv[0] == 'attr' and e.recv[1] == SELF]
            pop = [e for e in s.trace if e.name in POP and e.recv[0] == 'attr' and e.recv[1] == SELF]
            st = Step(s)
            if not push and not pop and not st.raw:
                continue        # rejected input
            buffers = {}
            for e in push:
                buffers.setdefault(e.recv, []).append(e)
            if not push:
                res.add('not-entered', name, '%s updates its sums on a path that does not enter the result into the window' % f.qual, at)
                continue
            if any(len(v) > 1 for v in buffers.values()) or len(pop) > 1:
                res.add('entered-twice', name, '%s enters or removes a result twice on some path' % f.qual, at)
                continue
            full(res, f, s, push, pop, name, at)
            stored = {}
            for e in push:
                v = e.args[0] if e.args else None
                if e.name == 'add_element':
                    stored[('buf', e.recv)] = anon(v[1] if v is not None and v[0] == 'wrap' else v)
                else:
                    stored[('queue', e.recv)] = anon(v)
            A, R = {}, {}
            for key, ts in st.raw.items():
                for t, entry in ts:
                    for sg, x in flat(t, entry):
                        if key[0] == 'cell' and leaving(key) or leaving(x):
                            R.setdefault(key, []).append((sg, x))
                        else:
                            A.setdefault(key, []).append((sg, x))
            zero = {n[2]: ('c', 0) for n, v in st.facts.items() if n[0] == 'op' and n[1] == 'LtE' and n[3][0] == 'c' and n[3][1] == 0 and v
                    and n[2][0] == 'param'}
            if not any(stored == o[0] and same(A, o[1]) for o in adds):
                adds.append((stored, A, zero, st.facts))
            deltas.append((R, A, bool(pop)))
            subs.append((R, {n: v for n, v in st.facts.items() if leaving(n)}))
        const = {}
        for R, A, popped in deltas:
            for k in set(R) | set(A):
                const.setdefault(k, []).append((popped, total(A.get(k, [])) if k not in R else None))
        counters = {k for k, v in const.items() if isinstance(k, str) and all(d is not None and not any(m for m in d) for _, d in v)}
        for k in counters:
            for R, A, popped in deltas:
                d = total(A.get(k, [])).get((), 0)
                if d != (0 if popped else 1):
                    res.add('window-sum', '%s %s' % (name, k), '%s: %s changes by %s on a path that enters a result and takes %s out' %
                            (f.qual, k, d, 'one' if popped else 'none'), at)
        for R, rf in subs:
            gone = [v for n, v in rf.items() if n[0] == 'op' and n[1] == 'Is' and n[3] == ('c', None)]
            if R and any(gone):
                res.add('window-sum', '%s nothing left' % name, '%s takes something off its sums although nothing left the window' % f.qual, at)
                break
        taken = {k if isinstance(k, str) else 'cell' for R, _ in subs for k in R}
        for k in sorted({k if isinstance(k, str) else 'cell' for _, A, _, _ in adds for k, ts in A.items() if k not in counters and any(
                x[0] == 'param' for _, t in ts for x in subterms(t))} - CUMULATIVE - taken):
            res.add('window-sum', '%s %s' % (name, k), '%s: a result that leaves the window takes nothing off %s' % (f.qual, k), at)
        # combine
        seen = set()
        for stored, A, zero, af in adds:
            for R, rf in subs:
                if not R:
                    continue
                ok = True
                terms = {x for key, ts in R.items() for _, t in ts for x in leaving(t)} | {x for key in R if key[0] == 'cell' for x in leaving(key)} \
                    | {x for n in rf for x in leaving(n)}

                def put(t):
                    return replace(substitute(t, stored), zero)
                for n, v in rf.items():
                    w = put(n)
                    if n[0] == 'op' and n[1] == 'Is':
                        continue
                    tv = W.truth(w)
                    if tv is None:
                        tv = af.get(w)
                    if tv is None and w[0] == 'op' and w[1] == 'Eq' and w[2] == w[3]:
                        tv = True
                    if tv is None or tv != v:
                        ok = False
                if not ok:
                    continue
                res.count('pairs')
                tot = {}
                for key, ts in A.items():
                    k = cell(replace(key, zero))
                    tot[k] = plus(tot.get(k, {}), total([(s, replace(t, zero)) for s, t in ts]))
                for key, ts in R.items():
                    k = cell(put(key)) if key[0] == 'cell' else key
                    tot[k] = plus(tot.get(k, {}), total([(s, put(t)) for s, t in ts]))
                for k, p in tot.items():
                    if p and k not in CUMULATIVE and k not in counters and not any('watch' in m for mono in p for m in mono):
                        what = k if isinstance(k, str) else show(k[1])
                        if (name, what) not in seen:
                            seen.add((name, what))
                            res.add('window-sum', '%s %s' % (name, what), '%s: a result that leaves the window does not take off %s what it added (left: %s)' %
                                    (f.qual, what, ' + '.join('%s*%s' % (c2, ' '.join(x[:60] for x in m)) for m, c2 in sorted(p.items()))[:200]), at)
    matrix(prog, res)
    restart(prog, res)
    definitions(prog, res)
    from . import laws_metrics      # built on this module
    laws_metrics.check(prog, res)
    classwise(prog, res)


def restart(prog, res):
    res.rule('a metric object whose reset() runs its constructor again passes on every constructor parameter as it was given')
    for c in prog.classes:
        if '.metrics.' not in c.qual:
            continue
        f, init = c.methods.get('reset'), c.find('__init__')
        if f is None or init is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and not n.args and \
                    not any(k.arg is None for k in n.keywords):
                res.count('restarts')
                for p in init.all_params[1:]:
                    if p not in {k.arg for k in n.keywords}:
                        res.add('restart', '%s %s' % (c.name, p), '%s starts again without the %s it was created with' % (f.qual, p), (f.file, n.lineno))


def cell(k):
    return k


def same(a, b):
    return a.keys() == b.keys() and all(total(a[k]) == total(b[k]) for k in a)


def substitute(t, stored):
    """Put what was remembered when the result entered in the place of what is taken out."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'elem' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'watch':
        w = t[1]
        if w[1] in POP and ('queue', w[3]) in stored and t[2][0] == 'c':
            v = stored[('queue', w[3])]
            if v is not None and v[0] == 'tuple' and isinstance(t[2][1], int) and t[2][1] < len(v) - 1:
                return v[1:][t[2][1]]
        if w[1] == 'add_element' and ('buf', w[3]) in stored:
            return stored[('buf', w[3])]
    if t and t[0] == 'watch' and t[1] in POP and ('queue', t[3]) in stored:
        return stored[('queue', t[3])]
    return tuple(substitute(x, stored) for x in t)


def full(res, f, s, push, pop, name, at):
    """A result leaves exactly when the window holds window_size results."""
    q = next((e.recv for e in push if e.name == 'append'), None)
    if q is None:
        return
    n = ('len', q)
    for t, v in s.facts.items():
        if t == 'loops' or not (t[0] == 'op' and len(t) == 4 and t[1] in ('Eq', 'Lt', 'LtE') and mentions(t, ('attr', SELF, 'window_size'))
                                and mentions(t, n)):
            continue
        op, a, b = t[1:]
        ws = ('attr', SELF, 'window_size')
        res.count('window_obligations')
        wrong = None
        if (a, b) == (n, ws):
            is_full = v if op == 'Eq' else (not v if op == 'Lt' else None)
        elif (b, a) == (n, ws):
            is_full = v if op in ('Eq', 'LtE') else None
        else:
            is_full = None
        first = [e for e in s.trace if e in push or e in pop]
        if is_full is None and first and first[0] in pop and {a, b} & {n, ws}:
            wrong = 'compares the window with something else than window_size'
        elif is_full is not None and bool(pop) != is_full:
            wrong = 'keeps a result in a full window' if is_full else 'takes a result out of a window that is not full'
        if wrong:
            res.add('window-size', name, '%s %s' % (f.qual, wrong), at)
    if pop and not any(t != 'loops' and mentions(t, n) for t in s.facts):
        res.add('window-size', name, '%s takes a result out without looking at the size of the window' % f.qual, at)


def matrix(prog, res):
    for name in ('ConfusionMatrix',):
        for c in prog.classes:
            if c.name != name or c.find('__setitem__') is None:
                continue
            f = c.find('__setitem__')
            at = (f.file, f.node.lineno)
            W = MetricWalker(prog, c)
            try:
                paths = [s for how, s in W.run(f) if how == 'return']
            except TooManyPaths:
                res.count('undecided')
                continue
            key, w = ('param', f.all_params[1]), ('param', f.all_params[2])
            k0, k1 = ('elem', key, ('c', 0)), ('elem', key, ('c', 1))
            for s in paths:
                if any(n != 'loops' and n[0] == 'op' and n[1] == 'Is' and n[2] == w and v for n, v in s.facts.items()):
                    continue
                res.count('matrix_paths')
                got = {}
                for e in s.trace:
                    if e.name == '!store':
                        b, i, t = e.recv, e.args[0], e.args[1]
                        got[(b, i)] = plus(poly(t), poly(W.elem(b, i, s)), -1)
                want = {(('attr', SELF, 'sum_row'), k0): 'row sum of the true class', (('attr', SELF, 'sum_col'), k1): 'column sum of the predicted class'}
                for k, what in want.items():
                    if got.get(k) != poly(w):
                        res.add('matrix', '%s %s' % (name, k[0][2]), '%s does not add the weight once to the %s' % (f.qual, what), at)
                if not any(b == ('attr', SELF, 'data') and p == poly(w) for (b, i), p in got.items()):
                    res.add('matrix', name + ' data', '%s does not add the weight once to the cell' % f.qual, at)
                eq = next((v for n, v in s.facts.items() if n != 'loops' and n[0] == 'op' and n[1] == 'Eq' and set(n[2:]) == {k0, k1}), None)
                d = s.fld.get((SELF, 'sum_diag'))
                dd = plus(poly(d), poly(('attr', SELF, 'sum_diag')), -1) if d is not None else {}
                if eq is not None and dd != (poly(w) if eq else {}) or eq is None and dd in ({}, poly(w)):
                    res.add('matrix', name + ' sum_diag', '%s does not add the weight to the diagonal exactly for a correct prediction' % f.qual, at)


REG = {'get_mean_square_error': 'self.total_square_error / self.sample_count', 'get_average_error': 'self.average_error / self.sample_count',
       'get_last': '(self.last_true_label, self.last_prediction)'}
REGN = {'get_average_mean_square_error': 'np.sum(self.total_square_error / N) / self.n_targets',
        'get_average_absolute_error': 'np.sum(self.average_error / N) / self.n_targets',
        'get_last': '(self.last_true_label, self.last_prediction)'}
KAPPA = {'accuracy_score': 'self.confusion_matrix.sum_diag / self.n_samples', 'get_last': '(self.last_true, self.last_pred)',
         'kappa_t_score': ('kappa', 'self.weight_correct_no_change_classifier / self.n_samples'),
         'kappa_m_score': ('kappa', 'self.weight_majority_classifier / self.n_samples')}
MULTI = {'exact_match_score': 'self.exact_match_cnt / self.n_samples', 'jaccard_score': 'self.jaccard_sum / self.n_samples',
         'hamming_loss_score': '1.0 - self.hamming_score()', 'get_last': '(self.last_true, self.last_pred)'}
DEFINED = {
    'RegressionMeasurements': REG, 'WindowRegressionMeasurements': REG,
    'MultiTargetRegressionMeasurements': {k: v.replace('N', 'self.sample_count') for k, v in REGN.items()},
    'WindowMultiTargetRegressionMeasurements': {k: v.replace('N', 'self._sample_count') for k, v in REGN.items()},
    'ClassificationPerformanceEvaluator': KAPPA, 'WindowClassificationPerformanceEvaluator': KAPPA,
    'MultiLabelClassificationPerformanceEvaluator': MULTI, 'WindowMultiLabelClassificationPerformanceEvaluator': MULTI,
    'RunningTimeMeasurements': {'get_current_training_time': 'self._training_time', 'get_current_testing_time': 'self._testing_time',
                                'get_current_total_running_time': 'self._total_time'},
}
ADDED = {
    'RegressionMeasurements': {'total_square_error': '(Y - P) * (Y - P)', 'average_error': 'np.absolute(Y - P)', 'sample_count': '1'},
    'WindowRegressionMeasurements': {'total_square_error': '(Y - P) * (Y - P)', 'average_error': 'np.absolute(Y - P)'},
    'MultiTargetRegressionMeasurements': {'total_square_error': '(Y - P) * (Y - P)', 'average_error': 'np.absolute(Y - P)', 'sample_count': '1'},
    'WindowMultiTargetRegressionMeasurements': {'total_square_error': '(Y - P) * (Y - P)', 'average_error': 'np.absolute(Y - P)'},
    'MultiLabelClassificationPerformanceEvaluator': {'n_samples': '1'},
    'ClassificationPerformanceEvaluator': {'n_samples': '1'},
}


class Plain(StateWalker):
    def __init__(self, prog, cls):
        super().__init__(prog, cls, set(POP) | set(PUSH), inline=lambda g: False)


def term(W, text, **env):
    from ..terms import St
    st = St({'self': SELF, **env}, {}, {}, (), {})
    return W.ev(ast.parse(text, mode='eval').body, st)[0][0]


def definitions(prog, res):
    res.rule('the simple metrics are the quotient of the sums they are defined by, and add_result adds to those sums what the definition '
             'says (compared as polynomials over the terms)')
    for name, spec in DEFINED.items():
        c = prog.cls(name)
        if c is None:
            continue
        for m, text in spec.items():
            f = c.find(m)
            if f is None:
                continue
            W = Plain(prog, c)
            W.cur = f
            np = ('attr', ('mod',), 'np')
            kappa = isinstance(text, tuple)
            want = term(W, text[1] if kappa else text, np=np)
            try:
                paths = [s for how, s in W.run(f) if how == 'return' and s.ret is not None]
            except TooManyPaths:
                continue
            res.count('metric_obligations')
            main = 0
            for s in paths:
                t = s.ret
                if t[0] == 'c':
                    continue
                if kappa:
                    # (p0 - pe) / (1 - pe)
                    if not (t[0] == 'op' and t[1] == 'Div'):
                        continue
                    a = plus(poly(t[2]), poly(t[3]), -1)          # p0 - 1 whatever pe is
                    pe = plus({(): 1}, poly(t[3]), -1)
                    p0 = plus(a, {(): 1})
                    acc = poly(('call', '.accuracy_score', SELF))
                    if pe and pe != poly(want) or p0 != acc:
                        res.add('definition', '%s.%s' % (name, m), '%s is not (p0 - pe)/(1 - pe) with pe = %s' % (f.qual, text[1]), (f.file, f.node.lineno))
                    else:
                        main += 1
                elif norm(t) == norm(want):
                    main += 1
                elif readable(t, want):
                    res.add('definition', '%s.%s' % (name, m), '%s returns %s instead of %s' % (f.qual, show(t)[:80], text), (f.file, f.node.lineno))
            if paths and all(s.ret[0] == 'c' for s in paths):
                res.add('definition', '%s.%s' % (name, m), '%s returns a constant' % f.qual, (f.file, f.node.lineno))
    for name, spec in ADDED.items():
        c = prog.cls(name)
        f = c and c.find('add_result')
        if f is None:
            continue
        W = MetricWalker(prog, c)
        try:
            paths = [s for how, s in W.run(f) if how == 'return']
        except TooManyPaths:
            continue
        y, p = ('param', f.all_params[1]), ('param', f.all_params[2])
        for s in paths:
            if not s.fld:
                continue
            for a, text in spec.items():
                res.count('metric_obligations')
                want = poly(term(W, text, Y=y, P=p, np=('attr', ('mod',), 'np')))
                t = s.fld.get((SELF, a))
                got = {} if t is None else total([(sg, x) for sg, x in flat(t, ('attr', SELF, a)) if not leaving(x)])
                if got != want and (t is None or arithmetic(t)):
                    res.add('definition', '%s.add_result %s' % (name, a), '%s adds %s to %s instead of %s' %
                            (f.qual, ' + '.join(' '.join(m) for m in got)[:80] or 'nothing', a, text), (f.file, f.node.lineno))


def arithmetic(t):
    return all(x[0] != 'call' or x[1] in ('abs', 'absolute', 'fabs', 'square', 'power', 'float', 'int') for x in subterms(t))


class Deep(StateWalker):
    def __init__(self, prog, cls):
        super().__init__(prog, cls, set())
        self.inline_ok = lambda g: g.node.name not in ('accuracy_score', 'precision_score', 'recall_score')


def classwise(prog, res):
    """kappa, precision, recall and F1 in terms of the confusion matrix."""
    res.rule('per class, precision divides the diagonal cell by the column sum of predicted class, recall by the row sum of the true class; '
             'macro averages divide by the number of classes; kappa takes row share times column share summed over the classes as chance '
             'agreement; F1 is 2pr/(p+r) of precision and recall of the same class')
    CM = ('attr', SELF, 'confusion_matrix')
    for name in ('ClassificationPerformanceEvaluator', 'WindowClassificationPerformanceEvaluator'):
        c = prog.cls(name)
        if c is None:
            continue
        for m, side in (('precision_score', 'sum_col'), ('recall_score', 'sum_row'), ('geometric_mean_score', 'sum_row')):
            f = c.find(m)
            if f is None:
                continue
            res.count('metric_obligations')
            W = Deep(prog, c)
            seen = set()
            for how, s in runs(W, f):
                terms = [s.ret] if s.ret is not None else []
                terms += [e.args[1] for e in s.trace if e.name == '!store']
                for t in terms:
                    for x in subterms(t):
                        if x[0] == 'op' and x[1] == 'Div' and x[3][0] == 'elem' and x[3][1] in (('attr', CM, 'sum_row'), ('attr', CM, 'sum_col')):
                            k = x[3][2]
                            if x[3][1][2] != side or x[2] != ('elem', ('elem', CM, k), k):
                                seen.add(show(x)[:100])
                        elif x[0] == 'op' and x[1] == 'Div' and t == x and x[3][0] == 'attr' and x[3] != ('attr', CM, 'n_classes'):
                            seen.add(show(x)[:100])
            for x in seen:
                res.add('definition', '%s.%s' % (name, m), '%s computes %s; expected the diagonal cell over %s of the same class' % (f.qual, x, side),
                        (f.file, f.node.lineno))
        f = c.find('kappa_score')
        if f is not None:
            res.count('metric_obligations')
            for how, s in runs(Deep(prog, c), f):
                t = s.ret
                if t is None or t[0] != 'op' or t[1] != 'Div' or not arithmetic(replace(t, {('call', '.accuracy_score', SELF): ('c', 'acc')})):
                    continue
                pe = plus({(): 1}, poly(t[3]), -1)
                p0 = plus(plus(poly(t[2]), poly(t[3]), -1), {(): 1})
                ks = {x[2] for x in subterms(t) if x[0] == 'elem' and x[1] in (('attr', CM, 'sum_row'), ('attr', CM, 'sum_col'))}
                n = ('attr', SELF, 'n_samples')
                want = {}
                for k in ks:
                    want = plus(want, poly(('op', 'Mult', ('op', 'Div', ('elem', ('attr', CM, 'sum_row'), k), n),
                                            ('op', 'Div', ('elem', ('attr', CM, 'sum_col'), k), n))))
                alt = {tuple(x for x in mo): v for mo, v in want.items()}
                if squash(pe, n) != squash(alt, n) or p0 != poly(('call', '.accuracy_score', SELF)):
                    res.add('definition', '%s.kappa_score' % name, '%s: chance agreement is not the sum over classes of row share times column share' % f.qual,
                            (f.file, f.node.lineno))
        f = c.find('f1_score')
        if f is not None:
            res.count('metric_obligations')
            for how, s in runs(Deep(prog, c), f):
                for x in subterms(s.ret) if s.ret is not None else ():
                    if not (x[0] == 'op' and x[1] == 'Div' and mentions_call(x[3])):
                        continue
                    cv = next((y[3] if len(y) > 3 else ('c', -1) for y in subterms(x) if y[0] == 'call' and y[1] == '.precision_score'), None)
                    pr, rc = [('call', q, SELF) + ((cv,) if cv is not None else ()) for q in ('.precision_score', '.recall_score')]
                    want = poly(('op', 'Div', ('op', 'Mult', ('c', 2.0), ('op', 'Mult', pr, rc)), ('op', 'Add', pr, rc)))
                    if arithmetic(replace(x, {pr: ('c', 'p'), rc: ('c', 'r')})) and poly(x) != want or \
                            len({y[3:] for y in subterms(x) if y[0] == 'call' and y[1] in ('.precision_score', '.recall_score')}) > 1:
                        res.add('definition', '%s.f1_score' % name, '%s is not 2pr/(p+r) of precision and recall of the same class' % f.qual,
                                (f.file, f.node.lineno))
                        break


def mentions_call(t):
    return any(x[0] == 'call' and x[1] in ('.precision_score', '.recall_score') for x in subterms(t))


def squash(p, n):
    """1/n factors written in any grouping."""
    one = '1/' + repr(sorted(poly(n).items()))
    two = '1/' + repr(sorted(poly(('op', 'Mult', n, n)).items()))
    out = {}
    for m, v in p.items():
        k = tuple(sorted(sum(([one, one] if x == two else [x] for x in m), [])))
        out[k] = out.get(k, 0) + v
    return out


def runs(W, f):
    try:
        return [(h, s) for h, s in W.run(f) if h == 'return']
    except TooManyPaths:
        return []


def norm(t):
    if t[0] == 'tuple':
        return tuple(norm(x) for x in t[1:])
    if t[0] == 'call' and t[1] == 'sum' and len(t) == 3:
        return ('sum', tuple(sorted(poly(t[2]).items())))
    if t[0] == 'op' and t[1] == 'Div' and t[2][0] == 'call':
        return ('div', norm(t[2]), norm(t[3]))
    return tuple(sorted(poly(t).items()))


def readable(t, want):
    """Only arithmetic over fields of the metric: a difference is then a real one."""
    return all(x[0] in ('op', 'attr', 'self', 'c', 'tuple', 'mod') or x[0] == 'call' and x[1] in ('sum', '.hamming_score', 'len') for x in subterms(t))
