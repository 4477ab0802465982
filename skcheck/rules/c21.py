"""C21: a sample is learned with its own label and its own weight."""
from .handover import handed_on, opaque
from .rowtrain import aligned
from .rowflow import RowWalker, parts, learners, entry, incomplete, ROWS
from ..terms import TooManyPaths, show, subterms
from ..poly import poly, plus

FLOORS = {'training_methods': 30, 'hand_over_obligations': 20, 'weight_functions': 30, 'weight_hand_over_calls': 100}
XN, YN, WN = ('X',), ('y',), ('sample_weight', 'weight', 'weights')

# Learners that take account of sample weights (the others document that they do not, or leave them out altogether).
WEIGHTED = {'ARFHoeffdingTreeClassifier', 'ARFHoeffdingTreeRegressor', 'AdaptiveRandomForestClassifier', 'AdditiveExpertEnsembleClassifier',
            'BatchIncrementalClassifier', 'DynamicWeightedMajorityClassifier', 'ExtremelyFastDecisionTreeClassifier',
            'HoeffdingAdaptiveTreeClassifier', 'HoeffdingAdaptiveTreeRegressor', 'HoeffdingTreeClassifier', 'HoeffdingTreeRegressor',
            'LabelCombinationHoeffdingTreeClassifier', 'MultiOutputLearner', 'NaiveBayes', 'OnlineAdaC2Classifier',
            'OnlineBoostingClassifier', 'OnlineCSB2Classifier', 'OnlineRUSBoostClassifier', 'OnlineSMOTEBaggingClassifier',
            'OnlineUnderOverBaggingClassifier', 'OzaBaggingADWINClassifier', 'OzaBaggingClassifier', 'PerceptronMask',
            'StackedSingleTargetHoeffdingTreeRegressor', 'StreamingRandomPatchesClassifier', 'VeryFastDecisionRulesClassifier',
            'iSOUPTreeRegressor'}


def check(prog, res):
    res.rule('wherever a training method hands rows of X on together with labels or weights, the labels and weights are those of the same rows '
             '(row i with y[i] and sample_weight[i], the whole batch with all of y and sample_weight), and loops over the rows are complete; every function that is given a sample with its weight hands both on, and counts the sample by its weight')
    sites, weighted = set(), set()

    def compare(W, px, py, pw, key, at):
        if len(px) != 1:
            return
        (a,) = px
        for what, ps in (('label', py), ('weight', pw)):
            for b in ps:
                if b == a or any(isinstance(q, tuple) and (q[0] == 'other' or q[0] == 'row' and not plain_index(q[1])) for q in (a, b)) and \
                        not other_row(a, b):
                    continue
                res.add('own-' + what, key, '%s passes %s of X with %s of the %ss' % (W.cur.qual, text(a), text(b), what), at)

    for c in learners(prog):
        for n, f in entry(c, ('partial_fit', 'fit')):
            x = next((p for p in f.all_params if p in XN), None)
            y = next((p for p in f.all_params if p in YN), None)
            w = next((p for p in f.all_params if p in WN), None)
            if x is None or y is None:
                continue
            res.count('training_methods')
            aligned(prog, res, c, f, x, y, w)

            def on_call(W, e, name, recv, args, kw, st, c=c, f=f):
                ts = list(args) + list(kw.values())
                px, py, pw = set(), set(), set()
                for t in ts:
                    parts(t, x, px)
                    parts(t, y, py)
                    if w:
                        parts(t, w, pw)
                if name in ('fit', 'partial_fit') and recv is not None and recv[0] == 'elem' and recv[2][0] == 'idx':
                    for t in ts:
                        if t[0] == 'column' and len(t) == 3 and t[2][0] == 'c' and ('param', y) in subterms(t[1]):
                            res.add('own-label', '%s %s' % (W.cur.qual, name), '%s trains each of its models with column %s of the labels' % (
                                W.cur.qual, show(t[2])), (W.cur.file, e.lineno))
                if name in ('fit', 'partial_fit') and pw and not px and not py:
                    res.add('own-weight', '%s %s' % (W.cur.qual, name), '%s trains on other samples with the weights of this batch' % W.cur.qual,
                            (W.cur.file, e.lineno))
                if not px and py and pw:
                    px = py
                if not px or not (py or pw):
                    return
                px = {q for q in px if not (q != 'whole' and q[0] == 'row' and q[1] == ('c', 0) and len(px) > 1)}
                at = (W.cur.file, e.lineno)
                key = '%s %s' % (W.cur.qual, name)
                sites.add((W.cur.qual, e.lineno, e.col_offset))
                if pw:
                    weighted.add(c.name)
                compare(W, px, py, pw, key, at)
                if len(px) != 1:
                    return
                (a,) = px
                if isinstance(a, tuple) and a[0] == 'row' and a[1][0] == 'idx':
                    L = W.loops[a[1][1]]
                    if L.domain != ROWS and L.node is not None:
                        r = incomplete(W, L, x)
                        if r:
                            res.add('row-skipped', key, '%s does not go through all rows of X: %s' % (W.cur.qual, r), (W.cur.file, L.node.lineno))

            stores = {}

            def on_store(W, tg, b, i, t, st, c=c, f=f):
                d = stores.setdefault((W.active(st)[-1:], W.cur), {})
                for q, k in ((x, 'x'), (y, 'y'), (w, 'w')):
                    if q:
                        for a in parts(t, q):
                            if isinstance(a, tuple) and a[0] == 'row':
                                d.setdefault(k, set()).add(a)
                                d['at'] = (W.cur.file, tg.lineno)
                                if t == ('elem', ('param', q), a[1]) and b[0] == 'attr':
                                    d.setdefault('to', {}).setdefault(k, []).append(i)

            W = RowWalker(prog, c, [p for p in (x, y, w) if p], on_call)
            W.on_store = on_store
            ps = {('param', p) for p in (x, y, w) if p}
            W.mark = lambda n, ps=ps: any(t in ps for t in subterms(n))
            try:
                paths = W.run(f)
                for (lp, g), d in stores.items():
                    if lp and len(d.get('x', ())) == 1:
                        sites.add((g.qual, 'store'))
                        W.cur = g
                        compare(W, d['x'], d.get('y', set()), d.get('w', set()), g.qual + ' stores', d['at'])
                        if d.get('w'):
                            weighted.add(c.name)
                        to = d.get('to', {})
                        for k in ('y', 'w'):
                            for i in to.get('x', ()):
                                same = to.get(k, ())
                                if same and all(bool(plus(poly(i), poly(j), -1)) and not opaque(i) and not opaque(j) for j in same):
                                    res.add('own-' + {'y': 'label', 'w': 'weight'}[k], g.qual + ' stores', '%s keeps a row of X at %s and its %s at %s' % (
                                        g.qual, show(i), {'y': 'label', 'w': 'weight'}[k], show(same[0])), d['at'])
                for how, s in paths:
                    for ev in s.trace:
                        if ev.name == '!fact':
                            decided(W, ev, (x, y, w), res)
                        if ev.name in ('!break', '!return') and ev.loops and W.loops[ev.loops[-1]].domain == ROWS:
                            res.add('row-skipped', '%s loop' % ev.func.qual, 'leaves the loop over the samples early', (ev.func.file, ev.node.lineno))
            except TooManyPaths:
                res.count('undecided')
    ls = set(learners(prog))
    handed_on(prog, res, lambda c: c.name in WEIGHTED or c.name == 'AccuracyWeightedEnsembleClassifier' or c not in ls)
    names = {c.name for c in ls}
    for n in sorted(WEIGHTED & names - weighted):
        f = prog.need_cls(n).find('partial_fit')
        res.add('weight-dropped', n, '%s.partial_fit does not hand the weight of a sample on with the sample' % n, (f.file, f.node.lineno))
    res.count('weighted_learners', len(WEIGHTED & names))
    res.count('hand_over_obligations', len(sites))


def decided(W, ev, ps, res):
    """A condition that decides what is done with row i is not about another row."""
    ls = [l for l in ev.loops if W.loops[l].domain == ROWS]
    n = ev.recv
    if not ls or n[0] == 'op' and n[1] in ('Is', 'In'):
        return
    res.count('row_decisions')
    w = ps[2]
    if w and n[0] == 'op' and len(n) == 4 and n[1] in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq'):
        for p, q in ((n[2], n[3]), (n[3], n[2])):
            if p[0] == 'elem' and p[1] == ('param', w) and q[0] == 'c' and isinstance(q[1], (int, float)) and q[1] > 0:
                res.add('row-skipped', ev.func.qual + ' weight', '%s decides whether to learn a row by comparing its weight with %s' % (
                    ev.func.qual, q[1]), (ev.func.file, ev.func.node.lineno))
    for p in ps:
        for a in parts(n, p) if p else ():
            if isinstance(a, tuple) and a[0] == 'row':
                q = a[1]
                if q[0] in ('c', 'last') or affine(q) and not any(z[0] == 'idx' for z in subterms(q)) or q[0] == 'op' and q[1] in ('Add', 'Sub') and q[2] in [('idx', l) for l in ls] and q[3][0] == 'c' and q[3][1] != 0:
                    res.add('own-decision', ev.func.qual + ' decides', '%s decides what to do with row i by %s of %s' % (ev.func.qual, text(a), p),
                            (ev.func.file, ev.func.node.lineno))


def other_row(a, b):
    """Two selections that are certainly not the same row: indices that differ as polynomials."""
    if a == 'whole' or b == 'whole' or a[0] != 'row' or b[0] != 'row':
        return False
    i, j = a[1], b[1]
    if any(x[0] in ('unk', 'obj', 'watch', 'view') for t in (i, j) for x in subterms(t)):
        return False
    vi, vj = ({x for x in subterms(t) if x[0] == 'idx'} for t in (i, j))
    if vi | vj and (not vi or not vj) and not (affine(i) and affine(j)):
        return False
    d = plus(poly(i), poly(j), -1)
    return bool(d) and affine(i) and affine(j)


def affine(t):
    return t[0] in ('idx', 'c', 'len', 'last', 'rows') or t[0] == 'op' and t[1] in ('Add', 'Sub', 'Mult', 'USub') and all(affine(x) for x in t[2:])


def plain_index(i):
    return i[0] in ('idx', 'c') or i[0] == 'op' and i[1] in ('Add', 'Sub') and all(x[0] in ('idx', 'c') for x in i[2:])


def text(a):
    return 'all rows' if a == 'whole' else 'row %s' % show(a[1]) if a[0] == 'row' else 'rows %s:%s' % (show(a[1]), show(a[2]))
