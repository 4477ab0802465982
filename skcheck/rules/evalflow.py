"""What the evaluators do with every batch they draw, path by path (C11, C12, C13, C14)."""
from ..terms import Walker, TooManyPaths, subterms, show, mentions
from ..model import AnalysisBroken

WATCH = {'next_sample', 'predict', 'partial_fit', 'fit', 'add_result', 'get_available_samples', 'update_queue', 'update_timestamp',
         'TimeManager', 'predict_proba', 'restart'}
SELF = ('self',)
PER_MODEL = ('model', 'mean_eval_measurements', 'current_eval_measurements', 'running_time_measurements', 'model_names')
MODELS = ('models',)
TASKS = {'CLASSIFICATION', 'MULTI_TARGET_CLASSIFICATION', 'REGRESSION', 'MULTI_TARGET_REGRESSION'}


def rows(t):
    if t[0] in ('rows', 'models'):
        return t
    if t[0] == 'attr' and t[1] == SELF and (t[2] in PER_MODEL or t[2] == 'n_models'):
        return MODELS
    if t[0] == 'call' and t[1] == 'ncols' and source(t[2]) is not None:
        return MODELS
    if t[0] == 'watch' and t[1] == 'predict':
        return rows(t[4]) if len(t) > 4 else None
    if t[0] == 'elem' and t[1][0] == 'watch' and t[1][1] in ('next_sample', 'get_available_samples') and t[2][0] == 'c':
        return ('rows',) + t[1][:4]
    return None


def source(t):
    """The draw a term is a component of."""
    if t[0] == 'elem' and t[1][0] == 'watch' and t[1][1] in ('next_sample', 'get_available_samples') and t[2][0] == 'c':
        return t[1]
    return None


def is_draw(t):
    return t[0] == 'watch' and t[1] in ('next_sample', 'get_available_samples')


def draws_in(t):
    return {x for x in subterms(t) if is_draw(x)}


def preds_in(t):
    return {x for x in subterms(t) if x[0] == 'watch' and x[1] == 'predict'}


class Trace:
    """One path through evaluate(), in terms of draws, predictions, records and training."""

    def __init__(self, W, st):
        self.W, self.st = W, st
        self.ev = list(st.trace)
        self.broken = {e.loops[-1] for e in self.ev if e.name in ('!break', '!return') and e.loops}

    def all_models(self, t, e):
        """Index of the complete loop over the models that t = <per model list>[index] uses, or None."""
        if t is None or t[0] != 'elem' or t[1][0] != 'attr' or t[1][1] != SELF or t[1][2] not in PER_MODEL:
            return None
        i = t[2]
        if i[0] != 'idx' or self.W.loops[i[1]].domain != MODELS or i[1] not in e.loops or i[1] in self.broken:
            return None
        return i

    def aborted_after(self, k):
        return any(x.name == '!except' for x in self.ev[k:])

    def is_none(self, draw):
        """The path found that the draw gave nothing."""
        gone = {('elem', draw, ('c', c)) for c in (0, 1)} | {('rows',) + draw[:4], draw}
        return any(e.name == '!none' and e.recv in gone for e in self.ev)


def uses(t, draw):
    """t is made of the draw's own components (not merely of something the draw's queue or clock depends on)."""
    if not isinstance(t, tuple) or not t:
        return False
    if t == draw:
        return True
    if t[0] == 'watch':
        return t[1] in ('predict', 'predict_proba') and any(uses(x, draw) for x in t[4:])
    return any(uses(x, draw) for x in t if isinstance(x, tuple))


def term_of(e):
    return ('watch', e.name, (e.node.lineno, e.node.col_offset, e.uid), e.recv if e.recv is not None else ('c', None)) + e.args + \
        tuple(v for _, v in sorted(e.kw.items()))


def where(e):
    return (e.func.file, e.node.lineno)


def paths(prog, cname, method='evaluate', extra=(), mark=None):
    c = prog.need_cls(cname)
    f = c.find(method)
    for iters in ((1,) if 'Delayed' in cname else (2, 1)):
        W = Walker(prog, c, WATCH | set(extra), rows=rows)
        W.nonempty = {MODELS}
        W.iters = iters
        W.mark = mark
        try:
            out = W.run(f)
            break
        except TooManyPaths:
            if iters == 1:
                raise AnalysisBroken('too many paths through %s.%s' % (cname, method))
    return c, f, W, [Trace(W, s) for how, s in out if how == 'return']


def is_stream(t):
    return t is not None and (t == ('attr', SELF, 'stream') or t == ('param', 'stream'))


def is_queue(t):
    return t is not None and (t[0] == 'watch' and t[1] == 'TimeManager' or t[0] == 'attr' and t[2] == 'time_manager')


TRAIN = ('partial_fit', 'fit')


class Batch:
    """One draw on one path and everything done with it."""

    def __init__(self, tr, k):
        self.tr, self.k, self.e = tr, k, tr.ev[k]
        self.t = term_of(self.e)
        self.X, self.y = ('elem', self.t, ('c', 0)), ('elem', self.t, ('c', 1))
        self.in_loop = any(x.name == '!iter' for x in tr.ev[:k])
        self.stream = is_stream(self.e.recv)
        self.predicts, self.trains, self.records = [], [], []
        for j in range(k + 1, len(tr.ev)):
            e = tr.ev[j]
            if e.name in ('predict', 'predict_proba') and uses(e.arg(0, 'X', ('c', None)), self.t):
                self.predicts.append((j, e))
            elif e.name in TRAIN and (any(uses(a, self.t) for a in e.args) or any(uses(a, self.t) for a in e.kw.values())):
                self.trains.append((j, e))
            elif e.name == 'add_result' and any(uses(a, self.t) for a in list(e.args) + list(e.kw.values())):
                self.records.append((j, e))

    @property
    def live(self):
        """The batch arrived and the path goes on to use it."""
        tr = self.tr
        return not tr.is_none(self.t) and not tr.aborted_after(self.k)

    def full_predict(self, e):
        return self.tr.all_models(e.recv, e) is not None and e.recv[1][2] == 'model' and e.arg(0, 'X') == self.X

    def full_train(self, e):
        return self.tr.all_models(e.recv, e) is not None and e.recv[1][2] == 'model' and e.arg(0, 'X') == self.X and \
            e.arg(1, 'y') == self.y

    def record_kind(self, e, pred_of):
        """'mean'/'current' if e records, for every model and row, this batch's label with the model's prediction for that row."""
        m = self.tr.all_models(e.recv, e)
        if m is None or e.recv[1][2] not in ('mean_eval_measurements', 'current_eval_measurements'):
            return None
        yt, yp = e.arg(0, 'y_true'), e.arg(1, 'y_pred')
        if yt is None or yp is None or yt[0] != 'elem' or yt[1] != self.y or yt[2][0] != 'idx':
            return None
        r = yt[2]
        if self.tr.W.loops[r[1]].domain != ('rows',) + self.t[:4] or r[1] not in e.loops or r[1] in self.tr.broken:
            return None
        return e.recv[1][2] if pred_of(yp, m, r) else None

    def own_prediction(self, yp, m, r):
        """The element for row r of model m's prediction on this batch's X."""
        return yp[0] == 'elem' and yp[2] == r and yp[1][0] == 'watch' and yp[1][1] == 'predict' and len(yp[1]) > 4 and \
            yp[1][4] == self.X and yp[1][3] == ('elem', ('attr', SELF, 'model'), m)

    def prediction_matrix(self, p):
        """p[row][model] is that model's prediction for that row of this batch."""
        return p[0] == 'view' and p[1][0] == 'elem' and p[1][2] == ('idx', 0) and p[1][1][0] == 'watch' and p[1][1][1] == 'predict' and \
            p[1][1][3] == ('elem', ('attr', SELF, 'model'), ('idx', -1)) and p[1][1][4:5] == (self.X,)

    def queued_prediction(self, yp, m, r):
        return yp == ('elem', ('elem', ('elem', self.t, ('c', 2)), r), m)


def batches(tr):
    return [Batch(tr, k) for k, e in enumerate(tr.ev) if e.name in ('next_sample', 'get_available_samples')]


class Report:
    def __init__(self, res, cname):
        self.res, self.c, self.n = res, cname, 0

    def need(self, ok, rule, what, e):
        self.n += 1
        if not ok:
            self.res.add(rule, '%s %s' % (self.c, what), 'on some path of evaluate(): ' + what, where(e))


def stray(rep, tr, bs):
    """Training or predicting on anything that is not a batch drawn by the evaluator, whole."""
    for e in tr.ev:
        if e.name in TRAIN + ('predict', 'predict_proba'):
            x = e.arg(0, 'X', ('c', None))
            rep.need(source(x) is not None, 'not-a-drawn-batch', '%s is not called with a whole batch drawn from the stream' % e.name, e)
            if e.name in TRAIN:
                y = e.arg(1, 'y', ('c', None))
                rep.need(source(y) is not None and source(y) == source(x) and y[2] == ('c', 1) and x[2] == ('c', 0), 'mismatched-labels',
                         'a batch is trained with labels that are not its own', e)
            rep.need(tr.all_models(e.recv, e) is not None and e.recv[1][2] == 'model', 'not-every-model',
                     '%s is not called for every evaluated model' % e.name, e)
