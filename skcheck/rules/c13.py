"""C13: delayed-label evaluation uses a label only once it is available."""
import ast
from . import evalflow as E
from .evalflow import SELF, term_of
from ..terms import Walker, mentions

FLOORS = {'path_obligations': 500, 'paths': 50}
QUEUE_ARGS = (('X', 0), ('y_true', 1), ('arrival_time', 2), ('available_time', 3), ('sample_weight', 4))


def check(prog, res):
    res.rule('on every path through evaluate(): a batch drawn in the loop is predicted by every model after the clock was moved to its arrival '
             'and the labels due by then were learned, and goes into the delay queue whole; only batches released by the queue '
             'are recorded and trained on, with their own labels, predictions and weights')
    c, f, W, traces = E.paths(prog, 'EvaluatePrequentialDelayed')
    rep = E.Report(res, c.name)
    res.count('paths', len(traces))
    for tr in traces:
        bs = E.batches(tr)
        E.stray(rep, tr, bs)
        for b in bs:
            q = E.is_queue(b.e.recv) or b.e.name == 'get_available_samples'
            rep.need(q or b.stream, 'unknown-source', 'a batch is drawn neither from the stream nor from the delay queue', b.e)
            if q:
                rep.need(not b.predicts, 'late-prediction', 'a released batch is predicted again', b.e)
                if not b.live:
                    continue
                rep.need(len(b.trains) == 1 and b.full_train(b.trains[0][1]), 'trained-once',
                         'a released batch is not used exactly once to train every model', b.e)
                for j, e in b.trains:
                    w = e.arg(3, 'sample_weight', ('c', None))
                    own = ('elem', b.t, ('c', 3))
                    rep.need(w == own or w == ('c', None) and any(x.name == '!none' and x.recv == own for x in tr.ev), 'own-weights', 'a released batch is trained with weights that are not its own', e)
                got = [b.record_kind(e, b.queued_prediction) for _, e in b.records]
                for m in ('mean_eval_measurements', 'current_eval_measurements'):
                    rep.need(got.count(m) == 1 and None not in got, 'recorded-once',
                             'the predictions of a released batch are not each recorded once with their own label in ' + m, b.e)
                continue
            if not b.in_loop:
                rep.need(not b.predicts and not b.records, 'pretrain-tested', 'a pre-training batch is used for testing', b.e)
                if b.live:
                    rep.need(len(b.trains) == 1 and b.full_train(b.trains[0][1]), 'pretrain-once',
                             'a pre-training batch is not used exactly once to train every model', b.e)
                continue
            rep.need(not b.trains and not b.records, 'label-too-early', 'the label of a drawn batch is used before the queue releases it', b.e)
            if not b.live:
                continue
            rep.need(len(b.predicts) == 1 and b.full_predict(b.predicts[0][1]), 'tested-once',
                     'a batch is not predicted exactly once by every model', b.e)
            nxt = next((j for j in range(b.k + 1, len(tr.ev)) if tr.ev[j].name in ('next_sample', '!iter')), len(tr.ev))
            seg = list(enumerate(tr.ev))[b.k:nxt]
            clock = [j for j, e in seg if e.name in ('update_timestamp', 'TimeManager') and
                     e.arg(0, 'timestamp') == ('elem', ('elem', b.t, ('c', 2)), ('c', -1))]
            avail = [j for j, e in seg if e.name == 'get_available_samples']
            queue = [(j, e) for j, e in seg if e.name == 'update_queue']
            rep.need(bool(clock) and len(avail) == 1 and min(clock) < avail[0], 'clock-first',
                     'available labels are fetched before the clock is moved to the arrival of the batch', b.e)
            rep.need(len(queue) == 1, 'queued-once', 'a drawn batch does not go into the delay queue exactly once', b.e)
            if b.predicts and avail:
                p = b.predicts[0][0]
                due = [j for j, e in seg if e.name in E.TRAIN]
                rep.need(avail[0] < p and all(j < p for j in due), 'learn-due-labels-first',
                         'a batch is predicted before the labels due by its arrival were learned', b.predicts[0][1])
            for j, e in queue:
                for pos, (n, k) in enumerate(QUEUE_ARGS):
                    a = e.arg({'X': 0, 'y_true': 1, 'sample_weight': 3, 'arrival_time': 4, 'available_time': 5}[n], n)
                    rep.need(a == ('elem', b.t, ('c', k)), 'queued-whole', 'the delay queue gets another %s than the batch has' % n, e)
                p = e.arg(2, 'y_pred')
                rep.need(p is not None and b.prediction_matrix(p), 'queued-predictions',
                         'the delay queue does not get, for each row of the batch, the prediction of every model for that row', e)
                rep.need(not avail or avail[0] < j, 'released-at-once', 'a batch can be released in the step it was queued', e)
    res.count('path_obligations', rep.n)
    queue_rules(prog, res)


# ---------------------------------------------------------------- the delay queue itself
Q = ('attr', SELF, 'queue')
SAME = ('reset_index', 'sort_values', 'copy', 'dropna')
ROLES = ('X', 'y_true', 'y_pred', 'sample_weight')
COMPLEMENT = {'LtE': 'Gt', 'Gt': 'LtE', 'Lt': 'GtE', 'GtE': 'Lt'}


def frame(t):
    """t with accessors and reorderings that keep every row removed."""
    while True:
        if t[0] == 'call' and t[1][1:] in SAME and len(t) > 2 and t[1][0] == '.':
            t = t[2]
        elif t[0] == 'attr' and t[2] in ('iloc', 'loc', 'values'):
            t = t[1]
        elif t[0] in ('slice', 'elem', 'op'):
            return t[:1] + tuple(frame(x) if isinstance(x, tuple) else x for x in t[1:])
        else:
            return t


def mask(t, col):
    """Which rows of the queue a boolean term selects: the comparison of the availability column with the clock."""
    neg = False
    while t[0] == 'op' and t[1] in ('Invert', 'Not') or t[0] == 'call' and t[1] == 'logical_not':
        t, neg = t[2], not neg
    if t[0] != 'op' or t[1] not in COMPLEMENT or len(t) != 4:
        return None
    a, b = t[2], t[3]
    op = t[1]
    if b[0] == 'elem' and b[1] == Q and b[2][0] == 'c':
        a, b, op = b, a, {'LtE': 'GtE', 'GtE': 'LtE', 'Lt': 'Gt', 'Gt': 'Lt'}[op]
    if a[0] != 'elem' or a[1] != Q or a[2][0] != 'c' or b != ('attr', SELF, 'timestamp'):
        return None
    if a[2] != ('c', col):
        return 'other'
    return COMPLEMENT[op] if neg else op


def columns(prog, c, res):
    """Parameter stored in each column of the queue, per path of update_queue."""
    W = Walker(prog, c, {'DataFrame', 'append', 'concat'}, watch_fields=('queue',))
    f = c.find('update_queue')
    v = next((k.class_attrs['_COLUMN_NAMES'] for k in c.mro() if '_COLUMN_NAMES' in k.class_attrs), None)
    names = [x.value for x in v.elts if isinstance(x, ast.Constant)] if isinstance(v, (ast.List, ast.Tuple)) else None
    out = None
    for how, s in W.run(f):
        if how != 'return':
            continue
        fr = next((e for e in s.trace if e.name == 'DataFrame'), None)
        kept = any(e.name in ('append', 'concat') and any(mentions(a, Q) for a in (e.recv or ('c', 0),) + e.args) and
                   fr is not None and mentions(term_of(e), term_of(fr)) for e in s.trace)
        final = s.fld.get((SELF, 'queue'))
        res.count('queue_obligations', 1)
        if fr is None or not kept or final is None or not mentions(final, term_of(fr)) or not mentions(final, Q):
            res.add('queue-keeps', 'TimeManager.update_queue', 'the queue after update_queue is not the old queue plus the new samples',
                    (f.file, f.node.lineno))
            return None
        z = fr.args[0] if fr.args else None
        given = fr.kw.get('columns')
        if given is not None and given[0] == 'tuple':
            names = [x[1] for x in given[1:]]
        if z is None or z[0] != 'call' or z[1] != 'zip' or names is None:
            return None
        m = {}
        for col, t in zip(names, z[2:]):
            if t[0] == 'param':
                m[t[1]] = col
            else:
                p = next((p for p in f.all_params if p not in m and p == col), None)
                if p:
                    m[p] = col
        out = m if out is None else out if out == m else None
        if out is None:
            return None
    return out


def queue_rules(prog, res):
    c = prog.need_cls('TimeManager')
    cols = columns(prog, c, res)
    if not cols or 'available_time' not in cols:
        return
    for name in ('get_available_samples', 'next_sample'):
        f = c.find(name)
        W = Walker(prog, c, set(), watch_fields=('queue',))
        n = f.params[1] if len(f.params) > 1 else None
        for how, s in W.run(f):
            if how != 'return':
                continue
            at = (f.file, f.node.lineno)
            what = 'TimeManager.' + name
            r = s.ret
            left = frame(s.fld.get((SELF, 'queue'), Q))
            if r is None or r[0] != 'tuple':
                continue
            res.count('queue_obligations', 3)
            sel = set()
            for i, role in enumerate(ROLES):
                if i + 1 < len(r) and r[i + 1] != ('c', None):
                    t = frame(r[i + 1])
                    if t[0] == 'elem' and t[2] == ('c', cols.get(role)):
                        sel.add(t[1])
                    elif t[0] == 'elem' and t[2][0] == 'c' and isinstance(t[2][1], str):
                        res.add('queue-columns', '%s %s' % (what, role), 'returns the %r column where callers expect %s' % (t[2][1], role), at)
            if len(sel) > 1:
                res.add('queue-rows', what, 'returns samples, labels, predictions and weights of different rows', at)
                continue
            if not sel:
                continue
            taken = next(iter(sel))
            if name == 'get_available_samples':
                a = mask(taken[2], cols['available_time']) if taken[0] == 'elem' and taken[1] == Q else None
                b = mask(left[2], cols['available_time']) if left[0] == 'elem' and left[1] == Q else None
                if left == Q or a is not None and b is not None and b != COMPLEMENT.get(a):
                    res.add('queue-partition', what, 'a queued sample can be released twice or dropped: rows released and rows kept '
                            'are not complementary', at)
                if a is not None and a != 'LtE':
                    res.add('queue-availability', what, 'releases samples other than those whose label is available at the current time', at)
            elif n is not None:
                N = ('param', n)
                head, tail = ('slice', Q, ('c', None), N), ('slice', Q, N, ('c', None))
                head0, none = ('slice', Q, ('c', 0), N), ('slice', Q, ('c', 0), ('c', 0))
                if left == Q or (taken, left) not in ((head, tail), (head0, tail), (Q, none), (Q, tail)) and \
                        taken[0] in ('slice', 'attr') and left[0] in ('slice', 'attr') and _plain(taken) and _plain(left):
                    res.add('queue-partition', what, 'the samples returned and the samples kept do not partition the queue', at)


def _plain(t):
    return t == Q or t[0] == 'slice' and t[1] == Q and all(_num(x) for x in t[2:])


def _num(x):
    return x[0] in ('c', 'param') or x[0] == 'op' and x[1] in ('Add', 'Sub') and all(_num(y) for y in x[2:])
