"""C11: prequential evaluation tests on every batch first, then trains on it."""
from . import evalflow as E

FLOORS = {'path_obligations': 500, 'paths': 50}


def check(prog, res):
    res.rule('on every path through evaluate(): each batch drawn in the evaluation loop is predicted by every model, each prediction '
             'is recorded with its own label in both measurement sets, and then every model is trained on it exactly once, '
             'never before; pre-training batches are trained on once and never tested')
    c, f, W, traces = E.paths(prog, 'EvaluatePrequential')
    rep = E.Report(res, c.name)
    res.count('paths', len(traces))
    for tr in traces:
        bs = E.batches(tr)
        E.stray(rep, tr, bs)
        for b in bs:
            rep.need(b.stream, 'unknown-source', 'a batch is not drawn from the evaluated stream', b.e)
            if not b.live:
                for j, e in b.trains + b.predicts:
                    rep.need(tr.aborted_after(b.k), 'used-empty', 'a batch that did not arrive is used', e)
                continue
            if not b.in_loop:
                rep.need(not b.predicts and not b.records, 'pretrain-tested', 'a pre-training batch is used for testing', b.e)
                rep.need(len(b.trains) == 1 and b.full_train(b.trains[0][1]), 'pretrain-once',
                         'a pre-training batch is not used exactly once to train every model', b.e)
                continue
            nxt = next((o.k for o in bs if o.k > b.k), len(tr.ev))
            rep.need(len(b.predicts) == 1 and b.full_predict(b.predicts[0][1]), 'tested-once',
                     'a batch is not predicted exactly once by every model', b.e)
            rep.need(len(b.trains) == 1 and b.full_train(b.trains[0][1]), 'trained-once',
                     'a batch is not used exactly once to train every model', b.e)
            if b.predicts and b.trains:
                rep.need(b.predicts[0][0] < b.trains[0][0], 'test-then-train', 'a batch is trained on before it is predicted',
                         b.trains[0][1])
            got = [b.record_kind(e, b.own_prediction) for _, e in b.records]
            for m in ('mean_eval_measurements', 'current_eval_measurements'):
                rep.need(got.count(m) == 1 and None not in got, 'recorded-once',
                         'the predictions of a batch are not each recorded once with their own label in ' + m, b.e)
            for j, e in b.predicts + b.trains + b.records:
                rep.need(j < nxt, 'next-batch-first', 'the next batch is drawn before this one is dealt with', e)
    res.count('path_obligations', rep.n)
