"""C12: holdout evaluation never trains on the samples it tests with."""
from . import evalflow as E

FLOORS = {'path_obligations': 500, 'paths': 50}


def check(prog, res):
    res.rule('on every path through evaluate(): no batch is both trained on and tested with; every training batch trains every model exactly '
             'once; every test predicts the current holdout batch with every model and records each prediction with its own label')
    c, f, W, traces = E.paths(prog, 'EvaluateHoldout')
    rep = E.Report(res, c.name)
    res.count('paths', len(traces))
    for tr in traces:
        bs = E.batches(tr)
        E.stray(rep, tr, bs)
        last_test = None
        for b in bs:
            rep.need(b.stream, 'unknown-source', 'a batch is not drawn from the evaluated stream', b.e)
            rep.need(not (b.trains and (b.predicts or b.records)), 'holdout-trained', 'a batch is both trained on and tested with', b.e)
            if not b.live:
                continue
            if b.trains:
                rep.need(len(b.trains) == 1 and b.full_train(b.trains[0][1]), 'trained-once',
                         'a training batch is not used exactly once to train every model', b.e)
            elif b.predicts:
                for n, (j, e) in enumerate(b.predicts):
                    rep.need(b.full_predict(e), 'tested', 'a holdout batch is not predicted by every model', e)
                    end = b.predicts[n + 1][0] if n + 1 < len(b.predicts) else len(tr.ev)
                    rec = [x for k, x in b.records if j < k < end]
                    got = [b.record_kind(x, b.own_prediction) for x in rec]
                    for m in ('mean_eval_measurements', 'current_eval_measurements'):
                        rep.need(got.count(m) == 1 and None not in got, 'recorded-once',
                                 'the predictions on the holdout batch are not each recorded once with their own label in ' + m, e)
                    newer = [o for o in bs if b.k < o.k < j and o.predicts]
                    rep.need(not newer, 'stale-holdout', 'an outdated holdout batch is used for testing', e)
            elif b.in_loop:
                rep.need(b.e.args == (('attr', E.SELF, 'test_size'),) or 'test_size' in str(b.e.args), 'unused-batch',
                         'a batch is drawn and neither trained on nor tested with', b.e)
    res.count('path_obligations', rep.n)
