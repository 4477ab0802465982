"""C14: all models of one evaluation are treated alike and results are attributed to the right model."""
import ast
from . import evalflow as E

FLOORS = {'path_obligations': 1500, 'paths': 150}
TIMES = {'compute_training_time_begin', 'compute_training_time_end', 'compute_testing_time_begin', 'compute_testing_time_end',
         'update_time_measurements'}


def carried(node):
    """Names/attributes a loop body changes and also consults in a condition that the next iteration meets again."""
    stored, tests = {}, []
    for s in node.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                stored.setdefault(ast.unparse(n), []).append(n.lineno)
            elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                tests.append(n.test)
    out = set()
    for t in tests:
        for n in ast.walk(t):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                k = ast.unparse(n)
                if k in stored and not any(l < t.lineno for l in stored[k]):
                    out.add(k)
    return out


def check(prog, res):
    res.rule('on every path through evaluate(): every predict, partial_fit and add_result is made for every model, in a complete loop whose '
             'conditions no iteration changes, with the same arguments for every model; what is recorded or timed for a model comes '
             'from that model')
    total = 0
    for cname in ('EvaluatePrequential', 'EvaluateHoldout', 'EvaluatePrequentialDelayed'):
        c, f, W, traces = E.paths(prog, cname, extra=TIMES)
        rep = E.Report(res, cname)
        total += len(traces)
        for tr in traces:
            timed = None
            for k, e in enumerate(tr.ev):
                if e.name in E.TRAIN + ('predict',):
                    m = tr.all_models(e.recv, e)
                    rep.need(m is not None and e.recv[1][2] == 'model', 'not-every-model',
                             '%s is not called for every evaluated model' % e.name, e)
                    if m is None:
                        continue
                    for a in list(e.args) + list(e.kw.values()):
                        rep.need(not E.mentions(a, m), 'unequal-arguments', '%s gets arguments that depend on the model' % e.name, e)
                    L = W.loops[m[1]].node
                    if isinstance(L, ast.For):
                        ch = carried(L)
                        rep.need(not ch, 'loop-carried', 'the loop over the models decides on %s, which it changes itself'
                                 % ', '.join(sorted(ch)), e)
                    if timed is not None:
                        rep.need(timed == m, 'time-of-other-model', 'the time of one model is measured around the work of another', e)
                elif e.name == 'add_result':
                    m = tr.all_models(e.recv, e)
                    rep.need(m is not None, 'not-every-model', 'results are not recorded for every evaluated model', e)
                    if m is None:
                        continue
                    yp, yt = e.arg(1, 'y_pred'), e.arg(0, 'y_true')
                    ms = {x for x in E.subterms(yp) if x[0] == 'elem' and x[1] == ('attr', E.SELF, 'model')} if yp is not None else set()
                    rep.need(all(x[2] == m for x in ms), 'other-models-prediction', 'a prediction is recorded for another model', e)
                    rep.need(yt is None or not E.mentions(yt, m), 'unequal-labels', 'the true label recorded depends on the model', e)
                elif e.name in TIMES:
                    m = tr.all_models(e.recv, e)
                    rep.need(m is not None and e.recv[1][2] == 'running_time_measurements', 'not-every-model',
                             'running time is not measured for every evaluated model', e)
                    if e.name.endswith('_begin'):
                        timed = m
                    elif e.name.endswith('_end'):
                        rep.need(timed is not None and timed == m, 'time-of-other-model', 'a time measurement ends that was not begun for the model', e)
                        timed = None
        first_classes(prog, cname, rep)
        res.count('path_obligations', rep.n)
    res.count('paths', total)


def about_task(n):
    return n[0] == 'op' and n[1] in ('Eq', 'In') and any(x == ('attr', E.SELF, '_task_type') for x in n[2:])


def first_classes(prog, cname, rep):
    """The first training call of a classification task tells the models every class."""
    c, f, W, traces = E.paths(prog, cname, mark=about_task)
    for tr in traces:
        tasks = {'CLASSIFICATION', 'MULTI_TARGET_CLASSIFICATION', 'REGRESSION', 'MULTI_TARGET_REGRESSION'}
        for e in tr.ev:
            if e.name == '!fact':
                named = {x[2] for x in E.subterms(e.recv) if x[0] == 'attr' and x[2] in tasks | E.TASKS}
                tasks = tasks & named if e.args[0][1] else tasks - named
            elif e.name in E.TRAIN:
                cl = e.arg(2, 'classes', ('c', None))
                if tasks & {'CLASSIFICATION', 'MULTI_TARGET_CLASSIFICATION'}:
                    rep.need(E.mentions(cl, 'target_values'), 'first-call-classes',
                             'the first training call of a classification task does not give the classes of the stream', e)
                break
