"""C15: every reported metric is the one it is reported as."""
import ast
from ..terms import subterms, Walker
from .evalflow import SELF, MODELS, PER_MODEL, term_of
from ..model import AnalysisBroken

FLOORS = {'metrics': 18, 'metric_obligations': 150}
GETTER = {'ACCURACY': 'accuracy_score', 'KAPPA': 'kappa_score', 'KAPPA_T': 'kappa_t_score', 'KAPPA_M': 'kappa_m_score',
          'HAMMING_SCORE': 'hamming_score', 'HAMMING_LOSS': 'hamming_loss_score', 'EXACT_MATCH': 'exact_match_score',
          'J_INDEX': 'jaccard_score', 'MSE': 'get_mean_square_error', 'MAE': 'get_average_error',
          'AMSE': 'get_average_mean_square_error', 'AMAE': 'get_average_absolute_error', 'ARMSE': 'get_average_root_mean_square_error',
          'F1_SCORE': 'f1_score', 'PRECISION': 'precision_score', 'RECALL': 'recall_score', 'GMEAN': 'geometric_mean_score'}
TIME = {'training_time': 'get_current_training_time', 'testing_time': 'get_current_testing_time',
        'total_running_time': 'get_current_total_running_time'}
TASKS = ('CLASSIFICATION', 'REGRESSION', 'MULTI_TARGET_CLASSIFICATION', 'MULTI_TARGET_REGRESSION')
METRICS = ('attr', SELF, 'metrics')
MEAN, CURRENT = 'mean_eval_measurements', 'current_eval_measurements'
PREFIX = {'mean': 'MEAN', 'current': 'CURRENT', 'true_value': 'Y_TRUE', 'predicted_value': 'Y_PRED'}


def constants(prog):
    m = prog.modules.get('skmultiflow.utils.constants')
    if m is None:
        raise AnalysisBroken('skmultiflow.utils.constants not found')
    vals, lists = {}, {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            if isinstance(s.value, ast.Constant):
                vals[s.targets[0].id] = s.value.value
            elif isinstance(s.value, (ast.List, ast.Tuple, ast.Set)):
                lists[s.targets[0].id] = [e.id for e in s.value.elts if isinstance(e, ast.Name)]
    return vals, lists


def rows(t):
    if t == METRICS:
        return ('metrics',)
    if t == MODELS or t[0] == 'attr' and t[1] == SELF and (t[2] in PER_MODEL or t[2] == 'n_models'):
        return MODELS
    return None


class MetricWalker(Walker):
    """Follows a method for one metric (or task) out of those the constants module names."""

    def __init__(self, prog, cls, watch, vals, metric=None, task=None, **k):
        super().__init__(prog, cls, watch, rows=rows, **k)
        self.vals, self.metric, self.task = vals, metric, task
        self.nonempty = {MODELS}
        self.replaced = set()
        self.on_store = lambda W, tg, b, i, t, st: self.replaced.update(x for x in (b[1:] if b[0] == 'tuple' else ()) if i[0] == 'c')

    def const(self, t):
        if t[0] == 'c':
            return t[1]
        if t[0] == 'attr' and t[2] in self.vals and (t[1] == ('mod',) or t[1] == ('attr', ('mod',), 'constants')):
            return self.vals[t[2]]
        return None

    def subject(self, t):
        if self.metric is not None and t[0] == 'elem' and t[1] == METRICS:
            return self.vals[self.metric]
        if self.task is not None and t == ('attr', SELF, '_task_type'):
            return self.vals[self.task]
        return self.const(t)

    def known(self, t, st):
        n, neg = self.norm(t)
        if n[0] == 'op' and n[1] == 'Eq' and len(n) == 4:
            a, b = self.subject(n[2]), self.subject(n[3])
            if a is not None and b is not None:
                return (a == b) != neg
        if n[0] == 'op' and n[1] == 'In' and len(n) == 4:
            a = self.subject(n[2])
            if a is not None and n[3] == METRICS and self.metric is not None:
                return (a == self.vals[self.metric]) != neg
            if a is not None and n[3][0] in ('tuple', 'wrap'):
                bs = [self.subject(x) for x in n[3][1:]]
                if None not in bs:
                    return (a in bs) != neg
        return super().known(t, st)


def strip_view(t):
    if t[0] == 'view':
        t = t[1]
        if t[0] == 'elem' and t[2] == ('idx', -1):
            return t[1]
        return None
    return None


def check(prog, res):
    res.rule('for every metric constant: the value stored, written to the result file and printed for it and for a model is that '
             "metric's measurement of that model (running mean under 'mean', window under 'current'); columns of the file match its header")
    vals, lists = constants(prog)
    cls = prog.need_cls('EvaluatePrequential')
    accepted = [m for m in lists.get('PLOT_TYPES', []) if m in vals]
    owners, declared = {}, {}
    at = {n: cls.find(n) for n in ('_update_metrics', '_init_metrics', '_init_file', '_update_file', 'evaluation_summary', 'get_measurements',
                                   'get_mean_measurements', 'get_current_measurements')}
    for n, f in at.items():
        if f is None:
            raise AnalysisBroken('BaseEvaluator.%s not found' % n)
    N = [0]

    def need(ok, rule, key, msg, f, node=None):
        N[0] += 1
        if not ok:
            res.add(rule, key, msg, (f.file, (node or f.node).lineno))

    # which measurement classes each task uses
    for task in TASKS:
        f = at['_init_metrics']
        for how, s in MetricWalker(prog, cls, set(), vals, task=task).run(f):
            if how != 'return':
                continue
            for fld in (MEAN, CURRENT, 'running_time_measurements'):
                o = s.fld.get((SELF, fld))
                if o is None:
                    need(False, 'measurements', 'BaseEvaluator._init_metrics %s' % fld, '%s is not created anew for every evaluation' % fld, f)
                    continue
                if o[0] == 'comp':
                    t = o[2]
                else:
                    cs = [c for c in s.objs.get(o, ()) if c[1] == 'app']
                    if len(cs) != 1 or not cs[0][3]:
                        continue
                    t = cs[0][2]
                if t[0] != 'call' or t[1].startswith('.'):
                    continue
                k = prog.cls(t[1])
                if k is None or fld == 'running_time_measurements':
                    continue
                init = k.find('__init__')
                win = init is not None and 'window_size' in init.all_params
                need(win == (fld == CURRENT), 'mean-or-window', 'BaseEvaluator._init_metrics %s %s' % (task, fld),
                     '%s of a %s task is kept by %s' % (fld, task, t[1]), f)
                if win:
                    need(t[2:] == (('attr', SELF, 'n_sliding'),), 'window-size', 'BaseEvaluator._init_metrics %s window' % task,
                         'the window of the current measurements is not n_sliding', f)
                owners.setdefault(task, {})[fld] = k
    for task in TASKS:
        for m in lists.get(task + '_METRICS', []):
            g = GETTER.get(m)
            for fld, k in owners.get(task, {}).items():
                if g is not None:
                    need(k.find(g) is not None, 'missing-measurement', '%s %s' % (k.name, g), '%s is accepted for %s but %s has no %s'
                         % (m, task, k.name, g), at['_init_metrics'])
    # declared identifiers
    for m in accepted:
        f = at['_init_metrics']
        ids = None
        for how, s in MetricWalker(prog, cls, set(), vals, metric=m).run(f):
            o = s.fld.get((SELF, '_data_dict'))
            W = MetricWalker(prog, cls, set(), vals, metric=m)
            for c in s.objs.get(o, ()) if o is not None else ():
                if c[1] == 'set' and c[2][0] in ('tuple', 'wrap'):
                    got = [W.const(x) for x in c[2][1:]]
                    if None not in got:
                        ids = set(got)
        declared[m] = ids
    for m in accepted:
        stored(prog, res, cls, vals, m, declared[m], at['_update_metrics'], need)
        written(prog, cls, vals, m, declared[m], at, need)
        summary(prog, cls, vals, m, at['evaluation_summary'], need)
        res.count('metrics', 1)
    # the measurements handed to the user
    for name, fields in (('get_measurements', (MEAN, CURRENT)), ('get_mean_measurements', (MEAN,)), ('get_current_measurements', (CURRENT,))):
        f = at[name]
        for how, s in Walker(prog, cls, set()).run(f):
            if how != 'return' or s.ret is None:
                continue
            got = s.ret[1:] if s.ret[0] == 'tuple' else (s.ret,)
            if len(got) != len(fields):
                continue
            for t, fld in zip(got, fields):
                base = t[1] if t[0] == 'elem' else t
                if base[0] == 'attr' and base[1] == SELF:
                    need(base[2] == fld and (t is base or t[2] == ('param', 'model_idx')), 'measurements-returned', 'BaseEvaluator.' + name,
                         'returns %s where %s is documented' % (base[2], fld), f)
    res.count('metric_obligations', N[0])


def stored(prog, res, cls, vals, m, ids, f, need):
    W = MetricWalker(prog, cls, {'update_data'}, vals, metric=m)
    key = '_update_metrics ' + m
    done = False
    for how, s in W.run(f):
        if how != 'return':
            continue
        done = True
        seen = set()
        for e in s.trace:
            if e.name != 'update_data':
                continue
            mid, did, v = e.arg(1, 'metric_id'), e.arg(2, 'data_id'), e.arg(3, 'value')
            if mid is not None and W.subject(mid) is not None:
                need(W.subject(mid) == vals[m], 'wrong-metric', key, 'a value of %s is stored under another metric' % m, f, e.node)
            d = W.const(did) if did is not None else None
            if d is None or v is None:
                seen.add(None)
                continue
            seen.add(d)
            t = strip_view(v)
            need(mid is not None, 'wrong-metric', key, 'a value of %s is stored under no metric' % m, f, e.node)
            if m in GETTER and d in (vals['MEAN'], vals['CURRENT']) and v[0] == 'obj' and v in s.objs and v not in W.replaced:
                cs = s.objs[v]
                need(len(cs) > 0, 'no-value', '%s %s' % (key, d), 'no %s value of any model is stored for %s' % (d, m), f, e.node)
                need(sum(c[1] == 'app' for c in cs) < 2, 'no-value', '%s %s' % (key, d), 'several values per model are stored as %s of %s' % (d, m), f, e.node)
            if m in GETTER and d in (vals['MEAN'], vals['CURRENT']):
                expect(need, t, MEAN if d == vals['MEAN'] else CURRENT, GETTER[m], key, m, d, f, e)
            elif m == 'RUNNING_TIME' and d in TIME:
                expect(need, t, 'running_time_measurements', TIME[d], key, m, d, f, e)
            elif m == 'MODEL_SIZE' and t is not None and t[0] == 'call' and len(t) > 2 and t[2][0] == 'elem':
                need(t[2] == ('elem', ('attr', SELF, 'model'), ('idx', 0)), 'wrong-model', key, 'the size stored for a model is not its size', f, e.node)
            elif m == 'TRUE_VS_PREDICTED':
                if d == vals['Y_PRED'] and t is not None and t[0] == 'elem' and t[1][0] == 'call' and t[1][1] == '.get_last':
                    need(t[2] == ('c', 1) and t[1][2] == ('elem', ('attr', SELF, MEAN), ('idx', 0)), 'wrong-prediction', key,
                         'the prediction stored for a model is not its last prediction', f, e.node)
                if d == vals['Y_TRUE'] and v[0] == 'elem' and v[1][0] == 'call' and v[1][1] == '.get_last':
                    need(v[2] == ('c', 0), 'wrong-prediction', key, 'what is stored as true value is not the true value', f, e.node)
        if s.trace and None not in seen and ids:
            need(seen == ids, 'data-ids', key, 'identifiers stored (%s) are not those declared (%s)' % (sorted(seen), sorted(ids)), f)
    need(done, 'metric-unhandled', key, '%s is accepted but cannot be computed' % m, f)


def expect(need, t, fld, getter, key, m, d, f, e):
    """Judge a recognised measurement call; anything else is left undecided."""
    if t is None or t[0] != 'call' or not t[1].startswith('.') or len(t) < 3 or t[2][0] != 'elem' or t[2][1][0] != 'attr':
        return
    need(t[1][1:] == getter, 'wrong-measurement', '%s %s' % (key, d), '%s of %s is computed by %s' % (d, m, t[1][1:]), f, e.node)
    need(t[2][1] == ('attr', SELF, fld), 'mean-or-window', '%s %s' % (key, d), '%s of %s is taken from %s' % (d, m, t[2][1][2]), f, e.node)
    need(t[2][2] == ('idx', 0), 'wrong-model', '%s %s' % (key, d), '%s of %s is not stored once for every model in order' % (d, m), f, e.node)


def data_ref(W, t, vals):
    """(metric value, data id, index) if t is a value fetched from the data buffer."""
    idx = None
    if t[0] == 'elem' and t[2][0] == 'idx':
        t, idx = t[1], t[2]
    if t[0] != 'watch' or t[1] != 'get_data':
        return None
    ids = [W.subject(x) for x in t[4:]]
    if len(ids) != 2 or None in ids:
        return None
    known = {vals['MEAN'], vals['CURRENT'], vals['Y_TRUE'], vals['Y_PRED'], 'model_size', 'X', 'target_values', 'predictions'} | set(TIME)
    pair = [x for x in ids if x not in known or x == 'model_size']
    did = [x for x in ids if x in known]
    if ids.count('model_size') == 2:
        return 'model_size', 'model_size', idx
    if len(did) != 1 or len(pair) != 1:
        return None
    return pair[0], did[0], idx


def per_model(W, e):
    return next((l for l in reversed(e.loops) if W.loops[l].domain == MODELS), None)


def written(prog, cls, vals, m, ids, at, need):
    key = 'result file ' + m
    header = None
    for how, s in MetricWalker(prog, cls, {'format'}, vals, metric=m).run(at['_init_file']):
        if how != 'return' or s.facts.get(('op', 'Is', ('attr', SELF, 'output_file'), ('c', None))) is True:
            continue
        cols = []
        for e in s.trace:
            if e.name != 'format' or e.recv is None or e.recv[0] != 'c' or not isinstance(e.recv[1], str) or not e.recv[1].startswith(','):
                continue
            for tok in e.recv[1].split(',')[1:]:
                d = next((vals[v] for p, v in PREFIX.items() if tok.startswith(p)), None) or next((p for p in list(TIME) + ['model_size']
                                                                                                     if tok.startswith(p)), None)
                cols.append((d, '[' in tok))
            if '[' in e.recv[1]:
                names = [a for a in e.args if a[0] == 'elem' and a[1] == ('attr', SELF, 'model_names')]
                need(all(a[2][0] == 'idx' and a[2][1] in e.loops for a in names), 'wrong-model', key, 'a column is not named after its model',
                     at['_init_file'], e.node)
        if any(c[0] is None for c in cols):
            return
        header = cols if header is None or len(cols) > len(header) else header
    if m == 'TRUE_VS_PREDICTED' and header is not None and (vals['Y_TRUE'], False) not in header:
        header = [(vals['Y_TRUE'], False)] + header
    if not header:
        return
    W = MetricWalker(prog, cls, {'format', 'get_data'}, vals, metric=m)
    bare = []
    for how, s in W.run(at['_update_file']):
        if how != 'return' or s.facts.get(('op', 'Is', ('attr', SELF, 'output_file'), ('c', None))) is True:
            continue
        cols, odd = [], False
        for e in s.trace:
            if e.name != 'format':
                continue
            for a in e.args:
                r = data_ref(W, a, vals)
                if r is None:
                    odd = True
                    continue
                need(r[0] == vals[m], 'wrong-metric', key, 'a column of %s shows another metric' % m, at['_update_file'], e.node)
                L = per_model(W, e)
                need(r[2] is None or L is not None and r[2] == ('idx', L) or L is None and e.loops and r[2] == ('idx', e.loops[-1]), 'wrong-model', key, 'a column of a model shows the value of another',
                     at['_update_file'], e.node)
                cols.append((r[1], r[2] is not None))
        bare.append(not cols and not odd and not any(e.name == 'format' for e in s.trace) and not opaque_line(s))
        if cols and not odd:
            need(cols == header, 'columns', key, 'columns written %s do not follow the header %s' % (cols, header), at['_update_file'])
    need(not bare or not all(bare), 'columns', key, 'nothing is written under the columns %s' % header, at['_update_file'])


def opaque_line(s):
    """The line is put together in some other way than str.format."""
    t = s.fld.get((SELF, '_file_buffer'))
    return t is None or any(x[0] in ('unk', 'lv', 'comp') or x[:2] == ('watch', 'get_data') or x[0] == 'op' and x[1] == 'Mod' or
                            x[0] == 'call' and x[1] in ('.join', 'join') for x in subterms(t))


def summary(prog, cls, vals, m, f, need):
    key = 'summary ' + m
    W = MetricWalker(prog, cls, {'format', 'get_data'}, vals, metric=m)
    for how, s in W.run(f):
        if how != 'return':
            continue
        shown, odd = 0, False
        for e in s.trace:
            if e.name == 'get_data':
                r = data_ref(W, term_of(e), vals)
                if r is None:
                    odd = True
                    continue
                need(r[0] == vals[m], 'wrong-metric', key, 'the summary consults another metric when %s is evaluated' % m, f, e.node)
                if m in GETTER:
                    need(r[1] == vals['MEAN'], 'mean-or-window', key, "the mean performance shown for %s is not the mean" % m, f, e.node)
            elif e.name == 'format':
                refs = [(a, data_ref(W, a, vals)) for a in e.args]
                refs = [r for a, r in refs if r is not None]
                names = [a for a in e.args if a[0] == 'elem' and a[1] == ('attr', SELF, 'model_names')]
                if refs:
                    need(bool(names) or not any(a[0] == 'elem' and a[1][0] == 'attr' and a[1][1] == SELF and a[2][0] == 'idx' for a in e.args), 'wrong-model', key,
                         'the summary does not name the model', f, e.node)
                for r in refs:
                    shown += 1
                    L = per_model(W, e)
                    need(r[2] is not None and L is not None and r[2] == ('idx', L) and all(a[2] == r[2] for a in names), 'wrong-model', key,
                         'the summary shows the value of another model', f, e.node)
        if not odd and m not in ('TRUE_VS_PREDICTED', 'DATA_POINTS'):
            need(shown > 0, 'summary-missing', key, 'the summary does not report %s' % m, f)
