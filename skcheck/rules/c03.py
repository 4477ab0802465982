"""C03: data handed in by the caller is never modified, now or later."""
from .. import whole

FLOORS = {'parameter_obligations': 500, 'classes_analysed': 90}

# objects a method is asked to train, advance or draw from; everything else is the caller's data
ACTIVE = {'stream', 'model', 'random_state', 'estimator', 'base_estimator', 'tree', 'base_estimators', 'drift_stream'}
INPLACE = ('item', 'aug')


def collect(I, c, ents):
    direct, kept, later = [], [], []
    n = 0
    for f, _ in ents:
        s = I.summ.get((f, c, ()))
        if s is None or f.static or not f.params:
            continue
        selfname = f.params[0]
        public = not f.name.startswith('_') or f.name == '__init__'
        if public:
            n += len([p for p in f.all_params[1:] if p not in ACTIVE])
        for (a, k), w in sorted(s.muts.items(), key=repr):
            if a[0] != 'p':
                continue
            if a[1] != selfname:
                if f.name == 'set_params' and k.startswith('attr:') and a[2]:
                    continue    # configuring a nested estimator is what set_params is asked to do
                if public and a[1] not in ACTIVE and not (k.startswith('contract:') and 'param' in k):
                    direct.append((f.name, a[1], tuple(map(str, a[2])), k, whole.chain2(w)))
            elif a[2] and (k in INPLACE or k.startswith('call:')):
                later.append((f.name, a[2], k, whole.chain2(w)))
        if public:
            for (a, fld), v in s.heap.items():
                if a[0] == 'p' and a[1] == selfname:
                    for x in v:
                        if x[0] == 'p' and x[1] != selfname and x[1] not in ACTIVE:
                            pth = tuple(p for p in x[2] if p != '[:]')
                            kept.append((f.name, x[1], pth, a[2] + (fld,)))
    delayed = []
    for m, p, pth, where in kept:
        for n2, path, k, tr in later:
            if tuple(q for q in path if q != '[:]')[:len(where)] == where:
                delayed.append((m, p, tuple(map(str, pth)), tuple(map(str, where)), n2, tuple(map(str, path)), k, tr))
    return n, len(kept), direct, delayed


def check(prog, res):
    res.rule('for every public method of every public class, no argument other than the model/stream/generator the method is '
             'asked to operate on is written to, directly or through any alias, by the method or anything it calls')
    res.rule('where a public method keeps a reference to an argument in the object, no method changes that field in place')
    # the visualizer is driven by the evaluators only and receives library objects, not the caller's data
    roots = [c for c in whole.all_roots(prog) if c.name != 'EvaluationVisualizer']
    for c, (n, nk, direct, delayed) in whole.run(prog, roots, collect, res):
        res.count('parameter_obligations', n)
        res.count('retained_argument_obligations', nk)
        for m, p, path, k, tr in direct:
            res.add('argument-modified', '%s %s' % (tr[0][2], p if len(tr) == 1 else '%s.%s(%s)' % (c.name, m, p)),
                    '%s.%s changes its argument %s%s (%s)' % (c.name, m, p, ''.join('.' + x for x in path), k), tr[0][:2],
                    ['%s:%s %s' % t[:3] for t in tr])
        for m, p, path, where, n2, path2, k, tr in delayed:
            res.add('retained-argument-modified', '%s self.%s <- %s.%s(%s)' % (tr[0][2], '.'.join(where), c.name, m, p),
                    '%s.%s keeps a reference to argument %s in self.%s, which %s changes in place (%s)'
                    % (c.name, m, p, '.'.join(where), n2, k), tr[0][:2], ['%s:%s %s' % t[:3] for t in tr])
