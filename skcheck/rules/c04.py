"""C04: with a fixed random_state all randomness is fixed."""
import ast
import copy

from .. import whole
from ..interp import NONE, Frame
from .setorder import SetOrder

FLOORS = {'method_obligations': 1500, 'random_source_obligations': 60, 'classes_analysed': 65}

CLOCKS = ('time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'datetime.datetime.now', 'datetime.datetime.utcnow',
          'timeit.default_timer', 'time.process_time')
ENTROPY = ('os.urandom', 'uuid.uuid4', 'uuid.uuid1', 'secrets.', 'os.getpid', 'hash', 'object.__hash__', 'random.SystemRandom',
           'threading.get_ident')
# external constructors / functions that draw from the process-wide generator unless a seed is passed
SEEDED_EXT = {'sklearn.linear_model.Perceptron', 'sklearn.linear_model.SGDClassifier', 'sklearn.linear_model.SGDRegressor',
              'sklearn.cluster.KMeans', 'sklearn.cluster.MiniBatchKMeans', 'sklearn.tree.DecisionTreeClassifier',
              'sklearn.tree.DecisionTreeRegressor', 'sklearn.datasets.make_multilabel_classification',
              'sklearn.datasets.make_regression', 'sklearn.datasets.make_classification', 'sklearn.datasets.make_blobs',
              'sklearn.model_selection.train_test_split', 'sklearn.utils.shuffle', 'sklearn.utils.resample',
              'sklearn.linear_model.LogisticRegression', 'sklearn.ensemble.RandomForestClassifier',
              'sklearn.model_selection.KFold', 'sklearn.model_selection.ShuffleSplit'}
CTOR_RNG = ('RandomState', 'default_rng', 'Random', 'MT19937', 'PCG64', 'SeedSequence')
# the base estimator used when the caller passes none: seeding it is the caller's choice (parameter of the caller)
FAMS = ('learner', 'stream', 'detector', 'transform')


def only_none(v):
    return bool(v) and all(a == NONE for a in v)


def mixed_and(e):
    """`a and b` of two different values: whether b is the seed at all is up to a (and a falsy a, 0 or None, becomes the seed)"""
    return isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) and len({
        n.attr if isinstance(n, ast.Attribute) else n.id for v in e.values for n in ast.walk(v)
        if isinstance(n, ast.Attribute) or isinstance(n, ast.Name) and n.id not in ('self', 'int')}) > 1


def collect(I, c, ents):
    n, srcs, bad = 0, 0, []
    for f, _ in ents:
        s = I.summ.get((f, c, ()))
        if s is None:
            continue
        n += 1
        for (a, k), w in sorted(s.muts.items(), key=repr):
            if a[0] == 'g' and a[1] in ('numpy.random', 'random') and k == 'rng':
                ch = whole.chain2(w)
                bad.append(('global-generator', '%s' % ch[0][2].rsplit('.', 1)[0], '%s.%s draws from the process-wide %s generator' % (
                    c.name, f.name, a[1]), ch[0][:2], ch))
        if f.name == '__init__' and 'random_state' in f.all_params and not f.static:
            v = s.heap.get((('p', f.params[0], ()), 'random_state'))
            srcs += 1
            if v is not None and ('p', 'random_state', ()) not in v:
                bad.append(('seed-dropped', c.name, 'random_state passed to %s is not kept' % c.name, (f.file, f.node.lineno), []))
        for (a, fld), v in sorted(s.heap.items(), key=repr):
            if a[0] == 'p' and any(x[0] == 'g' and x[1] == 'numpy.random' for x in v):
                bad.append(('global-generator', '%s %s' % (f.qual, fld), '%s.%s keeps the process-wide generator in %s' % (
                    c.name, f.name, fld), (f.file, f.node.lineno), []))
    for key, evs in sorted(I.events.items(), key=lambda kv: (kv[0][0].qual, repr(kv[0][2]))):
        f = key[0]
        I.frame = Frame(f, key[1], key)
        I.frame.selfname = f.params[0] if f.cls is not None and not f.static and f.params else None
        for ev in evs:
            if ev[0] == 'ext':
                full, node, args, kw = ev[1], ev[2], ev[3], ev[4]
                short = full.split('.')[-1]
                where = (f.file, node.lineno)
                if short == 'check_random_state':
                    srcs += 1
                    v = args[0] if args else (next(iter(kw.values())) if kw else None)
                    if node.args and mixed_and(node.args[0]):
                        bad.append(('unseeded-generator', f.qual, 'the seed depends on another parameter', where, []))
                    if v is None or any(a == NONE for a in v):
                        bad.append(('unseeded-generator', f.qual, 'check_random_state(None): the seed is not used', where, []))
                elif short in CTOR_RNG and (full.startswith('numpy.random') or full.startswith('random.')):
                    srcs += 1
                    v = args[0] if args else (next(iter(kw.values())) if kw else None)
                    if v is None or any(a == NONE for a in v):
                        bad.append(('unseeded-generator', f.qual, '%s() without a seed' % full, where, []))
                elif full in SEEDED_EXT:
                    srcs += 1
                    v = kw.get('random_state')
                    if '**' in kw:
                        continue
                    if v is None or any(a == NONE for a in v):
                        bad.append(('unseeded-component', '%s %s' % (f.qual, short), '%s is created without a random_state'
                                    % full, where, []))
                elif full in CLOCKS or any(full == e or (e.endswith('.') and full.startswith(e)) for e in ENTROPY):
                    bad.append(('nondeterministic-source', '%s %s' % (f.qual, full), '%s is different in every process' % full,
                                where, []))
            elif ev[0] == 'call' and ev[1].name == '__init__' and 'random_state' in ev[1].all_params:
                g, node, bound = ev[1], ev[3], ev[4]
                if f.name == '__init__' and I.frame.selfname and \
                        bound.get(g.params[0]) == frozenset({('p', I.frame.selfname, ())}):
                    # super().__init__(...) of the same object: what it draws or keeps is seen in the effects above
                    continue
                srcs += 1
                v = bound.get('random_state')
                if v is None:
                    d = g.defaults.get('random_state')
                    if d is not None and isinstance(d, ast.Constant) and d.value is None:
                        v = frozenset({NONE})
                if v is None:
                    continue
                if any(a == NONE for a in v):
                    bad.append(('unseeded-component', '%s %s' % (f.qual, (ev[2] or g.cls).name),
                                '%s is created without passing on a random_state' % (ev[2] or g.cls).name,
                                (f.file, node.lineno), []))
    return n, srcs, bad


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        return self.env.get(n.id, n)


def seed_paths(fn, prog, env=None, depth=0):
    """What check_random_state can return when its argument (the name $seed) is a plain integer: expressions, None, raise statements."""
    out = []

    def dotted(e):
        b = prog.resolve_expr(fn.module, e)
        return b[1] if b and b[0] in ('ext', 'mod') else ast.unparse(e)

    def is_seed(e):
        return isinstance(e, ast.Name) and e.id == '$seed' or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' \
            and len(e.args) == 1 and is_seed(e.args[0])

    def value(e):
        """Other classes: 'none', 'module', 'singleton' etc. are all simply not the seed."""
        if isinstance(e, ast.BoolOp):
            rs = [value(v) for v in e.values]
            if isinstance(e.op, ast.Or):
                return True if True in rs else (False if all(r is False for r in rs) else None)
            return False if False in rs else (True if all(r is True for r in rs) else None)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = value(e.operand)
            return None if r is None else not r
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            if is_seed(r):
                l, r = r, l
            if is_seed(l):
                if isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(r, (ast.Tuple, ast.List)):
                    os = r.elts
                else:
                    os = [r]
                if all((isinstance(o, ast.Constant) and o.value is None) or dotted(o) == 'numpy.random' for o in os):
                    return isinstance(e.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2 and is_seed(e.args[0]):
            ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
            names = {dotted(t) for t in ts}
            if names & {'numbers.Integral', 'int', 'numbers.Number', 'numbers.Real', 'numbers.Rational'}:
                return True
            if names <= {'numpy.random.RandomState', 'numpy.random.mtrand.RandomState', 'numpy.integer', 'str', 'float'}:
                return False
        return None

    def sub(e, env):
        return Subst(env).visit(copy.deepcopy(e))

    def ret(e, env):
        if e is None:
            out.append(None)
            return
        e = sub(e, env)
        if isinstance(e, ast.IfExp):
            r = value(e.test)
            if r is not False:
                ret(e.body, {})
            if r is not True:
                ret(e.orelse, {})
            return
        if isinstance(e, ast.Call) and depth < 3:
            b = prog.resolve_expr(fn.module, e.func)
            if b and b[0] == 'func' and not e.keywords and len(e.args) == len(b[1].params):
                out.extend(seed_paths(b[1], prog, dict(zip(b[1].params, e.args)), depth + 1))
                return
        out.append((e, dotted(e.func) if isinstance(e, ast.Call) else ''))

    def block(b, env):
        envs = [env]
        for s in b:
            nxt = []
            for env in envs:
                if isinstance(s, ast.Return):
                    ret(s.value, env)
                    continue
                if isinstance(s, ast.Raise):
                    out.append((s, ''))
                    continue
                if isinstance(s, ast.If):
                    r = value(sub(s.test, env))
                    if r is not False:
                        nxt += block(s.body, dict(env))
                    if r is not True:
                        nxt += block(s.orelse, dict(env))
                    continue
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    env = dict(env)
                    v = sub(s.value, env)
                    while isinstance(v, ast.IfExp) and value(v.test) is not None:
                        v = v.body if value(v.test) else v.orelse
                    env[s.targets[0].id] = v
                nxt.append(env)
            envs = nxt
        return envs
    for _ in block(fn.node.body, env or {fn.params[0]: ast.Name('$seed', ast.Load())}):
        out.append(None)
    return out


def check(prog, res):
    res.rule('no method of a learner, stream, detector or transform draws from the process-wide numpy or python generator')
    res.rule('every generator is created from a seed, and every component that accepts random_state is given one')
    res.rule('no clock, process id, object id or hash feeds a learner, stream, detector or transform')
    fams = whole.families(prog)
    roots = whole.all_roots(prog, fams, FAMS + ('other',))
    roots = [c for c in roots if c.name != 'EvaluationVisualizer']
    seen = {}
    for c, (n, srcs, bad) in whole.run(prog, roots, collect, res):
        res.count('method_obligations', n)
        res.count('random_source_obligations', srcs)
        for rule, con, msg, where, tr in bad:
            seen.setdefault((rule, con), []).append((msg, where, tr))
    for (rule, con), l in sorted(seen.items()):
        msg, where, tr = l[0]
        res.add(rule, con, msg, where, ['%s:%s %s' % tuple(t[:3]) for t in tr])
    res.rule('nothing iterates in order over a set of strings')
    so = SetOrder(prog)
    for f in prog.funcs:
        n, bad = so.check(f)
        res.count('set_obligations', n)
        res.count('functions_searched_for_set_iteration')
        for node, txt in bad:
            res.add('set-order', '%s %s' % (f.qual, txt), 'the iteration order of the set %s of strings is different in every process' % txt,
                    (f.file, node.lineno))
    fn = [f for f in prog.funcs if f.name == 'check_random_state' and f.cls is None]
    for f in fn:
        res.count('seed_function_obligations')
        outs = seed_paths(f, prog)
        good = bool(outs)
        for o in outs:
            if o is None or not (isinstance(o[0], ast.Call) and o[1].endswith('RandomState') and len(o[0].args) + len(o[0].keywords) == 1 and all(
                    isinstance(a, ast.Name) and a.id == '$seed' or isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'int'
                    for a in o[0].args + [k.value for k in o[0].keywords if k.arg == 'seed'])):
                good = False
        if not good:
            res.add('seed-ignored', f.qual, 'for an integer seed it does not return a generator seeded with exactly that integer',
                    (f.file, f.node.lineno))
    res.assumptions.append('numpy, scipy, pandas and scikit-learn are deterministic when seeded; user-supplied components honour their seed')
