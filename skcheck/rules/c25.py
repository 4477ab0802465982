"""C25: trees and rules grow exactly where the Hoeffding bound allows it."""
import ast
from ..terms import Walker, Event, TooManyPaths, subterms, mentions, show
from ..poly import poly, plus, times, ratio, same_ratio, scale
from .c18 import StateWalker, SELF

FLOORS = {'grow_functions': 4, 'path_obligations': 300}
MERIT = ('call', 'attrgetter', ('c', 'merit'))
GROW = {'_new_split_node', '_deactivate_learning_node', '_kill_subtree', 'Predicate'}
WATCH = GROW | {'set_child', '_new_learning_node', 'disable_attribute', '_enforce_tracker_limit', 'manage_memory', 'get_atts_test_depends_on'}
CRITERIA = {'_GINI_SPLIT': 'GiniSplitCriterion', '_INFO_GAIN_SPLIT': 'InfoGainSplitCriterion', '_HELLINGER': 'HellingerDistanceCriterion'}


class GrowWalker(StateWalker):
    """Sorting a list of suggestions gives a new term; range(num_splits) and the list of suggestions are complete domains."""

    def __init__(self, prog, cls):
        super().__init__(prog, cls, WATCH, rows=self.rows, inline=lambda g: g.node.name not in WATCH and not any(
            isinstance(n, (ast.While, ast.Try)) for n in ast.walk(g.node)))

        self._fors = {}

    def rows(self, t):
        if t[:2] == ('call', '.num_splits'):
            return ('splits', t[2])
        if t[0] in ('sortedby',) or t[:2] in (('call', '.get_best_split_suggestions'), ('call', '.get_best_expand_suggestion')):
            return ('all', base(t))
        return None

    def interesting(self, f, seen=None):
        return f.node.name not in WATCH

    def e_Lambda(self, e, st):
        a = e.args.args
        if len(a) == 1 and isinstance(e.body, ast.Attribute) and isinstance(e.body.value, ast.Name) and e.body.value.id == a[0].arg:
            return [(('call', 'attrgetter', ('c', e.body.attr)), st)]
        return super().e_Lambda(e, st)

    def s_For(self, s, st):
        out = []
        for it, a in self.ev(s.iter, st):
            src = it[2] if it[0] == 'call' and it[1] in ('sorted', 'list', 'tuple', 'iter', 'reversed', 'set') and len(it) > 2 else it
            if src[0] == 'obj' and not a.objs.get(src, ()):
                out.append(('fall', a))     # nothing was put in
                continue
            nm = '$it%d' % id(s)
            a.env[nm] = it
            s2 = self._fors.get(s)
            if s2 is None:
                s2 = self._fors[s] = ast.copy_location(ast.For(target=s.target, iter=ast.copy_location(ast.Name(nm, ast.Load()), s), body=s.body, orelse=s.orelse), s)
            out.extend(super().s_For(s2, a))
        return out

    def plain_call(self, e, name, recv, args, kw, st):
        if name == 'set' and recv is None and not args:
            return self.newobj(e, st)
        if name == 'sort' and recv is not None and self.rows(recv):
            new = ('sortedby', base(recv), kw.get('key', ('c', None)), kw.get('reverse', ('c', False)))
            for k, t in list(st.env.items()):
                if t == recv:
                    st.env[k] = new
            return ('c', None)
        if name == 'sorted' and recv is None and args and self.rows(args[0]):
            return ('sortedby', base(args[0]), kw.get('key', ('c', None)), kw.get('reverse', ('c', False)))
        if name == 'max' and recv is None and len(args) == 1 and self.rows(args[0]) and kw.get('key') == MERIT:
            return ('elem', ('sortedby', base(args[0]), MERIT, ('c', False)), ('c', -1))
        return super().plain_call(e, name, recv, args, kw, st)

    def call(self, e, name, recv, args, kw, st):
        if name == '_hoeffding_bound' or name == 'compute_hoeffding_bound':
            g = self.resolve(recv, name)
            if g is not None and not self.transparent(g):
                return [(('call', name) + tuple(args), st)]
        return super().call(e, name, recv, args, kw, st)


def base(t):
    return t[1] if t[0] == 'sortedby' else t


def rank(t):
    """(list, position from the best: 0 best, 1 second) of an element of a list sorted by merit."""
    if t[0] == 'elem' and t[1][0] == 'sortedby' and t[1][2] == MERIT and t[2][0] == 'c' and isinstance(t[2][1], int):
        i, rev = t[2][1], t[1][3] == ('c', True)
        if not rev and i < 0:
            return t[1][1], -1 - i
        if rev and i >= 0:
            return t[1][1], i
    return None


def rename(t):
    """Merits and bounds by name, so that formulas can be compared."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'attr' and t[2] == 'merit':
        r = rank(t[1])
        if r is not None:
            return ('c', '$best' if r[1] == 0 else '$second' if r[1] == 1 else '$rank%d' % r[1])
        if t[1][:2] == ('call', '.get_null_split'):
            return ('c', '$null')
        if t[1][:2] == ('call', '.find_attribute'):
            return ('c', '$current')
        if t[1][0] == 'elem' and t[1][1][0] == 'sortedby' and t[1][2][0] == 'idx':
            return ('c', '$each')
    if t[0] == 'attr' and t[1] == SELF and t[2] in ('tie_threshold', '_tie_threshold'):
        return ('c', '$tie')
    b = bound_of(t)
    if b is not None:
        return ('c', '$bound')
    return tuple(rename(x) if isinstance(x, tuple) else x for x in t)


def bound_of(t):
    """The argument of the square root of a term that looks like a Hoeffding bound."""
    inner = None
    if t[0] == 'call' and t[1] == 'sqrt' and len(t) == 3:
        inner = t[2]
    elif t[0] == 'op' and t[1] == 'Pow' and t[3] == ('c', 0.5):
        inner = t[2]
    if inner is not None and any(x[0] == 'call' and x[1] == 'log' for x in subterms(inner)):
        return inner
    return None


def good_bound(inner, conf, owner):
    """R*R*ln(1/delta)/(2n) with the range of the merit, the configured confidence and the weight seen by the node."""
    R = [x for x in subterms(inner) if x[:2] == ('call', '.get_range_of_merit')]
    n = [x for x in subterms(inner) if x[0] == 'attr' and x[2] == 'total_weight' or x[:2] == ('call', '.get_weight_seen')]
    if len(set(R)) != 1 or len(set(n)) != 1:
        return False
    R, n = R[0], n[0]
    dist = R[-1]
    if (n[1] if n[0] == 'attr' else n[2]) != owner or dist[0] != 'attr' or dist[1] != owner:
        return False
    if any(x == ('attr', SELF, '_' + conf) for x in subterms(inner)):       # read through its property
        conf = '_' + conf
    want = ('op', 'Div', ('op', 'Mult', ('op', 'Mult', R, R), ('call', 'log', ('op', 'Div', ('c', 1), ('attr', SELF, conf)))),
            ('op', 'Mult', ('c', 2), n))
    c = same_ratio(ratio(inner), ratio(want))
    return c is not None and abs(c - 1) < 1e-9


def V(x):
    return {(repr(('c', '$' + x)),): 1}


def minus(*ps):
    r = dict(ps[0])
    for p in ps[1:]:
        r = plus(r, p, -1)
    return r


ONE = {(): 1}
ATOMS = {       # name -> (numerator, denominator); the atom says numerator/denominator < 0
    'gain': (minus(plus(V('bound'), V('second')), V('best')), ONE),
    'gain-null': (minus(plus(V('bound'), V('null')), V('best')), ONE),
    'gain-current': (minus(plus(V('bound'), V('current')), V('best')), ONE),
    'null-best': (minus(plus(V('bound'), V('best')), V('null')), ONE),
    'tie': (minus(V('bound'), V('tie')), ONE),
    'pos': (minus({}, V('best')), ONE),
    'ratio': (plus(minus(V('second'), V('best')), times(V('bound'), V('best'))), V('best')),
    'ratio2': (plus(minus(V('second'), V('best')), times(V('bound'), V('best'))), ONE),
    'poor': (minus(plus(V('bound'), V('each')), V('best')), ONE),
    'poor-ratio': (plus(minus(V('each'), V('second')), times(times({(): 2}, V('bound')), V('best'))), V('best')),
    'poor-ratio2': (plus(minus(V('each'), V('second')), times(times({(): 2}, V('bound')), V('best'))), ONE),
}


def atoms_of(facts, S=None):
    """name -> bool, and the comparisons about merits and bounds that are none of the atoms."""
    got, odd = {}, []
    for n, v in facts.items():
        if not (isinstance(n, tuple) and n and n[0] == 'op' and len(n) == 4 and n[1] in ('Lt', 'LtE', 'Eq')):
            continue
        if S is not None and any(x[0] == 'sortedby' and x[1] != S for x in subterms(n)):
            continue
        r = rename(n)
        names = {x[1] for x in subterms(r) if x[0] == 'c' and isinstance(x[1], str) and x[1].startswith('$')}
        if not names:
            continue
        diff = ratio(('op', 'Sub', r[2], r[3]))
        hit = False
        for a, E in ATOMS.items():
            c = same_ratio(diff, E)
            if c is None:
                continue
            if n[1] == 'Lt' and c > 0:
                got[a], hit = v, True
            elif n[1] == 'LtE' and c < 0:
                got[a], hit = not v, True
        if not hit:
            odd.append((n, v, clear(r)))
    for k in ('ratio', 'poor-ratio'):
        if k not in got and k + '2' in got:
            got[k] = got[k + '2']
    return got, odd


def clear(r):
    """Only merits, bounds and numbers in it: we know what it says."""
    def ok(t):
        return t[0] == 'c' or t[0] == 'op' and all(ok(x) for x in t[2:])
    return ok(r[2]) and ok(r[3])


def or3(*xs):
    return True if True in xs else None if None in xs else False


def and3(*xs):
    return False if False in xs else None if None in xs else True


def size(facts, S):
    """Interval of the number of suggestions on this path."""
    lo, hi = 0, 10 ** 9
    for n, v in facts.items():
        if isinstance(n, tuple) and n and n[0] == 'len' and base(dom(n[1])) == S:
            lo, hi = (max(lo, 1), hi) if v else (lo, 0)
        if not (isinstance(n, tuple) and n and n[0] == 'op' and len(n) == 4 and n[1] in ('Lt', 'LtE', 'Eq')):
            if isinstance(n, tuple) and n and base(n) == S:
                lo, hi = (max(lo, 1), hi) if v else (lo, 0)
            continue
        a, b = n[2], n[3]
        flip = False
        if b[0] == 'len':
            a, b, flip = b, a, True
        if a[0] != 'len' or base(dom(a[1])) != S or b[0] != 'c' or not isinstance(b[1], int):
            continue
        k = b[1]
        if n[1] == 'Eq':
            if v:
                lo, hi = max(lo, k), min(hi, k)
            else:
                lo, hi = (lo + 1 if lo == k else lo), (hi - 1 if hi == k else hi)
            continue
        if not flip:        # len < k / len <= k
            top = k - 1 if n[1] == 'Lt' else k
            lo, hi = (lo, min(hi, top)) if v else (max(lo, top + 1), hi)
        else:               # k < len / k <= len
            bot = k + 1 if n[1] == 'Lt' else k
            lo, hi = (max(lo, bot), hi) if v else (lo, min(hi, bot - 1))
    return lo, hi


def dom(t):
    return t[1] if t[0] == 'all' else t


def formula(kind, at, facts, S):
    """Three-valued: may the node grow on this path?"""
    if kind in ('gain', 'ratio'):
        lo, hi = size(facts, S)
        test = or3(at.get('gain'), at.get('tie')) if kind == 'gain' else \
            and3(at.get('pos'), or3(at.get('ratio'), at.get('tie')))
        if lo > hi:
            return 'dead'
        if hi <= 0:
            return False
        if lo >= 2:
            return test
        if lo == hi == 1:
            return True
        return None
    if kind == 'null':
        lo, hi = size(facts, S)
        if hi <= 0:
            return False
        return and3(True if lo >= 1 else None, or3(at.get('gain-null'), at.get('tie')))


KINDS = {'HoeffdingTreeClassifier': 'gain', 'HoeffdingTreeRegressor': 'ratio', 'iSOUPTreeRegressor': 'ratio',
         'ExtremelyFastDecisionTreeClassifier': 'null'}


def check(prog, res):
    res.rule('on every path through _attempt_to_split: a leaf is replaced (by a split on the best suggestion, or by an inactive leaf when '
             'the best suggestion is not to split) exactly on the paths on which there is one suggestion only, or the best exceeds the '
             'second (EFDT: the null split) by more than the Hoeffding bound, or the bound is below the tie threshold; regressors compare '
             'the ratio of the merits with 1 - bound and need a positive merit')
    res.rule('the bound is sqrt(R^2 ln(1/split_confidence) / 2n) with the range of the merit for the node and the weight the node has seen')
    res.rule('the new split tests the best suggestion, has one leaf per branch with the statistics of that branch, takes the place of '
             'the leaf, and the node counts change accordingly')
    res.rule('a leaf attempts to split only when the tree may grow and it has seen grace_period since the last attempt, which is then noted')
    res.rule('a poor attribute is disabled only where its merit falls short of the best by more than the bound')
    base_c = prog.need_cls('HoeffdingTreeClassifier')
    seen = set()
    for c in sorted([base_c] + [k for k in base_c.all_subs()], key=lambda k: k.qual):
        f = c.find('_attempt_to_split')
        if f is None or f in seen:
            continue
        seen.add(f)
        kind = KINDS.get(f.cls.name) or next((KINDS[k.name] for k in f.cls.mro() if k.name in KINDS), 'gain')
        attempt(prog, res, c, f, kind)
        g = c.find('_reevaluate_best_split')
        if g is not None:
            reevaluate(prog, res, c, g)
    call_sites(prog, res)
    rules(prog, res)
    for n, d in (('_deactivate_learning_node', -1), ('_activate_learning_node', 1)):
        done = set()
        for c in sorted([base_c] + list(base_c.all_subs()), key=lambda k: k.qual):
            f = c.find(n)
            if f is not None and f not in done:
                done.add(f)
                toggle(prog, res, c, f, d)


class RuleWalker(GrowWalker):
    """Loops over classes are followed twice, so that what one round leaves behind is seen by the next."""
    again = True

    def __init__(self, prog, cls):
        super().__init__(prog, cls)
        self.watch = {'Predicate'}

    def learn(self, t, v, st):
        if any(x[0] == 'sortedby' or self.rows(x) or bound_of(x) is not None for x in subterms(t)) and \
                not any(x[:2] == ('watch', 'Predicate') for x in subterms(t)) and \
                not any(x[0] == 'elem' and x[1][0] == 'sortedby' and x[2][0] == 'idx' for x in subterms(t)):
            super().learn(t, v, st)

    def block(self, stmts, sts):
        out = super().block(stmts, sts)
        for how, a in out:
            a.fld = {k: v for k, v in a.fld.items() if k[0] == SELF}
        return self.dedupe(out)

    def dedupe(self, outs):
        seen = {}
        for how, s in outs:
            tr = tuple(e.key() for e in s.trace if e.name in ('Predicate', '!iter'))
            env = tuple(sorted((k, v) for k, v in s.env.items() if v[0] == 'c' and isinstance(v[1], bool) or rank(v) or self.rows(v)))
            seen.setdefault((how, s.ret, env, tr, frozenset(s.facts.items())), (how, s))
        if len(seen) > 4000:
            raise TooManyPaths
        return list(seen.values())

    def s_For(self, s, st):
        out = super().s_For(s, st)
        if not self.again or not any(isinstance(x, ast.Call) and self.callname(x) == 'Predicate' for y in s.body for x in ast.walk(y)):
            return out
        more = []
        for how, a in out:
            if how == 'fall' and len(a.facts.get('rounds', ())) < 1:
                b = a.copy()
                b.facts['rounds'] = (s.lineno,)
                b.trace = b.trace + (Event('!iter', ('c', 0), (), {}, self.active(b), s, self.cur, 0),)
                more.extend(super().s_For(s, b))
        return self.dedupe(out + more)


def rules(prog, res):
    c = prog.cls('VeryFastDecisionRulesClassifier')
    if c is None:
        return
    res.rule('a rule is created from, or extended by, the best suggestion only on paths on which the same comparison with the bound '
             '(expand_confidence, the weight the rule has seen) holds, also in the second round of a loop over the classes')
    n = 0
    for f in sorted(c.methods.values(), key=lambda g: g.node.lineno):
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'Predicate' for x in ast.walk(f.node)):
            continue
        at = (f.file, f.node.lineno)
        W = RuleWalker(prog, c)
        try:
            paths = W.run(f)
        except TooManyPaths:
            W = RuleWalker(prog, c)
            W.again = False
            try:
                paths = W.run(f)
            except TooManyPaths:
                res.count('undecided')
                continue
        for how, s in paths:
            facts = {k: v for k, v in s.facts.items() if k not in ('loops', 'rounds')}
            for e in s.trace:
                if e.name != 'Predicate':
                    continue
                S = {rank(x) or (x[1][1], 99) for a in e.args for x in subterms(a) if x[0] == 'elem' and x[1][0] == 'sortedby' and x[1][2] == MERIT}
                if len(S) != 1:
                    res.count('undecided_paths')
                    continue
                n += 1
                (S, r), = S
                res.count('path_obligations')
                if r != 0:
                    res.add('grow', f.qual, '%s makes a predicate from another suggestion than the best' % f.qual, at)
                mine = {t: v for t, v in facts.items() if not any(
                    x[:2] == ('call', '.get_range_of_merit') and x[2] != S[3] for x in subterms(t))} if len(S) > 3 else facts
                got, odd = atoms_of(mine, S)
                ok = formula('gain', got, mine, S)
                if ok is None and not all(k for _, _, k in odd):
                    res.count('undecided_paths')
                elif ok is not True and ok != 'dead':
                    later = any(x.name == '!iter' for x in s.trace[:s.trace.index(e)])
                    res.add('grow', c.name + ': a class looked at after one that expanded' if later else f.qual,
                            '%s makes a rule more specific on a path on which %s' % (f.qual, text(got, odd) or 'nothing is compared'), at)
                owner = S[2]
                for t in facts:
                    for x in subterms(t) if isinstance(t, tuple) else ():
                        b = bound_of(x)
                        if b is not None and mentions(b, owner):
                            res.count('bound_obligations')
                            if not good_bound(b, 'expand_confidence', owner):
                                res.add('bound', f.qual, '%s uses a bound that is not sqrt(R^2 ln(1/expand_confidence)/2n) of the rule: %s' % (
                                    f.qual, show(x)), at)
    res.count('rule_growth_sites', n)


class SiteWalker(StateWalker):
    def interesting(self, f, seen=None):
        return f.node.name not in self.watch and Walker.interesting(self, f, seen)

    def known(self, t, st):
        v = super().known(t, st)
        if v is None and t[:2] == ('call', 'isinstance') and len(t) == 4 and t[2][0] == 'c' and t[2][1] is None:
            return False
        return v


def call_sites(prog, res):
    watch = {'_attempt_to_split', 'set_child', '_new_learning_node'}
    n = 0
    for c in sorted(prog.classes, key=lambda k: k.qual):
        for f in c.methods.values():
            direct = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '_attempt_to_split']
            if not direct:
                continue
            fs = [f]
            if f.node.name.startswith('_') and f.node.name not in ('_partial_fit', '_process_nodes'):
                fs = [g for g in c.methods.values() if any(isinstance(x, ast.Attribute) and x.attr == f.node.name for x in ast.walk(g.node))] or [f]
            for g in fs:
                n += 1
                site(prog, res, c, g, watch)
    res.count('attempt_sites', n)


def site(prog, res, c, f, watch):
    at = (f.file, f.node.lineno)
    W = SiteWalker(prog, c, watch, watch_fields={'last_split_attempt_at'}, inline=lambda g: g.node.name not in (
        '_attempt_to_split', '_reevaluate_best_split', '_enforce_tracker_limit', '_estimate_model_byte_size', '_deactivate_learning_node',
        '_activate_learning_node', '_deactivate_all_leaves'))
    try:
        paths = [(how, s) for how, s in W.run(f) if how == 'return']
    except TooManyPaths:
        res.count('undecided')
        return
    tree = SELF if c.find('_attempt_to_split') is not None else None
    for how, s in paths:
        facts = split_conditions(s.facts)
        res.count('path_obligations')
        tries = [e for e in s.trace if e.name == '_attempt_to_split']
        due = None
        for n, v in facts.items():
            if isinstance(n, tuple) and n[:1] == ('op',) and n[1] in ('Lt', 'LtE') and any(x[0] == 'attr' and x[2] == 'grace_period' for x in subterms(n)):
                last = [x for x in subterms(n) if x[0] == 'attr' and x[2] == 'last_split_attempt_at']
                gp = next(x for x in subterms(n) if x[0] == 'attr' and x[2] == 'grace_period')
                if not last:
                    due = 'odd'
                    continue
                nd = last[0][1]
                want = minus(poly(('attr', nd, 'total_weight')), poly(last[0]), poly(gp))
                k = scale(minus(poly(n[2]), poly(n[3])), want)
                if k is None or (n[1] == 'Lt') != (k > 0):
                    due = 'odd'
                    if clear_weights(n):
                        res.add('grace', f.qual, '%s compares the weight seen since the last attempt with the grace period as %s' % (f.qual, show(n)), at)
                else:
                    due = (not v) if k > 0 else v
        if due == 'odd':
            res.count('undecided_paths')
            continue
        if tries and not due:
            res.add('grace', f.qual, '%s attempts to split before the grace period is over' % f.qual, at)
        if due and not tries:
            res.add('grace', f.qual, '%s does not attempt to split after the grace period' % f.qual, at)
        if tries:
            nd = tries[0].args[0]
            if tree is not None and not facts.get(('attr', SELF, '_growth_allowed')):
                res.add('growth', f.qual, '%s attempts to split though the tree may not grow any more' % f.qual, at)
            if nd != SELF and facts.get(('call', 'isinstance', nd, ('attr', ('mod',), 'ActiveLeaf'))) is False:
                res.add('growth', f.qual, '%s attempts to split a leaf that is not active' % f.qual, at)
            i = s.trace.index(tries[0])
            noted = [e for e in s.trace if e.name == '=last_split_attempt_at' and e.recv == nd]
            if not noted or noted[-1].args[0] != ('attr', nd, 'total_weight'):
                res.add('grace', f.qual + ' noted', '%s does not note the weight at which it attempted to split' % f.qual, at)
        if tree is not None:
            new = [e for e in s.trace if e.name == 'set_child' and (e.arg(1, 'node') or ('?',))[:2] == ('watch', '_new_learning_node')]
            t = s.fld.get((SELF, '_active_leaf_node_cnt'), ('attr', SELF, '_active_leaf_node_cnt'))
            root = s.fld.get((SELF, '_tree_root'))
            start = ONE if root is not None and root[:2] == ('watch', '_new_learning_node') else poly(('attr', SELF, '_active_leaf_node_cnt'))
            d = minus(poly(t), start)
            res.count('counter_obligations')
            if d != ({(): len(new)} if new else {}):
                res.add('counter', f.qual, '%s adds %d leaves and changes _active_leaf_node_cnt by %s' % (f.qual, len(new), d), at)


def clear_weights(n):
    def ok(t):
        return t[0] == 'c' or t[0] == 'attr' and t[2] in ('total_weight', 'last_split_attempt_at', 'grace_period') or \
            t[0] == 'op' and all(ok(x) for x in t[2:])
    return ok(n[2]) and ok(n[3])


def toggle(prog, res, c, f, d):
    at = (f.file, f.node.lineno)
    ps = [('param', p) for p in f.all_params[1:4]]
    W = SiteWalker(prog, c, {'set_child', '_new_learning_node'})
    try:
        paths = [(how, s) for how, s in W.run(f) if how == 'return']
    except TooManyPaths:
        res.count('undecided')
        return
    for how, s in paths:
        facts = split_conditions(s.facts)
        res.count('path_obligations')
        for k, w in (('_active_leaf_node_cnt', d), ('_inactive_leaf_node_cnt', -d), ('_decision_node_cnt', 0)):
            t = s.fld.get((SELF, k))
            e = minus(poly(t), poly(('attr', SELF, k))) if t is not None else {}
            if e != ({(): w} if w else {}):
                res.add('counter', f.qual, '%s changes %s by %s, not %d' % (f.qual, k, e or 0, w), at)
        made = [e for e in s.trace if e.name == '_new_learning_node']
        if len(made) != 1:
            res.add('toggle', f.qual, '%s does not make exactly one new leaf' % f.qual, at)
            continue
        if not any(x[0] == 'attr' and x[1] == ps[0] and x[2] in ('stats', '_stats') for a in made[0].args + tuple(made[0].kw.values()) for x in subterms(a)):
            res.add('toggle', f.qual, '%s loses the statistics of the leaf' % f.qual, at)
        active = made[0].kw.get('is_active', made[0].args[2] if len(made[0].args) > 2 else ('c', True))
        if active[0] == 'c' and bool(active[1]) != (d > 0):
            res.add('toggle', f.qual, '%s makes %s leaf' % (f.qual, 'an active' if active[1] else 'an inactive'), at)
        place(res, s, facts, ps[1], ps[2], ('watch', '_new_learning_node'), lambda r, m: res.add('toggle', f.qual, '%s %s' % (f.qual, m), at))


def place(res, s, facts, parent, branch, what, bad):
    root = s.fld.get((SELF, '_tree_root'))
    outer = [e for e in s.trace if e.name == 'set_child' and e.recv == parent]
    isroot = is_none(facts, parent)
    if isroot:
        if outer or root is None or root[:len(what)] != what:
            bad('install', 'does not make the new node the root of the tree')
    elif isroot is False:
        if len(outer) != 1 or outer[0].arg(0, 'index') != branch or (outer[0].arg(1, 'node') or ('?',))[:len(what)] != what or root is not None:
            bad('install', "does not put the new node in the old one's place")


def reevaluate(prog, res, c, f):
    res.count('grow_functions')
    at = (f.file, f.node.lineno)
    node, parent, branch = [('param', p) for p in f.all_params[1:4]]
    W = GrowWalker(prog, c)
    try:
        paths = [(how, s) for how, s in W.run(f) if how == 'return']
    except TooManyPaths:
        res.count('undecided')
        return

    def bad(rule, what, where=None):
        res.add(rule, f.qual, '%s %s' % (f.qual, what), where or at)

    for how, s in paths:
        facts = split_conditions(s.facts)
        res.count('path_obligations')
        new = [e for e in s.trace if e.name == '_new_split_node']
        kill = [e for e in s.trace if e.name == '_kill_subtree']
        test = s.fld.get((node, '_split_test')) or s.fld.get((node, 'split_test'))
        got, odd = atoms_of(facts)
        same = next((v for n, v in facts.items() if isinstance(n, tuple) and n[:2] == ('op', 'Eq') and
                     all(any(x[:2] == ('watch', 'get_atts_test_depends_on') for x in subterms(y)) for y in n[2:])), None)
        if not all(k for _, _, k in odd):
            res.count('undecided_paths')
            continue
        for t in list(facts):
            for x in subterms(t) if isinstance(t, tuple) else ():
                b = bound_of(x)
                if b is not None:
                    res.count('bound_obligations')
                    if not good_bound(b, 'split_confidence', node):
                        bad('bound', 'uses a bound that is not sqrt(R^2 ln(1/split_confidence)/2n) of the node: %s' % show(x))
        nul, better = got.get('null-best'), or3(got.get('gain-current'), got.get('tie'))
        if kill and nul is not True:
            bad('grow', 'removes a split that is not worse than no split by more than the bound')
        if nul is True and not kill:
            bad('grow', 'keeps a split that is worse than no split by more than the bound')
        if (new or test is not None) and and3(better, None if nul is None else not nul) is not True:
            bad('grow', 'replaces a split though the bound does not allow it (%s)' % text(got, odd))
        if nul is False and better is True and not new and test is None:
            bad('grow', 'keeps a split though the bound allows a better one')
        if new and same is True or test is not None and same is False:
            bad('grow', 'replaces the subtree for the same attribute, or keeps it for another')
        res.count('counter_obligations', 3)
        cn = [('call', '.count_nodes', node)]
        dele = [poly(('elem', cn[0], ('c', i))) for i in (0, 1)]
        want = {'_active_leaf_node_cnt': {}, '_decision_node_cnt': {}, '_inactive_leaf_node_cnt': {}}
        if kill:
            want = {'_active_leaf_node_cnt': minus(ONE, dele[1]), '_decision_node_cnt': minus({}, dele[0]), '_inactive_leaf_node_cnt': {}}
            place(res, s, facts, parent, branch, ('watch', '_kill_subtree'), bad)
        elif new:
            t = new[0].args[0]
            r = rank(t[1]) if t[0] == 'attr' and t[2] in ('split_test', '_split_test') else None
            if r is None or r[1] != 0:
                bad('install', 'splits on another suggestion than the best')
                continue
            want = {'_active_leaf_node_cnt': minus(poly(('call', '.num_splits', t[1])), dele[1]), '_decision_node_cnt': minus(ONE, dele[0]),
                    '_inactive_leaf_node_cnt': {}}
            install(res, W, s, facts, new, node, parent, branch, bad)
        for k, w in want.items():
            t = s.fld.get((SELF, k))
            d = minus(poly(t), poly(('attr', SELF, k))) if t is not None else {}
            if d != w:
                bad('counter', 'leaves %s wrong: it changes by %s' % (k, d or 'nothing'))
        if s.ret not in (('c', bool(kill or new)),) and s.ret[0] == 'c':
            bad('stop', 'reports %s after it %s the subtree' % (s.ret[1], 'replaced' if kill or new else 'kept'))


def split_conditions(facts):
    return {n: v for n, v in facts.items() if n != 'loops'}


def attempt(prog, res, c, f, kind):
    res.count('grow_functions')
    at = (f.file, f.node.lineno)
    ps = f.all_params
    node, parent, branch = [('param', p) for p in ps[1:4]]
    W = GrowWalker(prog, c)
    try:
        paths = [(how, s) for how, s in W.run(f) if how == 'return']
    except TooManyPaths:
        res.count('undecided')
        return
    key = f.cls.name

    def bad(rule, what, where=None):
        res.add(rule, key, '%s %s' % (f.qual, what), where or at)

    for how, s in paths:
        facts = split_conditions(s.facts)
        res.count('path_obligations')
        grow = [e for e in s.trace if e.name in ('_new_split_node', '_deactivate_learning_node')]
        Ss = {base(x) for n in facts if isinstance(n, tuple) for x in subterms(n) if W.rows(x)} | \
             {base(x) for e in s.trace for a in e.args for x in subterms(a) if W.rows(x)}
        Ss = {x for x in Ss if x[:1] == ('call',) and x[1].startswith('.get_best')}
        pure = next((v for n, v in facts.items() if isinstance(n, tuple) and n[:2] == ('call', '.observed_class_distribution_is_pure')), None)
        if pure:
            if grow:
                bad('pure', 'splits a leaf that has seen one class only')
            continue
        if len(Ss) > 1:
            res.count('undecided_paths')
            continue
        S = next(iter(Ss)) if Ss else None
        if S is not None and node not in S[2:3]:
            bad('suggestions', 'judges suggestions that are not those of the leaf')
        got, odd = atoms_of(facts)
        ok = formula(kind, got, facts, S) if S is not None else False if not grow else None
        if ok == 'dead':
            continue
        # which bound is used
        for t in list(facts):
            for x in subterms(t) if isinstance(t, tuple) else ():
                b = bound_of(x)
                if b is not None:
                    res.count('bound_obligations')
                    if not good_bound(b, 'split_confidence', node):
                        bad('bound', 'uses a bound that is not sqrt(R^2 ln(1/split_confidence)/2n) of the leaf: %s' % show(x))
        if ok is None:
            if odd and not all(k for _, _, k in odd):
                res.count('undecided_paths')
            elif S is None and any(W.rows(x) is None and 'split_suggestions' in repr(x) for e in grow for a in e.args for x in subterms(a)):
                res.count('undecided_paths')
            else:
                bad('grow', 'replaces a leaf on a path on which %s' % why(kind, odd) if grow else
                    'keeps a leaf on a path on which %s' % why(kind, odd))
        elif ok != bool(grow):
            bad('grow', 'replaces a leaf though the bound does not allow it (%s)' % text(got, odd) if grow else
                'does not split a leaf though the bound allows it (%s)' % text(got, odd))
        criterion(res, facts, s, S, bad)
        if grow:
            install(res, W, s, facts, grow, node, parent, branch, bad)
        counters(res, s, facts, grow, bad)
        poor(res, s, W, facts, got, odd, node, bad)
        if kind == 'ratio' and not got.get('pos'):
            for n in facts:
                for x in subterms(rename(n)) if isinstance(n, tuple) else ():
                    if x[:2] == ('op', 'Div') and x[3] == ('c', '$best'):
                        bad('zero', 'divides by the best merit on a path on which it may be zero')


def why(kind, odd):
    return 'the comparison with the bound is %s' % ', '.join('%s %s' % (show(n), v) for n, v, _ in odd[:2]) if odd else \
        'the merits are not compared with the bound'


def text(got, odd):
    return ', '.join(['%s=%s' % kv for kv in sorted(got.items())] + ['%s is %s' % (show(n), v) for n, v, _ in odd][:2])


def criterion(res, facts, s, S, bad):
    if S is None:
        return
    made = [x for x in S[3:] if x[0] == 'call']
    chosen = [n for n, v in facts.items() if isinstance(n, tuple) and n[0] == 'op' and n[1] == 'Eq' and v and any(
        x == ('attr', SELF, '_split_criterion') or x == ('attr', SELF, 'split_criterion') for x in subterms(n))]
    for n in chosen:
        for a in subterms(n):
            if a[0] == 'attr' and a[2] in CRITERIA and made:
                res.count('criterion_obligations')
                if made[0][1].endswith('Criterion') and made[0][1] != CRITERIA[a[2]]:
                    bad('criterion', 'uses %s where %s was chosen' % (made[0][1], a[2]))


def is_none(facts, t):
    v = facts.get(('op', 'Is', t, ('c', None)))
    if v is None:
        v = facts.get(('op', 'Eq', t, ('c', None)))
    if v is None and t in facts:
        v = not facts[t]
    return v


def install(res, W, s, facts, grow, node, parent, branch, bad):
    res.count('install_obligations', 4)
    if len(grow) != 1:
        bad('install', 'replaces the leaf %d times' % len(grow))
        return
    g = grow[0]
    if g.name == '_deactivate_learning_node':
        if g.args[:3] != (node, parent, branch):
            bad('install', 'deactivates another leaf than the one it was asked about')
        sp = [n for n, v in facts.items() if isinstance(n, tuple) and n[:2] == ('op', 'Is') and n[3] == ('c', None) and v and
              n[2][0] == 'attr' and n[2][2] == 'split_test']
        if not any(rank(n[2][1]) is not None and rank(n[2][1])[1] == 0 for n in sp):
            bad('install', 'deactivates a leaf although not splitting is not the best suggestion')
        return
    test = g.args[0] if g.args else None
    r = rank(test[1]) if test is not None and test[0] == 'attr' and test[2] in ('split_test', '_split_test') else None
    if r is None or r[1] != 0:
        bad('install', 'splits on another suggestion than the best: %s' % (show(test) if test else '?'))
        return
    best = test[1]
    if len(g.args) > 1 and not (g.args[1][0] == 'attr' and g.args[1][1] == node):
        bad('install', 'gives the new split the statistics of another node')
    sets = [e for e in s.trace if e.name == 'set_child']
    inner = [e for e in sets if e.recv is not None and e.recv[:2] == ('watch', '_new_split_node')]
    ok = len(inner) == 1 and inner[0].loops and W.loops[inner[0].loops[-1]].domain == ('splits', best)
    if ok:
        i, ch = inner[0].arg(0, 'index'), inner[0].arg(1, 'node')
        L = inner[0].loops[-1]
        stats = [x for x in subterms(ch) if x[:2] == ('call', '.resulting_stats_from_split')]
        ok = i == ('idx', L) and ch[:2] == ('watch', '_new_learning_node') and len(stats) == 1 and stats[0][2] == best and stats[0][3] == ('idx', L)
    if not ok:
        if inner and any(W.loops[l].domain is None for e in inner for l in e.loops):
            res.count('undecided_paths')
        else:
            bad('branches', 'does not give every branch of the new split its own leaf with the statistics of that branch')
    place(res, s, facts, parent, branch, ('watch', '_new_split_node'), bad)


def counters(res, s, facts, grow, bad):
    res.count('counter_obligations', 2)
    want = {'_active_leaf_node_cnt': {}, '_decision_node_cnt': {}, '_inactive_leaf_node_cnt': {}}
    if grow and grow[0].name == '_new_split_node':
        test = grow[0].args[0] if grow[0].args else ('?',)
        if test[0] != 'attr':
            return
        want['_active_leaf_node_cnt'] = minus(poly(('call', '.num_splits', test[1])), ONE)
        want['_decision_node_cnt'] = ONE
    for k, w in want.items():
        t = s.fld.get((SELF, k))
        entry = ('attr', SELF, k)
        d = plus(poly(t), poly(entry), -1) if t is not None else {}
        if d != w:
            bad('counter', 'leaves %s wrong: it changes by %s' % (k, d or 'nothing'))


def poor(res, s, W, facts, got, odd, node, bad):
    for e in s.trace:
        if e.name == 'disable_attribute':
            res.count('poor_obligations')
            if e.recv != node:
                bad('poor', 'disables an attribute of another node')
            if not got.get('poor') and not got.get('poor-ratio'):
                if 'poor' in got or 'poor-ratio' in got or any(k and "'$each'" in repr(rename(n)) for n, _, k in odd):
                    bad('poor', 'disables attributes that are not poor')
        if e.name == 'get_atts_test_depends_on' and e.recv is not None and e.recv[0] == 'attr' and e.recv[2] == 'split_test' and \
                e.recv[1][0] == 'elem' and e.recv[1][2][0] == 'idx':
            res.count('poor_obligations')
            if is_none(facts, e.recv) is not False:
                bad('poor', 'asks the suggestion not to split which attribute it tests (it has no test)')
