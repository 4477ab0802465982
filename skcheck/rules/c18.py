"""C18: what a drift detector reports is about the element added last."""
import ast
from ..terms import Walker, TooManyPaths, subterms, mentions, show
from .. import whole

FLOORS = {'detectors': 6, 'path_obligations': 100}

# count: the number of elements seen since the last restart; level/warn: (parameter, side of it on which the alarm lies);
# least: [(quantity that must have been compared, with what)] before an alarm; keep: outputs that are meant to outlive a drift
SPEC = {
    'DDM': dict(count='sample_count', level=('out_control_level', 'above'), warn=('warning_level', 'above'), least=['min_instances']),
    'EDDM': dict(count='m_n', level=('FDDM_OUTCONTROL', 'below'), warn=('FDDM_WARNING', 'below'),
                 least=['FDDM_MIN_NUM_INSTANCES', 'm_min_num_errors']),
    'PageHinkley': dict(count='sample_count', level=('threshold', 'above'), warn=None, least=['min_instances']),
    'HDDM_A': dict(count='total_n', level=('drift_confidence', 'above'), warn=('warning_confidence', 'above'), least=[]),
    'HDDM_W': dict(count='width', level=('drift_confidence', 'above'), warn=('warning_confidence', 'above'), least=[]),
    'KSWIN': dict(count='n', level=('alpha', 'below'), warn=None, least=['window_size'], keeps_window=True),
    'ADWIN': dict(count='_width', level=None, warn=None, least=[]),
}
OUTPUTS = {'estimation', 'delay', 'n_estimation', 'c_estimation', 'p_value'}
SELF = ('self',)


class StateWalker(Walker):
    """Follows every call on self; nested classes of the detector are opaque constructors."""

    def interesting(self, f, seen=None):
        return True

    def dedupe(self, outs):
        seen = {}
        for how, s in outs:
            seen.setdefault((how, s.ret, s.key(), frozenset(s.facts.items())), (how, s))
        if len(seen) > 20000:
            raise TooManyPaths
        return list(seen.values())

    def resolve(self, recv, name):
        g = super().resolve(recv, name)
        return g if g is not None and g.node.name != '__init__' else None


def entry_fields(t):
    return {x[2] for x in subterms(t) if x[0] == 'attr' and x[1] == SELF}


def compared(facts, name, side):
    """Is there a path condition putting something that does not mention `name` on the given side of something that does?"""
    for n, v in facts.items():
        if not (isinstance(n, tuple) and n and n[0] == 'op' and len(n) == 4 and n[1] in ('Lt', 'LtE')):
            continue
        a, b = n[2], n[3]
        ia, ib = has(a, name), has(b, name)
        if ia == ib:
            continue
        # v True: a < b ; v False: a >= b
        below = v if ib else not v          # the other side lies below the one with `name`
        if below == (side == 'below'):
            return True
    return False


def has(t, name):
    return any(x[0] == 'attr' and x[2] == name for x in subterms(t))


def mentioned(facts, name):
    return any(isinstance(n, tuple) and n and n[0] == 'op' and has(n, name) for n in facts)


def check(prog, res):
    res.rule('on every path through add_element of a drift detector: the flags that detected_change and detected_warning_zone report are '
             'rewritten; drift and warning are never both set; one element is counted; drift (warning) is set only on the alarming side '
             'of the drift (warning) level and after the minimum number of elements; after a drift the next element starts from the '
             'statistics reset() sets up; the queries write nothing')
    adwin(prog, res)
    from .. import laws
    from .laws_detectors import TABLE
    laws.run(prog, res, TABLE)
    base = prog.need_cls('BaseDriftDetector')
    for c in sorted(prog.classes, key=lambda k: k.qual):
        if base not in c.mro() or c is base:
            continue
        f = c.find('add_element')
        if f is None or f.abstract:
            continue
        spec = SPEC.get(c.name, dict(count=None, level=None, warn=None, least=[]))
        res.count('detectors')
        flags = []
        for q in ('detected_change', 'detected_warning_zone', 'get_length_estimation'):
            g = c.find(q)
            if c.name == 'ADWIN' and q == 'detected_change':
                flags.append(None)
                continue
            W = StateWalker(prog, c, set())
            try:
                ps = W.run(g)
            except TooManyPaths:
                flags.append(None)
                continue
            names = set()
            for how, s in ps:
                res.count('path_obligations')
                for b, a in s.fld:
                    if b == SELF:
                        res.add('query-writes', '%s.%s' % (c.name, q), '%s changes %s' % (g.qual, a), (g.file, g.node.lineno))
                if s.ret is not None and s.ret[0] == 'attr' and s.ret[1] == SELF:
                    names.add(s.ret[2])
            flags.append(next(iter(names)) if len(names) == 1 else None)
        drift, warn = flags[0], flags[1]
        W = StateWalker(prog, c, set(), inline=lambda g: not any(isinstance(n, ast.While) for n in ast.walk(g.node)))
        try:
            paths = [(how, s) for how, s in W.run(f) if how == 'return']
        except TooManyPaths:
            res.count('undecided')
            continue
        R = StateWalker(prog, c, set())
        rs = c.find('reset')
        reset = {}
        for how, s in R.run(rs):
            for (b, a), t in s.fld.items():
                if b == SELF:
                    reset.setdefault(a, set()).add(t)
        written = {a for how, s in paths for b, a in s.fld if b == SELF}
        stats = {a for a in written & set(reset) if a not in OUTPUTS and a not in (drift, warn)}
        at = (f.file, f.node.lineno)
        arg = f.all_params[1] if len(f.all_params) > 1 else None
        tests_flag = False
        for how, s in paths:
            if any(n == ('attr', SELF, drift) and v for n, v in s.facts.items() if isinstance(n, tuple)):
                tests_flag = True
        for how, s in paths:
            fld = {a: t for (b, a), t in s.fld.items() if b == SELF}
            facts = {n: v for n, v in s.facts.items() if n != 'loops'}
            restarted = [a for a in stats if fld.get(a) in reset[a]]
            res.count('path_obligations', 6)
            if drift is not None and drift not in fld:
                res.add('stale-flag', c.name, '%s leaves %s as the element before left it on some path' % (f.qual, drift), at)
            dv = fld.get(drift, ('unk',))
            wv = fld.get(warn, ('unk',))
            if dv == ('c', True) and wv == ('c', True):
                res.add('drift-and-warning', c.name, '%s sets drift and warning together' % f.qual, at)
            was = any(n == ('attr', SELF, drift) and v for n, v in facts.items())
            if spec['count']:
                k = spec['count']
                t = fld.get(k)
                entry = ('attr', SELF, k)
                base_vals = {entry} if not was else set(reset.get(k, ())) | {entry}
                ok = t is not None and (t[0] == 'op' and t[1] == 'Add' and (t[2] in base_vals and t[3] == ('c', 1) or
                                                                            t[3] in base_vals and t[2] == ('c', 1)) or t in reset.get(k, ()) and set(restarted) == stats)
                if not ok and (t is None or recognised(t, entry)):
                    res.add('count', c.name, '%s does not count one element on some path: %s becomes %s' %
                            (f.qual, k, 'unchanged' if t is None else show(t)), at)
            if dv == ('c', True):
                for m in spec['least']:
                    if not compared(facts, m, 'above'):
                        res.add('too-early', '%s %s' % (c.name, m), '%s reports a drift on a path on which %s has not been reached' % (f.qual, m), at)
                if spec['level'] and not compared(facts, *spec['level']):
                    res.add('level', c.name, '%s reports a drift on a path that is not %s %s' % (f.qual, spec['level'][1], spec['level'][0]), at)
            if wv == ('c', True) and spec['warn'] and not compared(facts, *spec['warn']):
                res.add('level', c.name + ' warning', '%s reports a warning on a path that is not %s %s' % (f.qual, spec['warn'][1], spec['warn'][0]), at)
            if was and stats:
                left = sorted(a for a in stats if entry_fields(fld.get(a, ('attr', SELF, a))) & stats)
                if left:
                    res.add('restart', c.name, '%s goes on from %s of before the drift' % (f.qual, ', '.join(left)), at)
            elif dv == ('c', True) and not tests_flag and drift is not None and not spec.get('keeps_window'):
                left = sorted(stats - set(restarted))
                if left:
                    res.add('restart', c.name, '%s reports a drift and keeps %s of before it' % (f.qual, ', '.join(left)), at)
            if arg and not restarted:
                used = any(mentions(t, ('param', arg)) for t in s.fld.values()) or any(isinstance(n, tuple) and mentions(n, ('param', arg)) for n in facts)
                if not used:
                    res.add('element-ignored', c.name, '%s leaves the element out on some path' % f.qual, at)


def recognised(t, entry):
    """A count we can read: a constant, the old count, or the old count plus or minus a constant."""
    return t == entry or t[0] == 'c' or t[0] == 'op' and t[1] in ('Add', 'Sub', 'Mult') and all(x == entry or x[0] == 'c' or recognised(x, entry) for x in t[2:])


class OnePass(StateWalker):
    """While loops are entered at most once, without forgetting what came before."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.iters = 1

    @staticmethod
    def widen(st, n):
        pass


def is_sum(t, parts):
    return t is not None and t[0] == 'op' and t[1] == 'Add' and sorted(map(repr, t[2:])) == sorted(map(repr, parts))


def adwin(prog, res):
    """Window accounting: width and total change together with the buckets, and a change is reported exactly when the window was cut."""
    c = prog.cls('ADWIN')
    if c is None:
        return
    res.rule('ADWIN: inserting an element adds it once to the buckets, to the total and to the width; deleting a bucket takes its own total '
             'and size off; merging two buckets keeps their total; detected_change cuts the window exactly on the paths on which it reports a change')
    watch = {'insert_bucket', 'compress_bucket_row', 'remove_bucket'}
    f = c.find('add_element')
    v = ('param', f.all_params[1])
    at = (f.file, f.node.lineno)
    try:
        for how, s in OnePass(prog, c, watch, inline=lambda g: not any(isinstance(n, ast.While) for n in ast.walk(g.node))).run(f):
            res.count('path_obligations', 3)
            if not is_sum(s.fld.get((SELF, '_total')), [('attr', SELF, '_total'), v]):
                res.add('adwin-total', 'add_element', 'ADWIN.add_element does not add the element once to the total', at)
            ins = [e for e in s.trace if e.name == 'insert_bucket']
            if len(ins) != 1 or v not in ins[0].args + tuple(ins[0].kw.values()):
                res.add('adwin-buckets', 'add_element', 'ADWIN.add_element does not put the element into the buckets exactly once', at)
        f = c.find('delete_element')
        at = (f.file, f.node.lineno)
        for how, s in OnePass(prog, c, watch).run(f):
            w, t = s.fld.get((SELF, '_width')), s.fld.get((SELF, '_total'))
            res.count('path_obligations', 3)
            rem = [e for e in s.trace if e.name in ('remove_bucket', 'compress_bucket_row')]
            if len(rem) != 1:
                res.add('adwin-buckets', 'delete_element', 'ADWIN.delete_element does not remove exactly one bucket', at)
                continue
            node = rem[0].recv
            if t is None or t[0] == 'op' and not (t[1] == 'Sub' and t[2] == ('attr', SELF, '_total') and t[3][:2] == ('call', '.get_total')
                                                  and t[3][2] == node and t[3][3:] == (('c', 0),)):
                res.add('adwin-total', 'delete_element', 'ADWIN.delete_element does not take the total of the bucket it removes off the total', at)
            if w is None or w[0] == 'op' and not (w[1] == 'Sub' and w[2] == ('attr', SELF, '_width') and
                                                  (w[3] == s.ret or has(w[3], 'last_bucket_row'))):
                res.add('adwin-width', 'delete_element', 'ADWIN.delete_element does not take the size of the bucket it removes off the width', at)
        f = next((g for n, g in c.methods.items() if n.endswith('compress_buckets')), None)
        if f is not None:
            at = (f.file, f.node.lineno)
            for how, s in OnePass(prog, c, watch).run(f):
                ins = [e for e in s.trace if e.name == 'insert_bucket']
                rem = [e for e in s.trace if e.name == 'compress_bucket_row']
                res.count('path_obligations')
                if len(ins) != len(rem):
                    res.add('adwin-buckets', 'compress', '%s merges and removes a different number of buckets' % f.qual, at)
                for i, r in zip(ins, rem):
                    t = i.arg(0, 'value')
                    n = r.arg(0, 'num_deleted', ('c', 1))
                    tot = [x for x in subterms(t) if x[:2] == ('call', '.get_total')]
                    if n[0] == 'c' and t is not None and t[0] == 'op' and (
                            t[1] != 'Add' or {x[3:] for x in tot} != {(('c', k),) for k in range(n[1])} or {x[2] for x in tot} != {r.recv}):
                        res.add('adwin-total', 'compress', '%s does not keep the total of the buckets it merges' % f.qual, at)
        f = c.find('detected_change')
        at = (f.file, f.node.lineno)
        for how, s in OnePass(prog, c, {'delete_element'}, inline=lambda g: False).run(f):
            cut = any(e.name == 'delete_element' for e in s.trace)
            res.count('path_obligations')
            if s.ret == ('c', False) and cut or s.ret == ('c', True) and not cut and not nonpositive(s.facts):
                res.add('adwin-cut', 'detected_change', 'ADWIN.detected_change %s' % (
                    'cuts the window without reporting a change' if cut else 'reports a change without cutting the window'), at)
            k = s.fld.get((SELF, 'in_concept_change'))
            if k != s.ret and (k is None or k[0] == 'c'):
                res.add('stale-flag', 'ADWIN', 'ADWIN.detected_change reports something else than in_concept_change', at)
    except TooManyPaths:
        res.count('undecided')


def nonpositive(facts):
    """The path assumes an empty window (width > 0 is false)."""
    return any(isinstance(n, tuple) and n and n[0] == 'op' and len(n) == 4 and n[1] in ('LtE', 'Lt', 'Eq') and v and n[3] in (('c', 0), ('c', 1))
               and (has(n[2], '_width') or has(n[2], 'width')) for n, v in facts.items())
