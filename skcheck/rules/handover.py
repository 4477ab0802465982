"""Every function that is given a sample with its weight hands the weight on with the sample (C21).

Modular: each function with a weight parameter is looked at on its own, on all its paths.  A call that passes the sample or its label to
a function of the library that takes a weight must pass the weight on, and the label with the sample; what is added to a statistic for
the sample is proportional to the weight."""
import ast
from ..terms import Walker, TooManyPaths, subterms
from ..poly import poly
from .rowflow import IGNORE_CALLS, tiny

WN = ('weight', 'sample_weight', 'weights', 'w')
YN = ('y', 'class_val', 'class_index', 'y_true', 'label')
XN = ('X', 'x', 'att_val', 'value')
TRAIN = {'fit', 'partial_fit', 'learn_one', 'update', 'update_stats', 'add_observation', 'add_sample', 'add_result', '_partial_fit'}
# "Usage varies depending on the learning method"; an estimator trained at once takes no weights
NOT_USED = {('StreamingRandomPatchesClassifier', 'partial_fit'), ('AccuracyWeightedEnsembleClassifier', 'fit')}
MODULES = ('trees', 'bayes', 'rules', 'meta', 'lazy', 'neural_networks', 'prototype', 'anomaly_detection', 'core')


def names(f, ns):
    return next((p for p in f.all_params[(1 if f.cls is not None and not f.static else 0):] if p in ns), None)


def roots(t, out=None):
    """The parameters a value is made of (not those only its size or type is taken from)."""
    out = set() if out is None else out
    if not isinstance(t, tuple) or not t:
        return out
    if t[0] == 'param':
        out.add(t[1])
    elif not (t[0] == 'len' or t[0] == 'attr' and t[2] in ('shape', 'size', 'dtype', 'ndim') or t[0] == 'call' and t[1] in IGNORE_CALLS):
        for x in t[1:]:
            if isinstance(x, tuple):
                roots(x, out)
    return out


class HandOver(Walker):
    def __init__(self, prog, cls, x, y, w):
        super().__init__(prog, cls, set())
        self.x, self.y, self.w = x, y, w
        self.calls, self.puts = [], []

    def unweighted(self, st):
        """The caller gave no weights, or the learner at hand does not take any."""
        for n, v in st.facts.items():
            if isinstance(n, tuple) and n[0] == 'op':
                if v and n[1] == 'Is' and n[2] == ('param', self.w) and n[3] == ('c', None):
                    return True
                if not v and n[1] == 'In' and n[2] == ('c', 'sample_weight'):
                    return True
        return False

    def watched(self, name):
        return name in TRAIN

    def interesting(self, f, seen=None):
        return False

    def transparent(self, g):
        return tiny(g) and names(g, WN) is None

    def call(self, e, name, recv, args, kw, st):
        self.calls.append((name, self.resolve(recv, name), args, kw, e, self.unweighted(st), self.cur))
        return super().call(e, name, recv, args, kw, st)

    def assign(self, tg, t, st, aug=None):
        if isinstance(tg, (ast.Attribute, ast.Subscript)):
            b = self.ev(tg.value, st)[0][0]
            i = None if isinstance(tg, ast.Attribute) else self.index(tg.slice, st)
            key = (b, tg.attr) if i is None else (b, '[]', i)
            r = b
            while r[0] in ('attr', 'elem', 'column'):
                r = r[1]
            if r == ('self',) or r[0] == 'call' and ('self',) in subterms(r):
                old = st.fld.get((b, tg.attr), ('attr', b, tg.attr)) if i is None else self.elem(b, i, st)
                self.puts.append((key, t, aug, old, tg, self.unweighted(st), self.cur))
        super().assign(tg, t, st, aug)


def opaque(t):
    return any(x[0] in ('unk', 'obj', 'view') for x in subterms(t))


def weight_pos(prog):
    """name -> functions of the library with a weight parameter"""
    out = {}
    for f in prog.funcs:
        if names(f, WN) and not f.module.name.split('.')[1:2] == ['metrics']:
            out.setdefault(f.name, []).append(f)
    return out


def argument(f, args, kw, p):
    if p in kw:
        return kw[p]
    if p not in f.params:
        return None
    i = f.params.index(p) - (1 if f.cls is not None and not f.static else 0)
    return args[i] if 0 <= i < len(args) else None


def fits(f, args, kw):
    n = len(f.params) - (1 if f.cls is not None and not f.static else 0)
    return len(args) <= n and all(k in f.all_params or f.node.args.kwarg for k in kw)


def degree(p, w):
    """Degrees in w of the monomials of a polynomial; None where w is buried in an opaque factor."""
    out = set()
    r = repr(('param', w))
    for m in p:
        n = 0
        for fac in m:
            if fac == r:
                n += 1
            elif r in fac:
                return None
        out.add(n)
    return out


def handed_on(prog, res, weighted):
    taking = weight_pos(prog)
    n_calls = n_stats = n_funcs = 0
    for f in prog.funcs:
        if f.module.name.split('.')[1:2][0:1] and f.module.name.split('.')[1] not in MODULES:
            continue
        w = names(f, WN)
        y, x = names(f, YN), names(f, XN)
        if w is None or (x is None and y is None) or f.abstract:
            continue
        if f.cls is not None and not weighted(f.cls):
            continue
        W = HandOver(prog, f.cls, x, y, w)
        try:
            W.run(f)
        except TooManyPaths:
            res.count('undecided')
            continue
        n_funcs += 1
        sample = {p for p in (x, y) if p}
        for name, own, args, kw, e, un, g in W.calls:
            vals = list(args) + list(kw.values())
            used = set()
            for t in vals:
                used |= roots(t)
            if not used & sample or f.cls is not None and (f.cls.name, name) in NOT_USED:
                continue
            cands = [k for k in taking.get(name, ()) if fits(k, args, kw)]
            if own is not None:
                cands = [own] if own in cands else []
            if not cands:
                continue
            n_calls += 1
            key = '%s %s' % (f.qual, name)
            aw = [argument(k, args, kw, names(k, WN)) for k in cands]
            given = [t for t in aw if t is not None]
            if not un and (not given and w not in used or given and not any(w in roots(t) or opaque(t) for t in given)):
                res.add('weight-not-handed-on', key, '%s learns with %s but does not hand the weight of the sample on' % (f.qual, name),
                        (g.file, e.lineno))
            if y and x in used:
                for k in cands:
                    ky, kx = names(k, YN), names(k, XN)
                    ay, ax = argument(k, args, kw, ky) if ky else None, argument(k, args, kw, kx) if kx else None
                    if ay is not None and ax is not None and x in roots(ax) and y not in roots(ay) and not opaque(ay):
                        res.add('label-not-handed-on', key, '%s hands the sample to %s with another label' % (f.qual, name), (g.file, e.lineno))
        sums = set()
        for key, t, aug, old, tg, un, g in W.puts:
            inc = increment(t, aug, old)
            if inc is not None and w in roots(inc) and degree(poly(inc), w) is not None:
                sums.add(key)
        for key, t, aug, old, tg, un, g in W.puts:
            if un:
                continue
            inc = increment(t, aug, old)
            v = inc if inc is not None else t
            us = roots(v)
            name = key[1] if len(key) == 2 else next((b[2] for b in subterms(key[0]) if b[0] == 'attr'), '[]')
            keyed = len(key) == 3 and y and y in roots(key[2]) and not (us & {x})
            at = (g.file, tg.lineno)
            k = '%s %s' % (f.qual, name)
            if v[0] in ('obj', 'unk', 'tuple') or v == ('c', None):
                continue
            n_stats += 1
            if inc is not None:
                if w not in us:
                    if us & sample and sums or keyed or 'weight' in name:
                        res.add('weight-not-counted', k, '%s adds something to %s that does not depend on the weight of the sample' % (f.qual, name), at)
                    continue
                d = degree(poly(inc), w)
                if d is not None and d - {1} and 'weight' not in repr(key) or d is not None and d - {1, 0}:
                    res.add('weight-not-counted', k, '%s adds something to %s that is not proportional to the weight of the sample' % (f.qual, name), at)
            elif key in sums or keyed and name in ('stats', '_stats', '_observed_class_distribution', 'observed_class_distribution'):
                if w not in us and (us & sample or v[0] == 'c' and isinstance(v[1], (int, float)) and v[1]):
                    res.add('weight-not-counted', k, '%s starts %s without the weight of the sample' % (f.qual, name), at)
    res.count('weight_functions', n_funcs)
    res.count('weight_hand_over_calls', n_calls)
    res.count('weighted_statistics', n_stats)


def increment(t, aug, old):
    if aug is not None:
        return aug[1] if aug[0] == 'Add' else None
    if t[0] == 'op' and t[1] == 'Add' and len(t) == 4:
        if t[2] == old:
            return t[3]
        if t[3] == old:
            return t[2]
    return None
