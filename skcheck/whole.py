"""Run the abstract interpreter per concrete class, in parallel, and gather plain facts."""
import os
from multiprocessing import get_context

from .interp import Interp
from .model import AnalysisBroken

LEARNER_BASES = ('ClassifierMixin', 'RegressorMixin')
HELPERS = ('ClassificationPerformanceEvaluator', 'WindowClassificationPerformanceEvaluator',
           'MultiLabelClassificationPerformanceEvaluator', 'WindowMultiLabelClassificationPerformanceEvaluator',
           'ClassificationMeasurements', 'WindowClassificationMeasurements', 'MultiTargetClassificationMeasurements',
           'WindowMultiTargetClassificationMeasurements', 'RegressionMeasurements', 'WindowRegressionMeasurements',
           'MultiTargetRegressionMeasurements', 'WindowMultiTargetRegressionMeasurements', 'RunningTimeMeasurements')


def families(prog):
    """Concrete public classes by role."""
    f = {}
    f['learner'] = set()
    for b in LEARNER_BASES:
        f['learner'] |= set(prog.concrete_subclasses(b))
    f['stream'] = set(prog.concrete_subclasses('Stream'))
    f['detector'] = set(prog.concrete_subclasses('BaseDriftDetector'))
    f['transform'] = set(prog.concrete_subclasses('StreamTransform'))
    f['evaluator'] = set(prog.concrete_subclasses('StreamEvaluator'))
    f['metric'] = set()
    f['buffer'] = set()
    for c in prog.classes:
        m = c.module.name
        if c.abstract_methods() or c.name.startswith('_'):
            continue
        if m.startswith('skmultiflow.metrics'):
            f['metric'].add(c)
        elif m.startswith('skmultiflow.utils.data_structures') or c.name in (
                'SlidingWindow', 'TimeManager', 'EvaluationDataBuffer'):
            if c.name in ('ConfusionMatrix', 'MOLConfusionMatrix'):
                f['metric'].add(c)
            else:
                f['buffer'].add(c)
    f['other'] = {prog.cls('Pipeline'), prog.cls('EvaluationVisualizer')} - {None}
    return {k: sorted(v, key=lambda c: c.qual) for k, v in f.items()}


def all_roots(prog, fams=None, which=None):
    fams = fams or families(prog)
    out = []
    for k in sorted(fams):
        if which is None or k in which:
            for c in fams[k]:
                if c not in out:
                    out.append(c)
    return sorted(out, key=lambda c: c.qual)


def entries(c):
    """Constructor, every method and every getter a client (or the library) can reach on an instance of c."""
    names = set()
    for k in c.mro():
        names |= set(k.methods)
    init = c.find('__init__')
    out = [(init, c)] if init is not None else []
    for n in sorted(names):
        f = c.find(n)
        if n != '__init__' and f is not None:
            out.append((f, c))
    seen = set()
    for k in c.mro():
        for n, g in sorted(k.getters.items()):
            if n not in seen:
                seen.add(n)
                out.append((g, c))
    for k in c.mro():
        for n, g in sorted(k.setters.items()):
            if (n, 's') not in seen:
                seen.add((n, 's'))
                out.append((g, c))
    return out


_JOB = {}


def _one(i):
    prog, roots, collect, opts = _JOB['prog'], _JOB['roots'], _JOB['collect'], _JOB['opts']
    c = roots[i]
    I = Interp(prog, opts)
    ents = entries(c)
    I.solve(ents)
    facts = collect(I, c, ents)
    stats = {'functions_analysed': len({k[0] for k in I.summ}), 'summaries': len(I.summ),
             'call_events': sum(len(v) for v in I.events.values()), 'capped': len(I.capped)}
    return c.qual, facts, stats


def run(prog, roots, collect, res=None, opts=None, label='classes_analysed'):
    """[(class, facts)] for each root.  `collect(I, c, entries)` runs in a worker and returns picklable facts."""
    _JOB.update(prog=prog, roots=roots, collect=collect, opts=opts)
    n = min(8, os.cpu_count() or 1, len(roots)) or 1
    with get_context('fork').Pool(n) as po:
        raw = po.map(_one, range(len(roots)), chunksize=1)
    by = {c.qual: c for c in roots}
    if res is not None:
        res.count(label, len(roots))
        for _, _, st in raw:
            for k in ('functions_analysed', 'summaries', 'call_events'):
                res.count(k + '_over_all_classes', st[k])
    return [(by[q], facts) for q, facts, _ in raw]


def chain2(w):
    """Witness path of a mutation, innermost location first."""
    return [tuple(x) for x in w if x][:8]
