"""Findings, known findings, evidence and process exit codes."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
EVID = os.path.join(ROOT, 'evidence')


class Finding:
    """A violated rule at one construct.  `key` (rule + construct, no line numbers) identifies it across edits."""

    def __init__(self, rule, construct, message, where=None, trace=()):
        self.rule, self.construct, self.message, self.where, self.trace = rule, construct, message, where, list(trace)

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def text(self):
        w = ' at %s:%s' % self.where if self.where else ''
        return '[%s] %s: %s%s' % (self.rule, self.construct, self.message, w)


class Result:
    """What one property's check looked at and found."""

    def __init__(self):
        self.findings = {}
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.notes = []

    def add(self, rule, construct, message, where=None, trace=()):
        f = Finding(rule, construct, message, where, trace)
        self.findings.setdefault(f.key, f)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % pid) and ' key=' in line:
                rest = line.split(' key=', 1)[1]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


def finish(pid, res, t0, prog):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    known = load_known(pid)
    new, old = [], []
    for k in sorted(res.findings):
        (old if k in known else new).append(res.findings[k])
    os.makedirs(EVID, exist_ok=True)
    obligations = sum(v for k, v in res.counts.items() if k.endswith('obligations'))
    cov = {
        'explanation': 'Static analysis of the source tree under %s; no analysed code is executed. Rules: %s'
                       % (prog.root, ' / '.join(res.rules)),
        'rules': res.rules,
        'modules_parsed': len(prog.modules),
        'classes_parsed': len(prog.classes),
        'functions_parsed': len(prog.funcs),
        'source_digest': prog.digest,
        'counts': res.counts,
        'rule_instances': obligations,
        'samples': res.samples,
        'known_findings': [f.key for f in old],
        'new_findings': [{'key': f.key, 'text': f.text(), 'trace': f.trace} for f in new],
    }
    if res.notes:
        cov['notes'] = res.notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        fh.write('\n')
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, f.key, known[f.key]))
    if new:
        rp = os.path.join(EVID, 'replay-%s.txt' % pid)
        with open(rp, 'w') as fh:
            for f in new:
                fh.write(f.text() + '\n')
                for t in f.trace:
                    fh.write('      %s\n' % (t,))
        for f in new[:60]:
            print(f.text())
            for t in f.trace[:0]:
                print('      %s' % (t,))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %d rule instances, %d known findings; %s' %
          (pid, obligations, len(old), ', '.join('%s=%s' % kv for kv in sorted(res.counts.items()))))
    return 0
