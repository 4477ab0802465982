"""Helpers shared by the rules."""
from .. import whole


def effects_collector(select):
    def collect(I, c, ents):
        out = []
        seen = set()
        for n in select(c):
            for table in ('methods', 'getters'):
                f = c.find(n, table)
                if f is None or f in seen or f.abstract:
                    continue
                seen.add(f)
                s = I.summ.get((f, c, ()))
                if s is None:
                    continue
                muts = []
                for (a, k), w in sorted(s.muts.items(), key=lambda x: repr(x[0])):
                    muts.append((a[0], a[1], tuple(str(x) for x in a[2]), k, whole.chain2(w)))
                out.append((n, f.params[0] if f.params and not f.static else None, muts, f.file, f.node.lineno))
        return out
    return collect


def effect_findings(prog, res, roots, select, rule, exempt=(), count='query_method_obligations', verb='may change'):
    agg = {}
    for c, facts in whole.run(prog, roots, effects_collector(select), res):
        for n, selfname, muts, file, line in facts:
            res.count(count)
            res.sample('%s.%s: %s' % (c.name, n, 'no effect' if not muts else '%d candidate effects' % len(muts)))
            for root, name, path, kind, tr in muts:
                if root == 'p' and name != selfname:
                    continue
                if (c.name, kind) in exempt:
                    continue
                what = ('self' if root == 'p' else name) + ''.join('.' + x for x in path)
                attr = kind[5:] if kind.startswith('attr:') else (path[-1] if path else name) + ' ' + kind
                src = tr[0]
                agg.setdefault((src[2], attr), []).append((c.name + '.' + n, what, kind, tr))
    for (qual, attr), l in sorted(agg.items()):
        e, what, kind, tr = l[0]
        who = sorted({x[0] for x in l})
        res.add(rule, '%s %s' % (qual, attr), '%s %s %s (%s)' % (', '.join(who[:6]) + (' ...' if len(who) > 6 else ''),
                                                                  verb, what, kind), tr[0][:2],
                ['%s:%s %s' % t[:3] for t in tr])
