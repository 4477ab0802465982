"""python3 -m skcheck <property id>: decide one property on /repo's current source."""
import importlib
import os
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'skcheck'] + sys.argv[1:])


def main():
    from . import core
    from .model import Program, AnalysisBroken
    t0 = time.time()
    rc = 0
    for pid in sys.argv[1:]:
        try:
            prog = Program()
            mod = importlib.import_module('.rules.' + pid.lower(), __package__)
            res = core.Result()
            mod.check(prog, res)
            for name, low in getattr(mod, 'FLOORS', {}).items():
                if res.counts.get(name, 0) < low:
                    raise AnalysisBroken('%s: only %d %s, at least %d expected' % (pid, res.counts.get(name, 0), name, low))
        except AnalysisBroken as e:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            rc = 3
            continue
        rc = max(rc, core.finish(pid, res, t0, prog))
    sys.exit(rc)


main()
