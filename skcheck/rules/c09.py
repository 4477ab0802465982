"""C09: restart() makes a stream start over."""
from .. import whole
from . import restore

FLOORS = {'state_field_obligations': 60, 'classes_analysed': 18}


def check(prog, res):
    res.rule('every attribute that drawing samples may change, the private random generators included, is certainly rewritten by '
             'restart (or the stream it holds is itself restarted), with the seed, constant or kind of object the constructor uses')
    roots = [c for c in whole.families(prog)['stream'] if c.find('restart') is not None]
    restore.run(prog, res, roots, ('restart',), (), 'state_field_obligations')
