"""python3-vt -m engine.run c15 [Name ...] : verify the contracts of one property and print every obligation"""
import sys, importlib
sys.setrecursionlimit(20000)
from . import terms, solver
from .project import Project
from .verify import verify

if __name__ == '__main__':
    mod = importlib.import_module('contracts.' + sys.argv[1])
    only = [a for a in sys.argv[2:] if a != '-v']
    verbose = '-v' in sys.argv
    proj = Project()
    for c in mod.CONTRACTS:
        if only and not any(o in c.key for o in only):
            continue
        r = verify(proj, mod.registry(), c)
        print('==', r.key, r.status, r.why, '%d/%d' % (r.discharged, len(r.obls)), '%.1fs' % r.secs)
        for line, names in r.loops:
            print('   loop @%s: %s' % (line, names))
        for o in r.obls:
            if not o['ok'] or verbose:
                print('   ', 'ok  ' if o['ok'] else 'FAIL', o['name'], o['why'], o['backend'], o['secs'])
                if not o['ok']:
                    print('       ', o.get('goal', '')[:600].replace('\n', ' '))
