"""python3-vt tools/why.py cXX fn-substr obligation-substr : the hypotheses of failing obligations (debug aid)"""
import sys, importlib, z3
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from engine.project import Project
from engine.exec import Exec
from engine import verify as v, solver
m = importlib.import_module('contracts.' + sys.argv[1])
proj, reg = Project(), m.registry()
for c in m.CONTRACTS:
    if sys.argv[2] not in c.key and sys.argv[2] != (c.name or ''): continue
    ex = Exec(proj, reg, c)
    obls, n = v.run_contract(ex, proj, reg, c, proj.find(c.key))
    seen = 0
    for name, hyps, goal in obls:
        if len(sys.argv) > 3 and sys.argv[3] not in name: continue
        p = solver.prove(hyps, goal, ex.axioms, 3000, False)
        if not p.ok:
            print('##', name, p.why)
            for h in hyps: print('  H', str(h).replace('\n', ' ')[:500])
            print('  G', str(goal).replace('\n', ' ')[:1500])
            seen += 1
            if seen >= int(sys.argv[4] if len(sys.argv) > 4 else 1): sys.exit()
