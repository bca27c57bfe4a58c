"""python3-vt check.py Cxx [quick|thorough] : decide one property on /repo's current tree.

1. every function under contract is extracted from the source tree and its obligations are proved (engine/), 8 at a time;
2. the bounded harness (harness/) runs the real code: it replays what a refuted obligation claims, and stands in for the
   functions the verifier does not reach;
3. verdict: a concrete failing input => VIOLATION with replay; an obligation the solver refutes (saturates on, no timeout)
   with no failing input => VIOLATION ... no-failing-input-found; otherwise exit 0."""
import sys, os, json, time, subprocess, importlib, multiprocessing, traceback, tempfile
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(HERE, 'evidence')


def prove_one(args):
    """one contract, in a worker process (fresh theory)"""
    modname, idx, timeout, secs = args
    try:
        from engine.project import Project
        from engine.verify import verify
        from engine import solver
        mod = importlib.import_module('contracts.' + modname)
        c = mod.CONTRACTS[idx]
        r = verify(Project(), mod.registry(), c, timeout, secs)
        d = {'key': r.key, 'name': c.label(), 'status': r.status, 'why': r.why, 'secs': round(r.secs, 2), 'obls': r.obls,
             'inlined': r.inlined, 'contracts': r.contracts, 'models': r.models,
             'loops': [(l, n) for l, n in r.loops], 'source': r.source_hash, 'stats': dict(solver.STATS)}
        return d
    except BaseException:
        return {'key': '%s[%d]' % (modname, idx), 'name': '%s[%d]' % (modname, idx), 'status': 'unsupported',
                'why': 'engine error: ' + traceback.format_exc()[-1500:], 'secs': 0, 'obls': [], 'inlined': [],
                'contracts': [], 'models': [], 'loops': [], 'source': '', 'stats': {}}


def prove_theory(modname):
    try:
        from engine import solver, terms
        from engine.project import Project
        mod = importlib.import_module('contracts.' + modname)
        if hasattr(mod, 'theory'):
            mod.theory()
        out = []
        for n, r in solver.prove_lemmas(terms.T):
            out.append({'name': n, 'ok': r.ok, 'why': r.why, 'backend': r.backend, 'secs': round(r.secs, 3)})
        # the axioms must not be contradictory as far as the solver can see
        import z3
        bad = solver.prove([], z3.BoolVal(False), [(n, f) for n, f in terms.T.axioms], 3000, False)
        out.append({'name': 'theory: false is not derivable', 'ok': not bad.ok, 'why': bad.why, 'backend': 'z3', 'secs': 0})
        return out
    except BaseException:
        return [{'name': 'theory', 'ok': False, 'why': 'engine error ' + traceback.format_exc()[-800:], 'backend': '-', 'secs': 0}]


def lemmas_of(modname, q):
    q.put(prove_theory(modname))


def run_proofs(modname, tier):
    timeout, secs, hard = (10000, 100, 420) if tier == 'quick' else (40000, 600, 2400)
    mod = importlib.import_module('contracts.' + modname)
    n = len(mod.CONTRACTS)
    ctx = multiprocessing.get_context('fork')
    res = [None] * n
    t0 = time.time()
    jobs = list(range(n))
    running = {}
    theory = None
    tq = ctx.Queue()
    tp = ctx.Process(target=lemmas_of, args=(modname, tq))
    tp.start()
    q = ctx.Queue()

    def target(i):
        q.put((i, prove_one((modname, i, timeout, secs))))
    while jobs or running:
        while jobs and len(running) < 6:
            i = jobs.pop(0)
            p = ctx.Process(target=target, args=(i,))
            p.start()
            running[i] = (p, time.time())
        try:
            i, d = q.get(timeout=0.5)
            res[i] = d
            running.pop(i)[0].join()
        except Exception:
            pass
        for i, (p, t) in list(running.items()):
            dead = not p.is_alive() and q.empty()
            if dead or time.time() - t > secs * 1.5 + 60 or time.time() - t0 > hard:
                if dead:
                    time.sleep(0.2)
                    if not q.empty():
                        continue
                p.kill()
                running.pop(i)
                c = mod.CONTRACTS[i]
                res[i] = {'key': c.key, 'name': c.label(), 'status': 'undecided', 'why': 'time or memory limit', 'secs': round(time.time() - t, 1),
                          'obls': [], 'inlined': [], 'contracts': [], 'models': [], 'loops': [], 'source': '', 'stats': {}}
    try:
        theory = tq.get(timeout=120)
    except Exception:
        theory = [{'name': 'theory', 'ok': False, 'why': 'timeout', 'backend': '-', 'secs': 120}]
    tp.kill()
    return res, theory


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, 'KNOWN_FINDINGS')):
            if line.startswith('finding: property=%s ' % prop):
                key, _, what = line.split('key=', 1)[1].partition(' :: ')
                out.append((key.strip(), what.strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else TIER
    low = prop.lower()
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8')
    env.pop('PYTHONPATH', None)
    fd, hout = tempfile.mkstemp(prefix='vh.', suffix='.json')
    os.close(fd)
    have_h = os.path.exists(os.path.join(HERE, 'harness', low + '.py'))
    hp = None
    if have_h:
        hp = subprocess.Popen([VENV, '-W', 'ignore', os.path.join(HERE, 'harness', 'main.py'), low, '--tier', tier, '--seed', str(SEED),
                               '--out', hout], env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    have_c = os.path.exists(os.path.join(HERE, 'contracts', low + '.py'))
    proofs, theory, engine_err = [], [], ''
    if have_c:
        try:
            proofs, theory = run_proofs(low, tier)
        except BaseException:
            engine_err = traceback.format_exc()[-2000:]
    checks, herr = [], ''
    if hp is not None:
        try:
            _, e = hp.communicate(timeout=(780 if tier == 'quick' else 3400) - (time.time() - t0))
            herr = e.decode(errors='replace')[-2000:]
        except subprocess.TimeoutExpired:
            hp.kill()
            herr = 'harness time limit'
        try:
            checks = json.load(open(hout))
        except Exception:
            checks = []
    os.unlink(hout)
    sys.exit(report(prop, tier, proofs, theory, checks, herr, engine_err, time.time() - t0))


def report(prop, tier, proofs, theory, checks, herr, engine_err, wall):
    low = prop.lower()
    known = known_findings(prop)
    fails, found = [], {}
    for c in checks:
        for f in c['failures']:
            k = next(((key, what) for key, what in known if f['key'] == key), None)
            if k:
                found[k[0]] = k[1]
            else:
                fails.append(f)
    for key, what in known:
        if key in found or any(c.get('key') == key for c in checks):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        else:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    obls = [dict(o, fn=p['name']) for p in proofs for o in p['obls']]
    obls += [dict(o, fn='theory') for o in theory]
    refuted = [o for o in obls if not o['ok'] and not any(w in o['why'] for w in ('timeout', 'skipped', 'engine error'))]
    open_ = [o for o in obls if not o['ok'] and o not in refuted]
    bounded = ['%s: %s' % (p['name'], p['why'] or p['status']) for p in proofs if p['status'] in ('unsupported', 'undecided')]
    # report
    for p in proofs:
        print('  %-11s %3d/%-3d obligations  %6.1fs  %s%s' % (p['status'], sum(o['ok'] for o in p['obls']), len(p['obls']), p['secs'],
                                                           p['name'], ('  -- ' + p['why'].strip().splitlines()[-1][:200]) if p['why'] else ''))
    for o in refuted + open_:
        print('  NOT PROVED  %s :: %s (%s)' % (o['fn'], o['name'], o['why']))
    for c in checks:
        print('  bounded     %s: %d cases in %.1fs%s%s' % (c['check'], c['cases'], c['secs'], ' (time budget reached)' if c['cut'] else '',
                                                           '  BROKEN: ' + c['broken'].strip().splitlines()[-1] if c.get('broken') else ''))
    mod = None
    try:
        mod = importlib.import_module('contracts.' + low)
    except Exception:
        pass
    models = sorted({m for p in proofs for m in p['models']})
    backends = {}
    for o in obls:
        if o['ok']:
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    stats = {}
    for p in proofs:
        for k, v in p.get('stats', {}).items():
            stats[k] = round(stats.get(k, 0) + v, 2)
    trusted = ['engine/ (translation of the Python AST to verification conditions, models of builtins)', 'z3 5.3.2 / cvc5 1.1.2',
               'CPython 3.12 semantics as modelled (int mathematical, no threads, no signals inside a function)']
    trusted += ['model: ' + m for m in models]
    nobl, ndis = len(obls), sum(1 for o in obls if o['ok'])
    cov = {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
           'trusted_base': trusted,
           'functions_under_contract': [{'function': p['name'], 'status': p['status'], 'obligations': len(p['obls']),
                                         'discharged': sum(o['ok'] for o in p['obls']), 'secs': p['secs'], 'why': p['why'][-300:],
                                         'inlined': p['inlined'], 'callee_contracts': p['contracts'], 'ast': p['source'],
                                         'loop_invariants': ['line %s: %s' % (l, '; '.join(n)) for l, n in p['loops']]} for p in proofs],
           'backends': backends, 'solver_stats': stats, 'not_proved': ['%s :: %s (%s)' % (o['fn'], o['name'], o['why']) for o in refuted + open_],
           'bounded_not_proved': bounded + list(getattr(mod, 'BOUNDED', [])),
           'bounded_checks': [{'check': c['check'], 'cases': c['cases'], 'secs': c['secs'], 'what': c['doc'], 'time_budget_reached': c['cut'],
                               'samples': c['samples'], 'broken': c.get('broken')} for c in checks],
           'evaluations': sum(c['cases'] for c in checks)}
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': LEVELS.get(prop, 'proof'),
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2)}
    if LEVELS.get(prop) == 'other':
        cov['explanation'] = 'bounded stand-in only; see bounded_checks'
    if engine_err or herr.strip():
        cov['machinery_errors'] = (engine_err + '\n' + herr)[-3000:]
        print('  machinery:', (engine_err + herr).strip()[-600:])
    rc = 0
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s.json' % prop)
    viol = 0
    if fails:
        viol = len(fails)
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'failing_inputs': fails,
                       'refuted_obligations': refuted, 'replay_cmds': [
                           'PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 %s -W ignore /verif/harness/main.py %s --tier %s --seed %d --only %s:%d'
                           % (VENV, low, tier, SEED, x['check'], x['case']) for x in fails]}, f, indent=1)
        for x in fails[:6]:
            print('  FAILING INPUT %s [%s] case %d: %s\n      %s' % (x['check'], x['key'], x['case'], x['input'][:400], x['what'][-700:]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif refuted:
        viol = len(refuted)
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'refuted_obligations': refuted, 'verifier_output': proofs,
                       'note': 'no failing input found by the bounded harness'}, f, indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        rc = 1
    ev['violations'] = viol
    with open(os.path.join(EVID, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d bounded cases, %.1fs: %s' % (prop, ndis, nobl, cov['evaluations'], wall, 'VIOLATED' if rc else 'holds'))
    return rc


LEVELS = {}

if __name__ == '__main__':
    main()
