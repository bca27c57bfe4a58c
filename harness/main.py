"""python harness/main.py c01 --tier quick --seed 1 --out FILE [--only check[:case]]"""
import sys, os, json, argparse, importlib, multiprocessing, time, tempfile, shutil, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from harness import base


def worker(modname, fname, tier, seed, case, q):
    try:
        signal.alarm(800 if tier == 'quick' else 3000)
        mod = importlib.import_module('harness.' + modname)
        r = base.run_check(getattr(mod, fname), tier, seed, case)
    except BaseException:
        r = {'check': fname, 'cases': 0, 'failures': [], 'samples': [], 'cut': True, 'secs': 0, 'doc': '',
             'broken': traceback.format_exc()[-3000:]}
    q.put(r)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--only')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='vhs.')
    os.environ['VH_SCRATCH'] = scratch
    os.environ['HOME'] = scratch
    tempfile.tempdir = scratch
    try:
        try:
            base.ensure_slash()
            mod = importlib.import_module('harness.' + a.prop)
        except Exception:
            out = [{'check': 'import', 'cases': 0, 'failures': [], 'samples': [], 'cut': True, 'secs': 0, 'doc': '',
                    'broken': traceback.format_exc()[-3000:]}]
            dump(a, out)
            return
        names = [c.__name__ for c in mod.CHECKS]
        case = None
        if a.only:
            nm, _, c = a.only.partition(':')
            names, case = [nm], int(c) if c else None
        q = multiprocessing.get_context('fork').Queue()
        ps, todo, res = {}, list(names), []
        ctx = multiprocessing.get_context('fork')
        while todo or ps:
            while todo and len(ps) < int(os.environ.get('VH_JOBS', '8')):
                nm = todo.pop(0)
                p = ctx.Process(target=worker, args=(a.prop, nm, a.tier, a.seed, case, q))
                p.start()
                ps[nm] = p
            try:
                r = q.get(timeout=1)
                res.append(r)
                ps.pop(r['check']).join()
                if os.environ.get('VH_FAST') and r['failures']:
                    for p in ps.values():
                        p.kill()
                    ps, todo = {}, []
            except Exception:
                for nm, p in list(ps.items()):
                    if not p.is_alive() and q.empty():
                        time.sleep(0.3)
                        if q.empty():
                            ps.pop(nm)
                            hung = p.exitcode == -signal.SIGALRM
                            res.append({'check': nm, 'cases': 0, 'samples': [], 'cut': True, 'secs': 0, 'doc': '',
                                        'failures': [{'check': nm, 'key': 'does not terminate', 'case': 0, 'input': '',
                                                      'what': 'the check was still inside one case at its time limit',
                                                      'extra': {}}] if hung else [],
                                        'broken': None if hung else 'check process died: %r' % p.exitcode})
        order = {n: i for i, n in enumerate(names)}
        res.sort(key=lambda r: order.get(r['check'], 99))
        dump(a, res)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def dump(a, res):
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f)
    if not a.out or os.environ.get('VH_SHOW'):
        for r in res:
            print(r['check'], 'cases', r['cases'], 'secs', r['secs'], 'cut' if r['cut'] else '',
                  ('BROKEN ' + r['broken']) if r.get('broken') else '')
            for f in r['failures']:
                print('   FAIL', f['key'], 'case', f['case'], 'input', f['input'][:700])
                print('       ', f['what'][:1500])
                print('       ', f['extra'])


if __name__ == '__main__':
    main()
