"""Discharging obligations: z3 (E-matching, no model-based instantiation), cvc5 as second back end."""
import subprocess, tempfile, os, time, select, signal
import z3
from . import terms

STATS = {'z3_s': 0.0, 'cvc5_s': 0.0, 'queries': 0}
_axsyms = {}


def symbols(e, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 0:
                acc.add(x.decl().name())
            stack.extend(x.children())
    return acc


def _head(e):
    """function symbols an axiom is about: those in its patterns (or whole formula if ground)"""
    key = e.get_id()
    if key not in _axsyms:
        body = e
        if z3.is_quantifier(e):
            acc = []
            for n in range(e.num_patterns()):
                a = set()
                for c in e.pattern(n).children():
                    symbols(c, a)
                acc.append(a)
            heads = acc
        else:
            heads = [symbols(e)]
        _axsyms[key] = (heads, symbols(e), e)
    return _axsyms[key][:2]


_symcache, _relcache = {}, {}


def symbols_of(f):
    k = f.get_id()
    if k not in _symcache:
        _symcache[k] = (frozenset(symbols(f)), f)      # keeps the term alive: its id stays valid
    return _symcache[k][0]


def relevant(formulas, axioms):
    acc = set()
    for f in formulas:
        acc |= symbols_of(f)
    key = (frozenset(n for n in acc if '!' not in n), tuple(a[1].get_id() for a in axioms))
    if key not in _relcache:
        _relcache[key] = (_relevant(acc, axioms), list(axioms))
    return _relcache[key][0]


def _relevant(acc, axioms):
    todo = list(axioms)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for ax in todo:
            heads, syms = _head(ax[1])
            hit = any(h and h <= acc for h in heads) if z3.is_quantifier(ax[1]) else bool(heads[0] & acc) or not heads[0]
            if hit:
                out.append(ax)
                new = syms - acc
                if new:
                    acc |= new
                changed = True
            else:
                rest.append(ax)
        todo = rest
    return out


class Res(object):
    def __init__(self, ok, why, backend, secs, model=None):
        self.ok, self.why, self.backend, self.secs, self.model = ok, why, backend, secs, model


def _z3(ax, hyps, neg, timeout, seed=0, split=0):
    s = z3.Solver()
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('smt.solve_eqs', False)           # these would drop ground terms the triggers need
    s.set('smt.elim_unconstrained', False)
    s.set('timeout', int(timeout))
    if split:
        s.set('smt.case_split', split)
    if seed:
        s.set('random_seed', seed)
    for _, f in ax:
        s.add(f)
    for h in hyps:
        s.add(h)
    s.add(neg)
    code, why, model = _forked(s, timeout / 1000.0 + 1.5)
    r = {'unsat': z3.unsat, 'sat': z3.sat}.get(code, z3.unknown)
    s.model_text = model
    return s, r, why, any(w in why for w in ('timeout', 'canceled', 'resource'))


def _forked(s, limit):
    """check() in a forked process: z3 sometimes ignores its own time limit"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            r = s.check()
            why = 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else s.reason_unknown()
            model = ''
            if r != z3.unsat:
                try:
                    model = str(s.model())[:3000]
                except Exception:
                    pass
            data = ('%s\n%s\n%s' % (r, why.replace('\n', ' '), model)).encode('utf8', 'replace')
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    data, end = b'', time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                data = b'unknown\ntimeout (killed)\n'
                break
            chunk = os.read(rd, 65536)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    code, why, model = (data.decode('utf8', 'replace').split('\n', 2) + ['', '', ''])[:3]
    return code or 'unknown', why or 'timeout (solver process died)', model


def prove(hyps, goal, axioms, timeout=10000, use_cvc5=True, quick=False):
    """portfolio: z3 on the relevant axioms; on timeout z3 without the arithmetic of list lengths (fewer facts: still
    sound), other seeds, then cvc5"""
    t0 = time.time()
    STATS['queries'] += 1
    neg = z3.Not(goal)
    ax = relevant(list(hyps) + [neg], axioms)
    s, r, why, timed_out = _z3(ax, hyps, neg, min(timeout, 1500 if quick else 2500))
    model = None
    if r == z3.unsat:
        STATS['z3_s'] += time.time() - t0
        return Res(True, 'unsat', 'z3', time.time() - t0)
    lean = [a for a in ax if not (a[0].startswith('len.') or a[0].startswith('lemma len.') or a[0].startswith('nth')
                                  or a[0] == 'lemma prefix.len')]
    cfgs = (([], 700, 0, 0), (ax, 2000, 0, 1), (lean, 2000, 1, 0), (lean, 2000, 2, 1), (ax, 2000, 7, 0))
    if quick:
        cfgs = ((ax, 1000, 0, 1), (lean, 1000, 1, 0))[:1 if timed_out else 2]
    elif timed_out:
        cfgs += ((ax, timeout, 7, 0), (ax, timeout, 8, 1))
    if r != z3.sat:
        # an obligation counts as refuted only when no configuration proves it and none runs out of time
        for axs, tmo, seed, split in cfgs:
            s2, r2, _, _to = _z3(axs, hyps, neg, min(tmo, timeout), seed, split)
            if r2 == z3.unsat:
                STATS['z3_s'] += time.time() - t0
                return Res(True, 'unsat', 'z3', time.time() - t0)
            timed_out = timed_out or _to
    STATS['z3_s'] += time.time() - t0
    if r == z3.sat or not timed_out:
        model = s.model_text or None
    if use_cvc5 and r != z3.sat:
        t1 = time.time()
        c = _cvc5(s, max(2, timeout // 2000) if not timed_out else max(5, timeout // 1000))
        STATS['cvc5_s'] += time.time() - t1
        if c:
            return Res(True, 'unsat', 'cvc5', time.time() - t0)
    return Res(False, 'timeout' if timed_out else why, 'z3', time.time() - t0, model)


def _cvc5(solver, secs):
    try:
        txt = '(set-logic ALL)\n' + '\n'.join(l for l in solver.to_smt2().splitlines() if not l.startswith('(set-info'))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (secs * 1000), f.name], capture_output=True, text=True,
                               timeout=secs + 5)
            return p.stdout.strip().startswith('unsat')
        finally:
            os.unlink(f.name)
    except Exception:
        return False


_feas = {}


def feasible(hyps, axioms, timeout=60):
    """False only when hyps are definitely unsatisfiable"""
    key = tuple(h.get_id() for h in hyps)
    if key in _feas:
        return _feas[key][0]
    ax = relevant(list(hyps), axioms)
    r = _feasible(hyps, [], 100)
    if r and any(z3.is_quantifier(f) for _, f in ax):
        r = _feasible(hyps, [f for _, f in ax], timeout)
    _feas[key] = (r, list(hyps))        # keeps the terms alive: ids stay valid
    return r


def _feasible(hyps, ax, timeout):
    s = z3.Solver()
    s.set('auto_config', False)
    s.set('mbqi', False)
    s.set('timeout', timeout)
    for f in ax:
        s.add(f)
    for h in hyps:
        if ax or not z3.is_quantifier(h):
            s.add(h)
    return s.check() != z3.unsat


def prove_lemmas(theory, timeout=10000):
    """structural induction obligations for every lemma axiom; each only uses axioms stated before it"""
    out = []
    for name, cases, upto in theory.lemmas:
        for case, goal in cases:
            r = prove([], goal, theory.axioms[:upto], timeout)
            out.append(('theory lemma %s (%s)' % (name, case), r))
    return out


if __name__ == '__main__':
    for n, r in prove_lemmas(terms.T):
        print(n, r.ok, r.why, r.backend, '%.2f' % r.secs)
