"""C01 cleanups: random programs against a reference model; whole runs with cleanups everywhere."""
from . import base
from .base import ensure_slash, slash_run, ChildDied


class Model(object):
    """reference: a stack of (name, [cleanup ids]) ; pending ; expected call log"""

    def __init__(self):
        self.scopes, self.pending, self.log = [], [], []
        self.default, self.forbid = None, False

    def add(self, c, scope):
        if scope is None:
            scope = self.default
        if scope is None:
            if self.forbid:
                return 'CannotAddCleanup'
            (self.scopes[-1][1] if self.scopes else self.pending).append(c)
            return None
        for nm, l in reversed(self.scopes):
            if nm == scope:
                l.append(c)
                return None
        return 'IncorrectScope'

    def push(self, name):
        self.scopes.append((name, self.pending))
        self.pending = []

    def pop(self, failed, interrupted, run):
        nm, l = self.scopes[-1]
        while l:
            c = l.pop()
            if interrupted and not c['critical']:
                continue
            if (failed or interrupted) and c['success_only']:
                continue
            self.log.append(('call', c['id'], c['args'], c['kwargs']))
            run(c)
        self.scopes.pop()


def gen_cleanup(rng, ids, depth=0):
    c = {'id': next(ids), 'args': tuple(rng.choice([1, 'a', None]) for _ in range(rng.choice([0, 0, 1, 2]))),
         'kwargs': {k: rng.randint(0, 3) for k in rng.sample(['x', 'y', 'scope', 'critical'], rng.choice([0, 0, 1, 2]))},
         'critical': False, 'success_only': False, 'scope': None, 'raises': None, 'adds': []}
    k = rng.random()
    if k < 0.25:
        c['critical'] = True
    elif k < 0.5:
        c['success_only'] = True
    if rng.random() < 0.4:
        c['scope'] = rng.choice(['test', 'module', 'session', 'other', 'test'])
    if rng.random() < 0.25:
        c['raises'] = rng.choice(['ValueError', 'AssertionError', 'TestFailed', 'SkipTest'])
    if depth < 2 and rng.random() < 0.35:
        c['adds'] = [gen_cleanup(rng, ids, depth + 1) for _ in range(rng.choice([1, 2]))]
    return c


def gen_program(rng):
    import itertools
    ids = itertools.count(1)
    ops, depth = [], 0
    names = ['session', 'module', 'test', 'other', 'test']
    for _ in range(rng.randint(3, 16)):
        k = rng.random()
        if k < 0.25 and depth < 5:
            ops.append(('push', rng.choice(names)))
            depth += 1
        elif k < 0.42 and depth:
            ops.append(('pop',))
            depth -= 1
        elif k < 0.46 and depth:
            ops.append(('pop_wrong',))
        elif k < 0.52:
            ops.append(('state', rng.choice(['ok', 'error', 'failure', 'skip', 'interrupted', 'error+interrupted'])))
        elif k < 0.58:
            ops.append(('with_default', rng.choice(['test', 'module', 'session', None]), [gen_cleanup(rng, ids) for _ in range(rng.randint(1, 2))]))
        elif k < 0.64:
            ops.append(('with_forbid', [gen_cleanup(rng, ids) for _ in range(rng.randint(1, 2))]))
        else:
            ops.append(('add', gen_cleanup(rng, ids)))
    ops.extend([('pop',)] * depth)
    return ops


def execute(ops):
    """-> list of problems; runs the real manager and the model side by side"""
    slash = ensure_slash()
    from slash.core.cleanup_manager import CleanupManager
    from slash.core.result import Result
    from slash import exceptions
    problems = []
    with slash.Session() as s:
        cm, m = CleanupManager(), Model()
        log, opened = [], []

        def fresh_result(kind):
            r = s.results.create_result(FakeTest())
            r.mark_started()
            if 'error' in kind:
                r.add_error('e')
            if kind == 'failure':
                r.add_failure('f')
            if kind == 'skip':
                r.add_skip('s')
            if 'interrupted' in kind:
                r.mark_interrupted()
            slash.context.result = r
            return r

        class FakeTest(object):
            class __slash__(object):
                id = None
            n = 0

            def __init__(self):
                FakeTest.n += 1
                self.__slash__ = type('MD', (), {'id': 'fake%d' % FakeTest.n})()
        fresh_result('ok')

        def make(c):
            def fn(*args, **kwargs):
                log.append(('call', c['id'], args, kwargs))
                for a in c['adds']:
                    do_add(a, False)
                if c['raises'] == 'ValueError':
                    raise ValueError('cleanup %d' % c['id'])
                if c['raises'] == 'AssertionError':
                    raise AssertionError('cleanup %d' % c['id'])
                if c['raises'] == 'TestFailed':
                    raise exceptions.TestFailed('cleanup %d' % c['id'])
                if c['raises'] == 'SkipTest':
                    raise exceptions.SkipTest('cleanup %d' % c['id'])
            return fn
        seen = {}

        def do_add(c, with_model=True):
            f = make(c)
            kw = {'args': c['args'], 'kwargs': dict(c['kwargs'])}
            if c['critical']:
                kw['critical'] = True
            if c['success_only']:
                kw['success_only'] = True
            if c['scope'] is not None:
                kw['scope'] = c['scope']
            try:
                r = cm.add_cleanup(f, **kw)
                out = None
                if r is not f:
                    problems.append('add_cleanup returned something else than the function')
            except Exception as e:
                out = 'refused'
            if with_model:
                want = m.add(c, c['scope'])
                if (want is None) != (out is None):
                    problems.append('add of %r: raised %r, expected %r' % (c['id'], out, want))
            else:
                inner.append((c['id'], out))
        inner = []

        def model_run(c):
            for a in c['adds']:
                minner.append((a['id'], m.add(a, a['scope']) and 'refused'))
        minner = []
        state = 'ok'
        for op in ops:
            if op[0] == 'add':
                do_add(op[1])
            elif op[0] == 'state':
                state = op[1]
                fresh_result(state)
            elif op[0] == 'push':
                cm.push_scope(op[1])
                m.push(op[1])
                opened.append(op[1])
            elif op[0] == 'pop_wrong':
                before = len(log)
                try:
                    cm.pop_scope(opened[-1] + '_wrong')
                    problems.append('popping a scope that is not the innermost was accepted')
                except Exception:
                    pass
                if len(log) != before:
                    problems.append('a refused pop called cleanups')
            elif op[0] == 'pop':
                fresh_result(state)
                nm = opened.pop()
                try:
                    cm.pop_scope(nm)
                except exceptions.SkipTest:
                    pass
                except Exception as e:
                    problems.append('pop_scope raised %r' % (e,))
                m.pop('error' in state or state == 'failure', 'interrupted' in state, model_run)
                if state != 'ok':
                    fresh_result(state)
            elif op[0] == 'with_default':
                with cm.default_scope_override(op[1]):
                    prev, m.default = m.default, op[1]
                    for c in op[2]:
                        do_add(c)
                    m.default = prev
            elif op[0] == 'with_forbid':
                with cm.forbid_implicit_scoping_context():
                    m.forbid = True
                    for c in op[1]:
                        do_add(c)
                    m.forbid = False
            if log != m.log:
                problems.append('after %r: calls %r, expected %r' % (op, log, m.log))
            if inner != minner:
                problems.append('after %r: nested registrations %r, expected %r' % (op, inner, minner))
            if problems:
                return problems
    return problems


def random_programs(h):
    """random push/pop/add programs (nested registration, raising cleanups, default scopes, interrupted/failed results)"""
    for _ in range(h.scale(1500, 20000)):
        ops = gen_program(h.rng)
        if not h.go(ops):
            continue
        p = execute(ops)
        h.check(not p, 'cleanup calls differ from the specification', p)


def exhaustive_small(h):
    """every program of one scope with up to 3 cleanups over all (critical/success-only/raises/nested) kinds and all results"""
    import itertools
    kinds = ['plain', 'critical', 'success_only', 'raises', 'adds']

    def mk(k, i):
        c = {'id': i, 'args': (i,), 'kwargs': {'x': i}, 'critical': k == 'critical', 'success_only': k == 'success_only', 'scope': None,
             'raises': 'ValueError' if k == 'raises' else None, 'adds': []}
        if k == 'adds':
            c['adds'] = [dict(mk('plain', 100 + i)), dict(mk('critical', 200 + i)), dict(mk('raises', 300 + i))]
        return c
    for n in (0, 1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            for state in ['ok', 'error', 'failure', 'skip', 'interrupted']:
                ops = [('add', mk(combo[0], 1))] if n else []
                ops += [('push', 'test'), ('state', state)]
                ops += [('add', mk(k, i + 2)) for i, k in enumerate(combo[1:])]
                ops.append(('pop',))
                if not h.go(ops):
                    continue
                p = execute(ops)
                h.check(not p, 'cleanup calls differ from the specification', p)


def wrappers(h):
    """slash.add_cleanup / add_critical_cleanup / add_success_only_cleanup register with the matching flag; without session refused"""
    slash = ensure_slash()
    for kind in ('plain', 'critical', 'success_only'):
        for state in ('ok', 'error', 'failure', 'interrupted', 'skip'):
            if not h.go((kind, state)):
                continue
            fn = {'plain': slash.add_cleanup, 'critical': slash.add_critical_cleanup, 'success_only': slash.add_success_only_cleanup}[kind]
            calls = []
            with slash.Session() as s:
                s.cleanups.push_scope('x')
                fn(lambda *a, **k: calls.append((a, k, slash.is_in_cleanup() if hasattr(slash, 'is_in_cleanup') else None)),
                   args=(1, 2), kwargs={'z': 3})
                r = s.results.global_result
                {'ok': lambda: None, 'error': lambda: r.add_error('x'), 'failure': lambda: r.add_failure('x'), 'skip': lambda: r.add_skip('x'),
                 'interrupted': r.mark_interrupted}[state]()
                s.cleanups.pop_scope('x')
            bad = state in ('error', 'failure')
            want = {'plain': state != 'interrupted', 'critical': True, 'success_only': not bad and state != 'interrupted'}[kind]
            h.eq([c[:2] for c in calls], [((1, 2), {'z': 3})] if want else [], 'wrapper')
    if h.go('no session'):
        try:
            slash.add_cleanup(lambda: None)
            h.fail('registered without a session', 'no exception')
        except RuntimeError:
            pass
    if h.go('bad arguments'):
        with slash.Session() as s:
            s.cleanups.push_scope('x')
            calls = []
            for kw in ({'success_only': True, 'critical': True}, {'bogus': 1}):
                try:
                    slash.add_cleanup(lambda: calls.append(1), **kw)
                    h.fail('bad registration accepted', kw)
                except Exception:
                    pass
            s.cleanups.pop_scope('x')
            h.eq(calls, [], 'a refused registration was called')


def gen_suite(rng):
    """random test files; returns (files, model of expected calls)"""
    nfiles = rng.choice([1, 2, 2, 3])
    files = []
    cid = [0]

    def cl(depth=0):
        cid[0] += 1
        c = {'id': cid[0], 'kind': rng.choice(['plain', 'plain', 'critical', 'success_only']), 'scope': rng.choice([None, None, 'test', 'module', 'session']),
             'raises': rng.random() < 0.2, 'adds': []}
        if depth < 1 and rng.random() < 0.3:
            c['adds'] = [cl(depth + 1)]
        return c
    for i in range(nfiles):
        tests = []
        for j in range(rng.choice([1, 2, 3])):
            tests.append({'name': 'test_%d_%d' % (i, j), 'cleanups': [cl() for _ in range(rng.choice([0, 1, 2, 3]))],
                          'end': rng.choice(['ok', 'ok', 'error', 'failure', 'skip'])})
        files.append(tests)
    return files


def suite_source(tests):
    def lit(c):
        return repr(c)
    src = 'import slash, vrec\n' \
          'def mk(c):\n    def f(*a, **k):\n        vrec.ev("call", c["id"], a, k)\n        for x in c["adds"]:\n            reg(x)\n' \
          '        if c["raises"]:\n            raise ValueError("cleanup")\n    return f\n' \
          'def reg(c):\n    fn = {"plain": slash.add_cleanup, "critical": slash.add_critical_cleanup, "success_only": slash.add_success_only_cleanup}[c["kind"]]\n' \
          '    kw = {"args": (c["id"],), "kwargs": {"k": c["id"]}}\n    if c["scope"]:\n        kw["scope"] = c["scope"]\n' \
          '    try:\n        fn(mk(c), **kw)\n    except Exception as e:\n        vrec.ev("refused", c["id"], type(e).__name__)\n'
    for t in tests:
        src += 'def %s():\n    vrec.ev("test", %r)\n' % (t['name'], t['name'])
        for c in t['cleanups']:
            src += '    reg(%s)\n' % lit(c)
        src += {'ok': '', 'error': '    raise RuntimeError("boom")\n', 'failure': '    slash.add_failure("x")\n', 'skip': '    slash.skip_test("no")\n'}[t['end']]
    return src


def suite_expected(files):
    log = []
    m = Model()
    m.log = log
    m.push('session-global')
    bad_session = [False]
    # results: test scope uses the test's result; module/session scope: the result current when popped
    allt = [(i, t) for i, ts in enumerate(files) for t in ts]
    last = [None]
    flags = {}

    def pop(failed, intr=False):
        raised = [False]

        def run(c):
            log[-1] = ('call', c['id'], (c['id'],), {'k': c['id']})
            if c['raises']:
                flags['raised'] = flags.get('raised', set()) | {c['owner']}
            for a in c['adds']:
                a = conv(a, c.get('cur'))
                r = m.add(a, a['scope'])
                if r:
                    log.append(('refused', a['id'], r))
        m.pop(failed, intr, run)

    def conv(c, owner):
        return {'id': c['id'], 'args': (c['id'],), 'kwargs': {'k': c['id']}, 'critical': c['kind'] == 'critical', 'success_only': c['kind'] == 'success_only',
                'scope': c['scope'], 'raises': c['raises'], 'adds': c['adds'], 'owner': owner}
    prev_file = None
    for n, (i, t) in enumerate(allt):
        if prev_file is None:
            m.push('session')
        if prev_file != i:
            if prev_file is not None:
                pop(False)       # popped while the next test is current
            m.push('module')
        prev_file = i
        m.push('test')
        log.append(('test', t['name']))
        for c in t['cleanups']:
            cc = conv(c, t['name'])
            r = m.add(cc, cc['scope'])
            if r:
                log.append(('refused', c['id'], r))
        pop(t['end'] in ('error', 'failure'))
    return log, m


def whole_runs(h):
    """whole runs: tests registering cleanups in every scope; per-test order, exactly-once, by scope"""
    for _ in range(h.scale(60, 800)):
        files = gen_suite(h.rng)
        if not h.go(files):
            continue
        srcs = {'test_f%d.py' % i: suite_source(ts) for i, ts in enumerate(files)}
        o = slash_run(['test_f%d.py' % i for i in range(len(files))], srcs)
        ev = [e for e in o.events if e[0] in ('call', 'test', 'refused')]
        # every registered non-refused cleanup is called at most once; unconditional ones exactly once
        ids, cmap, owner = [], {}, {}

        def walk(c, t):
            cmap[c['id']] = c
            owner[c['id']] = t
            for a in c['adds']:
                walk(a, t)
        for ts in files:
            for t in ts:
                for c in t['cleanups']:
                    walk(c, t)
        called = [e[1] for e in ev if e[0] == 'call']
        h.check(len(set(called)) == len(called), 'a cleanup was called twice', called)
        for e in ev:
            if e[0] == 'call':
                h.eq((e[2], e[3]), ((e[1],), {'k': e[1]}), 'arguments of a cleanup')
        refused = {e[1] for e in ev if e[0] == 'refused'}
        for c in cmap.values():
            parents = [p for p in cmap.values() if any(a['id'] == c['id'] for a in p['adds'])]
            if parents and parents[0]['id'] not in called:
                h.check(c['id'] not in called, 'a cleanup nobody registered was called', c)
                continue
            if c['id'] in refused:
                h.check(c['id'] not in called, 'a refused cleanup was called', c)
            elif c['kind'] != 'success_only':
                h.check(c['id'] in called, 'a cleanup was never called', c)
            elif not parents and c['scope'] in (None, 'test'):
                t = owner[c['id']]
                ok = t['end'] in ('ok', 'skip')
                h.eq(c['id'] in called, ok, 'success-only cleanup of a %s test called' % t['end'])
        # placement: test-scope cleanups before the next test; module scope before next file's body; reverse order
        pos = {}
        for k, e in enumerate(ev):
            pos[(e[0], e[1])] = k
        order = [t['name'] for ts in files for t in ts]
        for fi, ts in enumerate(files):
            for t in ts:
                gi = order.index(t['name'])
                nxt = pos[('test', order[gi + 1])] if gi + 1 < len(order) else len(ev)
                nf = pos[('test', files[fi + 1][0]['name'])] if fi + 1 < len(files) else len(ev)
                top = [c for c in t['cleanups'] if c['id'] in called and c['scope'] in (None, 'test')]
                ps = [pos[('call', c['id'])] for c in top]
                h.check(ps == sorted(ps, reverse=True), 'test cleanups not in reverse order', [c['id'] for c in top])
                for p in ps:
                    h.check(p < nxt, 'test cleanup ran after the next test started', t['name'])
                for c in t['cleanups']:
                    if c['scope'] == 'module' and c['id'] in called:
                        h.check(pos[('call', c['id'])] < nf, 'module cleanup ran after the next module started', c)
                        last = pos[('test', ts[-1]['name'])]
                        h.check(pos[('call', c['id'])] > last, 'module cleanup ran before the module ended', c)
                    if c['scope'] == 'session' and c['id'] in called:
                        h.check(pos[('call', c['id'])] > pos[('test', order[-1])], 'session cleanup ran before the last test', c)
            for sc in ('module',):
                cs = [c['id'] for t in ts for c in t['cleanups'] if c['scope'] == sc and c['id'] in called]
                ps = [pos[('call', c)] for c in cs]
                h.check(ps == sorted(ps, reverse=True), 'module cleanups not in reverse order', cs)
        cs = [c['id'] for ts in files for t in ts for c in t['cleanups'] if c['scope'] == 'session' and c['id'] in called]
        ps = [pos[('call', c)] for c in cs]
        h.check(ps == sorted(ps, reverse=True), 'session cleanups not in reverse order', cs)


def interruption(h):
    """an interrupted test: only critical cleanups are called, in every scope that is closed because of it"""
    for scope in ('test', 'module', 'session'):
        for exc in ('KeyboardInterrupt', 'slash.exceptions.TerminatedException'):
            if not h.go((scope, exc)):
                continue
            src = 'import slash, slash.exceptions, vrec\ndef test_a():\n    for i in range(3):\n' \
                  '        slash.add_critical_cleanup(vrec.ev, args=("crit", i), scope=%r)\n' \
                  '        slash.add_cleanup(vrec.ev, args=("plain", i), scope=%r)\n' \
                  '        slash.add_success_only_cleanup(vrec.ev, args=("succ", i), scope=%r)\n    raise %s()\n' \
                  'def test_b():\n    vrec.ev("ran b")\n' % (scope, scope, scope, exc)
            o = slash_run(['test_a.py'], {'test_a.py': src})
            got = [e for e in o.events if e[0] in ('crit', 'plain', 'succ', 'ran b')]
            if scope == 'test':
                h.eq(got, [('crit', 2), ('crit', 1), ('crit', 0)], 'cleanups called after an interruption')
            else:
                h.eq([e for e in got if e[0] == 'crit'], [('crit', 2), ('crit', 1), ('crit', 0)], 'critical cleanups called after an interruption')


def before_any_scope(h):
    """cleanups registered before any scope belong to the next scope; in hooks, in fixtures, in the session-global scope"""
    if h.go('hooks'):
        src = 'import slash, vrec\n' \
              '@slash.fixture(scope="module")\ndef fm(this):\n    this.add_cleanup(lambda: vrec.ev("fm"))\n    vrec.ev("fm start")\n    return 1\n' \
              '@slash.fixture\ndef ft(this, fm):\n    this.add_cleanup(lambda: vrec.ev("ft"))\n    slash.add_cleanup(vrec.ev, args=("ft plain",))\n    return 2\n' \
              'def test_a(ft):\n    slash.add_cleanup(vrec.ev, args=("a",))\n    vrec.ev("body a")\n' \
              'def test_b(ft, fm):\n    vrec.ev("body b")\n'

        def before():
            import slash
            import vrec
            slash.hooks.session_start.register(lambda: slash.add_cleanup(vrec.ev, args=("session hook",)), token='vh')
            slash.hooks.test_start.register(lambda: slash.add_cleanup(vrec.ev, args=("test hook",)), token='vh')
        o = slash_run(['test_a.py'], {'test_a.py': src}, before=before)
        got = [e[0] for e in o.events]
        h.eq(sorted(got), sorted(['fm start', 'body a', 'a', 'ft', 'ft plain', 'test hook', 'body b', 'ft', 'ft plain', 'test hook', 'fm', 'session hook']), 'calls')
        h.check(got.index('fm') > got.index('body b'), 'module fixture cleanup too early', got)
        h.check(got[-1] == 'session hook', 'session cleanup not last', got)
        h.check(got.index('a') < got.index('body b') and got.index('test hook') < got.index('body b') and got.index('body a') < got.index('a'), 'order', got)


def raising_cleanup(h):
    """a cleanup that raises anything (errors, skips, interruptions, exits) does not lose the remaining ones"""
    for scope in ('test', 'module', 'session'):
        for exc in ('slash.skip_test("x")', 'raise ValueError()', 'assert False', 'slash.exceptions.TestFailed.throw("x")',
                    'raise KeyboardInterrupt()', 'raise slash.exceptions.TerminatedException()', 'raise SystemExit(3)',
                    'raise slash.exception_handling.mark_exception_fatal(ValueError())', 'raise slash.exception_handling.noswallow(ValueError())'):
            if not h.go((scope, exc)):
                continue
            src = 'import slash, slash.exceptions, vrec\ndef bad():\n    %s\ndef test_a():\n    kw = {"scope": %r}\n' \
                  '    slash.add_cleanup(vrec.ev, args=(1,), **kw)\n    slash.add_critical_cleanup(vrec.ev, args=(2,), **kw)\n' \
                  '    slash.add_success_only_cleanup(vrec.ev, args=(3,), **kw)\n    slash.add_cleanup(bad, **kw)\n' \
                  '    slash.add_cleanup(vrec.ev, args=(4,), **kw)\n' % (exc, scope)
            o = slash_run(['test_a.py'], {'test_a.py': src})
            intr = 'Interrupt' in exc or 'Terminated' in exc
            h.eq([e[0] for e in o.events], [4, 2] if intr else [4, 3, 2, 1], 'cleanups after a raising cleanup')


CHECKS = [random_programs, exhaustive_small, wrappers, whole_runs, interruption, before_any_scope, raising_cleanup]
