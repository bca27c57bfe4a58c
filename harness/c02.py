"""C02: session, module and test scopes open and close in lock-step."""
import itertools
from .base import forked, ensure_slash, slash_run


class Boom(Exception):
    pass


class Side(object):
    def __init__(self, name, log, world):
        self.name, self.log, self.world, self.open = name, log, world, []

    def push_scope(self, scope):
        self.log.append((self.name, 'push', scope))
        self.open.append(scope)

    def pop_scope(self, scope):
        self.log.append((self.name, 'pop', scope))
        if not self.open or self.open[-1] != scope:
            self.log.append((self.name, 'BAD', scope, list(self.open)))
        else:
            self.open.pop()
        e = self.world.pop((self.name, scope), None)
        if e is not None:
            raise e


def run_history(ops):
    """ops: ('begin', module) / ('end',) / ('end other',) / ('flush',) / ('arm', side, scope, exc) -> problems"""
    from slash.core.scope_manager import ScopeManager
    import slash.exceptions as E
    log, world = [], {}

    class S(object):
        fixture_store = Side('f', log, world)
        cleanups = Side('c', log, world)
    sm = ScopeManager(S)

    class T(object):
        def __init__(self, m):
            self.__slash__ = type('MD', (), {'module_name': m})()
    stack, module, last = [], None, None
    for op in ops:
        del log[:]
        want, raises = [], False

        def push(s):
            stack.append(s)
            want.append(('push', s))

        def pop(s):
            stack.pop()
            want.append(('pop', s))
            return any((n, s) in world for n in 'fc')
        if op[0] == 'arm':
            world[(op[1], op[2])] = {'Boom': Boom, 'Skip': E.SkipTest, 'Fail': E.TestFailed}[op[3]]()
            continue
        armed = dict(world)
        try:
            if op[0] == 'begin':
                t = T(op[1])
                err = None
                if not op[1]:
                    raises = True
                elif 'test' not in stack:
                    if not stack:
                        push('session')
                    if stack[-1] == 'module' and module != op[1]:
                        raises = pop('module')
                    if not raises:
                        if stack[-1] != 'module':
                            push('module')
                        push('test')
                        module, last = op[1], t
                        cur = t
                else:
                    continue
                sm.begin_test(t)
            elif op[0] == 'end':
                if 'test' not in stack:
                    continue
                raises = pop('test')
                sm.end_test(last)
            elif op[0] == 'end other':
                raises = True
                sm.end_test(T('other'))
            elif op[0] == 'flush':
                for s in list(stack[::-1]):
                    raises = pop(s) or raises
                sm.flush_remaining_scopes()
                module = None
            got = False
        except (Boom, E.SkipTest, E.TestFailed, E.SlashInternalError) as e:
            got = True
            if op[0] == 'flush':
                module = None
        if got != raises:
            return '%r: raised %r, expected %r' % (op, got, raises)
        for n in 'fc':
            mine = [x[1:] for x in log if x[0] == n]
            if mine != want:
                return '%r: side %s saw %r, expected %r' % (op, n, mine, want)
        if sm.get_current_stack() != stack or bool(sm.has_active_scopes()) != bool(stack) or sm.current_scope != (stack[-1] if stack else None):
            return '%r: open scopes %r, expected %r' % (op, sm.get_current_stack(), stack)
        if S.fixture_store.open != stack or S.cleanups.open != stack:
            return '%r: sides have %r and %r open, expected %r' % (op, S.fixture_store.open, S.cleanups.open, stack)
        sm.get_current_stack().append('junk')
    return None


def histories(h):
    """random histories of tests from any modules; closing the cleanups or fixtures of any scope raises at any point"""
    ensure_slash()
    r = h.rng
    for _ in range(h.scale(3000, 40000)):
        ops = []
        for _ in range(r.randrange(1, 12)):
            while r.random() < .3:
                ops.append(('arm', r.choice('fc'), r.choice(['test', 'module', 'module', 'session']), r.choice(['Boom', 'Boom', 'Skip', 'Fail'])))
            k = r.random()
            if k < .08:
                ops.append(('end other',))
            elif k < .12:
                ops.append(('begin', None))
            elif k < .17:
                ops.append(('flush',))
            else:
                ops.append(('begin', r.choice(['m1', 'm1', 'm2', 'm3'])))
                if r.random() < .15:
                    ops.append(('end other',))
                if r.random() < .1:
                    ops.append(('flush',))
                else:
                    ops.append(('end',))
        ops.append(('flush',))
        if h.go(ops):
            p = run_history(ops)
            h.check(p is None, 'scopes', p)


def small(h):
    """all sequences of up to 4 tests of two modules with one fault at one closing"""
    ensure_slash()
    for n in range(0, 5):
        for mods in itertools.product(['m1', 'm2'], repeat=n):
            for at in [None] + list(range(n)):
                for side, scope in [('f', 'test'), ('c', 'test'), ('f', 'module'), ('c', 'module'), ('f', 'session'), ('c', 'session')]:
                    ops = []
                    for i, m in enumerate(mods):
                        if at == i:
                            ops.append(('arm', side, scope, 'Boom'))
                        ops += [('begin', m), ('end',)]
                    ops.append(('flush',))
                    if at is None and (side, scope) != ('f', 'test'):
                        continue
                    if h.go(ops):
                        p = run_history(ops)
                        h.check(p is None, 'scopes', p)


def functions_all_called(h):
    """call_all_raise_first: every function is called once in order although some raise"""
    ensure_slash()
    from slash.utils.python import call_all_raise_first
    for n in range(0, 6):
        for bad in itertools.product([0, 1], repeat=n):
            for args in ((), (1, 'x')):
                if not h.go((bad, args)):
                    continue
                called = []

                def mk(i):
                    def f(*a, **k):
                        called.append((i, a, k))
                        if bad[i]:
                            raise Boom(i)
                    return f
                raised = None
                try:
                    call_all_raise_first([mk(i) for i in range(n)], *args)
                except Boom as e:
                    raised = e.args[0]
                h.eq(called, [(i, args, {}) for i in range(n)], 'calls')
                h.check((raised is not None) == any(bad) and (raised is None or bad[raised]), 'raises iff some function raised', raised)


def runs(h):
    """whole runs: scopes seen by tests, module fixtures and cleanups opened and closed with their module; cleanups raise or skip anywhere"""
    ensure_slash()
    r = h.rng
    for _ in range(h.scale(50, 400)):
        nf = r.randrange(1, 4)
        files, plan = {}, []
        for i in range(nf):
            m = 'test_m%d' % i
            src = 'import slash, vrec\n@slash.fixture(scope="module")\ndef fm(this):\n    vrec.ev("open", %r)\n    this.add_cleanup(lambda: vrec.ev("close", %r))\n' % (m, m)
            src += '@slash.fixture\ndef ft(this):\n    vrec.ev("open", "test")\n    this.add_cleanup(lambda: vrec.ev("close", "test"))\n'
            tests = []
            for j in range(r.randrange(1, 4)):
                k = r.choice(['pass', 'pass', 'raise ValueError()', 'assert 0', 'slash.skip_test()'])
                cl = r.choice([None, None, 'ok', 'boom', 'skip', 'fail'])
                scope = r.choice(['test', 'module', 'session'])
                body = '    vrec.ev("run", %d, slash.context.session.scope_manager.get_current_stack())\n' % j
                if cl:
                    act = {'ok': 'None', 'boom': '1/0', 'skip': 'slash.skip_test()', 'fail': 'slash.add_failure("x")'}[cl]
                    body += '    slash.add_cleanup(lambda: [vrec.ev("cl", %r, slash.context.session.scope_manager.get_current_stack()), %s], scope=%r)\n' % (scope, act, scope)
                src += 'def test_%d(fm, ft):\n%s    %s\n' % (j, body, k)
                tests.append((j, cl, scope, k))
            files[m + '.py'] = src
            plan.append((m, tests))
        if not h.go(files):
            continue
        o = slash_run(sorted(files), files=files)
        h.eq(o.session and o.session['open_scopes'], [], 'no scope stays open', o.output[-600:])
        ntests = sum(len(t) for _, t in plan)
        h.eq(len(o.results), ntests, 'one result per test', o.output[-600:])
        evs = o.events
        # a test of a new module whose previous module ended with a skip or an error is not run; every other one is
        want, carry, session_cl = [], None, []
        for mi, (m, tests) in enumerate(plan):
            opened, modcl = False, []
            for j, cl, scope, k in tests:
                if carry is not None:
                    carry = None
                    continue
                if not opened:
                    want.append(('open', m))
                    opened = True
                want += [('open', 'test'), ('run', j)]
                if cl and scope == 'test':
                    want.append(('cl', 'test'))
                want.append(('close', 'test'))
                if cl and scope == 'module':
                    modcl.append(cl)
                if cl and scope == 'session':
                    session_cl.append(cl)
            # closing the module (by the first test of the next one, or at the end)
            want += [('cl', 'module')] * len(modcl)
            if opened:
                want.append(('close', m))
            if 'skip' in modcl and mi + 1 < len(plan):
                carry = 'skip'
        want += [('cl', 'session')] * len(session_cl)
        h.eq([e[:2] for e in evs if e[0] != 'cl' or True], want, 'order of opening, running and closing', o.output[-800:])
        for e in evs:
            if e[0] == 'run':
                h.eq(e[2], ['session', 'module', 'test'], 'scopes open during a test')


CHECKS = [functions_all_called, small, histories, runs]
