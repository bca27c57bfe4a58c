"""C21: the current context."""
from .base import forked, ensure_slash, slash_run, slash_main


NAMES = ['session', 'test', 'test_id', 'result', 'fixture', 'test_classname', 'test_methodname', 'g', 'internal_globals', 'custom', 'x1']
READ = NAMES + ['missing', 'test_filename', 'session_id', 'reporter']
BASE_NONE = ['session', 'test', 'test_id', 'g', 'internal_globals', 'test_filename', 'test_classname', 'test_methodname', 'result', 'fixture']


class Sess(object):
    def __init__(self, i):
        self.id, self.reporter = 'id%s' % i, object()


class Tst(object):
    def __init__(self, i):
        self.__slash__ = type('MD', (), {'file_path': 'f%s' % i})()


def context_histories(h):
    """random push / pop / read / write histories on the ambient context against a stack of independent contexts"""
    ensure_slash()
    import slash
    from slash import ctx
    from slash.reporting.null_reporter import NullReporter
    r = h.rng
    MISSING = object()
    for _ in range(h.scale(3000, 40000)):
        ops = []
        for _ in range(r.randrange(1, 25)):
            op = r.choice(['push', 'push', 'pop', 'pop', 'set', 'set', 'set', 'get', 'proxy set', 'proxy get', 'gset', 'push own'])
            ops.append((op, r.choice(NAMES), r.randrange(6)))
        fresh = r.random() < .5
        if not h.go((fresh, ops)):
            continue
        stack_obj = type(ctx.context)() if fresh else ctx.context
        if not fresh:
            while True:
                try:
                    stack_obj.pop()
                except RuntimeError:
                    break
        model = []          # list of (context object, dict)

        def expected(name):
            if not model:
                if name in BASE_NONE:
                    return None
                return NullReporter if name == 'reporter' else MISSING
            c, d = model[-1]
            if name == 'reporter':
                return d['session'].reporter if d.get('session') is not None else NullReporter
            if name == 'session_id':
                return d['session'].id if d.get('session') is not None else None
            if name == 'test_filename':
                return d['test'].__slash__.file_path if d.get('test') is not None else None
            if name in d:
                return d[name]
            if name in ('session', 'test', 'test_id', 'result', 'fixture'):
                return None
            return MISSING

        def check_all():
            for name in READ:
                try:
                    got = getattr(stack_obj, name)
                except AttributeError:
                    got = MISSING
                want = expected(name)
                ok = isinstance(got, NullReporter) if want is NullReporter else got is want
                h.check(ok, 'an attribute read gives the value of the top context', '%s: got %r, expected %r with %d contexts' % (name, got, want, len(model)))
            for c, d in model[:-1]:
                for name in NAMES:
                    if name in d:
                        h.check(getattr(c, name) is d[name], 'writes only affect the top context', name)
        for op, name, v in ops:
            val = {'session': Sess, 'test': Tst}.get(name, lambda i: ('v', i))(v)
            if name in ('session', 'test') and v == 0:
                val = None
            if op in ('push', 'push own'):
                if op == 'push' and not fresh:
                    ctx.push_context()
                    c = None
                else:
                    c = ctx.Context()
                    h.check(stack_obj.push(c) is c, 'push returns the context pushed', '')
                gobj = getattr(stack_obj, 'g')
                d = {'g': gobj, 'internal_globals': stack_obj.internal_globals}
                h.check(gobj is not None and gobj is not d['internal_globals'] and all(x[1].get('g') is not gobj for x in model), 'globals of a context are its own', '')
                if c is None:
                    c = stack_obj.pop()
                    stack_obj.push(c)
                    h.check(all(c is not x[0] for x in model), 'a pushed context is a new one', '')
                model.append((c, d))
            elif op == 'pop':
                try:
                    if r.random() < .5 or fresh:
                        got = stack_obj.pop()
                    else:
                        got = None
                        ctx.pop_context()
                    h.check(model, 'the base context is never removed', got)
                    c, d = model.pop()
                    h.check(got is None or got is c, 'pop removes the innermost context', got)
                except RuntimeError:
                    h.check(not model, 'a pushed context can be popped', len(model))
            elif op == 'set':
                try:
                    setattr(stack_obj, name, val)
                    h.check(model, 'the base context cannot be written', name)
                    model[-1][1][name] = val
                except AttributeError:
                    h.check(not model, 'the top context can be written', name)
            elif op in ('proxy set', 'proxy get', 'gset') and not fresh:
                if not model or model[-1][1]['g'] is None or isinstance(model[-1][1]['g'], tuple):
                    continue
                gobj = model[-1][1]['g']
                if op != 'proxy get':
                    setattr(slash.g, 'attr%d' % v, val)
                    h.check(getattr(gobj, 'attr%d' % v) is val, 'writing through slash.g writes the top context', '')
                else:
                    got = getattr(slash.g, 'attr%d' % v, MISSING)
                    h.check(got is getattr(gobj, 'attr%d' % v, MISSING), 'reading through slash.g reads the top context', got)
            if not fresh:
                for name in ('session', 'test', 'test_id', 'g', 'internal_globals'):
                    p, want = getattr(ctx, name), getattr(stack_obj, name)
                    h.check(p == want and not (p != want) and not (p == object()) and p != object() and str(p) == str(want) and repr(p) == repr(want) and dir(p) == dir(want),
                            'the module-level proxies stand for the top context', name)
            check_all()
        if not fresh:
            while model:
                ctx.context.pop()
                model.pop()


TESTS = '''
import slash, vrec, sys
from slash.exceptions import SkipTest
def names_ok(c):
    a = c.test.__slash__.address.split(':', 1)[1]
    if a.startswith('Test_'):
        return a == c.test_classname + '.' + c.test_methodname
    return c.test_classname is None and a.split('(')[0] == c.test_methodname
def rec(tag):
    c = slash.context
    vrec.ev('ctx', tag, c.test.__slash__.address if c.test is not None else None, c.test_id == (c.test.__slash__.id if c.test is not None else None),
            c.result is (c.session.results[c.test] if c.test is not None else c.session.results.global_result),
            c.reporter is c.session.reporter, c.session.id, c.test_filename == (c.test.__slash__.file_path if c.test is not None else None),
            names_ok(c))
class Base(BaseException): pass
class Exc(Exception): pass
def finish(kind):
    rec('body')
    if kind == 'ok': return
    if kind == 'error': raise Exc('e')
    if kind == 'fail': slash.should.equal(1, 2); assert 1 == 2
    if kind == 'skip': slash.skip_test('s')
    if kind == 'nested':
        s = slash.Session()
        before = [getattr(slash.context, n) for n in ('session', 'test', 'test_id', 'result', 'reporter')]
        try:
            with s:
                with s.get_started_context():
                    assert slash.context.session is s and slash.context.test is None and slash.context.result is s.results.global_result
                    slash.context.whatever = 5
                    raise Exc('nested')
        except Exc:
            pass
        after = [getattr(slash.context, n) for n in ('session', 'test', 'test_id', 'result', 'reporter')]
        vrec.ev('restored', all(a is b for a, b in zip(before, after)))
        vrec.ev('restored', not hasattr(slash.context, 'whatever'))
        return
    raise {'kbd': KeyboardInterrupt, 'exit': SystemExit, 'base': Base, 'gen': GeneratorExit}[kind]('x')
'''


def file_source(tests, fname):
    src = TESTS
    for i, (kind, where, cls) in enumerate(tests):
        pre = "\n    slash.add_cleanup(lambda: rec('cleanup'))\n    "
        pre += {'body': 'finish(%r)', 'cleanup': 'slash.add_cleanup(finish, %r)', 'critical': 'slash.add_critical_cleanup(finish, %r)'}.get(where, '%r') % kind + '\n'
        if where == 'fixture':
            src += '''
@slash.fixture
def fx_%d(this):
    @this.add_cleanup
    def _c():
        rec('fixture cleanup')
    finish(%r)
''' % (i, kind)
            body, params = "\n    rec('body')\n", 'fx_%d' % i
        elif where == 'requires':
            src += '''
@slash.requires(lambda: False)
def test_%d():
    vrec.ev('ran')
''' % i
            continue
        else:
            body, params = pre, ''
        if cls:
            src += '''
class Test_%d(slash.Test):
    def before(self):
        rec('before')
    def after(self):
        rec('after')
    def test_m(self%s):
        pass
''' % (i, ', ' + params if params else '') + body.replace('\n    ', '\n        ')
        else:
            src += '''
def test_%d(%s):
    pass
''' % (i, params) + body
    return src


HK = ['test_start', 'test_end', 'test_success', 'test_error', 'test_failure', 'test_skip', 'test_avoided', 'before_test_cleanups', 'error_added',
      'before_session_cleanup', 'session_end', 'test_interrupt', 'session_interrupt']


def one_run(files, argv):
    def run():
        import gossip, sys
        ensure_slash()
        import slash
        from slash import ctx
        seen = []
        before = (ctx.context.session, ctx.context.test, ctx.context.result)

        def snap(tag):
            c = slash.context
            t = c.test
            seen.append((tag, t.__slash__.address if t is not None else None, c.test_id == (t.__slash__.id if t is not None else None),
                         (c.session.results.global_result if t is None else None) is c.result or (t is not None and c.result is c.session.results[t]),
                         c.reporter is c.session.reporter,
                         None if t is None else (c.test_filename == t.__slash__.file_path), c.result is c.session.results.global_result))

        def cb(name):
            return lambda **kw: snap(name)
        o = slash_main(argv, files=files, before=lambda: [gossip.register(cb(n), 'slash.' + n, token='vh') for n in HK])
        o.seen = seen
        after = (ctx.context.session, ctx.context.test, ctx.context.result)
        o.restored = before == after == (None, None, None)
        try:
            ctx.context.pop()
            o.depth = False
        except RuntimeError:
            o.depth = True
        return o
    return forked(run)


KINDS = ['ok', 'error', 'fail', 'skip', 'nested', 'kbd', 'exit', 'base', 'gen']


def whole_runs(h):
    """whole runs: every test observes itself in its body, fixtures, cleanups and hooks, whatever the tests end with; nothing is left afterwards"""
    r = h.rng
    for _ in range(h.scale(60, 800)):
        nf = r.choice([1, 1, 2])
        spec = {}
        for f in range(nf):
            spec['test_f%d.py' % f] = [(r.choice(KINDS[:5] if r.random() < .8 else KINDS), r.choice(['body', 'body', 'cleanup', 'critical', 'fixture', 'requires']), r.random() < .3)
                                      for _ in range(r.randrange(1, 5))]
        argv = sorted(spec) + (['-x'] if r.random() < .2 else []) + (['--repeat-each=2'] if r.random() < .2 else [])
        if not h.go((spec, argv)):
            continue
        o = one_run({f: file_source(t, f) for f, t in spec.items()}, argv)
        h.check(o.depth and o.restored, 'after the run the base context is current again', '')
        for e in o.events:
            if e[0] == 'ctx':
                h.check(e[2] is not None and all(e[3:6]) and e[7] and e[8], 'a running test sees itself', e)
            elif e[0] == 'restored':
                h.check(e[1], 'a session nested in a test leaves the context of the test as it was', '')
        cur = None
        for tag, addr, idok, resok, repok, fnok, isglob in o.seen:
            h.check(idok and repok and fnok in (None, True), 'hooks see a consistent context', (tag, addr, idok, repok, fnok))
            if tag == 'test_start':
                h.check(addr is not None and cur is None, 'no test is current before a test starts', (tag, addr, cur))
                cur = addr
            if tag in ('test_start', 'test_end', 'test_success', 'test_error', 'test_failure', 'before_test_cleanups'):
                h.check(addr == cur and resok, 'hooks of a test see that test and its result', (tag, addr, cur, resok))
            if tag in ('test_skip', 'test_avoided'):
                h.check(addr is not None and resok, 'hooks of a test see that test and its result', (tag, addr, resok))
            if tag in ('before_session_cleanup', 'session_end'):
                h.check(isglob, 'after the last test the result is the one of the session again', tag)
            if tag == 'test_end':
                cur = None
            if tag in ('session_end',):
                h.check(addr is None and resok, 'after the tests the context is the one of the session', (tag, addr, resok))


def between_tests(h):
    """run_tests over a lazily generated sequence: between any two tests session, test, test_id, result and reporter are as before, and inside a
    test another run of tests can nest"""
    r = h.rng
    ensure_slash()
    for _ in range(h.scale(60, 600)):
        tree = []

        def gen(depth):
            return [(r.choice(KINDS if r.random() < .3 else KINDS[:4]), gen(depth - 1) if depth and r.random() < .4 else [], r.random() < .3) for _ in range(r.randrange(1, 4))]
        tree = gen(2)
        if not h.go(tree):
            continue

        def run():
            import slash
            from slash.loader import Loader
            problems = []
            NM = ('session', 'test', 'test_id', 'result', 'reporter')

            def state():
                return [getattr(slash.context, n) for n in NM]

            def same(a, b, what, skip=()):
                for n, x, y in zip(NM, a, b):
                    if x is not y and not (n == 'reporter' and type(x).__name__ == type(y).__name__ == 'NullReporter') and n not in skip:
                        problems.append((what, n, repr(x), repr(y)))

            class Base(BaseException):
                pass

            def make(kind, children, cls, i):
                def body():
                    mine = state()
                    c = slash.context
                    if c.test is None or c.test_id != c.test.__slash__.id or c.result is not c.session.results[c.test]:
                        problems.append(('body sees itself', i, repr(mine)))
                    if children:
                        try:
                            level(children)
                        except BaseException as e:
                            same(mine, state(), 'after nested run ended by %s' % type(e).__name__)
                            raise
                        same(mine, state(), 'after nested run')
                    if kind == 'error':
                        raise ValueError('e')
                    if kind == 'fail':
                        assert False
                    if kind == 'skip':
                        slash.skip_test('s')
                    if kind in ('kbd', 'exit', 'base', 'gen'):
                        raise {'kbd': KeyboardInterrupt, 'exit': SystemExit, 'base': Base, 'gen': GeneratorExit}[kind]('x')
                if cls:
                    ns = {'test_it': lambda self: body()}
                    return type('Test_%d' % i, (slash.Test,), ns)
                body.__name__ = 'test_%d' % i
                return body

            def level(specs):
                outer = state()

                def lazily(tests):
                    base = state()
                    for t in tests:
                        same(base, state(), 'between tests', ())
                        yield t
                    same(base, state(), 'after the last test')
                session = slash.Session()
                try:
                    with session:
                        with session.get_started_context():
                            session.fixture_store.resolve()
                            tests = []
                            for i, (kind, children, cls) in enumerate(specs):
                                tests.extend(Loader().get_runnables(make(kind, children, cls, i)))
                            slash.runner.run_tests(lazily(tests))
                finally:
                    same(outer, state(), 'after the session')
            import slash.runner
            try:
                level(tree)
            except BaseException as e:
                if type(e).__name__ not in ('KeyboardInterrupt', 'SystemExit', 'Base', 'GeneratorExit'):
                    raise
            if slash.context.session is not None or slash.context.test is not None:
                problems.append(('left over',))
            try:
                slash.ctx.pop_context()
                problems.append(('a context was left',))
            except RuntimeError:
                pass
            return problems[:5]
        h.eq(forked(run), [], 'the context is restored exactly')


CHECKS = [context_histories, whole_runs, between_tests]
