"""C04: every exception is recorded exactly once, in the right place and kind, in order"""
import io, os
from base import forked, ensure_slash, slash_run

# classes of exceptions: what each must be recorded as
PRE = '''import slash, vrec, unittest
from slash.exception_handling import handling_exceptions
from slash.exceptions import SkipTest, TestFailed
class VE(ValueError): pass
class AE(AssertionError): pass
class TF(TestFailed): pass
class SK(SkipTest): pass
class Eq(Exception):
    def __eq__(self, o): return True
    def __hash__(self): return 1
class Slots(Exception):
    __slots__ = ('zz',)
class Fwd(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.inner = ValueError('inner')
        slash.exception_handling.mark_exception_handled(self.inner)
        try:
            raise self.inner
        except ValueError:
            slash.core.error.Error.capture_exception()
        slash.core.result._ADDED_TO_RESULT.mark_exception(self.inner) if hasattr(slash.core.result, '_ADDED_TO_RESULT') else None
    def __getattr__(self, n):
        if n == 'inner': raise AttributeError(n)
        return getattr(self.inner, n)
class Fal(AssertionError):
    def __bool__(self): return False
    def __len__(self): return 0
class NoRepr(AssertionError):
    def __repr__(self): raise RuntimeError('no repr')
class Both(AssertionError, SkipTest):
    def __init__(self, m): Exception.__init__(self, m); self.reason = m
class Imm(Exception):
    def __setattr__(self, n, v): raise TypeError('immutable')
class BE(BaseException): pass
class AES(AE): pass
ONE = {}
def mk(cls, msg):
    return {'ve': VE, 'v': ValueError, 'ae': AE, 'a': AssertionError, 'tf': TF, 'sk': SK, 'eq': Eq, 'sl': Slots, 'fw': Fwd, 'fal': Fal, 'nr': NoRepr, 'bo': Both, 'im': Imm, 'be': BE, 'aes': AES, 'ust': unittest.SkipTest, 'os': OSError, 'ex': SystemExit}[cls](msg)
def boom(cls, msg):
    raise mk(cls, msg)
def later(cls, msg):
    return lambda: boom(cls, msg)
def layered(n, fn, swallow=True):
    def run():
        if n[0] == 0:
            fn()
            return
        n[0] -= 1
        with handling_exceptions(swallow=swallow and n[0] == 0):
            run()
    n = [n]
    run()
'''
KIND = {'ve': 'E', 'v': 'E', 'ae': 'F', 'a': 'F', 'tf': 'F', 'sk': 'S', 'eq': 'E', 'sl': 'E', 'fw': 'E', 'fal': 'F', 'nr': 'F', 'bo': 'F', 'im': 'E', 'be': 'E', 'aes': 'F', 'os': 'E', 'ex': 'E'}
ORD = ['ve', 'v', 'ae', 'a', 'tf', 'eq', 'sl', 'fw', 'fal', 'nr', 'aes', 'os']     # Exceptions which are no skip


class Rec(object):
    def __init__(self):
        self.E, self.F, self.S, self.cut = [], [], [], False

    def add(self, cls, msg):
        getattr(self, KIND[cls]).append(msg)


def has(texts, msgs):
    """the recorded messages mention exactly these, in order"""
    return len(texts) == len(msgs) and all(m in (t or '') for t, m in zip(texts, msgs))


class Gen(object):
    def __init__(self, r):
        self.r, self.n = r, 0

    def msg(self):
        self.n += 1
        return 'm%03dx' % self.n

    def body(self, depth=0):
        """(source lines, effect(rec) -> True when the body was left by an exception)"""
        r, lines, effs = self.r, [], []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice(['handled', 'handled', 'nested', 'two', 'adde', 'addf', 'addexc', 'addcur', 'finally', 'raise', 'skip', 'cleanup', 'caught', 'inex', 'hookless', 'addother'])
            m, m2 = self.msg(), self.msg()
            c, c2 = r.choice(ORD), r.choice(ORD)
            if k == 'handled':
                lines.append('with handling_exceptions(swallow=True): boom(%r, %r)' % (c, m))
                effs.append(lambda x, c=c, m=m: x.add(c, m))
            elif k == 'nested':
                lines.append('layered(%d, later(%r, %r))' % (r.randint(1, 4), c, m))
                effs.append(lambda x, c=c, m=m: x.add(c, m))
            elif k == 'two':
                # another exception while one is handled: both are recorded
                lines += ['with handling_exceptions(swallow=True):', '    try:', '        with handling_exceptions(): boom(%r, %r)' % (c, m), '    except Exception:', '        boom(%r, %r)' % (c2, m2)]
                effs.append(lambda x, c=c, m=m, c2=c2, m2=m2: (x.add(c, m), x.add(c2, m2)))
            elif k == 'finally':
                lines += ['with handling_exceptions(swallow=True):', '    try:', '        boom(%r, %r)' % (c, m), '    finally:', '        with handling_exceptions(swallow=True): boom(%r, %r)' % (c2, m2)]
                effs.append(lambda x, c=c, m=m, c2=c2, m2=m2: (x.add(c2, m2), x.add(c, m)))
            elif k == 'adde':
                lines.append('slash.add_error(%r)' % m)
                effs.append(lambda x, m=m: x.E.append(m))
            elif k == 'addf':
                lines.append('slash.add_failure(%r)' % m)
                effs.append(lambda x, m=m: x.F.append(m))
            elif k == 'addexc':
                lines += ['try: boom(%r, %r)' % (c, m), 'except Exception:', '    for i in range(%d): slash.context.result.add_exception()' % r.choice([1, 2, 3])]
                effs.append(lambda x, c=c, m=m: x.add(c, m))
            elif k == 'addother':
                # recording a given exception while another one is handled
                lines += ['import sys', 'try: boom(%r, %r)' % (c, m), 'except Exception: info = sys.exc_info()', 'try: boom(%r, %r)' % (c2, m2), 'except Exception: slash.context.result.add_exception(info)']
                effs.append(lambda x, c=c, m=m: x.add(c, m))
            elif k == 'addcur':
                lines += ['try: boom(%r, %r)' % (c, m), 'except Exception: slash.add_%s()' % ('error' if m[-2] in '02468' else 'failure')]
                effs.append(lambda x, c=c, m=m: (x.E if m[-2] in '02468' else x.F).append(m))
            elif k == 'caught':
                lines += ['try: boom(%r, %r)' % (c, m), 'except Exception: pass']
            elif k == 'inex':
                lines += ['try: boom(%r, %r)' % (c, m), 'except Exception:', '    with handling_exceptions(swallow=True): boom(%r, %r)' % (c2, m2)]
                effs.append(lambda x, c2=c2, m2=m2: x.add(c2, m2))
            elif k == 'cleanup':
                cc = r.choice(ORD + ['sk'])
                lines.append('slash.add_cleanup(later(%r, %r))' % (cc, m))
                effs.append(lambda x, c=cc, m=m: x.cleanups.append((c, m)))
            elif k in ('raise', 'skip') and depth == 0:
                if r.random() < .6:
                    continue
                cc = r.choice(ORD + ['be', 'bo']) if k == 'raise' else 'sk'
                lines.append('layered(%d, later(%r, %r), False)' % (r.randint(0, 3), cc, m))

                def leave(x, c=cc, m=m):
                    x.add(c, m)
                    return 'left'
                effs.append(leave)

        def effect(x):
            for e in effs:
                if e(x) == 'left':
                    return True
            return False
        return lines or ['pass'], effect


def runs(h):
    """tests which raise, handle, and record exceptions in every phase; interruptions"""
    r = h.rng
    for _ in range(h.scale(110, 1500)):
        g = Gen(r)
        src, tests, fixtures = PRE, [], []
        for i in range(r.choice([0, 1, 1, 2])):
            lines, eff = g.body(depth=1)
            fm, fc = g.msg(), r.choice(ORD)
            bad, fin = r.choice([(0, 0), (0, 0), (1, 0), (0, 1)])
            fl = ['@this.add_cleanup', 'def c(): boom(%r, %r)' % (fc, fm)] if fin else []
            bm, bc = g.msg(), r.choice(ORD + ['sk'])
            src += '@slash.fixture\ndef fx%d(this):\n' % i + ''.join('    %s\n' % l for l in lines + fl + (['boom(%r, %r)' % (bc, bm)] if bad else []))
            fixtures.append((eff, (fc, fm) if fin else None, (bc, bm) if bad else None))
        nint = 0
        for i in range(r.randint(1, 4)):
            lines, eff = g.body()
            use = [k for k in range(len(fixtures)) if r.random() < .4]
            cls = r.random() < .25
            end = None
            if r.random() < .06 and not nint and not cls:
                nint, end = 1, 'raise ' + r.choice(['KeyboardInterrupt()', 'slash.exceptions.TerminatedException()'])
                lines = lines + [end]
            setup = None
            if cls:
                if r.random() < .5:
                    setup = (r.choice(ORD), g.msg())
                src += 'class T%d(slash.Test):\n    def before(self):\n        %s\n    def after(self): vrec.ev("after", %d)\n    def test_%d(self%s):\n' % (
                    i, 'boom(%r, %r)' % setup if setup else 'pass', i, i, ''.join(', fx%d' % k for k in use)) + ''.join('        %s\n' % l for l in lines)
            else:
                src += 'def test_%d(%s):\n' % (i, ', '.join('fx%d' % k for k in use)) + ''.join('    %s\n' % l for l in lines)
            tests.append((use, eff, setup, end))
        if not h.go(src[len(PRE):]):
            continue
        o = slash_run(['t.py'], files={'t.py': src}, record_hooks=['error_added', 'interruption_added'])
        if not h.check(o.raised is None and len(o.results) >= 1, 'the run ends normally', (o.raised, o.output)):
            continue
        interrupted = False
        for res in o.results:
            i = int(res['address'].split('test_')[1].rstrip(')'))
            use, eff, setup, end = tests[i]
            if interrupted:
                break
            x = Rec()
            x.cleanups, x.fins = [], []
            left = False
            if setup:
                x.add(*setup)
                left = True
            for k in use if not left else ():
                feff, fin, bad = fixtures[k]
                # arguments are set up in the order of the signature; what a fixture adds is undone at the end of the test
                if feff(x):
                    left = True
                if fin:
                    x.fins.append(fin)
                if bad:
                    x.add(*bad)
                    left = True
                if left:
                    break
            if not left and not eff(x):
                interrupted = bool(end)
            for c, m in (x.cleanups[::-1] + x.fins[::-1] if not interrupted else ()):     # an interruption skips the cleanups
                x.add(c, m)
            h.check(has(res['errors'], x.E), 'errors of the test, in order', 'got %r, expected %r' % (res['errors'], x.E))
            h.check(has(res['failures'], x.F), 'failures of the test, in order', 'got %r, expected %r' % (res['failures'], x.F))
            h.check(has([str(q) for q in res['skips']], x.S), 'skips of the test with their reasons', 'got %r, expected %r' % (res['skips'], x.S))
            h.eq(res['interrupted'], interrupted, 'interruption of the test')
        h.eq((o.glob['errors'], o.glob['failures'], o.glob['interrupted']), ([], [], interrupted), 'global result')
        n = sum(len(q['errors']) + len(q['failures']) for q in o.results)
        h.eq(sum(e[1] == 'error_added' for e in o.events if e[0] == 'hook'), n, 'one error_added notification per record')
        h.eq(sum(e[1] == 'interruption_added' for e in o.events if e[0] == 'hook'), int(interrupted), 'one interruption_added notification')


def outside(h):
    """exceptions when no test is running: on the global result"""
    r = h.rng
    for _ in range(h.scale(40, 500)):
        where = r.choice(['session_start', 'session_end', 'tests_loaded', 'between', 'test_start', 'test_end', 'test_success', 'before_test_cleanups'])
        c, m = r.choice(ORD + (['sk'] if where == 'between' else [])), 'm001x'
        layers = r.randint(1, 3)
        src = PRE + 'def test_0(): pass\ndef test_1(): pass\n'
        if not h.go((where, c, layers)):
            continue
        hook = {'between': 'test_end'}.get(where, where)

        def before():
            import gossip, slash
            ns = {}
            exec(PRE, ns)
            done = []

            def cb(**_):
                if done:
                    return
                done.append(1)
                if where == 'between':
                    slash.context.session.results.global_result    # recorded explicitly
                    try:
                        ns['boom'](c, m)
                    except Exception:
                        import sys
                        for _ in range(layers):
                            slash.context.session.results.global_result.add_exception(sys.exc_info())
                else:
                    ns['layered'](layers, ns['later'](c, m))
            gossip.register(cb, 'slash.' + hook, token='vh')
        o = slash_run(['t.py'], files={'t.py': src}, before=before)
        recs = [(x['errors'], x['failures'], [str(s) for s in x['skips']]) for x in o.results]
        want = Rec()
        want.add(c, m)
        inside = where in ('test_start', 'test_end', 'test_success', 'before_test_cleanups')
        if inside:
            tgt, others = recs[0], recs[1:]
            h.eq((o.glob['errors'], o.glob['failures']), ([], []), 'nothing on the global result')
        else:
            tgt, others = (o.glob['errors'], o.glob['failures'], [str(s) for s in o.glob['skips']]), recs
        h.check(has(tgt[0], want.E) and has(tgt[1], want.F) and has(tgt[2], want.S), 'recorded once where it belongs', '%s: %r, %r' % (where, tgt, recs))
        h.eq(others, [([], [], [])] * len(others), 'nothing elsewhere')


def marks(h):
    """the bookkeeping of exceptions is per object"""
    r = h.rng
    for _ in range(h.scale(60, 800)):
        ops = []
        n = r.randint(2, 5)
        classes = [r.choice(['ve', 've', 'v', 'ae', 'aes', 'eq', 'sl', 'fw', 'tf', 'nr', 'im', 'os']) for _ in range(n)]
        for _ in range(r.randint(2, 12)):
            ops.append((r.choice(['record', 'record', 'handle', 'fatal', 'clsmark', 'record_in']), r.randrange(n), r.randrange(2)))
        if not h.go((classes, ops)):
            continue

        def go():
            slash = ensure_slash()
            import sys
            import slash.core.result
            from slash.core.session import Session
            from slash import exception_handling as eh
            import types
            sys.modules['vrec'] = types.ModuleType('vrec')
            ns = {}
            exec(PRE, ns)
            out = []
            with Session(reporter=None, console_stream=io.StringIO()) as s:
                class Md(object):
                    id, test_index0, address = 'x', 0, 'x'

                class Tst(object):
                    __slash__ = Md()
                res = [s.results.global_result, s.results.create_result(Tst())]
                excs = [ns['mk'](c, 'm%03dx' % i) for i, c in enumerate(classes)]
                infos = []
                for e in excs:
                    try:
                        raise e
                    except Exception:
                        infos.append(sys.exc_info())
                for op, i, k in ops:
                    if op == 'record':
                        res[k].add_exception(infos[i])
                    elif op == 'record_in':
                        try:
                            raise excs[i]
                        except Exception:
                            res[k].add_exception()
                    elif op == 'handle':
                        with eh.handling_exceptions(swallow=True):
                            raise excs[i]
                    elif op == 'fatal':
                        eh.mark_exception_fatal(excs[i])
                    elif op == 'clsmark':
                        eh.mark_exception(type('New', (type(excs[i]),), {}), 'handled', True)
                for x in res:
                    out.append(([e.message for e in x.get_errors()], [e.message for e in x.get_failures()]))
                out.append([(eh.is_exception_handled(e), eh.is_exception_fatal(e)) for e in excs])
            return out
        g, t, flags = forked(go)
        want = [Rec(), Rec()]
        done, handled, fatal = set(), set(), set()
        for op, i, k in ops:
            if op in ('record', 'record_in'):
                if i not in done:
                    want[k].add(classes[i], 'm%03dx' % i)
                done.add(i)
            elif op == 'handle':
                if i not in handled and i not in done:
                    want[0].add(classes[i], 'm%03dx' % i)
                if i not in handled:
                    done.add(i)
                handled.add(i)
            elif op == 'fatal':
                fatal.add(i)
        for got, w, name in ((g, want[0], 'global result'), (t, want[1], 'result of the test')):
            h.check(has(got[0], w.E) and has(got[1], w.F), 'each exception recorded once, in order', '%s: %r, expected %r %r' % (name, got, w.E, w.F))
        h.eq(flags, [(i in handled, i in fatal) for i in range(n)], 'marks of each exception')


def undone(h):
    """a fixture which raises, with a cleanup which raises as well"""
    for c in ('ve', 'ae'):
        if not h.go(c):
            continue
        src = PRE + """
@slash.fixture
def fx(this):
    this.add_cleanup(later(%r, 'm002x'))
    boom(%r, 'm001x')
def test_0(fx): pass
""" % (c, c)
        o = slash_run(['t.py'], files={'t.py': src})
        got = o.results[0]['errors' if KIND[c] == 'E' else 'failures']
        h.check(has(got, ['m001x', 'm002x']), 'the exception of a fixture whose cleanup raises as well is recorded', 'got %r' % (got,))


CHECKS = [runs, outside, marks, undone]
