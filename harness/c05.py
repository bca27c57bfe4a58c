"""C05: exception handling contexts, swallowing and the assertion helpers."""
import threading
from .base import forked, ensure_slash

# the universe of exception types: name -> (base, kind)
NAMES = ['Exception', 'ValueError', 'KeyError', 'Custom', 'SubCustom', 'AssertionError', 'TestFailed', 'SkipTest', 'SubSkip', 'Registered', 'KeyboardInterrupt', 'SubKbd',
         'TerminatedException', 'SystemExit', 'GeneratorExit', 'OwnBase', 'StopIteration']
TYPES = NAMES + ['BaseException', 'LookupError', 'object']


class Custom(Exception):
    pass


class SubCustom(Custom):
    pass


class Registered(Exception):
    pass


class SubKbd(KeyboardInterrupt):
    pass


class OwnBase(BaseException):
    pass


def universe():
    import builtins
    import slash.exceptions as E

    class SubSkip(E.SkipTest):
        pass
    out = {}
    for n in TYPES:
        out[n] = globals().get(n) or {'SubSkip': SubSkip}.get(n) or getattr(builtins, n, None) or getattr(E, n)
    return out


def types(r, n=2):
    return [r.choice(TYPES[:-1]) for _ in range(r.randrange(1, n + 1))]


def gen(r, depth):
    k = r.choice(['raise', 'raise', 'ok', 'again'] if depth == 0 else ['raise', 'handle', 'handle', 'handle', 'assert_raises', 'allowing', 'swallow', 'catch', 'seq', 'thread', 'noswallow deco', 'ok', 'handle early'])
    if k == 'raise':
        return (k, r.choice(NAMES), r.choice(['', '', '', 'noswallow', 'fatal', 'class noswallow']))
    if k in ('ok', 'again'):
        return (k,)
    if k in ('handle', 'handle early'):
        o = {}
        if r.random() < .5:
            o['swallow'] = r.random() < .8
        if r.random() < .4:
            o['swallow_types'] = (r.choice(['tuple', 'list']), types(r)) if r.random() < .8 else ('tuple', [])
        if r.random() < .4:
            o['passthrough_types'] = types(r)
        if r.random() < .2:
            o['context'] = 'ctx'
        if r.random() < .2:
            o['fake_traceback'] = False
        return (k, o, gen(r, depth - 1))
    if k in ('assert_raises', 'allowing'):
        return (k, types(r), r.random() < .3, gen(r, depth - 1))
    if k == 'seq':
        return (k, [gen(r, depth - 1) for _ in range(r.randrange(1, 4))])
    return (k, gen(r, depth - 1))


def show(x):
    return type(x).__name__ if isinstance(x, BaseException) else x


class Model(object):
    """independent statement of what must happen"""

    def __init__(self, T, first):
        self.T, self.ignored, self.handled, self.log, self.exc, self.noswallow = T, [], set(), [], [None], set()
        self.class_noswallow = set()
        self.fresh = 0

    def isa(self, e, names):
        return any(issubclass(self.T[e[0]] if e[0] in self.T else Exception, self.T[n]) for n in names)

    def new(self, name):
        self.fresh += 1
        return (name, self.fresh)

    def run(self, p):
        """-> escaping exception or None"""
        k = p[0]
        if k == 'ok':
            return None
        if k == 'raise':
            e = self.exc[0] = self.new(p[1])
            if p[2] in ('noswallow', 'class noswallow'):
                self.noswallow.add(e)
            return e
        if k == 'again':
            if self.exc[0] is None:
                return None
            return self.exc[0]
        if k in ('handle', 'handle early'):
            o = p[1]
            through = o.get('passthrough_types', []) + [t for ts in self.ignored for t in ts]
            e = self.run(p[2])
            if e is None:
                self.log.append(('handled.exception', None))
                return None
            if self.isa(e, through):
                self.log.append(('handled.exception', None))
                return e
            if e not in self.handled:
                self.handled.add(e)
                self.log.append(('handlers called', e))
            self.log.append(('handled.exception', e))
            if self.isa(e, ['SkipTest', 'Registered', 'KeyboardInterrupt', 'TerminatedException', 'SystemExit']):
                return e
            sw = (['Exception'] if o.get('swallow') else []) + o.get('swallow_types', (0, []))[1]
            return None if self.isa(e, sw) else e
        if k in ('assert_raises', 'allowing'):
            self.ignored.append(p[1])
            e = self.run(p[3])
            self.ignored.pop()
            if e is None:
                self.log.append(('caught', None))
                if k == 'allowing':
                    return None
                e = self.exc[0] = self.new('ExpectedExceptionNotCaught')
                self.log.append(('not raised', 'msg' if p[2] else '/'.join(self.T[n].__name__ for n in p[1]) + ' not raised', tuple(p[1])))
                return e
            if self.isa(e, p[1]):
                self.log.append(('caught', e))
                return None
            self.log.append(('caught', None))
            return e
        if k == 'swallow':
            e = self.run(p[1])
            return e if e is not None and e in self.noswallow else None
        if k == 'noswallow deco':
            e = self.run(p[1])
            if e is not None:
                self.noswallow.add(e)
            return e
        if k == 'catch':
            e = self.run(p[1])
            self.log.append(('arrived', e))
            return None
        if k == 'seq':
            for q in p[1]:
                e = self.run(q)
                if e is not None:
                    return e
            return None
        if k == 'thread':
            old, self.ignored = self.ignored, []
            e = self.run(p[1])
            self.ignored = old
            self.log.append(('arrived', e))
            return None


class Real(object):
    def __init__(self, T, slash, eh):
        self.T, self.slash, self.eh, self.log, self.exc, self.ids, self.n = T, slash, eh, [], [None], {}, 0
        self.keep = []

    def name(self, e):
        return None if e is None else self.ids.get(id(e), ('unknown', repr(e)))

    def new(self, name, e):
        self.n += 1
        self.keep.append(e)
        self.ids[id(e)] = (name, self.n)
        return e

    def run(self, p):
        k = p[0]
        eh = self.eh
        if k == 'ok':
            return
        if k == 'raise':
            cls = self.T[p[1]]
            if p[2] == 'class noswallow':
                cls = type(cls.__name__, (cls,), {})
                eh.noswallow(cls)
            e = self.exc[0] = self.new(p[1], cls('x'))
            if p[2] == 'noswallow':
                assert eh.noswallow(e) is e
            if p[2] == 'fatal':
                assert eh.mark_exception_fatal(e) is e
            raise e
        if k == 'again':
            if self.exc[0] is not None:
                raise self.exc[0]
            return
        if k in ('handle', 'handle early'):
            o = dict(p[1])
            if 'swallow_types' in o:
                kind, ts = o['swallow_types']
                o['swallow_types'] = (list if kind == 'list' else tuple)(self.T[t] for t in ts)
            if 'passthrough_types' in o:
                o['passthrough_types'] = tuple(self.T[t] for t in o['passthrough_types'])
            handled = None
            try:
                with eh.handling_exceptions(**o) as handled:
                    self.run(p[2])
            finally:
                self.log.append(('handled.exception', self.name(handled.exception)))
            return
        if k in ('assert_raises', 'allowing'):
            f = self.slash.assert_raises if k == 'assert_raises' else self.slash.allowing_exceptions
            ts = tuple(self.T[t] for t in p[1])
            ts = ts[0] if len(ts) == 1 and len(p[1][0]) % 2 else ts
            caught = None
            from slash.exceptions import ExpectedExceptionNotCaught
            entered = [False]
            try:
                with (f(ts, msg='msg') if p[2] else f(ts)) as caught:
                    self.run(p[3])
            except BaseException as e:
                self.log.append(('caught', self.name(caught.exception)))
                if isinstance(e, ExpectedExceptionNotCaught) and id(e) not in self.ids:
                    self.exc[0] = self.new('ExpectedExceptionNotCaught', e)
                    self.log.append(('not raised', str(e), tuple(n for x in e.expected_types for n in [[m for m in p[1] if self.T[m] is x][0]])))
                raise
            else:
                self.log.append(('caught', self.name(caught.exception)))
            return
        if k == 'swallow':
            with eh.get_exception_swallowing_context():
                self.run(p[1])
            return
        if k == 'noswallow deco':
            @eh.disable_exception_swallowing
            def f():
                self.run(p[1])
            f()
            return
        if k in ('catch', 'thread'):
            def body():
                try:
                    self.run(p[1])
                    e = None
                except BaseException as e2:
                    e = e2
                self.log.append(('arrived', self.name(e)))
            if k == 'catch':
                body()
            else:
                t = threading.Thread(target=body)
                t.start()
                t.join()
            return
        if k == 'seq':
            for q in p[1]:
                self.run(q)


def one(p, where):
    import slash, gossip
    from slash import exception_handling as eh
    T = universe()
    T['ExpectedExceptionNotCaught'] = slash.exceptions.ExpectedExceptionNotCaught
    m = Model(T, None)
    me = m.run(p)
    want = m.log + [('escaped', me)]
    real = Real(T, slash, eh)

    import sys

    def body():
        state = []

        @gossip.register('slash.exception_caught_before_debugger', token='vh')
        def before():
            state.append('before')

        @gossip.register('slash.exception_caught_after_debugger', token='vh')
        def after():
            if state != ['before']:
                real.log.append(('hooks out of order', list(state)))
            del state[:]
            real.log.append(('handlers called', real.name(sys.exc_info()[1])))
        try:
            real.run(p)
            e = None
        except BaseException as e2:
            e = e2
        real.log.append(('escaped', real.name(e)))
        gossip.unregister_token('vh')
    with slash.Session() as s:
        s.register_skip_exception(T['Registered'])
        body()
        n = len([x for x in m.log if x[0] == 'handlers called'])
        g = s.results.global_result
        kinds = [x[1] for x in m.log if x[0] == 'handlers called']
        fails = [k for k in kinds if issubclass(T[k[0]], slash.exceptions.FAILURE_EXCEPTION_TYPES)]
        skips = [k for k in kinds if issubclass(T[k[0]], (T['SkipTest'], T['Registered']))]
        other = [k for k in kinds if k not in fails and k not in skips and not issubclass(T[k[0]], (KeyboardInterrupt, T['TerminatedException'], GeneratorExit))]
        got = (len(g.get_failures()), len(g.get_skips()), len(g.get_errors()))
        if got != (len(fails), len(skips), len(other)):
            return ('records in the result', got), ('records in the result', (len(fails), len(skips), len(other)))
    return real.log, want


def programs(h):
    """random nestings of handling contexts, assertion contexts, swallowing contexts, threads and catching blocks around raises of every exception type"""
    ensure_slash()
    r = h.rng
    batch, todo = 60, []

    def flush():
        if not todo:
            return
        ps = list(todo)
        del todo[:]
        try:
            outs = forked(lambda: [one(p, None) for p in ps])
        except Exception:
            outs = []
            for p in ps:
                h.cur = p
                outs.append(forked(lambda p=p: one(p, None)))
        for p, (got, want) in zip(ps, outs):
            h.cur = p
            got, want = list(got), list(want)
            i = min([j for j, (a, b) in enumerate(zip(got, want)) if a != b] + [min(len(got), len(want))])
            h.check(got == want, 'handling, escaping and absorbing', 'at %d: got %r, expected %r' % (i, got[i:i + 3], want[i:i + 3]))
    for _ in range(h.scale(1500, 40000)):
        p = gen(r, r.choice([1, 2, 2, 3, 4]))
        if h.go(p):
            todo.append(p)
        if len(todo) >= batch:
            flush()
    flush()


def single(h):
    """every exception type through every single context and option"""
    ensure_slash()
    ps = []
    for n in NAMES:
        for o in [{}] + [{'swallow': s} for s in (True, False)] + [{'swallow_types': (k, [t])} for t in TYPES[:-1] for k in ('tuple', 'list')] + [{'swallow': True, 'swallow_types': ('list', ['OwnBase'])}] \
                + [{'passthrough_types': [t]} for t in TYPES[:-1]] + [{'swallow': True, 'passthrough_types': [t]} for t in TYPES[:-1]]:
            ps.append(('handle', o, ('raise', n, '')))
            if 'swallow' in o and len(o) == 1:
                ps.append(('handle', o, ('handle', {}, ('raise', n, ''))))
                ps.append(('handle', {}, ('handle', o, ('raise', n, 'fatal'))))
        for t in TYPES[:-1]:
            for k in ('assert_raises', 'allowing'):
                for msg in (False, True):
                    ps.append((k, [t], msg, ('handle', {'swallow': True}, ('raise', n, ''))))
        for mark in ('', 'noswallow', 'class noswallow'):
            ps.append(('swallow', ('raise', n, mark)))
            ps.append(('swallow', ('noswallow deco', ('raise', n, mark))))
            ps.append(('seq', [('swallow', ('raise', n, '')), ('swallow', ('noswallow deco', ('again',)))]))
    if h.quick:
        h.rng.shuffle(ps)
        ps = ps[:900]
    ps = [p for p in ps if h.go(p)]
    outs = forked(lambda: [one(p, None) for p in ps], timeout=200) if ps else []
    for p, (got, want) in zip(ps, outs):
        h.cur = p
        h.check(got == want, 'handling, escaping and absorbing', 'got %r, expected %r' % (got, want))


def without_session(h):
    """contexts also work with no session at all; handlers whose call fails; marks on classes"""
    ensure_slash()
    from slash import exception_handling as eh
    from slash.exceptions import SkipTest
    for n in NAMES:
        if h.go(n):
            T = universe()
            e = T[n]('x')
            try:
                with eh.handling_exceptions(swallow=True):
                    raise e
                out = None
            except BaseException as x:
                out = x
            isexc = isinstance(e, Exception)
            h.check(out is None if isexc else out is e, 'without a session', repr(out))
    # a class mark is a mark of the class and of exceptions made afterwards, not of its base classes
    for name, mark, get in (('noswallow', eh.noswallow, None), ('fatal', eh.mark_exception_fatal, eh.is_exception_fatal), ('inhibit', eh.inhibit_unhandled_exception_traceback, eh.should_inhibit_unhandled_exception_traceback)):
        for pre in (False, True):
            if h.go((name, pre)):
                class Base(Exception):
                    pass

                class Derived(Base):
                    pass

                class Other(Base):
                    pass
                if pre:
                    eh.mark_exception_frame_correction(Base)
                mark(Derived)
                for cls, marked in ((Derived, True), (Base, False), (Other, False)):
                    if get is None:
                        out = None
                        try:
                            with eh.get_exception_swallowing_context():
                                raise cls()
                        except cls as x:
                            out = x
                        got = out is not None
                    else:
                        got = get(cls())
                    h.eq(got, marked, 'a mark of a class', cls.__name__)
                i, j = Base(), Base()
                mark(i)
                if get is not None:
                    h.eq((get(i), get(j), get(Base)), (True, False, False), 'a mark of an exception is its own')
    for e in (Exception('a'), ValueError()):
        if h.go('frame correction'):
            h.eq(eh.get_exception_frame_correction(e), 0, 'frame correction')
            eh.mark_exception_frame_correction(e)
            eh.mark_exception_frame_correction(e, 3)
            h.eq(eh.get_exception_frame_correction(e), 4, 'frame correction')


def almost_equal(h):
    """assert_almost_equal against exact arithmetic"""
    slash = ensure_slash()
    from fractions import Fraction
    r = h.rng
    for _ in range(h.scale(2000, 20000)):
        a = r.choice([r.randrange(-5, 6), Fraction(r.randrange(-50, 50), r.choice([1, 3, 7])), r.uniform(-2, 2)])
        d = r.choice([0, 1, 2, Fraction(1, 7), 0.5, 0.00000001, None])
        b = r.choice([a, a + (d or 0), a - (d or 0), a + 2 * (d or 1), a - 2 * (d or 1), r.randrange(-5, 6)])
        if not h.go((a, b, d)):
            continue
        want = abs(a - b) <= (0.00000001 if d is None else d)
        try:
            slash.assert_almost_equal(a, b) if d is None else slash.assert_almost_equal(a, b, delta=d)
            got = True
        except AssertionError:
            got = False
        h.eq(got, want, 'assert_almost_equal')


CHECKS = [single, programs, without_session, almost_equal]
