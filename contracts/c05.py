"""C05: which exceptions get out of a handling context, and how often they are handled."""
from .common import *
from engine.exec import truthy_f

X = 'slash/exception_handling.py::'
M = 'slash/utils/exception_mark.py::'
A = 'slash/assertions.py::'
marks = z3.Function('marks_of', V, Int)
HANDLERS = Sym(V.o(z3.Int('EXCEPTION_HANDLERS')), 'list[cb:handler]')
IGNST = Sym(V.o(z3.Int('IGNORED_STATE')), 'obj:_IgnoredState')
skip_types = z3.Function('skip_types_of', V, V)
calls = T.fold('handler_calls', L, lambda info: nil, lambda info, r, h, l: L.snoc(r, vt(event('handler'), h, info)), (V,))


def registry():
    reg = base_registry()
    reg.globals['slash.exception_handling._EXCEPTION_HANDLERS'] = HANDLERS
    reg.globals['slash.exception_handling._ignored_state'] = IGNST
    reg.globals['slash.exception_handling.slash_context'] = reg.ctx
    reg.fields.update({('_HandlingException', '_fake_traceback'): 'opt[tuple[obj:TbProxy,obj:TbProxy]]', ('_HandlingException', '_kwargs'): 'dict[str,any]', ('_HandlingException', '_passthrough_types'): 'any',
                       ('_HandlingException', '_swallow_types'): 'any', ('_HandlingException', '_handled'): 'obj:_HandledException', ('_HandledException', 'exception'): 'any',
                       ('_CaughtContext', '_expected_classes'): 'tup', ('_CaughtContext', '_caught'): 'obj:_CaughtException', ('_CaughtException', 'exception'): 'any',
                       ('_CaughtContext', '_ignore_ctx'): 'opt[obj:thread_ignore_exception_context]', ('_CaughtContext', '_msg'): 'any', ('_CaughtContext', '_ensure_caught'): 'bool',
                       ('_IgnoredState', 'ignored_exception_types'): 'list[any]', ('thread_ignore_exception_context', '_exc_type'): 'any',
                       ('thread_ignore_exception_context', '_prev'): 'opt[list[any]]', ('TbProxy', 'tb_next'): 'any', ('TbProxy', '_tb'): 'any'})

    def ensure_marks(ex, st, a, kw, exc):
        yield st, Sym(V.o(marks(ex.to_v(a[0]))), ty('dict[any,any]'))
    reg.fn_models[M + '_ensure_exception_marks'] = ensure_marks

    def proxy(ex, st, a, kw, exc):
        # a pair of wrappers around the traceback; failing to look into the stack is a KeyError or an IndexError
        st = st.fork()
        if not a:
            for n in ('KeyError', 'IndexError'):
                ex.raise_builtin(st.fork(), n, exc)
        yield st, Tup([ex.new_obj(st, 'TbProxy'), ex.new_obj(st, 'TbProxy')])
    reg.fn_models['slash/utils/traceback_proxy.py::create_traceback_proxy'] = proxy

    def sentry(ex, st, a, kw, exc):
        yield st, NONEV
    reg.fn_models[X + 'capture_sentry_exception'] = sentry

    def absolute(ex, st, a, kw, exc):
        v = V.iv(ex.to_v(a.items[0]))
        yield st, Sym(vi(If(v >= 0, v, -v)), INT)
    reg.ext_models['builtins.abs'] = absolute

    def skips(ex, st, recv, a, kw, exc):
        yield st, Sym(skip_types(ex.to_v(recv)), ANY)
    reg.ext_methods[('Session', 'get_skip_exception_types')] = skips

    def handler(ex, st, v, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('handler'), v.term, *[ex.to_v(x) for x in a.items])
        bad = st.fork()
        e = Sym(fresh('handler_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, NONEV
    reg.callbacks['handler'] = handler
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c
    return reg


def exc_info(name):
    def make(ex, st):
        e = Sym(z3.Const(name + '_value', V), EXC)
        st.assume(ex.type_facts(e.term, EXC, st))
        return Tup([Sym(z3.Const(name + '_type', V), ANY), e, Sym(z3.Const(name + '_tb', V), ANY)])
    return make


def mark(s, e, name, pre=False):
    return z3.Select(z3.Select(s._h('Dv', pre), marks(e)), vs(name))


def marked(s, e, name, default, pre=True):
    m = mark(s, e, name, pre)
    return If(m == absent, default, m)


def mk_mark(s, name, pre=True):
    return marked(s, s.t(s.args['exc']), name, vb(False), pre)


class MarkException(Contract):
    key = M + 'mark_exception'
    params = {'exc': 'any', 'label': 'str', 'value': 'any'}
    touches = ('Dv', 'Dk')

    def mods(self, s):
        return [('Dv', marks(s.exc)), ('Dk', marks(s.exc))]

    def post(self, s):
        return [('the mark has this value, others stay', s._h('Dv', False)[marks(s.exc)] == z3.Store(s._h('Dv', True)[marks(s.exc)], s.label_, s.value)), ('the exception is returned', s.res == s.exc)]


class GetMark(Contract):
    key = M + 'get_exception_mark'
    params = {'exc': 'any', 'label_': 'str', 'default': 'any'}
    touches = ('Dv',)

    def post(self, s):
        m = s._h('Dv', True)[marks(s.exc)][s.label_]
        return [('the value of the mark, or the default', s.res == If(m == absent, s.default, m))]


MarkException.params = {'exc': 'any', 'label_': 'str', 'value': 'any'}


class SetsMark(Contract):
    """a function that puts one mark on an exception and returns it"""
    params = {'exc': 'any'}
    touches = ('Dv', 'Dk')
    mark, val = None, True

    def mods(self, s):
        return [('Dv', marks(s.exc)), ('Dk', marks(s.exc))]

    def post(self, s):
        return [('the %s mark is set, others stay' % self.mark, s._h('Dv', False)[marks(s.exc)] == z3.Store(s._h('Dv', True)[marks(s.exc)], vs(self.mark), vb(self.val))),
                ('the exception is returned', s.res == s.exc)]


class MarkHandled(SetsMark):
    key = X + 'mark_exception_handled'
    mark = 'handled'


class MarkFatal(SetsMark):
    key = X + 'mark_exception_fatal'
    mark = 'fatal'


class NoSwallow(SetsMark):
    key = X + 'noswallow'
    mark, val = 'swallow', False


class AsksMark(Contract):
    params = {'exc': 'any'}
    ret = 'bool'
    touches = ('Dv',)
    mark = None

    def post(self, s):
        return [('true exactly when the exception carries the %s mark' % self.mark, V.bv(s.res) == truthy_f(marked(s, s.exc, self.mark, vb(False))))]


class IsHandled(AsksMark):
    key = X + 'is_exception_handled'
    mark = 'handled'


class IsFatal(AsksMark):
    key = X + 'is_exception_fatal'
    mark = 'fatal'


def handled(s, e, pre):
    return truthy_f(marked(s, e, 'handled', vb(False), pre))


def handled_once(s, info, e, tr0, tr1):
    """all handlers called once, in order, or none because the exception was handled before"""
    return And(handled(s, e, False), If(handled(s, e, True), tr1 == tr0, tr1 == app(tr0, calls(info, s.lst(HANDLERS.term, True)))))


class HandleException(Contract):
    key = X + 'handle_exception'
    params = {'exc_info': exc_info('info'), 'context': 'any'}
    touches = ('Dv', 'Dk', 'L', 'G:tr')
    may_raise = True
    ret = 'any'

    def mods(self, s):
        e = self.exc(s)
        return [('Dv', marks(e)), ('Dk', marks(e)), ('G:tr', None)]

    def exc(self, s):
        return s.t(s.ex.untuple(s.args['exc_info'])[1])

    def folds(self, s):
        return [('handler_calls', L, lambda l: calls(s.exc_info, l))]

    def post(self, s):
        return [('every handler once in order, or nothing when it was handled before', handled_once(s, s.exc_info, self.exc(s), s.tr(True), s.tr()))]

    def exc_post(self, s):
        # a handler raised: the exception was not handled before, and counts as handled from then on
        e = self.exc(s)
        return [('only a handler raises, and only while handling for the first time', And(handled(s, e, False), Not(handled(s, e, True))))]

    def invariants(self, s, info):
        return []


def interrupts(e):
    return Or(*[isin(e, vk('cls ' + n)) for n in ('KeyboardInterrupt', 'TerminatedException', 'SystemExit')])


class Enter(Contract):
    key = X + '_HandlingException.__enter__'
    params = {'self': 'obj:_HandlingException'}
    touches = ('f:_handled',)

    def post(self, s):
        return [('the body is given the record of what was handled', s.res == s.f(s.self, '_handled', True))]


class Exit(Contract):
    """leaving a handling context by an exception"""
    key = X + '_HandlingException.__exit__'
    params = {'self': 'obj:_HandlingException', '*exc_info': exc_info('info')}
    touches = ('Dv', 'Dk', 'L', 'G:tr', 'f:exception', 'f:_handled', 'f:_swallow_types', 'f:_passthrough_types', 'f:_fake_traceback', 'f:_kwargs', 'f:session', 'f:tb_next', 'f:_tb')
    may_raise = True
    use_at_calls = False

    def exc(self, s):
        return s.t(s.args['*exc_info'].items[1])

    def info(self, s):
        cls, e, tb = [s.t(x) for x in s.args['*exc_info'].items]
        fake = s.f(s.self, '_fake_traceback', True)
        return If(fake == none, vt(cls, e, tb), vt(cls, e, s.f(L.last(L.init(V.tv(fake))), '_tb', True)))

    def mods(self, s):
        e = self.exc(s)
        return [('Dv', marks(e)), ('Dk', marks(e)), ('G:tr', None), ('f:exception', V.ov(s.f(s.self, '_handled', True))), ('f:tb_next', None)]

    def absorbed(self, s):
        e = self.exc(s)
        ses = s.f(s.ex.reg.ctx, 'session', True)
        never = Or(interrupts(e), And(ses != none, isin(e, skip_types(ses))))
        sw = s.f(s.self, '_swallow_types', True)
        return And(truthy_f(sw), isin(e, sw), Not(never))

    def post(self, s):
        e = self.exc(s)
        passes = isin(e, s.f(s.self, '_passthrough_types', True))
        untouched = And(s.tr() == s.tr(True), s._h('Dv', False)[marks(e)] == s._h('Dv', True)[marks(e)])
        h = s.f(s.self, '_handled', True)
        return [('an exception of a pass-through type is neither touched nor absorbed', Implies(passes, And(untouched, Not(truthy_f(s.res))))),
                ('any other is handled: all handlers once in order, none when it was handled before', Implies(Not(passes), handled_once(s, self.info(s), e, s.tr(True), s.tr()))),
                ('and recorded as the one this context handled', Implies(Not(passes), s.f(h, 'exception') == e)),
                ('it is absorbed exactly when its type was asked to be swallowed and it is neither a skip nor an interruption', Implies(Not(passes), truthy_f(s.res) == self.absorbed(s)))]

    def exc_post(self, s):
        e = self.exc(s)
        bad_call = And(isin(s.e, vk('cls TypeError')), s.tr() == s.tr(True), s._h('Dv', False)[marks(e)] == s._h('Dv', True)[marks(e)])
        return [('only a handler raises, and only when the exception had not been handled (or the options given to the context are unknown ones)', Or(bad_call, And(Not(handled(s, e, True)), handled(s, e, False), Not(isin(e, s.f(s.self, '_passthrough_types', True))))))]


class ExitQuiet(Contract):
    """leaving it without an exception"""
    key = X + '_HandlingException.__exit__'
    label_ = 'without an exception'
    params = {'self': 'obj:_HandlingException', '*exc_info': lambda ex, st: Tup([NONEV, NONEV, NONEV])}
    touches = ('Dv', 'Dk', 'G:tr')
    use_at_calls = False

    def label(self):
        return self.key + ' (' + self.label_ + ')'

    def post(self, s):
        return [('nothing is handled', s.tr() == s.tr(True)), ('nothing is absorbed', Not(truthy_f(s.res)))]


class IgnoreEnter(Contract):
    key = X + 'thread_ignore_exception_context.__enter__'
    params = {'self': 'obj:thread_ignore_exception_context'}
    touches = ('f:ignored_exception_types', 'f:_prev', 'f:_exc_type', 'L')

    def mods(self, s):
        return [('f:_prev', V.ov(s.self)), ('f:ignored_exception_types', V.ov(IGNST.term))]

    def pre(self, s):
        return [('the list in force existed before', s.oldobj(s.f(IGNST, 'ignored_exception_types', True)))]

    def post(self, s):
        was, now = s.f(IGNST, 'ignored_exception_types', True), s.f(IGNST, 'ignored_exception_types')
        return [('what was in force is kept for later', s.f(s.self, '_prev') == was), ('the type is added to those in force', s.lst(now) == L.snoc(s.lst(was, True), s.f(s.self, '_exc_type', True)))]


class IgnoreExit(Contract):
    key = X + 'thread_ignore_exception_context.__exit__'
    params = {'self': 'obj:thread_ignore_exception_context', '*_': exc_info('info')}
    touches = ('f:ignored_exception_types', 'f:_prev')
    use_at_calls = True

    def mods(self, s):
        return [('f:_prev', V.ov(s.self)), ('f:ignored_exception_types', V.ov(IGNST.term))]

    def post(self, s):
        return [('what was in force before is in force again', s.f(IGNST, 'ignored_exception_types') == s.f(s.self, '_prev', True)), ('nothing is absorbed', Not(truthy_f(s.res)))]


class Caught(Contract):
    touches = ('f:_expected_classes', 'f:_caught', 'f:_ignore_ctx', 'f:_msg', 'f:_ensure_caught', 'f:exception', 'f:ignored_exception_types', 'f:_prev', 'f:_exc_type')


class CaughtInit(Caught):
    key = A + '_CaughtContext.__init__'
    params = {'self': 'obj:_CaughtContext', 'message': 'any', 'exc_types': 'any', 'ensure_caught': 'bool'}
    ret = 'none'

    def mods(self, s):
        return [('f:' + n, V.ov(s.self)) for n in ('_expected_classes', '_caught', '_ignore_ctx', '_msg', '_ensure_caught')]

    def post(self, s):
        x = z3.Const('x!any', V)
        return [('the types given', ForAll([x], isin(x, s.f(s.self, '_expected_classes')) == isin(x, s.exc_types), patterns=[isin(x, s.f(s.self, '_expected_classes'))])),
                ('whether one must be caught', s.f(s.self, '_ensure_caught') == s.ensure_caught), ('the message', s.f(s.self, '_msg') == s.message)]


class CaughtEnter(Caught):
    key = A + '_CaughtContext.__enter__'
    params = {'self': 'obj:_CaughtContext'}
    use_at_calls = False

    def mods(self, s):
        return [('f:_ignore_ctx', V.ov(s.self)), ('f:ignored_exception_types', V.ov(IGNST.term))]

    def pre(self, s):
        return [('the list in force existed before', s.oldobj(s.f(IGNST, 'ignored_exception_types', True)))]

    def post(self, s):
        was, now = s.f(IGNST, 'ignored_exception_types', True), s.f(IGNST, 'ignored_exception_types')
        ic = s.f(s.self, '_ignore_ctx')
        return [('the body is given the record of what is caught', s.res == s.f(s.self, '_caught', True)),
                ('handling contexts inside let the expected types pass', s.lst(now) == L.snoc(s.lst(was, True), s.f(s.self, '_expected_classes', True))),
                ('what was in force is kept for later', And(s.newobj(ic), s.f(ic, '_prev') == was))]


class CaughtExit(Caught):
    key = A + '_CaughtContext.__exit__'
    params = {'self': 'obj:_CaughtContext', '*exc_info': exc_info('info')}
    use_at_calls = False

    def mods(self, s):
        return [('f:_prev', None), ('f:ignored_exception_types', V.ov(IGNST.term)), ('f:exception', V.ov(s.f(s.self, '_caught', True)))]

    def exc(self, s):
        return s.t(s.args['*exc_info'].items[1])

    def restored(self, s):
        ic = s.f(s.self, '_ignore_ctx', True)
        return Implies(ic != none, s.f(IGNST, 'ignored_exception_types') == s.f(ic, '_prev', True))

    def post(self, s):
        e = self.exc(s)
        exp = isin(e, s.f(s.self, '_expected_classes', True))
        return [('absorbed exactly when it is of an expected type', truthy_f(s.res) == exp),
                ('the exception absorbed is recorded', Implies(exp, s.f(s.f(s.self, '_caught', True), 'exception') == e)),
                ('the types ignored before are in force again', self.restored(s))]


class CaughtExitQuiet(CaughtExit):
    params = {'self': 'obj:_CaughtContext', '*exc_info': lambda ex, st: Tup([NONEV, NONEV, NONEV])}
    may_raise = True

    def label(self):
        return self.key + ' (without an exception)'

    def post(self, s):
        return [('no complaint only when nothing had to be caught', Not(V.bv(s.f(s.self, '_ensure_caught', True)))), ('the types ignored before are in force again', self.restored(s))]

    def exc_post(self, s):
        return [('a complaint only when something had to be caught', V.bv(s.f(s.self, '_ensure_caught', True))),
                ('it is an ExpectedExceptionNotCaught', isin(s.e, vk('cls ExpectedExceptionNotCaught'))), ('the types ignored before are in force again', self.restored(s))]


class Swallowing(Contract):
    key = X + 'get_exception_swallowing_context'
    params = {'report_to_sentry': 'bool'}
    touches = ('Dv', 'Dk', 'G:tr')
    may_raise = True

    def cm(self, ex, s, st, v):
        e = Sym(z3.Const('body_exception', V), EXC)
        bad = st.fork()
        bad.assume(ex.type_facts(e.term, EXC, bad))
        bad.assume(z3.Const('body_raised', Bool))
        ok = st.fork()
        ok.assume(Not(z3.Const('body_raised', Bool)))
        return [(ok, 'next', NONEV), (bad, 'raise', e)]

    def swallows(self, s):
        return truthy_f(marked(s, z3.Const('body_exception', V), 'swallow', vb(True)))

    def post(self, s):
        return [('an exception of the body is absorbed only when not marked otherwise', Implies(z3.Const('body_raised', Bool), self.swallows(s)))]

    def exc_post(self, s):
        return [('only the exception of the body gets out, and only when marked so', And(z3.Const('body_raised', Bool), s.e == z3.Const('body_exception', V), Not(self.swallows(s))))]


class HandlingExceptions(Contract):
    """what handling_exceptions asks of the context it returns"""
    key = X + 'handling_exceptions'
    params = {'fake_traceback': 'bool', '**kwargs': lambda ex, st: given(ex, st)}
    touches = ('f:_fake_traceback', 'f:_kwargs', 'f:_passthrough_types', 'f:_swallow_types', 'f:_handled', 'f:exception', 'L', 'Dv', 'Dk', 'f:ignored_exception_types')
    use_at_calls = False

    def mods(self, s):
        return [('Dv', V.ov(s.t(s.args['kwargs']))), ('Dk', V.ov(s.t(s.args['kwargs'])))]

    def kwarg(self, s, name, default):
        v = z3.Select(s.dmap(s.args['kwargs'], True), vs(name))
        return If(v == absent, default, v)

    def pre(self, s):
        kw = s.dmap(s.args['kwargs'], True)
        sel = lambda n: z3.Select(kw, vs(n))
        return [('swallow is a flag', Or(sel('swallow') == absent, V.is_b(sel('swallow')))),
                ('the types come as tuples', And(Or(sel('swallow_types') == absent, V.is_t(sel('swallow_types'))), Or(sel('passthrough_types') == absent, V.is_t(sel('passthrough_types')))))]

    def post(self, s):
        x = z3.Const('x!any', V)
        sw, pt = s.f(s.res, '_swallow_types'), s.f(s.res, '_passthrough_types')
        asked = V.bv(self.kwarg(s, 'swallow', vb(False)))
        empty = V.t(nil)
        return [('to swallow: the types given, and Exception when swallow is set',
                 ForAll([x], isin(x, sw) == Or(isin(x, self.kwarg(s, 'swallow_types', empty)), And(asked, isin(x, EX))), patterns=[isin(x, sw)])),
                ('to let pass: the types given and those the thread ignores',
                 ForAll([x], isin(x, pt) == Or(isin(x, self.kwarg(s, 'passthrough_types', empty)), isin(x, V.t(s.lst(s.f(IGNST, 'ignored_exception_types', True), True)))), patterns=[isin(x, pt)])),
                ('each context has a record of its own', s.newobj(s.f(s.res, '_handled')))]


def given(ex, st):
    v = Sym(z3.Const('kwargs_given', V), ty('dict[str,any]'), ('keyed', {'swallow': 'bool', 'swallow_types': 'tup', 'passthrough_types': 'tup'}))
    st.assume(ex.type_facts(v.term, v.ty, st))
    return v


class AlmostEqual(Contract):
    key = A + 'assert_almost_equal'
    params = {'a': 'int', 'b': 'int', 'delta': 'int'}
    may_raise = True
    ret = 'none'

    def within(self, s):
        d = V.iv(s.a) - V.iv(s.b)
        return If(d >= 0, d, -d) <= V.iv(s.delta)

    def post(self, s):
        return [('silent only when within delta', self.within(s))]

    def exc_post(self, s):
        return [('raises only when not within delta', Not(self.within(s))), ('an AssertionError', isin(s.e, vk('cls AssertionError')))]


CONTRACTS = [MarkException(), GetMark(), MarkHandled(), MarkFatal(), NoSwallow(), IsHandled(), IsFatal(), HandleException(), Enter(), Exit(), ExitQuiet(),
             IgnoreEnter(), IgnoreExit(), CaughtInit(), CaughtEnter(), CaughtExit(), CaughtExitQuiet(), Swallowing(), HandlingExceptions(), AlmostEqual()]
ASSUMPTIONS = ['each exception object has a dictionary of marks of its own (utils.exception_mark._ensure_exception_marks: attribute access by name on foreign objects)',
               'the handlers themselves (result update, debugger hooks) may raise anything and do not change marks of the exception handled',
               'create_traceback_proxy returns two wrappers or raises KeyError/IndexError', 'reporting to sentry does not raise',
               'numbers are mathematical integers in assert_almost_equal (floats: bounded harness)']
BOUNDED = ['_ensure_exception_marks (own marks per exception), disable_exception_swallowing as decorator, real tracebacks, nested contexts end to end: bounded harness']
