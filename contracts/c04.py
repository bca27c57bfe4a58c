"""C04: recording exceptions."""
from .common import *
from . import c05 as C5
from engine.exec import truthy_f

F = 'slash/core/result.py::Result.'
M = 'slash/utils/exception_mark.py::'
X = 'slash/exception_handling.py::'
NAME = vs('__slash_exc_marks__')
ns = z3.Function('namespace_of', V, Int)           # the instance dictionary of an exception
class_marks = z3.Function('class_marks_of', V, V)  # the marks dictionary found on the class of an exception, or none
captured = z3.Function('captured_error_of', V, V)  # Error.capture_exception of this exception (cached on it)
reason_of = z3.Function('skip_reason_of', V, V)
skip_types = C5.skip_types
FAIL = ('TestFailed', 'AssertionError', 'ExpectedExceptionNotCaught')
INT = ('KeyboardInterrupt', 'TerminatedException')


def isany(e, names):
    return Or(*[isin(e, vk('cls ' + n)) for n in names])


# ---- bookkeeping --------------------------------------------------------------------------------------------------------
def reg_marks():
    reg = base_registry()

    def vars_(ex, st, a, kw, exc):
        yield st, Sym(V.o(ns(ex.to_v(a.items[0]))), ty('dict[any,any]'))
    reg.ext_models['builtins.vars'] = vars_

    def type_(ex, st, a, kw, exc):
        yield st, Sym(cls_of(ex.to_v(a.items[0])), ANY)
    reg.ext_models['builtins.type'] = type_
    base_get = reg.ext_models['builtins.getattr']

    def getattr_(ex, st, a, kw, exc):
        o = a.items[0]
        if z3.is_app(ex.to_v(a.items[1])) and ex.to_v(a.items[1]).eq(NAME):
            t = ex.to_v(o)
            st = st.fork()
            # an exception shows its own marks first, then what its own attribute lookup shows
            own = z3.Select(ex.hget(st, 'Dv', ns(t)), NAME)
            yield st, ex.load(st, class_marks(t) if t.decl().eq(cls_of) else If(own != absent, own, shown(t)), ty('opt[dict[any,any]]'))
            return
        for r in base_get(ex, st, a, kw, exc):
            yield r
    reg.ext_models['builtins.getattr'] = getattr_

    def deepcopy(ex, st, a, kw, exc):
        v = a.items[0]
        p, q = ex.branch(st, ex.to_v(v) == none)
        if p is not None:
            yield p, NONEV
        if q is not None:
            q = q.fork()
            d = ex.new_dict(q, ANY, ANY)
            ex.hset(q, 'Dv', ex.oid(d), ex.hget(q, 'Dv', ex.oid(v)))
            ex.hset(q, 'Dk', ex.oid(d), ex.hget(q, 'Dk', ex.oid(v)))
            yield q, d
    reg.ext_models['copy.deepcopy'] = deepcopy

    def set_attr(ex, st, a, kw, exc):
        st = st.fork()
        i = ns(ex.to_v(a[0]))
        ex.hset(st, 'Dv', i, z3.Store(ex.hget(st, 'Dv', i), ex.to_v(a[1]), ex.to_v(a[2])))
        yield st, NONEV
    reg.fn_models['slash/utils/python.py::safe_set_attribute'] = set_attr
    reg.fields.update({('ExceptionMarker', 'name'): 'str'})
    return reg


shown = z3.Function('marks_found_by_attribute_lookup', V, V)
cls_of = z3.Function('class_whose_attributes_are_seen', V, V)


class Ensure(Contract):
    key = M + '_ensure_exception_marks'
    use_at_calls = False
    params = {'exc': 'exc'}
    ret = 'dict[any,any]'
    touches = ('Dv', 'Dk')

    def own(self, s, pre, e=None):
        return z3.Select(z3.Select(s._h('Dv', pre), ns(s.exc if e is None else e)), NAME)

    def pre(self, s):
        x, y = z3.Consts('mx my', V)
        g = lambda e: self.own(s, True, e)
        c = class_marks(cls_of(s.exc))
        return [('different exceptions have different bookkeeping', ForAll([x, y], Implies(And(g(x) == g(y), g(x) != absent), x == y), patterns=[z3.MultiPattern(g(x), g(y))])),
                ('namespaces are objects of their own', ForAll([x, y], Implies(ns(x) == ns(y), x == y), patterns=[z3.MultiPattern(ns(x), ns(y))])),
                ('they exist', ForAll([x], s.oldobj(V.o(ns(x))), patterns=[ns(x)])),
                ('it is an exception, not a class', Not(isin(s.exc, vk('cls type')))),
                ('a class shows marks or none', Or(c == none, And(s.oldobj(c)))),
                ('the bookkeeping is a dictionary, not a namespace', Or(g(s.exc) == absent, And(s.oldobj(g(s.exc)), V.ov(g(s.exc)) != ns(s.exc)))),
                ]

    def mods(self, s):
        return [('Dv', ns(s.exc)), ('Dk', ns(s.exc))]

    def post(self, s):
        o = self.own(s, True)
        c = class_marks(cls_of(s.exc))
        x = z3.Const('other_exception', V)
        return [('it is kept on the exception itself', self.own(s, False) == s.res),
                ('what was kept before is used', Implies(o != absent, And(s.res == o, s.dmap(s.res) == s.dmap(o, True)))),
                ('a first use makes a new one', Implies(o == absent, s.newobj(s.res))),
                ('which starts as that of the class', Implies(And(o == absent, c != none, s.dkeys(c, True) != nil), s.dmap(s.res) == s.dmap(c, True))),
                ('or empty', Implies(And(o == absent, Or(c == none, s.dkeys(c, True) == nil)), s.dmap(s.res) == z3.K(V, absent))),
                ('no other exception has the same one', Implies(And(x != s.exc, Implies(self.own(s, True, x) != absent, s.oldobj(self.own(s, True, x)))), self.own(s, False, x) != s.res))]


marks = C5.marks
ADDED = Sym(V.o(z3.Int('ADDED_TO_RESULT')), 'obj:ExceptionMarker')


def registry():
    reg = reg_marks()
    reg.fields.update({('Result', '_errors'): 'list[obj:Error]', ('Result', '_failures'): 'list[obj:Error]', ('Result', '_skips'): 'list[any]', ('Result', '_interrupted'): 'bool',
                       ('Session', 'results'): 'obj:SessionResults', ('SessionResults', 'global_result'): 'obj:GlobalResult',
                       ('Error', '_is_failure'): 'bool', ('ExceptionMarker', 'name'): 'str', ('Context', 'reporter'): 'obj:Reporter'})
    reg.globals['slash.core.result._ADDED_TO_RESULT'] = ADDED

    def skips(ex, st, recv, a, kw, exc):
        yield st, Sym(skip_types(ex.to_v(recv)), ANY)
    reg.ext_methods[('Session', 'get_skip_exception_types')] = skips
    pure_method(reg, 'Session', 'has_children', BOOL)

    def get_result(ex, st, recv, a, kw, exc):
        st = st.fork()
        bad = st.fork()
        ex.raise_builtin(bad, 'LookupError', exc)
        yield st, ex.load(st, result_of(ex.to_v(a.items[0])), 'obj:Result')
    reg.ext_methods[('SessionResults', 'get_result')] = get_result

    def capture(ex, st, a, kw, exc):
        info = kw.get('exc_info')
        if info is not None and isinstance(info, Sym) and not info.term.eq(none):
            p, q = ex.branch(st, info.term == none)
        else:
            p, q = (st, None) if info is None or isinstance(info, Sym) else (None, st)
        if p is not None:
            p = p.fork()
            p.assume(current_error == If(current == none, none, captured(current)))
            yield p, ex.load(p, current_error, 'opt[obj:Error]')
        if q is None:
            return
        st = q
        st = st.fork()
        e = ex.untuple(info)
        if e is None:
            got = fresh('captured', V)
            st.assume(got == captured(L.last(L.init(V.tv(ex.to_v(info))))))
            yield st, ex.load(st, got, 'opt[obj:Error]')
            return
        yield st, ex.load(st, captured(ex.to_v(e[1])), 'obj:Error')
    reg.fn_models['slash/core/error.py::Error.capture_exception'] = lambda ex, st, a, kw, exc: capture(ex, st, Tup(a[1:]) if isinstance(a, list) else a, kw, exc)

    def new_error(ex, st, a, kw, exc):
        st = st.fork()
        bad = st.fork()
        e = Sym(fresh('error_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        bad.assume(isin(e.term, vk('cls Exception')))
        exc.append((bad, e))
        yield st, ex.new_obj(st, 'Error')
    reg.ctors['Error'] = new_error

    def log_added(ex, st, recv, a, kw, exc):
        bad = st.fork()
        e = Sym(fresh('log_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, NONEV
    reg.ext_methods[('Error', 'log_added')] = log_added

    def forget(ex, st, recv, a, kw, exc):
        yield st, NONEV
    reg.ext_methods[('Error', 'forget_exc_info')] = forget

    def quietly(ex, st, args, kw, run):
        return run(st, NONEV)
    quietly.model_name = 'notify_if_slow_context'

    def slow(ex, st, a, kw, exc):
        yield st, CMExt(quietly, a, kw)
    reg.fn_models['slash/utils/interactive.py::notify_if_slow_context'] = slow
    def exc_info(ex, st, a, kw, exc):
        st = st.fork()
        st.assume(Or(current == none, ex.type_facts(current, EXC, st)))
        yield st, Tup([Sym(z3.Const('current_type', V), ANY), Sym(current, Ty('opt', [EXC])), Sym(z3.Const('current_tb', V), ANY)])
    reg.ext_models['sys.exc_info'] = exc_info
    install_handling(reg)
    reg.refine_classes = ('Error',)

    def ensure_marks(ex, st, a, kw, exc):
        # by the contract of this function: the dictionary kept on the exception, an object of its own
        yield st, Sym(V.o(marks(ex.to_v(a[0]))), ty('dict[any,any]'))
    reg.fn_models[M + '_ensure_exception_marks'] = ensure_marks
    for c in (C5.MarkException(), C5.GetMark()):
        reg.contracts[c.key] = c
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c
    return reg


result_of = z3.Function('result_of_test', V, V)
current = z3.Const('exception_being_handled', V)
current_error = z3.Const('error_of_the_current_exception', V)


class AddRaw(Contract):
    key = F + '_add_error'
    params = {'self': 'obj:Result', 'error_list': 'list[obj:Error]', 'error': 'any', 'frame_correction': 'any', 'exc_info': 'opt[tuple[any,exc,any]]', 'is_failure': 'bool', 'append': 'bool'}
    ret = 'obj:Error'
    may_raise = True
    touches = ('L', 'G:tr', 'f:_is_failure')

    def exc(self, s):
        """the exception given, or else the one being handled"""
        i = s.exc_info
        return If(i == none, current, L.last(L.init(V.tv(i))))

    def mods(self, s):
        return [('L', V.ov(s.error_list)), ('G:tr', None), ('f:_is_failure', None)]

    def post(self, s):
        l0 = s.lst(s.error_list, True)
        return [('the record is added at the end', s.lst(s.error_list) == If(V.bv(s.append), L.snoc(l0, s.res), l0)),
                ('without a record given it is that of the exception given', Implies(s.error == none, s.res == captured(self.exc(s)))),
                ('a failure is marked so', Implies(V.bv(s.is_failure), V.bv(s.f(s.res, '_is_failure'))))]

    def exc_post(self, s):
        l0, l1 = s.lst(s.error_list, True), s.lst(s.error_list)
        return [('nothing more than one record was added', Or(l1 == l0, And(V.bv(s.append), L.is_snoc(l1), L.init(l1) == l0)))]


class Add(Contract):
    """add_error / add_failure called with the exception to record"""
    params = {'self': 'obj:Result', 'given': 'any', 'frame_correction': 'any', 'exc_info': 'opt[tuple[any,exc,any]]', 'append': 'bool'}
    ret = 'obj:Error'
    may_raise = True
    touches = ('L', 'G:tr', 'f:_is_failure', 'f:test', 'f:reporter', 'f:_errors', 'f:_failures')

    def __init__(self, name, field, failure):
        Contract.__init__(self)
        self.key, self.field, self.failure = F + name, field, failure

    exc = AddRaw.exc

    def l(self, s, pre):
        return s.lst(s.f(s.self, self.field, True), pre)

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, self.field, True))), ('G:tr', None), ('f:_is_failure', None)]

    def post(self, s):
        return [('the record is added at the end of its list', self.l(s, False) == If(V.bv(s.append), L.snoc(self.l(s, True), s.res), self.l(s, True))),
                ('it is the record of the exception given', Implies(s.given == none, s.res == captured(self.exc(s)))),
                ('a failure is marked so', V.bv(s.f(s.res, '_is_failure')) if self.failure else z3.BoolVal(True))]

    def exc_post(self, s):
        l0, l1 = self.l(s, True), self.l(s, False)
        return [('nothing more than one record was added', Or(l1 == l0, And(V.bv(s.append), L.is_snoc(l1), L.init(l1) == l0)))]


class AddSkip(Contract):
    key = F + 'add_skip'
    params = {'self': 'obj:Result', 'reason': 'any', 'append': 'bool'}
    ret = 'none'
    touches = ('L', 'G:tr')

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, '_skips', True))), ('G:tr', None)]

    def post(self, s):
        l0 = s.lst(s.f(s.self, '_skips', True), True)
        return [('the reason is added at the end', s.lst(s.f(s.self, '_skips', True)) == If(V.bv(s.append), L.snoc(l0, s.reason), l0))]


class MarkInt(Contract):
    key = F + 'mark_interrupted'
    params = {'self': 'obj:Result'}
    ret = 'none'
    touches = ('f:_interrupted',)

    def mods(self, s):
        return [('f:_interrupted', V.ov(s.self))]

    def post(self, s):
        return [('marked', V.bv(s.f(s.self, '_interrupted')))]


def added(s, e, pre):
    return z3.Select(z3.Select(s._h('Dv', pre), marks(e)), s.f(ADDED.term, 'name', True))


class Marked(Contract):
    key = M + 'ExceptionMarker.is_exception_marked'
    params = {'self': 'obj:ExceptionMarker', 'exc': 'any'}
    ret = 'bool'
    touches = ('Dv',)

    def post(self, s):
        m = z3.Select(z3.Select(s._h('Dv', True), marks(s.exc)), s.f(s.self, 'name', True))
        return [('iff the mark is set', V.bv(s.res) == And(m != absent, truthy_f(m)))]


class Mark(Contract):
    key = M + 'ExceptionMarker.mark_exception'
    params = {'self': 'obj:ExceptionMarker', 'exc': 'any'}
    touches = ('Dv', 'Dk')

    def mods(self, s):
        return [('Dv', marks(s.exc)), ('Dk', marks(s.exc))]

    def post(self, s):
        return [('exactly this mark is set', z3.Select(s._h('Dv', False), marks(s.exc)) == z3.Store(z3.Select(s._h('Dv', True), marks(s.exc)), s.f(s.self, 'name', True), vb(True))),
                ('the exception is returned', s.res == s.exc)]


class AddException(Contract):
    key = F + 'add_exception'
    params = {'self': 'obj:Result', 'exc_info': C5.exc_info('info')}
    ret = 'any'
    may_raise = True
    glob = False
    touches = ('L', 'G:tr', 'f:_is_failure', 'Dv', 'Dk', 'f:_interrupted', 'f:_errors', 'f:_failures', 'f:_skips', 'f:name', 'f:session', 'f:results', 'f:global_result', 'f:reporter', 'f:test')

    def exc(self, s):
        return s.t(s.ex.untuple(s.args['exc_info'])[1])

    def session(self, s):
        return s.f(s.ex.reg.ctx.term, 'session', True)

    def global_result(self, s):
        return s.f(s.f(self.session(s), 'results', True), 'global_result', True)

    def target(self, s):
        return s.self

    def lists(self, s):
        return [s.f(s.self, f, True) for f in ('_errors', '_failures', '_skips')]

    def pre(self, s):
        e, f, k = self.lists(s)
        return [('the three lists of records are different objects', And(z3.Distinct(V.ov(e), V.ov(f), V.ov(k)), s.oldobj(e), s.oldobj(f), s.oldobj(k))),
                ('a session is active', self.session(s) != none)]

    def mods(self, s):
        e = self.exc(s)
        return [('Dv', marks(e)), ('Dk', marks(e)), ('G:tr', None), ('f:_is_failure', None), ('f:_interrupted', None)] + [('L', V.ov(l)) for l in self.lists(s)]

    def kinds(self, s):
        e = self.exc(s)
        fail = isany(e, FAIL)
        skip = And(Not(fail), isin(e, skip_types(self.session(s))))
        inter = And(Not(fail), Not(skip), isany(e, INT))
        ignored = And(Not(fail), Not(skip), Not(inter), isin(e, vk('cls GeneratorExit')))
        return fail, skip, inter, ignored

    def before(self, s):
        m = added(s, self.exc(s), True)
        return And(m != absent, truthy_f(m))

    def post(self, s):
        e = self.exc(s)
        fail, skip, inter, ignored = self.kinds(s)
        was = self.before(s)
        (e0, f0, k0), (e1, f1, k1) = [[s.lst(l, pre) for l in self.lists(s)] for pre in (True, False)]
        err = And(Not(fail), Not(skip), Not(inter), Not(ignored))
        cap = captured(e)
        ctx_int = V.bv(s.f(self.global_result(s), '_interrupted'))
        return [('an exception recorded before is not recorded again', Implies(was, And(e1 == e0, f1 == f0, k1 == k0, s.tr() == s.tr(True)))),
                ('from then on it counts as recorded', Or(was, added(s, e, False) == vb(True))),
                ('a failure exception is recorded as failure, once, last', Implies(Not(was), f1 == If(fail, L.snoc(f0, cap), f0))),
                ('any other is recorded as error, once, last', Implies(Not(was), e1 == If(err, L.snoc(e0, cap), e0))),
                ('a skip exception is recorded as skip', Implies(Not(was), If(skip, And(L.is_snoc(k1), L.init(k1) == k0), k1 == k0))),
                ('an interruption interrupts the session', Implies(And(Not(was), inter), ctx_int)),
                ('and the test', Implies(And(Not(was), inter, z3.BoolVal(not self.glob)), V.bv(s.f(self.target(s), '_interrupted'))))]

    def exc_post(self, s):
        fail, skip, inter, ignored = self.kinds(s)
        (e0, f0, k0), (e1, f1, k1) = [[s.lst(l, pre) for l in self.lists(s)] for pre in (True, False)]
        return [('only while recording for the first time', Not(self.before(s))),
                ('and never twice', And(Or(e1 == e0, And(L.is_snoc(e1), L.init(e1) == e0)), Or(f1 == f0, And(L.is_snoc(f1), L.init(f1) == f0)), Or(k1 == k0, And(L.is_snoc(k1), L.init(k1) == k0)))),
                ('it counts as recorded', added(s, self.exc(s), False) == vb(True))]


class AddToGlobal(AddException):
    """on the global result: the session is interrupted, no test is"""
    params = {'self': 'obj:GlobalResult', 'exc_info': C5.exc_info('info')}
    use_at_calls = False
    glob = True
    name = F + 'add_exception (of the global result)'


class Update(AddException):
    key = X + 'update_current_result'
    params = {'exc_info': C5.exc_info('info')}
    use_at_calls = False

    def target(self, s):
        t = s.f(s.ex.reg.ctx.term, 'test', True)
        return If(t != none, result_of(t), self.global_result(s))

    def lists(self, s):
        return [s.f(self.target(s), f, True) for f in ('_errors', '_failures', '_skips')]

    def pre(self, s):
        e, f, k = self.lists(s)
        return [('the three lists of records are different objects', Implies(self.session(s) != none, And(z3.Distinct(V.ov(e), V.ov(f), V.ov(k)), s.oldobj(e), s.oldobj(f), s.oldobj(k))))]

    def mods(self, s):
        e = self.exc(s)
        has = self.session(s) != none
        return [(c, If(has, i, -1)) if i is not None else (c, None) for c, i in AddException.mods(self, s)]

    def post(self, s):
        fail, skip, inter, ignored = self.kinds(s)
        has = self.session(s) != none
        out = []
        for n, p in AddException.post(self, s)[:6]:
            out.append((n + ' (on the result of the running test, or the global one)', Implies(has, p)))
        return out + [('without session nothing is recorded', Implies(Not(has), s.tr() == s.tr(True)))]

    def exc_post(self, s):
        return [('only with a session', self.session(s) != none)]


CONTRACTS = [Ensure(), AddRaw(), Add('add_error', '_errors', False), Add('add_failure', '_failures', True), AddSkip(), MarkInt(), Marked(), Mark(),
             AddException(), AddToGlobal(), Update()]
LEMMAS = []
BOUNDED = ['which layers handle an exception of each phase of a test, and where the records end up: bounded harness only']
ASSUMPTIONS = ['attributes can be set on exceptions (or in their __dict__)', 'Error.capture_exception gives one Error per exception object',
               'hook callbacks do not add records themselves']
