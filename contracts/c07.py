"""C07: requirements and exclusions."""
from .common import *
from engine.exec import truthy_f, strf

Q = 'slash/core/requirements.py::'
R = 'slash/runner.py::'
T7 = 'slash/core/runnable_test.py::RunnableTest.'
SKIP = vk('cls Skip')
excluded = z3.Function('combination_excluded', V, Bool)
called = z3.Function('predicate_result', V, V)
second = lambda t: L.last(V.tv(t))
first = lambda t: L.last(L.init(V.tv(t)))
HS = z3.ArraySort(Int, V)


def answer(hr, hm, x):
    """what a requirement says: its boolean, what its predicate returns, or the pair its predicate returns"""
    q, m = z3.Select(hr, V.ov(x)), z3.Select(hm, V.ov(x))
    return If(V.is_b(q), vt(q, m), If(V.is_t(called(q)), called(q), vt(called(q), m)))


def asking(hr, x, tr):
    q = z3.Select(hr, V.ov(x))
    return If(V.is_b(q), tr, L.snoc(tr, vt(event('asked'), q)))


unmet_of = T.fold('unmet_requirements', L, lambda hr, hm: nil, lambda hr, hm, r, x, l: If(truthy_f(first(answer(hr, hm, x))), r, L.snoc(r, vt(x, second(answer(hr, hm, x))))), (HS, HS))
asked = T.fold('requirements_asked', L, lambda t, hr: t, lambda t, hr, r, x, l: asking(hr, x, r), (L, HS))


def is_skip(x):
    return isin(x, SKIP)


def own_text(x):
    """the text of an unmet requirement: its message, or the requirement"""
    return V.s(strf(V.kv(vk('str format')), mk(vs('Unmet requirement: {}'), If(truthy_f(second(x)), second(x), first(x)))))


def reason_of(h, x):
    return If(is_skip(first(x)), z3.Select(h, V.ov(first(x))), own_text(x))


def message_of(h, x):
    return If(And(is_skip(first(x)), Not(truthy_f(z3.Select(h, V.ov(first(x)))))), vs('Skipped'), reason_of(h, x))


msgs = T.fold('messages_of', T_.SetS, lambda h: z3.K(V, z3.BoolVal(False)), lambda h, r, x, l: z3.Store(r, message_of(h, x), True), (HS,))
set_elems = z3.Function('set_elems', T_.SetS, L)
skips = T.fold('skips_added', L, lambda t, res, h: t, lambda t, res, h, r, x, l: L.snoc(r, vt(event('add_skip'), res, reason_of(h, x))), (L, V, HS))


def registry():
    reg = base_registry()
    reg.fields.update({('Requirement', '_req'): 'any', ('Requirement', '_message'): 'any', ('Requirement', 'reason'): 'any', ('Thing', KEYA): 'opt[tuple[int,list[any]]]'})

    def add_skip(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('add_skip'), recv.term, ex.to_v(a.items[0]))
        yield st, NONEV
    reg.ext_methods[('Result', 'add_skip')] = add_skip

    def reqs(ex, st, recv, a, kw, exc):
        st = st.fork()
        yield st, ex.new_list(st, requirements_of(ex.to_v(recv)), 'obj:Requirement')
    reg.ext_methods[('RunnableTest', 'get_requirements')] = reqs
    def predicate(ex, st, f, a, kw, exc):
        # a predicate may answer anything; a tuple it returns is a pair (documented); it may raise
        st = st.fork()
        ex.emit(st, event('asked'), f.term)
        bad = st.fork()
        e = Sym(fresh('predicate_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        v = called(f.term)
        st.assume(Implies(V.is_t(v), And(L.is_snoc(V.tv(v)), L.is_snoc(L.init(V.tv(v))), L.init(L.init(V.tv(v))) == nil)))
        yield st, Sym(v, ANY)
    reg.callbacks['*'] = predicate
    base_getattr = reg.ext_models['builtins.getattr']

    def attr(ex, st, a, kw, exc):
        o, n = a.items[0], a.items[1]
        n = n.term
        if not (isinstance(o, Sym) and o.ty.kind == 'obj' and o.ty.name == 'Thing'):
            for r in base_getattr(ex, st, a, kw, exc):
                yield r
            return
        if n.eq(vs('__mro__')):
            yield st, Seq(mro_of(o.term), ty('obj:Thing'))
            return
        assert n.eq(vs(KEYA)), n
        v0 = ex.hget(st, 'f:' + KEYA, ex.oid(o))
        v = If(v0 == absent, inherited(o.term), v0)
        st = st.fork()
        # what is inherited carries the identity of another object, which is still alive
        st.assume(Implies(And(v0 == absent, v != none), first(v) != vi(py_id(o.term))))
        yield st, ex.load(st, v, 'opt[tuple[int,list[any]]]')
    reg.ext_models['builtins.getattr'] = attr

    def under(ex, st, a, kw, exc):
        st = st.fork()
        yield st, ex.load(st, underlying(ex.to_v(a[0])), 'obj:Thing')
    reg.fn_models['slash/utils/python.py::resolve_underlying_function'] = under
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c

    def is_excluded(ex, st, a, kw, exc):
        bad = st.fork()
        e = Sym(fresh('exclusion_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, Sym(vb(excluded(ex.to_v(a[0]))), BOOL)
    reg.fn_models['slash/core/exclusions.py::is_excluded'] = is_excluded
    return reg


requirements_of = z3.Function('requirements_of', V, L)


class Unmet(Contract):
    key = T7 + 'get_unmet_requirements'
    params = {'self': 'obj:RunnableTest'}
    ret = 'list[tuple[obj:Requirement,any]]'
    may_raise = True
    touches = ('L', 'f:_req', 'f:_message', 'G:tr')

    def mods(self, s):
        return [('G:tr', None)]

    def hs(self, s):
        return s._h('f:_req', True), s._h('f:_message', True)

    def post(self, s):
        rs = requirements_of(s.self)
        hr, hm = self.hs(s)
        return [('the unmet ones, in order, each with its message', s.lst(s.res) == unmet_of(hr, hm, rs)), ('each one asked once', s.tr() == asked(s.tr(True), hr, rs)), ('a new list', s.newobj(s.res))]

    def folds(self, s):
        hr, hm = self.hs(s)
        return [('unmet', L, lambda l: unmet_of(hr, hm, l)), ('asked', L, lambda l: asked(s.tr(True), hr, l))]


class IsMet(Contract):
    key = Q + 'Requirement.is_met'
    params = {'self': 'obj:Requirement'}
    ret = 'tuple[any,any]'
    may_raise = True
    touches = ('f:_req', 'f:_message', 'G:tr')

    def mods(self, s):
        return [('G:tr', None)]

    def post(self, s):
        hr, hm = s._h('f:_req', True), s._h('f:_message', True)
        return [('asked once', s.tr() == asking(hr, s.self, s.tr(True))), ('the answer', s.res == answer(hr, hm, s.self))]


class Process(Contract):
    key = R + '_process_requirements_and_exclusions'
    params = {'test': 'obj:RunnableTest'}
    ret = 'bool'
    may_raise = True
    touches = ('L', 'f:_req', 'f:_message', 'f:reason', 'f:result', 'S', 'G:tr')

    def mods(self, s):
        return [('G:tr', None)]

    def unmet(self, s):
        return unmet_of(s._h('f:_req', True), s._h('f:_message', True), requirements_of(s.test))

    def start(self, s):
        return asked(s.tr(True), s._h('f:_req', True), requirements_of(s.test))

    def skipped(self, s, l):
        return skips(self.start(s), s.f(CTX, 'result', True), s._h('f:reason', True), l)

    def folds(self, s):
        return [('skips', L, lambda l: self.skipped(s, l)), ('messages', T_.SetS, lambda l: msgs(s._h('f:reason', True), l))]

    def post(self, s):
        un = self.unmet(s)
        d = lambda what: And(L.is_snoc(s.tr()), L.init(s.tr()) == what, V.is_t(L.last(s.tr())), first(L.last(s.tr())) == event('hook test_avoided'))
        return [('the test is to run exactly when nothing is unmet and it is not excluded', V.bv(s.res) == And(un == nil, Not(excluded(s.test)))),
                ('nothing happens to a test which is to run', Implies(V.bv(s.res), s.tr() == self.start(s))),
                ('a skip for each unmet requirement, with its reason, then one notification', Implies(un != nil, d(self.skipped(s, un)))),
                ('the notification carries the messages of the unmet requirements', Implies(un != nil, second(L.last(s.tr())) == V.s(strf(V.kv(vk('str join')), mk(vs(', '), V.t(set_elems(msgs(s._h('f:reason', True), un)))))))),
                ('one skip and one notification for an excluded test', Implies(And(un == nil, excluded(s.test)), And(d(L.snoc(self.start(s), vt(event('add_skip'), s.f(CTX, 'result', True), EXCL))), second(L.last(s.tr())) == EXCL)))]


underlying = z3.Function('underlying_function', V, V)
inherited = z3.Function('inherited_attribute', V, V)
mro_of = z3.Function('mro_of', V, L)
py_id = z3.Function('py_id', V, Int)
KEYA = '__slash_requirements__'


def own(s, t, pre=True):
    """the attribute of the thing itself, or the one it inherits"""
    v = s.f(t, KEYA, pre)
    return If(v == absent, inherited(t), v)


def is_own(s, t, pre=True):
    v = own(s, t, pre)
    return And(v != none, first(v) == vi(py_id(t)))


def content(s, t, pre=True):
    v = own(s, t, pre)
    return If(v == none, nil, s.lst(second(v), pre))


class ListOf(Contract):
    key = Q + '_get_requirements_list'
    params = {'thing': 'obj:Thing', 'create': 'bool'}
    ret = 'list[any]'
    touches = ('f:' + KEYA, 'L')

    def mods(self, s):
        c = z3.simplify(V.bv(s.create))
        return [('f:' + KEYA, V.ov(underlying(s.thing)))] if not z3.is_false(c) else []

    def post(self, s):
        t = underlying(s.thing)
        return [('what was required of the thing, or of what it inherits from', s.lst(s.res) == content(s, t)),
                ('the own list, or a new one', If(is_own(s, t), s.res == second(own(s, t)), s.newobj(s.res))),
                ('which becomes its own', Implies(V.bv(s.create), And(is_own(s, t, False), second(own(s, t, False)) == s.res))),
                ('only looking changes nothing', Implies(Or(Not(V.bv(s.create)), is_own(s, t)), s.f(t, KEYA) == s.f(t, KEYA, True)))]


class Decorate(Contract):
    key = Q + 'requires.decorator'
    params = {'func_or_class': 'obj:Thing'}
    ret = 'any'
    touches = ('f:' + KEYA, 'L')
    free = {'req': 'obj:Requirement'}

    def mods(self, s):
        t = underlying(s.func_or_class)
        return [('f:' + KEYA, V.ov(t)), ('L', If(is_own(s, t), V.ov(second(own(s, t))), -1))]

    def post(self, s):
        t = underlying(s.func_or_class)
        return [('the requirement is added to the own list', And(is_own(s, t, False), s.lst(second(own(s, t, False))) == L.snoc(content(s, t), s.req))),
                ('a list that is not its own stays out of it', Implies(Not(is_own(s, t)), s.newobj(second(own(s, t, False))))),
                ('the decorated thing is returned', s.res == s.func_or_class)]


def add_new(r, x):
    return If(mem(x, r), r, L.snoc(r, x))


merge = T.fold('merged', L, lambda b: b, lambda b, r, x, l: add_new(r, x), (L,))
HL = z3.ArraySort(Int, L)


def content_h(ha, hl, x):
    v0 = z3.Select(ha, V.ov(underlying(x)))
    v = If(v0 == absent, inherited(underlying(x)), v0)
    return If(v == none, nil, z3.Select(hl, V.ov(second(v))))


merge_all = T.fold('merged_all', L, lambda b, ha, hl: b, lambda b, ha, hl, r, x, l: merge(r, content_h(ha, hl, x)), (L, HS, HL))


class GetRequirements(Contract):
    key = Q + 'get_requirements'
    params = {'test': 'obj:Thing'}
    ret = 'list[any]'
    touches = ('f:' + KEYA, 'L')

    def pre(self, s):
        x = z3.Const('x', V)
        old = lambda t: Or(t == none, V.ov(second(t)) < s.alloc(True))
        return [('the lists were made before', ForAll([x], old(own(s, x)), patterns=[inherited(x)]))]

    def hs(self, s):
        return content_h(s._h('f:' + KEYA, True), s._h('L', True), s.test), s._h('f:' + KEYA, True), s._h('L', True)

    def folds(self, s):
        return [('all', L, lambda l: merge_all(*(self.hs(s) + (l,))))]

    def entry_folds(self, s):
        return [('merge', L, lambda e, l: merge(e, l))]

    def keep(self, n):
        return n.endswith('= all(prefix)') or n.endswith('= merge from entry')

    def post(self, s):
        return [('its own, then those of its bases, each once; no list is shared or changed', And(s.newobj(s.res), s.lst(s.res) == merge_all(*(self.hs(s) + (mro_of(s.test),)))))]


class Exclusions(Process):
    key = R + '_process_exclusions'

    def unmet(self, s):
        return nil

    def start(self, s):
        return s.tr(True)


EXCL = vs('Excluded due to parameter combination exclusion rules')
CTX = V.o(z3.Int('CTX'))
CONTRACTS = [ListOf(), Decorate(), GetRequirements(), Unmet(), IsMet(), Exclusions(), Process()]
LEMMAS = []
BOUNDED = ['is_excluded (which rules apply, resolution of dotted names), requirement lists of fixtures, inheritance through real classes, whole runs: bounded harness']
