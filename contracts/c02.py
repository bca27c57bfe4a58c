"""C02: session, module and test scopes."""
from .common import *

F = 'slash/core/scope_manager.py::ScopeManager.'
SES, MOD, TEST = vs('session'), vs('module'), vs('test')
EXn = vk('cls Exception')


def ev(kind, scope):
    return vt(event(kind), scope)


def pushed(tr, scope):
    return L.snoc(L.snoc(tr, ev('fixtures push', scope)), ev('cleanups push', scope))


def registry():
    reg = base_registry()
    reg.fields.update({('ScopeManager', '_session'): 'obj:Session', ('ScopeManager', '_scopes'): 'list[str]', ('ScopeManager', '_last_module'): 'opt[str]',
                       ('ScopeManager', '_last_test'): 'any', ('Session', 'fixture_store'): 'obj:FixtureStore_', ('Session', 'cleanups'): 'obj:CleanupManager_',
                       ('Test', '__slash__'): 'obj:Metadata', ('Metadata', 'module_name'): 'opt[str]'})

    def op(name, may_raise):
        def h(ex, st, recv, a, kw, exc):
            st = st.fork()
            ex.emit(st, event(name), ex.to_v(a.items[0]))
            if may_raise:
                bad = st.fork()
                e = Sym(fresh('closing_exc', V), EXC)
                bad.assume(ex.type_facts(e.term, EXC, bad))
                exc.append((bad, e))
            yield st, NONEV
        return h
    for cls, nm in (('FixtureStore_', 'fixtures'), ('CleanupManager_', 'cleanups')):
        reg.ext_methods[(cls, 'push_scope')] = op(nm + ' push', False)
        reg.ext_methods[(cls, 'pop_scope')] = op(nm + ' pop', True)
    def closing(ex, st, f, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('call'), f.term)
        bad = st.fork()
        e = Sym(fresh('closing_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, NONEV
    reg.callbacks['closing'] = closing
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c
    return reg


class Base(Contract):
    params = {'self': 'obj:ScopeManager'}
    ret = 'none'
    touches = ('f:_scopes', 'f:_last_module', 'f:_last_test', 'f:_session', 'f:fixture_store', 'f:cleanups', 'f:__slash__', 'f:module_name', 'L', 'G:tr')

    def stack(self, s, pre=False):
        return s.lst(s.f(s.self, '_scopes', True), pre)

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, '_scopes', True))), ('G:tr', None)]


def closed(tr0, tr1, scope, e=None):
    """both sides were closed; when closing the cleanups was interrupted (no ordinary exception), the fixtures may be left to the interruption"""
    c = L.snoc(tr0, ev('cleanups pop', scope))
    both = tr1 == L.snoc(c, ev('fixtures pop', scope))
    if e is None:
        return both
    return Or(both, And(tr1 == c, Not(isin(e, EXn))))


class Push(Base):
    key = F + '_push_scope'
    params = {'self': 'obj:ScopeManager', 'scope': 'str'}

    def post(self, s):
        return [('the scope is opened innermost', self.stack(s) == L.snoc(self.stack(s, True), s.scope)),
                ('for fixtures and cleanups alike', s.tr() == pushed(s.tr(True), s.scope))]


class Pop(Base):
    key = F + '_pop_scope'
    params = {'self': 'obj:ScopeManager', 'scope': 'str'}
    may_raise = True

    def post(self, s):
        st0 = self.stack(s, True)
        return [('exactly the innermost scope is closed', And(L.is_snoc(st0), L.last(st0) == s.scope, self.stack(s) == L.init(st0))),
                ('for cleanups and fixtures', closed(s.tr(True), s.tr(), s.scope))]

    def exc_post(self, s):
        st0 = self.stack(s, True)
        ok = And(L.is_snoc(st0), L.last(st0) == s.scope)
        return [('at most the innermost scope is closed', Or(self.stack(s) == st0, And(L.is_snoc(st0), self.stack(s) == L.init(st0)))),
                ('a matching scope is closed', Implies(ok, self.stack(s) == L.init(st0))),
                ('closing one side raising does not keep the other from being closed', Implies(ok, closed(s.tr(True), s.tr(), s.scope, s.e))),
                ('a mismatch closes nothing for cleanups and fixtures', Implies(Not(ok), s.tr() == s.tr(True)))]


class Begin(Base):
    key = F + 'begin_test'
    params = {'self': 'obj:ScopeManager', 'test': 'obj:Test'}
    may_raise = True

    def last(self, s, pre=False):
        return s.f(s.self, '_last_module', pre)

    def modname(self, s):
        return s.f(s.f(s.test, '__slash__', True), 'module_name', True)

    def pre(self, s):
        st = self.stack(s, True)
        return [('no scope, only the session, or session and module are open (no test runs)',
                 Or(st == nil, st == mk(SES), And(st == mk(SES, MOD), self.last(s, True) != none)))]

    def mods(self, s):
        return Base.mods(self, s) + [('f:_last_module', V.ov(s.self)), ('f:_last_test', V.ov(s.self))]

    def change(self, s):
        st = self.stack(s, True)
        return And(st == mk(SES, MOD), self.last(s, True) != self.modname(s))

    def post(self, s):
        st, tr, n = self.stack(s, True), s.tr(True), self.modname(s)
        keep = And(st == mk(SES, MOD), self.last(s, True) == n)
        a = If(st == nil, pushed(tr, SES), tr)
        b = If(self.change(s), L.snoc(L.snoc(a, ev('cleanups pop', MOD)), ev('fixtures pop', MOD)), a)
        c = If(keep, b, pushed(b, MOD))
        return [('session, module and test are open', self.stack(s) == mk(SES, MOD, TEST)),
                ('exactly what is missing is opened; the module is closed and reopened iff it changes', s.tr() == pushed(c, TEST)),
                ('the open module is that of the test', self.last(s) == n), ('the test is the current one', s.f(s.self, '_last_test') == s.test)]

    def exc_post(self, s):
        st = self.stack(s, True)
        return [('raises only for a test without module name or when closing the previous module raises; the rest stays usable',
                 Or(And(self.stack(s) == st, s.tr() == s.tr(True)),
                    And(self.change(s), self.stack(s) == mk(SES), closed(s.tr(True), s.tr(), MOD, s.e))))]


class End(Base):
    key = F + 'end_test'
    params = {'self': 'obj:ScopeManager', 'test': 'obj:Test'}
    may_raise = True

    def last(self, s):
        return s.f(s.self, '_last_test', True)

    def post(self, s):
        st0 = self.stack(s, True)
        return [('only the test that began', s.test == self.last(s)), ('exactly the test scope is closed', And(L.is_snoc(st0), L.last(st0) == TEST, self.stack(s) == L.init(st0))),
                ('for cleanups and fixtures', closed(s.tr(True), s.tr(), TEST))]

    def exc_post(self, s):
        st0 = self.stack(s, True)
        ok = And(s.test == self.last(s), L.is_snoc(st0), L.last(st0) == TEST)
        return [('the end of another test closes nothing', Implies(s.test != self.last(s), And(self.stack(s) == st0, s.tr() == s.tr(True)))),
                ('otherwise the test scope is closed', Implies(ok, And(self.stack(s) == L.init(st0), closed(s.tr(True), s.tr(), TEST, s.e))))]


class Current(Base):
    key = F + 'current_scope'
    ret = 'opt[str]'
    use_at_calls = False

    def mods(self, s):
        return []

    def post(self, s):
        st0 = self.stack(s, True)
        return [('the innermost open scope', s.res == If(st0 == nil, none, L.last(st0)))]


class Stack(Base):
    key = F + 'get_current_stack'
    ret = 'list[str]'

    def mods(self, s):
        return []

    def post(self, s):
        return [('a copy of the stack', And(s.lst(s.res) == self.stack(s, True), s.newobj(s.res)))]


class Active(Base):
    key = F + 'has_active_scopes'
    ret = 'bool'

    def mods(self, s):
        return []

    def post(self, s):
        return [('true iff a scope is open', V.bv(s.res) == (self.stack(s, True) != nil))]


def calls():
    return T.fold('calls_of', L, lambda: nil, lambda r, x, l: L.snoc(r, vt(event('call'), x)))


class CallAll(Contract):
    key = 'slash/utils/python.py::call_all_raise_first'
    params = {'_funcs': 'list[cb:closing]'}
    ret = 'none'
    may_raise = True
    use_at_calls = False
    touches = ('L', 'G:tr')

    def pre(self, s):
        return [('a list made earlier', s.oldobj(s._funcs))]

    def mods(self, s):
        return [('G:tr', None)]

    def folds(self, s):
        return [('calls', L, lambda l: calls()(l))]

    def post(self, s):
        return [('every function is called once, in order', s.tr() == app(s.tr(True), calls()(s.lst(s._funcs, True))))]

    def exc_post(self, s):
        return [('an ordinary exception does not keep the later functions from being called',
                 Implies(isin(s.e, EXn), s.tr() == app(s.tr(True), calls()(s.lst(s._funcs, True)))))]


CONTRACTS = [Push(), Pop(), Begin(), End(), Current(), Stack(), Active(), CallAll()]
ASSUMPTIONS = ['closing a scope of the fixture store or the cleanup manager may raise anything but does not itself open or close scopes of the scope manager',
               'opening a scope of the fixture store or the cleanup manager does not raise (the latter is proved under C01)']
BOUNDED = ['flush_remaining_scopes and the runner driving the scope manager: bounded harness only']
