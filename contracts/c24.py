"""C24: details and facts."""
from .common import *

F = 'slash/core/details.py::Details.'


def registry():
    reg = base_registry()
    reg.fields.update({('Details', '_details'): 'dict[any,any]', ('Details', '_set_callback'): 'opt[cb:observer]'})

    def observer(ex, st, f, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('observed'), *[ex.to_v(x) for x in a.items])
        s2 = st.fork()
        e = Sym(fresh('cbexc', V), EXC)
        s2.assume(ex.type_facts(e.term, EXC, s2))
        exc.append((s2, e))
        yield st, NONEV
    reg.callbacks['observer'] = observer
    return reg


class Base(Contract):
    touches = ('f:_details', 'Dv', 'Dk', 'L', 'G:tr')

    def m(self, s, pre=False):
        return s.dmap(s.f(s.self, '_details', True), pre)

    def k(self, s, pre=False):
        return z3.Select(s._h('Dk', pre), V.ov(s.f(s.self, '_details', True)))

    def cb(self, s):
        return s.f(s.self, '_set_callback', True)


class Set(Base):
    key = F + 'set'
    params = {'self': 'obj:Details', 'key': 'any', 'value': 'any'}
    ret = 'none'
    may_raise = True

    def mods(self, s):
        d = V.ov(s.f(s.self, '_details', True))
        return [('Dv', d), ('Dk', d), ('G:tr', None)]

    def post(self, s):
        k0, m0 = self.k(s, True), self.m(s, True)
        return [('the key has the value set, other keys are as before', self.m(s) == z3.Store(m0, s.key, s.value)),
                ('keys stay in first-set order', self.k(s) == If(z3.Select(m0, s.key) == absent, L.snoc(k0, s.key), k0)),
                ('the observer is told exactly once, of this key and value',
                 s.tr() == If(self.cb(s) == none, s.tr(True), L.snoc(s.tr(True), vt(event('observed'), s.key, s.value))))]

    def exc_post(self, s):
        return [('only the observer raises', self.cb(s) != none),
                ('the observer was told exactly once', s.tr() == L.snoc(s.tr(True), vt(event('observed'), s.key, s.value)))]


class Append(Base):
    key = F + 'append'
    params = {'self': 'obj:Details', 'key': 'any', 'value': 'any'}
    ret = 'none'
    may_raise = True

    def pre(self, s):
        return [('own container', s.oldobj(s.f(s.self, '_details', True)))]

    def mods(self, s):
        d = V.ov(s.f(s.self, '_details', True))
        old = z3.Select(self.m(s, True), s.key)
        return [('Dv', d), ('Dk', d), ('L', V.ov(old)), ('G:tr', None)]

    def told(self, s):
        now = z3.Select(self.m(s), s.key)
        return s.tr() == If(self.cb(s) == none, s.tr(True), L.snoc(s.tr(True), vt(event('observed'), s.key, now)))

    def post(self, s):
        m0 = self.m(s, True)
        old = z3.Select(m0, s.key)
        now = z3.Select(self.m(s), s.key)
        k0 = self.k(s, True)
        x = z3.Const('anykey', V)
        return [('the value is appended after the earlier ones', s.lst(now) == L.snoc(If(old == absent, nil, s.lst(old, True)), s.value)),
                ('a new key gets a list of its own', Implies(old == absent, s.newobj(now))), ('an existing list is kept', Implies(old != absent, now == old)),
                ('other keys are as before', Implies(x != s.key, z3.Select(self.m(s), x) == z3.Select(m0, x))),
                ('keys stay in first-set order', self.k(s) == If(old == absent, L.snoc(k0, s.key), k0)),
                ('the observer is told exactly once, of this key and the list', self.told(s))]

    def exc_post(self, s):
        return [('a refused append changes nothing, or the observer raised after the append',
                 Or(And(self.m(s) == self.m(s, True), self.k(s) == self.k(s, True), s.tr() == s.tr(True)), And(self.cb(s) != none, self.told(s))))]


class All(Base):
    key = F + 'all'
    params = {'self': 'obj:Details'}
    ret = 'dict[any,any]'

    def pre(self, s):
        return [('own container', s.oldobj(s.f(s.self, '_details', True)))]

    def post(self, s):
        return [('everything set', s.dmap(s.res) == self.m(s, True)), ('in order', z3.Select(s._h('Dk', False), V.ov(s.res)) == self.k(s, True)),
                ('changing the view does not change the details', s.newobj(s.res)),
                ('reading changes nothing', And(self.m(s) == self.m(s, True), self.k(s) == self.k(s, True)))]


class Contains(Base):
    key = F + '__contains__'
    params = {'self': 'obj:Details', 'key': 'any'}
    ret = 'bool'

    def post(self, s):
        return [('true iff the key was set', V.bv(s.res) == (z3.Select(self.m(s, True), s.key) != absent))]


class NonZero(Base):
    key = F + '__nonzero__'
    params = {'self': 'obj:Details'}
    ret = 'bool'

    def post(self, s):
        return [('true iff something was set', V.bv(s.res) == (self.k(s, True) != nil))]


class Init(Base):
    key = F + '__init__'
    params = {'self': 'obj:Details', 'set_callback': 'opt[cb:observer]'}
    ret = 'none'
    touches = ('f:_details', 'f:_set_callback', 'Dv', 'Dk')

    def mods(self, s):
        return [('f:_details', V.ov(s.self)), ('f:_set_callback', V.ov(s.self))]

    def post(self, s):
        d = s.f(s.self, '_details')
        return [('a new object starts empty', And(s.dmap(d) == z3.K(V, absent), z3.Select(s._h('Dk', False), V.ov(d)) == nil)),
                ('details of one result never appear in another', s.newobj(d)), ('the observer is the one given', s.f(s.self, '_set_callback') == s.set_callback)]


CONTRACTS = [Set(), Append(), All(), Contains(), NonZero(), Init()]
ASSUMPTIONS = ['keys are represented by their equality class', 'the observer does not touch the details object']
BOUNDED = ['Result wiring (facts observer, set_test_detail), serialization of details: bounded harness only']
