"""C17: tags."""
from .common import *

F = 'slash/core/tagging.py::'
NOTHING = vk('NOTHING')
NO_TAGS = V.o(z3.Int('NO_TAGS'))


def registry():
    reg = base_registry()
    reg.fields.update({('Tags', '_tags'): 'dict[any,any]', ('Target', '__slash_tags__'): 'obj:Tags'})
    reg.globals['sentinels.NOTHING'] = Sym(NOTHING, ANY)
    reg.globals['slash.core.tagging.NO_TAGS'] = Sym(NO_TAGS, 'obj:Tags')
    def vars_(ex, st, a, kw, exc):
        st = st.fork()
        d = ex.new_dict(st, STR, ANY)
        t = ex.to_v(a.items[0])
        ex.hset(st, 'Dv', ex.oid(d), z3.Store(fresh('vars', T_.MapS), vs('__slash_tags__'), If(own_f(t), vk('own tags'), absent)))
        yield st, d
    reg.ext_models['builtins.vars'] = vars_
    for c in CONTRACTS:
        reg.contracts[c.key] = c
    return reg


own_f = z3.Function('tags_in_own_namespace', V, Bool)     # the attribute is the class's own, not inherited


def compat(m, k, v):
    got = z3.Select(m, k)
    return Or(got == absent, got == NOTHING, got == v)


def conflicts():
    return any_fold('tag_conflict', lambda m, x: Not(compat(m, L.last(L.init(V.tv(x))), L.last(V.tv(x)))), (T_.MapS,))


class Base(Contract):
    params = {'self': 'obj:Tags'}
    touches = ('f:_tags', 'Dv', 'Dk')

    def m(self, s, obj=None, pre=False):
        return s.dmap(s.f(s.self if obj is None else obj, '_tags', pre), pre)

    def k(self, s, obj=None, pre=False):
        d = s.f(s.self if obj is None else obj, '_tags', pre)
        return z3.Select(s._h('Dk', pre), V.ov(d))

    def items(self, s, obj):
        return s.ex.reg.items_of(self.m(s, obj, True), self.k(s, obj, True))

    def wf(self, s, obj):
        """the map and the key list of a dict describe the same keys (true of every dict)"""
        x = z3.Const('kx', V)
        return [('the other operand is not the same dict', And(s.oldobj(s.f(obj, '_tags', True)), s.oldobj(s.f(s.self, '_tags', True))))]


class Contains(Base):
    key = F + 'Tags.__contains__'
    params = {'self': 'obj:Tags', 'tag_name': 'any'}
    ret = 'bool'

    def post(self, s):
        return [('a tag is present iff it was set', V.bv(s.res) == (z3.Select(self.m(s, None, True), s.tag_name) != absent))]


class GetItem(Base):
    key = F + 'Tags.__getitem__'
    params = {'self': 'obj:Tags', 'tag_name': 'any'}
    ret = 'any'
    may_raise = True

    def post(self, s):
        return [('a tag has the value given to it', s.res == z3.Select(self.m(s, None, True), s.tag_name)), ('it was set', s.res != absent)]

    def exc_post(self, s):
        return [('refused only when the tag was never set', z3.Select(self.m(s, None, True), s.tag_name) == absent)]


class SetItem(Base):
    key = F + 'Tags.__setitem__'
    params = {'self': 'obj:Tags', 'tag_name': 'any', 'value': 'any'}
    ret = 'none'

    def mods(self, s):
        d = V.ov(s.f(s.self, '_tags', True))
        return [('Dv', d), ('Dk', d)]

    def post(self, s):
        return [('exactly this tag gets this value', self.m(s) == z3.Store(self.m(s, None, True), s.tag_name, s.value))]


class Check(Base):
    key = F + 'Tags._check_conflicting_tags'
    params = {'self': 'obj:Tags', 'other': 'obj:Tags'}
    ret = 'none'
    may_raise = True

    def pre(self, s):
        return self.wf(s, s.other)

    def folds(self, s):
        f = conflicts()
        return [('tag_conflict', Bool, lambda l: f(self.m(s, None, True), l))]

    def verdict(self, s):
        return conflicts()(self.m(s, None, True), self.items(s, s.other))

    def post(self, s):
        return [('accepted only when no tag has two different values', Not(self.verdict(s)))]

    def exc_post(self, s):
        return [('refused only when some tag has two different values', self.verdict(s))]


class Add(Check):
    key = F + 'Tags.__add__'
    ret = 'obj:Tags'

    def folds(self, s):
        return []

    def pre(self, s):
        return self.wf(s, s.other)

    def post(self, s):
        none_ = s.other == NO_TAGS
        return [('adding no tags gives the same tags', Implies(none_, s.res == s.self)),
                ('accepted only when no tag has two different values', Implies(Not(none_), Not(self.verdict(s)))),
                ('the sum has the tags of both', Implies(Not(none_), self.m(s, s.res) == s.ex.reg.upd_map(self.m(s, None, True), self.m(s, s.other, True)))),
                ('the operands are untouched', And(self.m(s) == self.m(s, None, True), self.m(s, s.other) == self.m(s, s.other, True))),
                ('the sum shares nothing with the operands', Implies(Not(none_), And(s.newobj(s.res), s.newobj(s.f(s.res, '_tags')))))]

    def exc_post(self, s):
        return [('refused only when some tag has two different values', And(s.other != NO_TAGS, self.verdict(s)))]


class Copy(Base):
    key = F + 'Tags.copy'
    ret = 'obj:Tags'

    def pre(self, s):
        return [('own dict', s.oldobj(s.f(s.self, '_tags', True)))]

    def post(self, s):
        return [('the copy has the same tags', self.m(s, s.res) == self.m(s, None, True)),
                ('the copy has the same order', self.k(s, s.res) == self.k(s, None, True)),
                ('the original is untouched', self.m(s) == self.m(s, None, True)),
                ('the copy is independent', And(s.newobj(s.res), s.newobj(s.f(s.res, '_tags'))))]


class Update(Check):
    key = F + 'Tags.update'

    def folds(self, s):
        return []

    def pre(self, s):
        return self.wf(s, s.other)

    def mods(self, s):
        d = V.ov(s.f(s.self, '_tags', True))
        return [('Dv', d), ('Dk', d)]

    def post(self, s):
        none_ = s.other == NO_TAGS
        return [('updating with no tags changes nothing', Implies(none_, self.m(s) == self.m(s, None, True))),
                ('accepted only when no tag has two different values', Implies(Not(none_), Not(self.verdict(s)))),
                ('the tags of both', Implies(Not(none_), self.m(s) == s.ex.reg.upd_map(self.m(s, None, True), self.m(s, s.other, True))))]

    def exc_post(self, s):
        return [('refused only when some tag has two different values', And(s.other != NO_TAGS, self.verdict(s))),
                ('a refused update changes nothing', self.m(s) == self.m(s, None, True))]


class TagTest(Base):
    """functions and classes; a class may see the tags of its base class through attribute lookup"""
    key = F + 'tag_test'
    params = {'test': 'obj:Target', 'tag_name': 'any', 'tag_value': 'any'}
    ret = 'any'
    may_raise = True
    touches = ('f:_tags', 'Dv', 'Dk', 'f:__slash_tags__')

    def own(self, s, pre=False):
        return s.f(s.test, '__slash_tags__', pre)

    def is_class(self, s):
        return isin(s.test, vk('cls type'))

    def old_map(self, s):
        o = self.own(s, True)
        return If(o == absent, z3.K(V, absent), self.m(s, o, True))

    def pre(self, s):
        o = self.own(s, True)
        return [('own tags', Or(o == absent, And(s.oldobj(o), o != NO_TAGS, s.oldobj(s.f(o, '_tags', True))))),
                ]

    def mods(self, s):
        o = V.ov(self.own(s, True))
        d = V.ov(s.f(self.own(s, True), '_tags', True))
        return [('Dv', d), ('Dk', d), ('f:__slash_tags__', V.ov(s.test))]

    def post(self, s):
        return [('the tag is set, every other tag is as before', self.m(s, self.own(s)) == z3.Store(self.old_map(s), s.tag_name, s.tag_value)),
                ('tags seen through a base class stay as they were', Implies(And(self.own(s, True) != absent, self.is_class(s), Not(own_f(s.test))),
                                                                             And(self.m(s, self.own(s, True)) == self.old_map(s), s.newobj(self.own(s))))),
                ('it had no different value', compat(self.old_map(s), s.tag_name, s.tag_value)), ('returns the test', s.res == s.test)]

    def exc_post(self, s):
        return [('refused only for a second, different value', Not(compat(self.old_map(s), s.tag_name, s.tag_value))),
                ('a refused tag changes nothing', self.m(s, self.own(s)) == self.old_map(s))]


CONTRACTS = [Contains(), GetItem(), SetItem(), Check(), Add(), Copy(), Update(), TagTest()]
ASSUMPTIONS = ['tag names and values are represented by their equality class (== and hashing agree)']
BOUNDED = ['tag_test on classes, Fixture.get_tags, Test.get_tags, FunctionTest.get_tags, Variation, matches_pattern: bounded harness only']
