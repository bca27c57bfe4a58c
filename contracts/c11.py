"""C11: filter expressions."""
from .common import *
from . import c23

F = 'slash/utils/pattern_matching.py::'
holds = z3.Function('matcher_holds', V, V, Bool)


def registry():
    reg = base_registry()
    reg.fields.update({('BinaryMatching', 'matchers'): 'list[obj:AnyMatcher]', ('AndMatching', 'matchers'): 'list[obj:AnyMatcher]',
                       ('OrMatching', 'matchers'): 'list[obj:AnyMatcher]', ('Exclude', 'matcher'): 'obj:AnyMatcher', ('Matcher', '_matcher'): 'obj:AnyMatcher',
                       ('Include', 'pattern'): 'str', ('Include', 'only_tags'): 'bool', ('Include', 'exact'): 'bool',
                       ('TestMetadata', 'tags'): 'obj:AnyTags', ('TestMetadata', 'address'): 'str', ('TestMetadata', 'name'): 'str'})

    def matches(ex, st, recv, a, kw, exc):
        yield st, Sym(V.b(holds(recv.term, ex.to_v(a.items[0]))), BOOL)
    reg.ext_methods[('AnyMatcher', 'matches')] = matches

    def pattern(ex, st, recv, a, kw, exc):
        exact = ex.to_v(kw['exact']) if 'exact' in kw else (ex.to_v(a.items[1]) if len(a.items) > 1 else vb(False))
        yield st, Sym(V.b(tag_f(recv.term, ex.to_v(a.items[0]), exact)), BOOL)
    reg.ext_methods[('AnyTags', 'matches_pattern')] = pattern

    def ctor(ex, st, a, kw, exc):
        bad = st.fork()
        exc.append((bad, ex.new_exc(bad, Ext('pyparsing.ParseException'))))
        st = st.fork()
        o = ex.new_obj(st, 'AnyMatcher')
        st.assume(parsed(o.term) == ex.to_v(a.items[0]))
        yield st, o
    reg.ctors['Matcher'] = ctor
    reg.contracts[GetMatchers.key] = GetMatchers()
    reg.globals['sentinels.NOTHING'] = Sym(vk('NOTHING'), ANY)
    config_leaf(reg, 'run.filter_strings', 'list[str]')
    reg.fields.update({('Loader', '_cached_matchers'): 'any', ('RunnableTest', '__slash__'): 'obj:TestMetadata'})
    return reg


parsed = z3.Function('parsed_from', V, V)
tag_f = z3.Function('tags_match_pattern', V, V, V, Bool)


def all_f():
    return T.fold('all_hold', Bool, lambda m: z3.BoolVal(True), lambda m, r, x, l: And(r, holds(x, m)), (V,))


def any_f():
    return T.fold('any_holds', Bool, lambda m: z3.BoolVal(False), lambda m, r, x, l: Or(r, holds(x, m)), (V,))


def lemmas():
    if 'lemma all.prefix' in [n for n, _ in T.axioms]:
        return
    a, y = all_f(), any_f()
    T.lemma('all.prefix', (V, L), lambda m, p, l: Implies(And(T_.prefix(p, l), Not(a(m, p))), Not(a(m, l))), lambda m, p, l: [T_.prefix(p, l), a(m, p), a(m, l)])
    T.lemma('any.prefix', (V, L), lambda m, p, l: Implies(And(T_.prefix(p, l), y(m, p)), y(m, l)), lambda m, p, l: [T_.prefix(p, l), y(m, p), y(m, l)])
    T.lemma('all.mem', (V, V), lambda m, v, l: Implies(And(mem(v, l), Not(holds(v, m))), Not(a(m, l))), lambda m, v, l: [mem(v, l), a(m, l)])
    T.lemma('any.mem', (V, V), lambda m, v, l: Implies(And(mem(v, l), holds(v, m)), y(m, l)), lambda m, v, l: [mem(v, l), y(m, l)])


lemmas()


class Base(Contract):
    ret = 'bool'
    touches = ('L', 'f:matchers', 'f:matcher', 'f:_matcher', 'f:pattern', 'f:only_tags', 'f:exact', 'f:tags', 'f:address')


class And_(Base):
    key = F + 'BinaryMatching.matches'
    name = F + 'AndMatching.matches'
    params = {'self': 'obj:AndMatching', 'metadata': 'any'}

    def folds(self, s):
        return [('all_hold', Bool, lambda l: all_f()(s.metadata, l))]

    def post(self, s):
        return [('holds iff every operand holds', V.bv(s.res) == all_f()(s.metadata, s.lst(s.f(s.self, 'matchers', True), True)))]


class Or_(Base):
    key = F + 'BinaryMatching.matches'
    name = F + 'OrMatching.matches'
    params = {'self': 'obj:OrMatching', 'metadata': 'any'}

    def folds(self, s):
        return [('any_holds', Bool, lambda l: any_f()(s.metadata, l))]

    def post(self, s):
        return [('holds iff some operand holds', V.bv(s.res) == any_f()(s.metadata, s.lst(s.f(s.self, 'matchers', True), True)))]


class Not_(Base):
    key = F + 'Exclude.matches'
    params = {'self': 'obj:Exclude', 'metadata': 'any'}

    def post(self, s):
        return [('holds iff the operand does not', V.bv(s.res) == Not(holds(s.f(s.self, 'matcher', True), s.metadata)))]


class Whole(Base):
    key = F + 'Matcher.matches'
    params = {'self': 'obj:Matcher', 'metadata': 'any'}

    def post(self, s):
        return [('the expression as a whole', V.bv(s.res) == holds(s.f(s.self, '_matcher', True), s.metadata))]


class Word(Base):
    key = F + 'Include.matches'
    params = {'self': 'obj:Include', 'metadata': 'obj:TestMetadata'}

    def post(self, s):
        f = lambda n: s.f(s.self, n, True)
        tagged = tag_f(s.f(s.metadata, 'tags', True), f('pattern'), f('exact'))
        inaddr = str_in(f('pattern'), s.f(s.metadata, 'address', True))
        return [('a word matches tags or the address, a tag word only tags', V.bv(s.res) == Or(tagged, And(Not(V.bv(f('only_tags'))), inaddr)))]


class WordInit(Base):
    key = F + 'Include.__init__'
    params = {'self': 'obj:Include', 't': 'list[str]'}
    ret = 'none'
    touches = Base.touches

    def pre(self, s):
        l = s.lst(s.args['t'], True)
        return [('one token, or two', And(T_.length(l) >= 1, T_.length(l) <= 2))]

    def mods(self, s):
        return [('f:' + f, V.ov(s.self)) for f in ('pattern', 'exact', 'only_tags')]

    def post(self, s):
        l = s.lst(s.args['t'], True)
        tag = And(T_.length(l) == 2, L.last(L.init(l)) == vs('tag:'))
        f = lambda n: s.f(s.self, n)
        return [('a tag word looks only at tags, for the exact name', And(V.bv(f('only_tags')) == tag, V.bv(f('exact')) == tag)),
                ('the pattern is the word', f('pattern') == If(T_.length(l) == 2, If(tag, L.last(l), L.last(L.init(l))), L.last(l)))]


class BinInit(Base):
    key = F + 'BinaryMatching.__init__'
    params = {'self': 'obj:BinaryMatching', 'matchers': 'list[obj:AnyMatcher]'}
    ret = 'none'

    def mods(self, s):
        return [('f:matchers', V.ov(s.self))]

    def post(self, s):
        return [('the operands are the ones given', s.f(s.self, 'matchers') == s.matchers)]


def cached(s):
    m = s.f(s.self, '_cached_matchers', True)
    return [('the cache is empty or holds matchers', Or(m == vk('NOTHING'), m == none, s.oldobj(m))),
            ('the configuration is not made during the call', s.oldobj(cfg('run.filter_strings')))]


class Excluded(Contract):
    key = 'slash/loader.py::Loader._is_excluded'
    params = {'self': 'obj:Loader', 'test': 'obj:RunnableTest'}
    ret = 'bool'
    may_raise = True
    touches = ('L', 'f:_cached_matchers', 'f:__slash__')

    def pre(self, s):
        return cached(s)

    def folds(self, s):
        return [('all_hold', Bool, lambda l: all_f()(s.f(s.test, '__slash__', True), l))]

    def post(self, s):
        m = s.f(s.self, '_cached_matchers')
        md = s.f(s.test, '__slash__', True)
        return [('excluded iff some of the filters does not hold', V.bv(s.res) == And(m != none, Not(all_f()(md, s.lst(m)))))]

    def mods(self, s):
        return [('f:_cached_matchers', V.ov(s.self))]


class GetMatchers(Contract):
    use_at_calls = True
    key = 'slash/loader.py::Loader._get_matchers'
    params = {'self': 'obj:Loader'}
    ret = 'opt[list[obj:AnyMatcher]]'
    may_raise = True
    touches = ('L', 'f:_cached_matchers')

    def pre(self, s):
        return cached(s)

    def mods(self, s):
        return [('f:_cached_matchers', V.ov(s.self))]

    def post(self, s):
        m0 = s.f(s.self, '_cached_matchers', True)
        return [('no filters: nothing is filtered; otherwise matchers are made', Implies(m0 == vk('NOTHING'), (s.res == none) == (s.lst(cfg('run.filter_strings'), True) == nil))),
                ('the filters are parsed once', s.f(s.self, '_cached_matchers') == If(m0 == vk('NOTHING'), s.res, m0)),
                ('what is returned is what is kept', And(s.res == s.f(s.self, '_cached_matchers'), Or(s.res == none, V.is_o(s.res))))]


CONTRACTS = [And_(), Or_(), Not_(), Whole(), Word(), WordInit(), BinInit(), GetMatchers(), Excluded()]
ASSUMPTIONS = ['substring tests are an uninterpreted relation; matching of an operand is a pure function of the operand and the metadata (proved per operand kind)']
BOUNDED = ['parsing (pyparsing grammar, Include.__init__, from_tokens) and the selection of tests by the loader: bounded harness only']
