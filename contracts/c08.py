"""C08: parametrization."""
from .common import *
from engine.exec import strf

VF = 'slash/core/variation_factory.py::VariationFactory.'
VA = 'slash/core/variation.py::'
P = 'slash/core/fixtures/parameters.py::'
FS = 'slash/core/fixtures/fixture_store.py::FixtureStore.'
NOTHING = vk('NOTHING')
HS = z3.ArraySort(Int, V)
HL = z3.ArraySort(Int, L)
called = z3.Function('result_of_transform', V, V, V)
tags_union = z3.Function('tags_union', V, V, V)
last, init, nth = L.last, L.init, T_.nth
second = lambda t: last(V.tv(t))
first = lambda t: last(init(V.tv(t)))

zip_of = z3.Function('zip_of', L, L, L)
_a, _b, _x, _y = z3.Const('a', L), z3.Const('b', L), z3.Const('x', V), z3.Const('y', V)
product_of = z3.Function('product_of', L, L)
norm = z3.Function('plain_values', L, L)


def theory():
    if 'zip.snoc' in [n for n, _ in T.axioms]:
        return
    T.ax('zip.nil', zip_of(nil, nil) == nil)
    T.ax('zip.snoc', ForAll([_a, _b, _x, _y], Implies(length(_a) == length(_b), zip_of(L.snoc(_a, _x), L.snoc(_b, _y)) == L.snoc(zip_of(_a, _b), vt(_x, _y))),
                            patterns=[zip_of(L.snoc(_a, _x), L.snoc(_b, _y))]))


models_items = T.fold('items_of', L, lambda m: nil, lambda m, rr, x, l: L.snoc(rr, vt(x, z3.Select(m, x))), (T_.MapS,))
nat = lambda v: And(V.is_i(v), V.iv(v) >= 0)
nats = T.fold('all_natural', Bool, lambda: z3.BoolVal(True), lambda r, x, l: And(r, nat(x)))
nats2 = T.fold('all_second_natural', Bool, lambda: z3.BoolVal(True), lambda r, x, l: And(r, nat(second(x))))
theory()


def id_of(hinfo, hid, p):
    return z3.Select(hid, V.ov(z3.Select(hinfo, V.ov(p))))


chosen = T.fold('chosen_indices', T_.MapS, lambda hi, hd: z3.K(V, absent), lambda hi, hd, r, x, l: z3.Store(r, id_of(hi, hd, first(x)), second(x)), (HS, HS))
T.lemma('zip.natural', (L,), lambda a, b: Implies(And(length(a) == length(b), nats(b)), And(nats2(zip_of(a, b)), length(L.init(a)) >= 0)), lambda a, b: [zip_of(a, b)])
T.lemma('chosen.natural', (HS, HS, V), lambda hi, hd, k, l: Implies(nats2(l), Or(z3.Select(chosen(hi, hd, l), k) == absent, nat(z3.Select(chosen(hi, hd, l), k)))), lambda hi, hd, k, l: [z3.Select(chosen(hi, hd, l), k)])
counts = T.fold('value_counts', L, lambda hv, hl: nil, lambda hv, hl, r, x, l: L.snoc(r, V.t(T_.upto(length(z3.Select(hl, V.ov(z3.Select(hv, V.ov(x)))))))), (HS, HL))
uptos = T.fold('all_ranges', Bool, lambda: z3.BoolVal(True), lambda r, x, l: And(r, V.is_t(x), V.tv(x) == T_.upto(length(V.tv(x)))))
T.lemma('upto.len', (), lambda l: And(length(T_.upto(length(l))) == length(l), length(l) >= 0), lambda l: [T_.upto(length(l))])
T.lemma('counts.len', (HS, HL), lambda hv, hl, l: length(counts(hv, hl, l)) == length(l), lambda hv, hl, l: [counts(hv, hl, l)])
T.lemma('counts.ranges', (HS, HL), lambda hv, hl, l: uptos(counts(hv, hl, l)), lambda hv, hl, l: [counts(hv, hl, l)])
ids = T.fold('ids_of', T_.MapS, lambda m, hi, hd: z3.K(V, absent), lambda m, hi, hd, r, x, l: z3.Store(r, first(x), z3.Select(m, id_of(hi, hd, second(x)))), (T_.MapS, HS, HS))
vals = T.fold('values_of', T_.MapS, lambda m, hi, hd, hv, hl, ht, hw: z3.K(V, absent),
              lambda m, hi, hd, hv, hl, ht, hw, r, x, l: z3.Store(r, first(x), called(z3.Select(ht, V.ov(second(x))), z3.Select(hw, V.ov(nth(z3.Select(hl, V.ov(z3.Select(hv, V.ov(second(x))))), V.iv(z3.Select(m, id_of(hi, hd, second(x))))))))),
              (T_.MapS, HS, HS, HS, HL, HS, HS))
labels = T.fold('labels_of', T_.MapS, lambda m, hi, hd, hv, hl, hb: z3.K(V, absent),
                lambda m, hi, hd, hv, hl, hb, r, x, l: z3.Store(r, first(x), z3.Select(hb, V.ov(nth(z3.Select(hl, V.ov(z3.Select(hv, V.ov(second(x))))), V.iv(z3.Select(m, id_of(hi, hd, second(x)))))))),
                (T_.MapS, HS, HS, HS, HL, HS))
tag_trace = T.fold('tags_merged', L, lambda t, g, m, hi, hd, hv, hl, ht: t,
                   lambda t, g, m, hi, hd, hv, hl, ht, r, x, l: L.snoc(r, vt(event('merged'), g, z3.Select(ht, V.ov(nth(z3.Select(hl, V.ov(z3.Select(hv, V.ov(second(x))))), V.iv(z3.Select(m, id_of(hi, hd, second(x))))))))),
                   (L, V, T_.MapS, HS, HS, HS, HL, HS))
plain = T.fold('plain_value_list', L, lambda h: nil, lambda h, r, x, l: L.snoc(r, z3.Select(h, V.ov(x))), (HS,))
own_params = T.fold('params_by_argument', L, lambda m: nil, lambda m, r, x, l: If(Or(z3.Select(m, x) == absent, z3.Select(m, x) == none), r, L.snoc(r, vt(x, z3.Select(m, x)))), (T_.MapS,))
repaired = T.fold('pairs_again', L, lambda: nil, lambda r, x, l: L.snoc(r, vt(first(x), second(x))))
T.lemma('pairs_again.items', (T_.MapS,), lambda m, l: repaired(models_items(m, l)) == models_items(m, l), lambda m, l: [repaired(models_items(m, l))])
def value_of(m, hi, hd, hv, hl, ht, hw, p):
    return called(z3.Select(ht, V.ov(p)), z3.Select(hw, V.ov(nth(z3.Select(hl, V.ov(z3.Select(hv, V.ov(p)))), V.iv(z3.Select(m, id_of(hi, hd, p)))))))


given_map = z3.Function('as_given', T_.MapS, V)
POINT = (T_.MapS, HS, HS, HS, HL, HS, HS)
filled = T.fold('filled_arguments', T_.MapS, lambda k, *ps: k, lambda k, m, hi, hd, hv, hl, ht, hw, r, x, l: If(z3.Select(r, first(x)) == absent, z3.Store(r, first(x), value_of(m, hi, hd, hv, hl, ht, hw, second(x))), r), (T_.MapS,) + POINT)


def registry():
    reg = base_registry()
    reg.fields.update({
        ('VariationFactory', '_store'): 'obj:FixtureStore', ('VariationFactory', '_param_name_bindings'): 'dict[str,obj:Parametrization]', ('VariationFactory', '_needed_fixtures'): 'list[obj:FixtureBase]',
        ('Parametrization', 'info'): 'obj:FixtureInfo', ('Parametrization', 'values'): 'list[obj:ParametrizationValue]', ('Parametrization', 'transform'): 'any', ('Parametrization', 'path'): 'any',
        ('FixtureBase', 'values'): 'list[obj:ParametrizationValue]', ('FixtureBase', 'info'): 'obj:FixtureInfo', ('FixtureInfo', 'id'): 'int', ('FixtureInfo', 'scope'): 'int', ('ParametrizationValue', 'value'): 'any', ('ParametrizationValue', 'label'): 'any', ('ParametrizationValue', 'tags'): 'obj:Tags',
        ('Variation', '_store'): 'obj:FixtureStore', ('Variation', 'param_value_indices'): 'dict[int,int]', ('Variation', 'id'): 'dict[str,int]', ('Variation', 'values'): 'dict[str,any]',
        ('Variation', 'labels'): 'dict[str,any]', ('Variation', 'tags'): 'obj:Tags', ('Variation', 'safe_repr'): 'any',
        ('Tags', '_tags'): 'dict[any,any]', ('ParameterizationInfo', '_params'): 'dict[str,obj:Parametrization]', ('ParameterizationInfo', '_extra_params'): 'dict[str,obj:Parametrization]',
        ('ParameterizationInfo', '_argument_names'): 'list[str]', ('Variations', '_current_variation'): 'opt[obj:Variation]', ('Session', 'variations'): 'obj:Variations',
        ('FixtureStore', '_fixtures_by_id'): 'dict[int,obj:FixtureBase]'})
    reg.own_fields |= {('Variation', 'values'), ('Variation', 'tags'), ('Variation', 'id')}
    reg.globals['sentinels.NOTHING'] = Sym(NOTHING, ANY)
    reg.refine_classes = ('ParametrizationValue',)
    reg.globals['slash.ctx.session'] = Sym(V.o(z3.Int('SESSION')), 'obj:Session')

    def zip_(ex, st, a, kw, exc):
        s, t = ex.seq(a.items[0], st), ex.seq(a.items[1], st)
        ex.oblige('zipped sequences have the same length', st, length(s.term) == length(t.term))
        yield st, Seq(zip_of(s.term, t.term), Ty('tuple', [s.ety, t.ety]))
    reg.ext_models['builtins.zip'] = zip_

    def product(ex, st, a, kw, exc):
        t = a.term if isinstance(a, Seq) else mk(*[ex.to_v(x) for x in a.items])
        x = z3.Const('x', V)
        st = st.fork()
        # the library's contract: one tuple for every choice of one element of every operand
        st.assume(ForAll([x], Implies(mem(x, product_of(t)), And(V.is_t(x), length(V.tv(x)) == length(t), Implies(uptos(t), nats(V.tv(x))))), patterns=[mem(x, product_of(t))]))
        yield st, Seq(product_of(t), Ty('tup', [INT]))
    reg.ext_models['itertools.product'] = product

    def update(ex, st, recv, a, kw, exc):
        bad = st.fork()
        e = Sym(fresh('tag_conflict', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        st = st.fork()
        ex.emit(st, event('merged'), recv.term, ex.to_v(a.items[0]))
        yield st, NONEV

    def oset(ex, st, a, kw, exc):
        st = st.fork()
        yield st, ex.new_list(st, nil, INT)
    reg.ctors['OrderedSet'] = oset
    reg.ext_models['ordered_set.OrderedSet'] = oset

    def oset_update(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'L', ex.oid(r), join(ex.hget(st, 'L', ex.oid(r)), ex.seq(a.items[0], st).term))
        yield st, NONEV
    reg.ext_methods[('list', 'update')] = oset_update       # an OrderedSet is a list without repetitions

    def all_ids(ex, st, a, kw, exc):
        bad = st.fork()
        e = Sym(fresh('unresolved', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, Seq(needed_by(ex.to_v(a[1])), INT)
    reg.fn_models[FS + 'get_all_needed_fixture_ids'] = all_ids
    reg.fn_models['slash/core/tagging.py::Tags.update'] = lambda ex, st, a, kw, exc: update(ex, st, a[0], Tup(list(a[1:])), kw, exc)
    reg.fn_models[VA + 'Variation._get_safe_repr'] = lambda ex, st, a, kw, exc: iter([(st, Sym(fresh('safe_repr', V), ANY))])

    def activate(ex, st, a, kw, exc):
        var = ex.hget(st, 'f:_current_variation', V.ov(ex.hget(st, 'f:variations', z3.Int('SESSION'))))
        st = st.fork()
        ex.emit(st, event('autouse activated'), var)
        bad = st.fork()
        e = Sym(fresh('autouse_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, NONEV
    reg.fn_models[FS + 'activate_autouse_fixtures_in_namespace'] = activate
    reg.fn_models['slash/exception_handling.py::mark_exception_frame_correction'] = lambda ex, st, a, kw, exc: iter([(st, a[0])])
    reg.fn_models[P + 'ParametrizationValue._validate_label'] = lambda ex, st, a, kw, exc: iter([(st, NONEV)])

    def transform(ex, st, f, a, kw, exc):
        if '**' in kw:      # the parametrized function itself: an event with what it is given; anything may come out
            st = st.fork()
            d = kw['**']
            ex.gset(st, 'G:calls', L.snoc(ex.ensure(st, 'G:calls'), vt(f.term, V.t(ex.seq(a, st).term), given_map(ex.hget(st, 'Dv', ex.oid(d))))))
            bad = st.fork()
            e = Sym(fresh('function_exc', V), EXC)
            bad.assume(ex.type_facts(e.term, EXC, bad))
            exc.append((bad, e))
            yield st, Sym(fresh('function_result', V), ANY)
            return
        if kw or len(a.items) != 1:
            raise Unsupported('call of an unknown value')
        bad = st.fork()
        e = Sym(fresh('transform_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, Sym(called(f.term, ex.to_v(a.items[0])), ANY)
    reg.callbacks['*'] = transform
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c
    return reg


class Build(Contract):
    key = VF + '_build_variation'
    params = {'self': 'obj:VariationFactory', 'parametrizations': 'list[obj:Parametrization]', 'value_indices': lambda ex, st: Sym(z3.Const('value_indices', V), Ty('tup', [INT]))}
    ret = 'obj:Variation'
    may_raise = True
    touches = ('Dk', 'Dv', 'f:info', 'f:id', 'f:param_value_indices', 'G:tr')
    at_return = ('G:built', lambda s: vt(s.value_indices, s.res))

    def pre(self, s):
        return [('one index for every parameter', And(V.is_t(s.value_indices), length(V.tv(s.value_indices)) == length(s.lst(s.parametrizations, True)))), ('indices count from the front', nats(V.tv(s.value_indices)))]

    def mods(self, s):
        return [('G:tr', None)]

    def hs(self, s, pre=True):
        return s._h('f:info', pre), s._h('f:id', pre)

    def pairs(self, s):
        return zip_of(s.lst(s.parametrizations, True), V.tv(s.value_indices))

    def post(self, s):
        hi, hd = self.hs(s)
        return [('every parameter has the index chosen for it', s.dmap(s.f(s.res, 'param_value_indices')) == chosen(hi, hd, self.pairs(s))), ('a new variation', s.newobj(s.res))]

    def folds(self, s):
        hi, hd = self.hs(s)
        return [('chosen', T_.MapS, lambda l: chosen(hi, hd, l))]


class VInit(Contract):
    key = VA + 'Variation.__init__'
    params = {'self': 'obj:Variation', 'store': 'obj:FixtureStore', 'param_value_indices': 'dict[int,int]', 'param_name_bindings': 'dict[str,obj:Parametrization]'}
    ret = 'none'
    may_raise = True
    touches = ('f:_store', 'f:param_value_indices', 'f:Variation.id', 'f:Variation.values', 'f:labels', 'f:Variation.tags', 'f:safe_repr', 'f:info', 'f:id', 'f:values', 'f:tags', 'f:transform', 'f:value', 'Dv', 'Dk', 'L', 'f:label', 'G:tr')

    def pre(self, s):
        m = s.dmap(s.param_value_indices, True)
        i = z3.Const('i', V)
        return [('indices count from the front', ForAll([i], Or(z3.Select(m, i) == absent, nat(z3.Select(m, i))), patterns=[z3.Select(m, i)]))]

    def mods(self, s):
        o = V.ov(s.self)
        return [('f:' + n, o) for n in ('_store', 'param_value_indices', 'Variation.id', 'Variation.values', 'labels', 'Variation.tags', 'safe_repr')] + [('G:tr', None)]

    def args(self, s):
        return s.dmap(s.param_value_indices, True), s._h('f:info', True), s._h('f:id', True)

    def bindings(self, s):
        return s.ex.reg.items_of(s.dmap(s.param_name_bindings, True), s.dkeys(s.param_name_bindings, True))

    def post(self, s):
        a, bs = self.args(s), self.bindings(s)
        lay = (s._h('f:values', True), s._h('L', True))
        return [('it keeps the chosen indices', s.f(s.self, 'param_value_indices') == s.param_value_indices),
                ('its identity is the chosen index of every bound parameter', s.dmap(s.f(s.self, 'Variation.id')) == ids(*(a + (bs,)))),
                ('its values are the ones at the chosen indices', s.dmap(s.f(s.self, 'Variation.values')) == vals(*(a + lay + (s._h('f:transform', True), s._h('f:value', True), bs)))),
                ('its labels are the ones at the chosen indices', s.dmap(s.f(s.self, 'labels')) == labels(*(a + lay + (s._h('f:label', True), bs)))),
                ('the tags of the chosen values are merged', s.tr() == tag_trace(s.tr(True), s.f(s.self, 'Variation.tags'), *(a + lay + (s._h('f:tags', True), bs)))),
                ('its maps and tags are its own', And([s.newobj(s.f(s.self, n)) for n in ('Variation.id', 'Variation.values', 'labels', 'Variation.tags')]))]

    def exc_post(self, s):
        return []

    def folds(self, s):
        a = self.args(s)
        lay = (s._h('f:values', True), s._h('L', True))
        return [('ids', T_.MapS, lambda l: ids(*(a + (l,)))), ('vals', T_.MapS, lambda l: vals(*(a + lay + (s._h('f:transform', True), s._h('f:value', True), l)))), ('labels', T_.MapS, lambda l: labels(*(a + lay + (s._h('f:label', True), l))))]

    def invariants(self, s, info):
        a = self.args(s)
        lay = (s._h('f:values', True), s._h('L', True))
        ex, st0 = info.ex, info.st0
        tags = ex.hget(st0, 'f:Variation.tags', V.ov(s.self))
        return [('the tags of the prefix are merged', lambda p, st: ex.ensure(st, 'G:tr') == tag_trace(s.tr(True), tags, *(a + lay + (s._h('f:tags', True), p))))]


firsts = T.fold('firsts', L, lambda: nil, lambda r, x, l: L.snoc(r, first(x)))
seconds = T.fold('seconds', L, lambda: nil, lambda r, x, l: L.snoc(r, second(x)))
needed_by = z3.Function('parameters_needed_by', V, L)
join = T.fold('ordered_union', L, lambda a: a, lambda a, r, x, l: If(mem(x, r), r, L.snoc(r, x)), (L,))
all_needed = T.fold('all_parameters_needed', L, lambda: nil, lambda r, x, l: join(r, needed_by(x)))
by_id = T.fold('fixtures_by_id', L, lambda m: nil, lambda m, r, x, l: L.snoc(r, z3.Select(m, x)), (T_.MapS,))


class IterVariations(Contract):
    key = VF + 'iter_variations'
    params = {'self': 'obj:VariationFactory'}
    ret = 'iter[obj:Variation]'
    yields = 'obj:Variation'
    may_raise = True
    use_at_calls = False
    touches = ('L', 'Dk', 'Dv', 'f:_needed_fixtures', 'f:_store', 'f:_fixtures_by_id', 'f:values', 'f:_param_name_bindings', 'f:param_value_indices', 'f:info', 'f:id', 'G:built', 'G:tr')

    def pre(self, s):
        p = z3.Const('p', V)
        hv = s._h('f:values', True)
        return [('ghost: nothing was built yet', s.g('built', True) == nil),
                ('the list of needed fixtures is no list of values', ForAll([p], And(V.ov(z3.Select(hv, V.ov(p))) < s.alloc(), V.ov(z3.Select(hv, V.ov(p))) != V.ov(s.f(s.self, '_needed_fixtures', True))), patterns=[z3.Select(hv, V.ov(p))]))]

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, '_needed_fixtures', True))), ('G:tr', None), ('G:built', None)]

    def parts(self, s, pre=False):
        m = s.dmap(s.f(s.f(s.self, '_store', True), '_fixtures_by_id', True), True)
        params = by_id(m, all_needed(s.lst(s.f(s.self, '_needed_fixtures', True), pre)))
        return params, counts(s._h('f:values', True), s._h('L', True), params)

    def post(self, s):
        need = all_needed(s.lst(s.f(s.self, '_needed_fixtures', True)))
        return [('a variation for every choice of one index of every parameter needed, in order, none twice', Implies(need != nil, firsts(s.g('built')) == product_of(self.parts(s)[1]))),
                ('the variations built are the ones answered', Implies(need != nil, V.tv(s.res) == seconds(s.g('built')))),
                ('a single empty variation when no parameter is needed', Implies(need == nil, length(V.tv(s.res)) == 1))]

    def folds(self, s):
        m = s.dmap(s.f(s.f(s.self, '_store', True), '_fixtures_by_id', True), True)
        return [('needed', L, lambda l: all_needed(l)), ('by_id', L, lambda l: by_id(m, l)), ('counts', L, lambda l: counts(s._h('f:values', True), s._h('L', True), l))]

    def invariants(self, s, info):
        ex = info.ex
        fid = info.st0.fid
        yl = info.st0.env['$yields'] if '$yields' in info.st0.env else None
        out = [('every choice so far was built', lambda p, st: firsts(ex.ensure(st, 'G:built')) == p)]
        if yl is not None:
            out.append(('the built ones are answered', lambda p, st: ex.hget(st, 'L', ex.oid(yl)) == seconds(ex.ensure(st, 'G:built'))))
        return out


class ValueAt(Contract):
    key = P + 'Parametrization.get_value_by_index'
    params = {'self': 'obj:Parametrization', 'index': 'int'}
    ret = 'any'
    may_raise = True
    touches = ('f:transform', 'f:values', 'f:value', 'L')

    def pre(self, s):
        return [('an index counts from the front', V.iv(s.index) >= 0)]

    def at(self, s):
        return nth(s.lst(s.f(s.self, 'values', True), True), V.iv(s.index))

    def post(self, s):
        return [('the value at the index, transformed', s.res == called(s.f(s.self, 'transform', True), s.f(self.at(s), 'value', True))),
                ('the index is one of the values', V.iv(s.index) < length(s.lst(s.f(s.self, 'values', True), True)))]


class TagsAt(ValueAt):
    key = P + 'Parametrization.get_tags_by_index'
    ret = 'obj:Tags'

    def post(self, s):
        return [('the tags of the value at the index', s.res == s.f(self.at(s), 'tags', True)), ('the index is one of the values', V.iv(s.index) < length(s.lst(s.f(s.self, 'values', True), True)))]

    def exc_post(self, s):
        return [('only for an index that is not one of the values', V.iv(s.index) >= length(s.lst(s.f(s.self, 'values', True), True)))]


class Given(Contract):
    key = P + 'ParametrizationValue.__rfloordiv__'
    params = {'self': 'obj:ParametrizationValue', 'other': 'any'}
    ret = 'obj:ParametrizationValue'
    may_raise = True
    touches = ('f:value',)

    def mods(self, s):
        return [('f:value', V.ov(s.self))]

    def post(self, s):
        return [('it has the value', And(s.f(s.self, 'value') == s.other, s.res == s.self)), ('it had none', s.f(s.self, 'value', True) == NOTHING)]

    def exc_post(self, s):
        return [('only when it has one already', And(s.f(s.self, 'value', True) != NOTHING, s.f(s.self, 'value') == s.f(s.self, 'value', True)))]


class IterParams(Contract):
    key = P + 'ParameterizationInfo.iter_parametrization_fixtures'
    params = {'self': 'obj:ParameterizationInfo'}
    ret = 'iter[tuple[str,obj:Parametrization]]'
    yields = 'tuple[str,obj:Parametrization]'
    touches = ('L', 'Dk', 'Dv', 'f:_params', 'f:_extra_params', 'f:_argument_names')

    def parts(self, s):
        m = s.dmap(s.f(s.self, '_params', True), True)
        x = s.f(s.self, '_extra_params', True)
        return own_params(m, s.lst(s.f(s.self, '_argument_names', True), True)), s.ex.reg.items_of(s.dmap(x, True), s.dkeys(x, True))

    def post(self, s):
        a, b = self.parts(s)
        return [('the parameters of its arguments in the order of the arguments, then the others', V.tv(s.res) == app(a, b))]

    def keep(self, name):
        return 'from entry' in name

    def entry_folds(self, s):
        m = s.dmap(s.f(s.self, '_params', True), True)
        return [('own', L, lambda v0, l: app(v0, own_params(m, l))), ('pairs', L, lambda v0, l: app(v0, repaired(l)))]


class Bound(Contract):
    """a test runs with its variation, and none is left current behind it"""
    key = P + 'bound_parametrizations_context'
    params = {'variation': 'obj:Variation', 'fixture_store': 'obj:FixtureStore', 'fixture_namespace': 'any'}
    ret = 'any'
    may_raise = True
    touches = ('f:_current_variation', 'f:variations', 'G:tr')

    def cur(self, s, pre=False):
        return s.f(s.f(V.o(z3.Int('SESSION')), 'variations', True), '_current_variation', pre)

    def mods(self, s):
        return [('f:_current_variation', V.ov(s.f(V.o(z3.Int('SESSION')), 'variations', True))), ('G:tr', None)]

    def cm(self, ex, s, st, v):
        st = st.fork()
        ex.oblige('while the test runs its variation is the current one', st, self.cur(s) == s.variation)
        ex.oblige('autouse fixtures were activated under it', st, s.tr() == L.snoc(s.tr(True), vt(event('autouse activated'), s.variation)))
        e = Sym(fresh('body_exc', V), EXC)
        bad = st.fork()
        bad.assume(ex.type_facts(e.term, EXC, bad))
        return [(st, 'next', NONEV), (bad, 'raise', e)]

    def post(self, s):
        return [('none is current afterwards', self.cur(s) == none), ('none was before', self.cur(s, True) == none)]

    def exc_post(self, s):
        return [('none is current afterwards, or another one already was', Or(self.cur(s) == none, And(self.cur(s, True) != none, self.cur(s) == self.cur(s, True))))]


class NormalizeOne(Contract):
    key = P + '_normalize_single_value'
    params = {'value': 'any', 'default_label': 'int'}
    ret = 'obj:ParametrizationValue'
    may_raise = True
    use_at_calls = False
    touches = ('f:value', 'f:label', 'f:tags', 'f:_tags', 'Dv', 'Dk', 'G:tr')

    def is_param(self, s):
        return isin(s.value, vk('cls ParametrizationValue'))

    def post(self, s):
        return [('a parameter value stays itself; anything else is the value of a new one without tags',
                 If(self.is_param(s), s.res == s.value, And(s.newobj(s.res), s.f(s.res, 'value') == s.value, s.f(s.res, 'label') == s.default_label, s.dmap(s.f(s.f(s.res, 'tags'), '_tags')) == z3.K(V, absent)))),
                ('it has a value', s.f(s.res, 'value') != NOTHING)]

    def exc_post(self, s):
        return [('refused only without a value', If(self.is_param(s), s.f(s.value, 'value') == NOTHING, s.value == NOTHING))]


class NewFunc(Contract):
    key = P + 'parametrize.decorator.new_func'
    params = {'*args': lambda ex, st: Sym(z3.Const('args_given', V), Ty('tup', [ANY])), '**kwargs': lambda ex, st: typed(ex, st, 'kwargs_given', 'dict[str,any]')}
    free = {'params': 'obj:ParameterizationInfo', 'func': 'any'}
    ret = 'any'
    may_raise = True
    use_at_calls = False
    touches = ('Dv', 'Dk', 'L', 'f:_current_variation', 'f:variations', 'f:_params', 'f:_extra_params', 'f:_argument_names', 'f:_store', 'f:info', 'f:id', 'f:_fixtures_by_id', 'f:param_value_indices', 'f:transform', 'f:values', 'f:value', 'G:calls')

    def mods(self, s):
        kw = V.ov(s.t(s.args['kwargs']))
        return [('Dv', kw), ('Dk', kw), ('G:calls', None)]

    def bindings(self, s):
        m = s.dmap(s.f(s.params, '_params', True), True)
        x = s.f(s.params, '_extra_params', True)
        return app(own_params(m, s.lst(s.f(s.params, '_argument_names', True), True)), s.ex.reg.items_of(s.dmap(x, True), s.dkeys(x, True)))

    def given(self, s):
        return s.dmap(s.args['kwargs'], True)

    def pre(self, s):
        ses = V.o(z3.Int('SESSION'))
        var = s.f(s.f(ses, 'variations', True), '_current_variation', True)
        m = s.dmap(s.f(var, 'param_value_indices', True), True)
        i = z3.Const('i', V)
        o = V.ov(s.t(s.args['kwargs']))
        return [('a variation is current', var != none), ('indices count from the front', ForAll([i], Or(z3.Select(m, i) == absent, nat(z3.Select(m, i))), patterns=[z3.Select(m, i)])),
                ('the keyword arguments are a dictionary of the call', And([o != V.ov(z3.simplify(t)) for t in (s.f(var, 'param_value_indices', True), s.f(s.params, '_params', True), s.f(s.params, '_extra_params', True), s.f(s.f(var, '_store', True), '_fixtures_by_id', True))]))]

    def point(self, s):
        ses = V.o(z3.Int('SESSION'))
        var = s.f(s.f(ses, 'variations', True), '_current_variation', True)
        return (s.dmap(s.f(var, 'param_value_indices', True), True), s._h('f:info', True), s._h('f:id', True), s._h('f:values', True), s._h('L', True), s._h('f:transform', True), s._h('f:value', True))

    def folds(self, s):
        return [('filled', T_.MapS, lambda l: filled(*((self.given(s),) + self.point(s) + (l,))))]

    def keep(self, name):
        return 'filled(prefix)' in name

    def post(self, s):
        want = filled(*((self.given(s),) + self.point(s) + (self.bindings(s),)))
        return [('the function is called once, with the value of the current variation for every parameter that is not given', s.g('calls') == L.snoc(s.g('calls', True), vt(s.t(s.args['func']), V.t(V.tv(s.t(s.args['*args']))), given_map(want))))]

    def exc_post(self, s):
        want = filled(*((self.given(s),) + self.point(s) + (self.bindings(s),)))
        return [('called so, or not at all', Or(s.g('calls') == s.g('calls', True), s.g('calls') == L.snoc(s.g('calls', True), vt(s.t(s.args['func']), V.t(V.tv(s.t(s.args['*args']))), given_map(want)))))]


def typed(ex, st, name, t):
    v = Sym(z3.Const(name, V), ty(t))
    st.assume(ex.type_facts(v.term, v.ty, st))
    return v


class SetCurrent(Contract):
    key = VA + 'Variations.set_current_variation'
    params = {'self': 'obj:Variations', 'variation': 'opt[obj:Variation]'}
    ret = 'none'
    may_raise = True
    touches = ('f:_current_variation',)

    def mods(self, s):
        return [('f:_current_variation', V.ov(s.self))]

    def post(self, s):
        return [('it is the current one', s.f(s.self, '_current_variation') == s.variation), ('none is current at the same time', Or(s.variation == none, s.f(s.self, '_current_variation', True) == none))]

    def exc_post(self, s):
        return [('only when another one is current', And(s.variation != none, s.f(s.self, '_current_variation', True) != none, s.f(s.self, '_current_variation') == s.f(s.self, '_current_variation', True)))]


class StoreValue(Contract):
    key = FS + 'get_value'
    params = {'self': 'obj:FixtureStore', 'variation': 'obj:Variation', 'parameter_or_fixture': 'obj:Parametrization'}
    ret = 'any'
    may_raise = True
    touches = ('f:info', 'f:id', 'f:_fixtures_by_id', 'Dv', 'f:param_value_indices', 'f:transform', 'f:values', 'f:value', 'L')

    def pre(self, s):
        m = s.dmap(s.f(s.variation, 'param_value_indices', True), True)
        i = z3.Const('i', V)
        return [('indices count from the front', ForAll([i], Implies(z3.Select(m, i) != absent, And(V.is_i(z3.Select(m, i)), V.iv(z3.Select(m, i)) >= 0)), patterns=[z3.Select(m, i)]))]

    def post(self, s):
        p = s.parameter_or_fixture
        i = z3.Select(s.dmap(s.f(s.variation, 'param_value_indices', True), True), id_of(s._h('f:info', True), s._h('f:id', True), p))
        x = nth(s.lst(s.f(p, 'values', True), True), V.iv(i))
        return [('the value the variation chose for the parameter', s.res == called(s.f(p, 'transform', True), s.f(x, 'value', True)))]


CONTRACTS = [IterVariations(), Build(), VInit(), ValueAt(), TagsAt(), Given(), IterParams(), SetCurrent(), StoreValue(), NewFunc(), Bound(), NormalizeOne()]
BOUNDED = ['ParameterizationInfo.add_options, _normalize_values, the traversal of fixtures that collects the parameters a test depends on, labels, whole runs: bounded harness']
ASSUMPTIONS = ['itertools.product enumerates the cartesian product of its arguments, in lexicographic order, and zip pairs by position (their library contracts)',
               'an OrderedSet is a list of different elements in the order of addition', 'VariationFactory.get_all_needed_fixture_ids and Tags.update are modelled by what they return',
               'the label check of parameter values (a regular expression) is left to the harness', 'isinstance(x, ParametrizationValue) implies the class layout of ParametrizationValue']
