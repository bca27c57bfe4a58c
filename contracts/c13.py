"""C13: which tests are collected, and how often."""
from .common import *
from engine.exec import truthy_f, strf

F = 'slash/loader.py::Loader.'
HS = z3.ArraySort(Int, V)
sel = lambda h, x: z3.Select(h, V.ov(x))
source = z3.Function('test_repeated', V, V)             # ghost: the test a clone repeats
function_of = z3.Function('function_of_test', V, V)
repeat_of = z3.Function('repeat_mark', V, Int)
first_n = z3.Function('first_n', L, Int, L)
tests_at, in_file, files_under = z3.Function('tests_at_path', V, L), z3.Function('tests_in_file', V, L), z3.Function('files_under', V, L)
is_there, excluded = z3.Function('path_exists', V, Bool), z3.Function('test_is_excluded', V, Bool)
drive, undriven, joined = z3.Function('path_drive', V, V), z3.Function('path_undriven', V, V), z3.Function('path_join', V, V, V)
split = z3.Function('str_split', L, L)
is_py = lambda x: z3.Function('strp_endswith', L, Bool)(mk(x, vs('.py')))
_a, _l, _n, _x = z3.Const('a', V), z3.Const('l', L), z3.Int('n'), z3.Const('x', V)
T.ax('first_n.0', ForAll([_n], first_n(nil, _n) == nil, patterns=[first_n(nil, _n)]))
T.ax('first_n.n', ForAll([_l, _x, _n], first_n(L.snoc(_l, _x), _n) == If(_n > length(_l), L.snoc(_l, _x), first_n(_l, _n)), patterns=[first_n(L.snoc(_l, _x), _n)]))
T.lemma('first_n.all', (Int,), lambda n, l: Implies(n >= length(l), first_n(l, n) == l), lambda n, l: [first_n(l, n)])
cut = split(mk(_a, vs(':'), vi(1)))
T.ax('split at :', ForAll([_a], Implies(str_in(vs(':'), _a), And(L.is_snoc(cut), L.is_snoc(L.init(cut)), L.init(L.init(cut)) == nil, V.is_s(L.last(cut)), V.is_s(L.last(L.init(cut))))), patterns=[cut]))

sources = T.fold('tests_repeated', L, lambda: nil, lambda r, x, l: L.snoc(r, source(x)))
times = T.fold('repeated', L, lambda b: nil, lambda b, r, x, l: app(r, b), (L,))
count = lambda n, hs, hr, x: n * If(truthy_f(sel(hr, sel(hs, x))), z3.IntVal(1), repeat_of(function_of(x)))
each = T.fold('each_repeated', L, lambda n, hs, hr: nil, lambda n, hs, hr, r, x, l: app(r, times(mk(source(x)), T_.upto(count(n, hs, hr, x)))), (Int, HS, HS))
T.lemma('sources.prefix', (), lambda l: length(sources(l)) == length(l), lambda l: [sources(l)])

before_paren = lambda t: V.s(strf(V.kv(vk('str slice :x')), mk(t, str_index(mk(t, vs('('))))))
str_index = z3.Function('str_index', L, V)


def named(a, name, addr):
    return Or(a == name, a == addr, And(str_in(vs('('), addr), a == before_paren(addr)))


hit = lambda a, hs, hn, ha, x: Or(a == none, named(a, sel(hn, sel(hs, x)), sel(ha, sel(hs, x))))
PA = (V, HS, HS, HS)
selected = T.fold('tests_selected', L, lambda a, hs, hn, ha: nil, lambda a, hs, hn, ha, r, x, l: If(And(hit(a, hs, hn, ha, x), Not(excluded(x))), L.snoc(r, x), r), PA)
some_hit = T.fold('some_test_named', Bool, lambda a, hs, hn, ha: z3.BoolVal(False), lambda a, hs, hn, ha, r, x, l: Or(r, hit(a, hs, hn, ha, x)), PA)
of_files = T.fold('tests_of_files', L, lambda: nil, lambda r, x, l: If(is_py(x), app(r, in_file(x)), r))
of_paths = T.fold('tests_of_paths', L, lambda: nil, lambda r, x, l: app(r, of_files(files_under(x))))
all_there = T.fold('all_exist', Bool, lambda: z3.BoolVal(True), lambda r, x, l: And(r, is_there(x)))


def may_fail(ex, st, exc, what):
    bad = st.fork()
    e = Sym(fresh(what, V), EXC)
    bad.assume(ex.type_facts(e.term, EXC, bad))
    exc.append((bad, e))


def duplicates(ex, st):
    st = st.fork()
    o = Sym(fresh('duplicates', V), ty('set[any]'))
    st.assume(ex.type_facts(o.term, o.ty, st))
    yield st, o


def registry():
    reg = base_registry()
    reg.fields.update({('RunnableTest', '__slash__'): 'obj:Metadata', ('Metadata', 'is_resumed'): 'any', ('Metadata', 'repeat_all_index'): 'int', ('Metadata', 'factory_name'): 'str',
                       ('Metadata', 'address_in_file'): 'str', ('Metadata', 'id'): 'any', ('Session', 'id_space'): 'obj:IDSpace', ('Loader', '_duplicate_funcs'): 'set[any]', ('Loader', '_local_config'): 'any', ('Session', 'total'): 'any'})
    config_leaf(reg, 'run.repeat_each', INT)
    config_leaf(reg, 'run.repeat_all', INT)
    config_leaf(reg, 'run.message_assertion_introspection', BOOL)
    reg.globals['slash.core.markers.repeat_marker'] = Sym(V.o(z3.Int('REPEAT_MARKER')), 'obj:Marker')
    install_handling(reg)

    def clone(ex, st, recv, a, kw, exc):
        st = st.fork()
        o, m = ex.new_obj(st, 'RunnableTest'), ex.new_obj(st, 'Metadata')
        ex.hset(st, 'f:__slash__', ex.oid(o), m.term)
        st.assume(source(o.term) == source(recv.term))
        yield st, o
    reg.ext_methods[('RunnableTest', 'clone')] = clone

    def function(ex, st, recv, a, kw, exc):
        yield st, Sym(function_of(recv.term), ANY)
    reg.ext_methods[('RunnableTest', 'get_test_function')] = function

    def mark(ex, st, recv, a, kw, exc):
        if len(a.items) != 2 or ex.const_int(a.items[1]) != 1:
            raise Unsupported('the repeat mark without the default 1')
        yield st, Sym(V.i(repeat_of(ex.to_v(a.items[0]))), INT)
    reg.ext_methods[('Marker', 'get_value')] = mark

    def islice(ex, st, a, kw, exc):
        s, lo, n = a.items
        if ex.const_int(lo) != 0:
            raise Unsupported('islice not from the front')
        q = ex.seq(s, st)
        ex.oblige('the sliced part is there from the start', st, V.iv(ex.to_v(n)) <= length(q.term))
        yield st, Seq(first_n(q.term, V.iv(ex.to_v(n))), ty('obj:RunnableTest'))
    reg.ext_models['itertools.islice'] = islice

    def splitdrive(ex, st, a, kw, exc):
        t = ex.to_v(a.items[0])
        st = st.fork()
        st.assume(And(V.is_s(drive(t)), V.is_s(undriven(t))))
        yield st, Tup([Sym(drive(t), STR), Sym(undriven(t), STR)])
    reg.ext_models['os.path.splitdrive'] = splitdrive

    def join(ex, st, a, kw, exc):
        t = joined(*[ex.to_v(x) for x in a.items])
        st = st.fork()
        st.assume(V.is_s(t))
        yield st, Sym(t, STR)
    reg.ext_models['os.path.join'] = join
    reg.ext_models['os.path.exists'] = lambda ex, st, a, kw, exc: iter([(st, Sym(V.b(is_there(ex.to_v(a.items[0]))), BOOL))])

    def index(ex, st, recv, a, kw, exc):
        t, c = ex.to_v(recv), ex.to_v(a.items[0])
        p, q = ex.branch(st, str_in(c, t))
        if q is not None:
            ex.raise_builtin(q, 'ValueError', exc)
        if p is not None:
            r = str_index(mk(t, c))
            p.assume(V.is_i(r))
            yield p, Sym(r, INT)
    reg.ext_methods[('str', 'index')] = index

    def iter_path(ex, st, a, kw, exc):
        may_fail(ex, st, exc, 'loading_error')
        yield st, Seq(tests_at(ex.to_v(a[-1])), ty('obj:RunnableTest'))
    reg.fn_models[F + '_iter_path'] = iter_path
    reg.fn_models[F + '_is_excluded'] = lambda ex, st, a, kw, exc: iter([(st, Sym(V.b(excluded(ex.to_v(a[-1]))), BOOL))])
    reg.fn_models['slash/loader.py::_walk'] = lambda ex, st, a, kw, exc: iter([(st, Seq(files_under(ex.to_v(a[-1])), STR))])
    reg.fn_models['slash/loader.py::_extract_tb'] = lambda ex, st, a, kw, exc: iter([(st, Tup([Sym(fresh('tb', V), ANY) for _ in range(4)]))])
    reg.fn_models['slash/exception_handling.py::mark_exception_handled'] = lambda ex, st, a, kw, exc: iter([(st, a[0])])
    reg.fn_models['slash/utils/python.py::check_duplicate_functions'] = lambda ex, st, a, kw, exc: duplicates(ex, st)

    def tests_in(ex, st, a, kw, exc):
        may_fail(ex, st, exc, 'generating_error')
        yield st, Seq(in_file(ex.to_v(a[1])), ty('obj:RunnableTest'))
    reg.fn_models[F + '_iter_runnable_tests_in_module'] = tests_in

    def cm(fails):
        def handler(ex, st, args, kw, run):
            out = list(run(st, NONEV))
            if fails:
                bad = st.fork()
                e = Sym(fresh('cm_error', V), EXC)
                bad.assume(ex.type_facts(e.term, EXC, bad))
                out.append((bad, 'raise', e))
            return out

        def make(ex, st, a, kw, exc):
            yield st, CMExt(handler, a, kw)
        handler.model_name = 'a context which neither swallows nor changes what is verified'
        return make
    reg.ext_models['dessert.rewrite_assertions_context'] = cm(False)
    reg.fn_models[F + '_adding_local_fixtures'] = cm(True)
    reg.ext_models['dessert.disable_message_introspection'] = nothrow_const(NONEV)

    def import_file(ex, st, a, kw, exc):
        may_fail(ex, st, exc, 'import_error')
        m = fresh('module', V)
        st = st.fork()
        st.assume(And(V.is_o(m), m != none))
        yield st, Sym(m, ANY)
    reg.ext_models['emport.import_file'] = import_file

    def allocate(ex, st, recv, a, kw, exc):
        t = fresh('allocated', V)
        st = st.fork()
        ex.emit(st, event('allocated'), t)
        yield st, Sym(t, ANY)
    reg.ext_methods[('IDSpace', 'allocate')] = allocate

    def total(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('total'), ex.to_v(a.items[0]))
        yield st, NONEV
    reg.ext_methods[('Session', 'increment_total_num_tests')] = total
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c
    return reg


class Named(Contract):
    key = F + '_address_in_file_matches'
    params = {'self': 'obj:Loader', 'address_in_file': 'str', 'test': 'obj:RunnableTest'}
    ret = 'bool'
    touches = ('f:__slash__', 'f:factory_name', 'f:address_in_file')

    def post(self, s):
        m = s.f(s.test, '__slash__', True)
        return [('named by its factory, its address or its address without parameters', V.bv(s.res) == named(s.address_in_file, s.f(m, 'factory_name', True), s.f(m, 'address_in_file', True)))]


class Address(Contract):
    key = F + '_iter_test_address'
    params = {'self': 'obj:Loader', 'address': 'str'}
    ret = 'iter[obj:RunnableTest]'
    may_raise = True
    use_at_calls = False
    touches = ('L', 'f:__slash__', 'f:factory_name', 'f:address_in_file')

    def parts(self, s):
        u = undriven(s.address)
        c = split(mk(u, vs(':'), vi(1)))
        has = str_in(vs(':'), u)
        return joined(drive(s.address), If(has, L.last(L.init(c)), u)), If(has, L.last(c), none)

    def hs(self, s):
        return tuple(s._h(c, True) for c in ('f:__slash__', 'f:factory_name', 'f:address_in_file'))

    def folds(self, s):
        p, a = self.parts(s)
        return [('selected', L, lambda l: selected(a, *(self.hs(s) + (l,)))), ('hit', Bool, lambda l: some_hit(a, *(self.hs(s) + (l,))))]

    def post(self, s):
        p, a = self.parts(s)
        return [('the tests named that pass all filters, in order', V.tv(s.res) == selected(a, *(self.hs(s) + (tests_at(p),)))),
                ('nothing is named by the address: an error', Or(some_hit(a, *(self.hs(s) + (tests_at(p),))), And(a == none, tests_at(p) == nil)))]


class Paths(Contract):
    key = F + '_iter_paths'
    params = {'self': 'obj:Loader', 'paths': 'tup[str]'}
    ret = 'iter[obj:RunnableTest]'
    may_raise = True
    use_at_calls = False
    touches = ('L', 'f:_duplicate_funcs', 'G:tr', 'S')

    def mods(self, s):
        return [('S', None), ('f:_duplicate_funcs', V.ov(s.self)), ('G:tr', None)]

    def folds(self, s):
        return [('there', Bool, all_there), ('paths', L, of_paths), ('files', L, of_files)]

    def post(self, s):
        l = V.tv(s.paths)
        return [('the tests of every wanted file of every path, in order', V.tv(s.res) == of_paths(l)), ('every path exists', all_there(l))]


class Repeats(Contract):
    key = F + '_generate_repeats'
    params = {'self': 'obj:Loader', 'tests': 'tup[obj:RunnableTest]'}
    ret = 'list[obj:RunnableTest]'
    may_raise = True
    use_at_calls = False
    touches = ('L', 'f:__slash__', 'f:is_resumed', 'f:repeat_all_index')

    def pre(self, s):
        t = V.tv(s.tests)
        x = z3.Const('x', V)
        return [('the tests are there before', ForAll([x], Implies(mem(x, t), And(V.is_o(x), V.ov(x) < s.alloc())), patterns=[mem(x, t)]))]

    def part(self, s, l):
        return each(V.iv(cfg('run.repeat_each')), s._h('f:__slash__', True), s._h('f:is_resumed', True), l)

    def invariants(self, s, info):
        ex, st0 = info.ex, info.st0
        out = []
        for v in [v for v in st0.env.values() if isinstance(v, Sym) and v.ty.kind == 'list']:
            cur = lambda st, v=v: ex.hget(st, 'L', ex.oid(v))
            e0 = cur(st0)
            out += [('each test so far', lambda P, st, cur=cur: sources(cur(st)) == self.part(s, P)),
                    ('repeated so far', lambda P, st, cur=cur, e0=e0: sources(cur(st)) == app(sources(e0), sources(P))),
                    ('whole repeated so far', lambda P, st, cur=cur, e0=e0: sources(cur(st)) == app(sources(e0), times(sources(e0), P)))]
            for k in [k.term for k in st0.env.values() if isinstance(k, Sym) and k.ty.kind == 'int']:
                out += [('it grows', lambda P, st, cur=cur, k=k: length(cur(st)) >= V.iv(k)), ('it grows at the end', lambda P, st, cur=cur, e0=e0, k=k: first_n(cur(st), V.iv(k)) == first_n(e0, V.iv(k)))]
            for x in [x.term for x in st0.env.values() if isinstance(x, Sym) and x.ty.kind == 'obj' and 'RunnableTest' in str(x.ty)]:
                out.append(('this test so far', lambda P, st, cur=cur, e0=e0, x=x: sources(cur(st)) == app(sources(e0), times(mk(source(x)), P))))
        return out

    def post(self, s):
        b = self.part(s, V.tv(s.tests))
        return [('every test as often as asked for, then the whole again', sources(s.lst(s.res)) == app(b, times(b, T_.upto(V.iv(cfg('run.repeat_all')) - 1))))]


class Collect(Contract):
    key = F + '_collect'
    params = {'self': 'obj:Loader', 'iterator': 'tup[obj:RunnableTest]'}
    ret = 'list[obj:RunnableTest]'
    may_raise = True
    use_at_calls = False
    touches = ('L', 'G:tr')

    def mods(self, s):
        return [('G:tr', None)]

    def post(self, s):
        return [('everything is collected, in order', s.lst(s.res) == V.tv(s.iterator))]


class Allocate(Contract):
    key = 'slash/core/metadata.py::Metadata.allocate_id'
    params = {'self': 'obj:Metadata'}
    ret = 'none'
    may_raise = True
    use_at_calls = False
    touches = ('f:id', 'G:tr')

    def mods(self, s):
        return [('f:id', V.ov(s.self)), ('G:tr', None)]

    def post(self, s):
        return [('an id is given once', s.f(s.self, 'id', True) == none), ('the id is the one allocated', s.tr() == L.snoc(s.tr(True), vt(event('allocated'), s.f(s.self, 'id'))))]

    def exc_post(self, s):
        return [('otherwise nothing is allocated', s.tr() == s.tr(True))]


CONTRACTS = [Named(), Address(), Paths(), Repeats(), Collect(), Allocate()]
ASSUMPTIONS = ['the tests of a file or path are a function of the path (nothing changes on disk while loading)', 'tests given to the repetition are not clones themselves; clone answers a new test of the same function']
BOUNDED = ['walking directories, importing modules, generating tests from functions and classes, ordering and numbering (get_runnables): bounded harness']
