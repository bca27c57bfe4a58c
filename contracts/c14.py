"""C14: what a run saves for resuming and which of it is resumed."""
from .common import *
from engine.exec import strf, truthy_f

R = 'slash/resuming.py::'
HS = z3.ArraySort(Int, V)
STATUSES = ('planned', 'success', 'failed', 'skipped')
P, S, F, K = (vs(x) for x in STATUSES)
for _a in STATUSES:
    for _b in STATUSES:
        T.ax('text %s in %s' % (_a, _b), str_in(vs(_a), vs(_b)) == z3.BoolVal(_a in _b))
selected = lambda st, succ, unst, fail, nosk: Or(And(succ, st == S), And(Not(unst), st == F), And(Not(fail), st == P), And(Not(fail), Not(nosk), st == K))
kept = T.fold('kept_tests', L, lambda h, a, b, c, d: nil, lambda h, a, b, c, d, r, x, l: If(selected(z3.Select(h, V.ov(x)), a, b, c, d), L.snoc(r, x), r), (HS, Bool, Bool, Bool, Bool))
having = T.fold('with_status', L, lambda h, v: nil, lambda h, v, r, x, l: If(z3.Select(h, V.ov(x)) == v, L.snoc(r, x), r), (HS, V))
others = T.fold('without_status', L, lambda h, v: nil, lambda h, v, r, x, l: If(z3.Select(h, V.ov(x)) == v, r, L.snoc(r, x)), (HS, V))
known = T.fold('statuses_known', Bool, lambda h: z3.BoolVal(True), lambda h, r, x, l: And(r, Or([z3.Select(h, V.ov(x)) == v for v in (P, S, F, K)])), (HS,))
T.lemma('kept.known', (HS, Bool, Bool, Bool, Bool), lambda h, a, b, c, d, l: known(h, kept(h, a, b, c, d, l)), lambda h, a, b, c, d, l: [kept(h, a, b, c, d, l)])
T.lemma('known.mem', (HS, V), lambda h, x, l: Implies(And(mem(x, l), known(h, l)), Or([z3.Select(h, V.ov(x)) == v for v in (P, S, F, K)])), lambda h, x, l: [mem(x, l), known(h, l)])

# ---- rows of the saved state ----
FIELDS = ('session_id', 'file_name', 'address_in_file', 'variation', 'status')
sel = lambda h, x: z3.Select(h, V.ov(x))
rows = T.fold('rows', L, lambda *h: nil, lambda *a: L.snoc(a[-3], vt(*[sel(h, a[-2]) for h in a[:-3]])), (HS,) * 5)
below = T.fold('allocated_below', Bool, lambda n: z3.BoolVal(True), lambda n, r, x, l: And(r, V.is_o(x), V.ov(x) >= 0, V.ov(x) < n), (Int,))
T.lemma('below.grows', (Int, Int), lambda n, m, l: Implies(And(below(n, l), n <= m), below(m, l)), lambda n, m, l: [below(n, l), below(m, l)])
for _i in range(5):
    def _store(h, i, v, k=_i):
        return tuple(z3.Store(a, i, v) if j == k else a for j, a in enumerate(h))
    T.lemma('rows.frame%d' % _i, (HS,) * 5 + (Int, V), lambda *a, f=_store: Implies(below(a[5], a[7]), rows(*(f(a[:5], a[5], a[6]) + (a[7],))) == rows(*(a[:5] + (a[7],)))),
            lambda *a, f=_store: [rows(*(f(a[:5], a[5], a[6]) + (a[7],)))])
finished_ok, started, skipped = (z3.Function('result_' + n, V, Bool) for n in ('succeeded', 'started', 'skipped'))
result_of = z3.Function('result_of_test', V, V)
status_of = lambda x: If(skipped(x), K, If(finished_ok(x), S, If(started(x), F, P)))
HM = (HS,) * 6      # test_metadata, file_path, address_in_file, variation, id, param_value_indices
var_text = lambda hv, hi, hp, m: If(Or(sel(hv, m) == none, Not(truthy_f(sel(hp, sel(hv, m))))), none, V.s(strf(V.kv(vk('str str')), L.snoc(nil, sel(hi, sel(hv, m))))))
row = lambda sid, hf, ha, hv, hi, hp, m, status: vt(sid, sel(hf, m), sel(ha, m), var_text(hv, hi, hp, m), status)
rows_results = T.fold('rows_of_results', L, lambda sid, hm, hf, ha, hv, hi, hp: nil, lambda sid, hm, hf, ha, hv, hi, hp, r, x, l: L.snoc(r, row(sid, hf, ha, hv, hi, hp, sel(hm, x), status_of(x))), (V,) + HM)
unrun = T.fold('metadata_of_unrun', L, lambda hs: nil, lambda hs, r, x, l: If(result_of(x) == none, L.snoc(r, sel(hs, x)), r), (HS,))
rows_unrun = T.fold('rows_of_unrun', L, lambda sid, hf, ha, hv, hi, hp: nil, lambda sid, hf, ha, hv, hi, hp, r, x, l: L.snoc(r, row(sid, hf, ha, hv, hi, hp, x, P)), (V,) + HM[1:])
excluded, variation_of, tests_of_file = z3.Function('test_is_excluded', V, Bool), z3.Function('variation_of', V, V), z3.Function('tests_of_file', V, L)
results_of = z3.Function('results_of_session', V, L)
SM = vs('session row')
ROW = ['f:ResumeState.' + n for n in FIELDS]


def registry():
    reg = base_registry()
    for p in ('unstarted_only', 'failed_only', 'no_skipped', 'unstarted_first', 'failed_first'):
        config_leaf(reg, 'resume.' + p, BOOL)
    reg.fields.update({('ResumedTestData', n): 'any' for n in ('file_name', 'address_in_file', 'variation')})
    reg.fields.update({('ResumedTestData', 'status'): 'str', ('ResumeState', 'session_id'): 'any', ('ResumeState', 'file_name'): 'any', ('ResumeState', 'address_in_file'): 'any',
                       ('ResumeState', 'variation'): 'any', ('ResumeState', 'status'): 'any', ('SessionResults', 'session'): 'obj:Session', ('Session', 'id'): 'any',
                       ('Result', 'test_metadata'): 'obj:Metadata', ('Metadata', 'file_path'): 'any', ('Metadata', 'address_in_file'): 'any', ('Metadata', 'variation'): 'opt[obj:Variation]',
                       ('Variation', 'id'): 'any', ('Variation', 'param_value_indices'): 'any', ('RunnableTest', '__slash__'): 'obj:Metadata', ('Metadata', 'is_resumed'): 'any', ('SessionMetadata', 'session_id'): 'any'})
    reg.own_fields |= {('ResumeState', n) for n in FIELDS} | {('ResumedTestData', n) for n in ('file_name', 'address_in_file', 'variation', 'status')} | {('Variation', 'id')}

    def state(cls):
        def h(ex, st, a, kw, exc):
            st = st.fork()
            o = ex.new_obj(st, cls)
            for n, v in kw.items():
                if cls == 'ResumeState' or n == 'session_id':
                    ex.hset(st, ('f:ResumeState.' if cls == 'ResumeState' else 'f:') + n, ex.oid(o), ex.to_v(v))
            yield st, o
        return h
    reg.ctors['ResumedTestData'] = lambda *a: rdata(*a)
    reg.ctors['ResumeState'], reg.ctors['SessionMetadata'] = state('ResumeState'), state('SessionMetadata')

    def pred(f):
        def h(ex, st, recv, a, kw, exc):
            yield st, Sym(V.b(f(recv.term)), BOOL)
        return h
    for n, f in (('is_success_finished', finished_ok), ('is_started', started), ('is_skip', skipped)):
        reg.ext_methods[('Result', n)] = pred(f)

    def results(ex, st, recv, a, kw, exc):
        yield st, Seq(results_of(recv.term), ty('obj:Result'))
    reg.ext_methods[('SessionResults', 'iter_test_results')] = results

    def safe(ex, st, recv, a, kw, exc):
        yield st, ex.load(st.fork(), result_of(ex.to_v(a.items[0])), ty('opt[obj:Result]'))
    reg.ext_methods[('SessionResults', 'safe_get_result')] = safe

    def opaque(name):
        f = z3.Function('ext_' + name, L, V)

        def h(ex, st, a, kw, exc):
            yield st, Sym(f(mk(*[ex.to_v(x) for x in a.items])), ANY)
        return h
    reg.ext_models['os.getcwd'], reg.ext_models['os.path.abspath'], reg.ext_models['datetime.datetime.now'] = opaque('getcwd'), opaque('abspath'), opaque('now')

    def db(ex, st, args, kw, run):
        bad = st.fork()
        e = Sym(fresh('db_error', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        s1 = st.fork()
        c = ex.new_obj(s1, 'Conn')
        return [(bad, 'raise', e)] + list(run(s1, c))
    db.model_name = 'connecting_to_db (sqlalchemy session: commits what was added)'

    def connect(ex, st, a, kw, exc):
        yield st, CMExt(db, a, kw)
    reg.fn_models[R + 'connecting_to_db'] = connect

    def add(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('add'), ex.hget(st, 'f:session_id', ex.oid(a.items[0])))
        yield st, NONEV

    def add_all(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('add_all'), V.t(rows(*([ex.ensure(st, c) for c in ROW] + [ex.hget(st, 'L', ex.oid(a.items[0]))]))))
        yield st, NONEV
    reg.ext_methods[('Conn', 'add')], reg.ext_methods[('Conn', 'add_all')] = add, add_all
    reg.noargs |= {'slash.resuming._logger.debug', 'slash.resuming._logger.warning'} if isinstance(reg.noargs, set) else set()
    def remote(ex, st, a, kw, exc):
        bad = st.fork()
        e = Sym(fresh('remote_error', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        st = st.fork()
        content = fresh('remote_tests', L)
        o = ex.new_list(st, content, ty('obj:ResumedTestData'))
        st.heap['G:found'] = L.snoc(ex.ensure(st, 'G:found'), V.t(content))
        yield st, o
    reg.fn_models[R + 'get_tests_from_remote'] = remote

    def literal(ex, st, a, kw, exc):
        yield st, Sym(evaluated(ex.to_v(a.items[0])), ANY)
    reg.ext_models['ast.literal_eval'] = literal

    def rdata(ex, st, a, kw, exc):
        st = st.fork()
        o = ex.new_obj(st, 'ResumedTestData')
        vals = dict(zip(FIELDS[1:], a.items), **kw)
        for n in FIELDS[1:]:
            ex.hset(st, 'f:ResumedTestData.' + n, ex.oid(o), ex.to_v(vals[n]) if n in vals else none)
        yield st, o

    # conn.query(Class).filter(Class.session_id == x).first()/all()
    cols = {}
    for c in ('ResumeState', 'SessionMetadata'):
        for n in ('session_id', 'file_name', 'status', 'src_folder', 'created_at', 'address_in_file', 'variation', 'id'):
            cols[c, n] = vk('column %s.%s' % (c, n))
            reg.class_attrs[c, n] = Sym(cols[c, n], ANY)

    def query(ex, st, recv, a, kw, exc):
        st = st.fork()
        o = ex.new_obj(st, 'Query')
        o.rec = (a.items[0].name, None)
        yield st, o
    reg.ext_methods[('Conn', 'query')] = query

    def q_filter(ex, st, recv, a, kw, exc):
        cls, val = recv.rec
        cond = a.items[0].term.arg(0)
        if val is not None or len(a.items) != 1 or cond.decl().kind() != z3.Z3_OP_EQ:
            raise Unsupported('query of another form')
        x, y = cond.arg(0), cond.arg(1)
        col, val = (x, y) if x.eq(cols[cls, 'session_id']) else (y, x)
        if not col.eq(cols[cls, 'session_id']):
            raise Unsupported('query of another column')
        st = st.fork()
        o = ex.new_obj(st, 'Query')
        o.rec = (cls, val)
        yield st, o
    reg.ext_methods[('Query', 'filter')] = q_filter

    def q_first(ex, st, recv, a, kw, exc):
        if recv.rec[0] != 'SessionMetadata' or recv.rec[1] is None:
            raise Unsupported('query of another form')
        yield st, Sym(has_session(recv.rec[1]), ANY)

    def q_all(ex, st, recv, a, kw, exc):
        if recv.rec[0] != 'ResumeState' or recv.rec[1] is None:
            raise Unsupported('query of another form')
        yield st, Seq(state_of(recv.rec[1]), ty('obj:ResumeState'))
    reg.ext_methods[('Query', 'first')], reg.ext_methods[('Query', 'all')] = q_first, q_all

    reg.fn_models['slash/loader.py::Loader._is_excluded'] = lambda ex, st, a, kw, exc: iter([(st, Sym(V.b(excluded(ex.to_v(a[-1]))), BOOL))])
    reg.fn_models['slash/loader.py::Loader._iter_path'] = lambda ex, st, a, kw, exc: iter([(st, Seq(tests_of_file(ex.to_v(a[-1])), ty('obj:RunnableTest')))])

    def get_variation(ex, st, recv, a, kw, exc):
        st = st.fork()
        yield st, ex.load(st, variation_of(recv.term), ty('obj:Variation'))
    reg.ext_methods[('RunnableTest', 'get_variation')] = get_variation
    for c in CONTRACTS:
        reg.contracts[c.key] = c
    return reg


opt = lambda n: V.bv(cfg('resume.' + n))


class Filter(Contract):
    key = R + '_filter_tests'
    params = {'tests': 'list[obj:ResumedTestData]', 'get_successful_tests': 'bool'}
    ret = 'list[obj:ResumedTestData]'
    may_raise = True
    touches = ('L', 'f:ResumedTestData.status')

    def clash(self):
        return And(opt('failed_only'), Or(opt('unstarted_only'), opt('no_skipped')))

    def want(self, s, l):
        return kept(s._h('f:ResumedTestData.status', True), V.bv(s.get_successful_tests), opt('unstarted_only'), opt('failed_only'), opt('no_skipped'), l)

    def post(self, s):
        return [('exactly the tests whose status was asked for, in the order saved', s.lst(s.res) == self.want(s, s.lst(s.tests, True))), ('the options do not contradict each other', Not(self.clash())), ('a new list', s.newobj(s.res))]

    def exc_post(self, s):
        return [('only contradictory options are refused', self.clash())]

    def folds(self, s):
        return [('kept', L, lambda l: self.want(s, l))]


class Sort(Contract):
    key = R + '_sort_tests'
    params = {'tests': 'list[obj:ResumedTestData]'}
    ret = 'list[obj:ResumedTestData]'
    may_raise = True
    touches = ('L', 'f:ResumedTestData.status')

    def h(self, s):
        return s._h('f:ResumedTestData.status', True)

    def pre(self, s):
        return [('statuses are the four that are saved', known(self.h(s), s.lst(s.tests, True)))]

    def first(self):
        return If(opt('unstarted_first'), P, F)

    def post(self, s):
        l = s.lst(s.tests, True)
        return [('the group asked for comes first, everything else keeps its order',
                 s.lst(s.res) == If(Or(opt('unstarted_first'), opt('failed_first')), app(having(self.h(s), self.first(), l), others(self.h(s), self.first(), l)), l)),
                ('not both groups were asked for', Not(And(opt('unstarted_first'), opt('failed_first'))))]

    def exc_post(self, s):
        return [('only both groups are refused', And(opt('unstarted_first'), opt('failed_first')))]

    def folds(self, s):
        return [('having', L, lambda l: having(self.h(s), self.first(), l)), ('others', L, lambda l: others(self.h(s), self.first(), l))]


class Save(Contract):
    key = R + 'save_resume_state'
    params = {'session_result': 'obj:SessionResults', 'collected_tests': 'list[obj:RunnableTest]'}
    ret = 'none'
    may_raise = True
    touches = tuple(ROW) + ('f:session', 'f:id', 'f:session_id', 'f:test_metadata', 'f:file_path', 'f:address_in_file', 'f:variation', 'f:Variation.id', 'f:param_value_indices', 'f:__slash__', 'L', 'G:tr')

    def mods(self, s):
        return [('G:tr', None)]

    def sid(self, s):
        return s.f(s.f(s.session_result, 'session', True), 'id', True)

    def hs(self, s):
        return tuple(s._h('f:' + n, True) for n in ('file_path', 'address_in_file', 'variation', 'Variation.id', 'param_value_indices'))

    def done(self, s, l):
        return rows_results(*((self.sid(s), s._h('f:test_metadata', True)) + self.hs(s) + (l,)))

    def left(self, s, l):
        return rows_unrun(*((self.sid(s),) + self.hs(s) + (l,)))

    def all(self, s):
        return app(self.done(s, results_of(s.session_result)), self.left(s, unrun(s._h('f:__slash__', True), s.lst(s.collected_tests, True))))

    def post(self, s):
        return [('a row for every result with the status it reached, then one for every collected test without a result', s.tr() == L.snoc(L.snoc(s.tr(True), vt(event('add'), self.sid(s))), vt(event('add_all'), V.t(self.all(s)))))]

    def folds(self, s):
        return [('unrun', L, lambda l: unrun(s._h('f:__slash__', True), l))]

    def keep(self, n):
        return n.startswith('rows of') or n.startswith('saved objects') or n.endswith('unrun(prefix)')

    def invariants(self, s, info):
        ex, st0 = info.ex, info.st0
        lst = st0.env['tests_to_resume'] if 'tests_to_resume' in st0.env else None
        if lst is None:
            return []
        now = lambda st: rows(*([ex.ensure(st, c) for c in ROW] + [ex.hget(st, 'L', ex.oid(lst))]))
        before = now(st0)
        return [('rows of the results so far', lambda p, st: now(st) == self.done(s, p)), ('rows of the tests without results so far', lambda p, st: now(st) == app(before, self.left(s, p))),
                ('saved objects are distinct from later ones', lambda p, st: below(st.heap['alloc'], ex.hget(st, 'L', ex.oid(lst))))]



# ---- reading it back ----
state_of = z3.Function('rows_saved_for', V, L)          # the ResumeState rows of a session (list of objects)
has_session = z3.Function('session_is_saved', V, V)
evaluated = z3.Function('literal_eval', V, V)
VROW = ['f:ResumedTestData.' + n for n in FIELDS[1:]]
datas = T.fold('resumed_rows', L, lambda *h: nil, lambda *a: L.snoc(a[-3], vt(*[sel(h, a[-2]) for h in a[:-3]])), (HS,) * 4)
want_datas = T.fold('rows_read_back', L, lambda *h: nil, lambda *a: L.snoc(a[-3], vt(sel(a[0], a[-2]), sel(a[1], a[-2]), If(truthy_f(sel(a[2], a[-2])), evaluated(sel(a[2], a[-2])), none), sel(a[3], a[-2]))), (HS,) * 4)
for _i in range(4):
    def _store4(h, i, v, k=_i):
        return tuple(z3.Store(a, i, v) if j == k else a for j, a in enumerate(h))
    T.lemma('datas.frame%d' % _i, (HS,) * 4 + (Int, V), lambda *a, f=_store4: Implies(below(a[4], a[6]), datas(*(f(a[:4], a[4], a[5]) + (a[6],))) == datas(*(a[:4] + (a[6],)))),
            lambda *a, f=_store4: [datas(*(f(a[:4], a[4], a[5]) + (a[6],)))])


class Locally(Contract):
    key = R + 'get_tests_locally'
    params = {'session_id': 'any'}
    ret = 'list[obj:ResumedTestData]'
    may_raise = True
    touches = tuple(VROW) + tuple(ROW) + ('L', 'G:tr')
    at_return = ('G:found', lambda s: V.t(s.lst(s.res)))

    def old(self, s):
        return want_datas(*(tuple(s._h(c, True) for c in ROW[1:]) + (state_of(s.session_id),)))

    def post(self, s):
        return [('what was saved for the session, row by row', datas(*(tuple(s._h(c, False) for c in VROW) + (s.lst(s.res),))) == If(truthy_f(has_session(s.session_id)), self.old(s), nil)), ('a new list', s.newobj(s.res))]

    def keep(self, n):
        return n.startswith('rows ') or n.startswith('new ')

    def invariants(self, s, info):
        ex = info.ex
        lst = info.st0.env['$acc'] if '$acc' in info.st0.env else None
        if lst is None:
            return []
        return [('rows read so far', lambda p, st: datas(*([ex.ensure(st, c) for c in VROW] + [ex.hget(st, 'L', ex.oid(lst))])) == want_datas(*(tuple(s._h(c, True) for c in ROW[1:]) + (p,)))),
                ('new objects are distinct from later ones', lambda p, st: below(st.heap['alloc'], ex.hget(st, 'L', ex.oid(lst))))]


class FromRemoteStatus(Contract):
    key = R + '_get_resume_status_from_backslash_status'
    params = {'backslash_status': 'str'}
    ret = 'str'

    def post(self, s):
        b = s.backslash_status
        return [('the status of the remote test', s.res == If(Or(b == vs('FAILURE'), b == vs('ERROR'), b == vs('INTERRUPTED')), F, If(b == vs('SUCCESS'), S, If(b == vs('SKIPPED'), K, P))))]


class Previous(Contract):
    key = R + 'get_tests_from_previous_session'
    params = {'session_id': 'any', 'get_successful_tests': 'bool'}
    ret = 'list[obj:ResumedTestData]'
    may_raise = True
    use_at_calls = False
    touches = tuple(VROW) + tuple(ROW) + ('L', 'G:tr', 'G:found')

    def pre(self, s):
        return [('ghost: nothing was found yet', s.g('found', True) == nil)]

    def mods(self, s):
        return [('G:found', None)]

    def post(self, s):
        l = V.tv(L.last(s.g('found')))
        h = s._h('f:ResumedTestData.status', False)
        want = kept(h, V.bv(s.get_successful_tests), opt('unstarted_only'), opt('failed_only'), opt('no_skipped'), l)
        first = If(opt('unstarted_first'), P, F)
        return [('the tests of that session whose status was asked for, each as often as listed, in order except for the group asked to come first',
                 s.lst(s.res) == If(Or(opt('unstarted_first'), opt('failed_first')), app(having(h, first, want), others(h, first, want)), want)),
                ('another place is asked only when nothing is saved for the session here', Or(L.init(s.g('found')) == nil, And(L.init(L.init(s.g('found'))) == nil, V.tv(L.last(L.init(s.g('found')))) == nil)))]


matching = T.fold('tests_to_resume', L, lambda *p: nil, lambda a, v, ha, hm, hd, r, x, l: If(And(Not(excluded(x)), a == sel(ha, sel(hm, x)), Or(Not(truthy_f(v)), v == sel(hd, variation_of(x)))), L.snoc(r, x), r), (V, V, HS, HS, HS))


class Resumed(Contract):
    key = 'slash/loader.py::Loader._iter_test_resume'
    params = {'self': 'obj:Loader', 'resume_state': 'obj:ResumedTestData'}
    ret = 'iter[obj:RunnableTest]'
    yields = 'obj:RunnableTest'
    may_raise = True
    use_at_calls = False
    touches = tuple(VROW) + ('f:__slash__', 'f:address_in_file', 'f:is_resumed', 'f:Variation.id', 'L', 'G:tr')

    def mods(self, s):
        return [('f:is_resumed', None)]

    def want(self, s, l):
        f = lambda n: s.f(s.resume_state, 'ResumedTestData.' + n, True)
        return matching(f('address_in_file'), f('variation'), s._h('f:address_in_file', True), s._h('f:__slash__', True), s._h('f:Variation.id', True), l)

    def post(self, s):
        return [('the tests of that file with the saved address and variation, once each', V.tv(s.res) == self.want(s, tests_of_file(s.f(s.resume_state, 'ResumedTestData.file_name', True))))]

    def folds(self, s):
        return [('matching', L, lambda l: self.want(s, l))]


CONTRACTS = [Filter(), Sort(), Save(), Locally(), FromRemoteStatus(), Previous(), Resumed()]
BOUNDED = ['a resumed run as a whole (loading, repetition, order of execution), state of real runs cut short, retention of old state, the last session of a folder: bounded harness']
ASSUMPTIONS = ['sqlalchemy stores the objects added, and a query filtered by session id gives the objects saved for that session, in the order added',
               'Result.is_success_finished/is_started/is_skip are pure (C03 decides them)', 'literal_eval(str(d)) == d for the index dictionaries of variations',
               'Loader._iter_path and _is_excluded are modelled by what they return; a remote session may answer anything']
