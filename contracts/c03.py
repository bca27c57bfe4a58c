"""C03: classification of results, verdict and counts of a session, summary hooks."""
from .common import *
from engine.exec import ALLOC0

F = 'slash/core/result.py::'
RF = ('_errors', '_failures', '_skips', '_started', '_finished', '_interrupted')
IntV = z3.ArraySort(Int, V)
IntL = z3.ArraySort(Int, L)
iterated = z3.Function('dict_iterated_by', V, V)
PRED_ARGS = (IntV,) * 6 + (IntL,)
pred_f = z3.Function('result_predicate', V, L, L, L, V, V, V, Bool)    # of the records of the result


def registry():
    reg = base_registry()
    for cls in ('Result',):
        reg.fields.update({(cls, '_errors'): 'list[obj:Error]', (cls, '_failures'): 'list[obj:Error]', (cls, '_skips'): 'list[any]',
                           (cls, '_started'): 'bool', (cls, '_finished'): 'bool', (cls, '_interrupted'): 'bool',
                           (cls, '_start_time'): 'any', (cls, '_end_time'): 'any', (cls, 'test_metadata'): 'any', (cls, 'data'): 'any',
                           (cls, 'details'): 'any', (cls, 'facts'): 'any', (cls, '_log_path'): 'any', (cls, '_extra_logs'): 'list[any]'})
    reg.fields.update({('GlobalResult', '_session_results'): 'opt[obj:SessionResults]',
                       ('SessionResults', 'session'): 'obj:Session', ('SessionResults', 'global_result'): 'obj:GlobalResult',
                       ('SessionResults', '_results_dict'): 'dict[any,obj:Result]', ('SessionResults', '_iterator'): 'cb:iterator',
                       ('Session', 'parallel_manager'): 'obj:ParallelManager', ('ParallelManager', 'server'): 'obj:Server',
                       ('Server', 'worker_error_reported'): 'bool',
                       ('Test', '__slash__'): 'obj:Metadata', ('Metadata', 'id'): 'any'})
    pure_method(reg, 'Session', 'has_children', BOOL)
    pure_method(reg, 'Error', 'is_fatal', BOOL)

    def new(ty_):
        def h(ex, st, a, kw, exc):
            st = st.fork()
            yield st, Sym(fresh(ty_, V), ANY)
        return h
    reg.ctors['Details'] = new('details')
    reg.ext_models['datetime.datetime.now'] = new('now')

    def partial(ex, st, a, kw, exc):
        src = a.items[1]
        if not (isinstance(src, Seq) and src.src and src.src[0] == 'Dk'):
            raise Unsupported('partial of %r' % (src,))
        st = st.fork()
        p = fresh('partial', V)
        st.assume(iterated(p) == V.o(src.src[1]))
        yield st, Sym(p, Ty('cb', (), 'iterator'))
    reg.ext_models['functools.partial'] = partial

    def iterate(ex, st, f, a, kw, exc):
        d = iterated(f.term)
        yield st, Seq(reg.vals_of(ex.hget(st, 'Dv', V.ov(d)), ex.hget(st, 'Dk', V.ov(d))), ty('obj:Result'), ('Dk', V.ov(d)))
    reg.callbacks['iterator'] = iterate

    def predicate(ex, st, f, a, kw, exc):
        st = st.fork()
        o = Sym(ex.to_v(a.items[0]), 'obj:Result')
        vals = []
        for c in RF:
            x = ex.load(st, ex.hget(st, 'f:' + c, ex.oid(o)), ty(reg.fields[('Result', c)]))
            if st.heap['f:' + c].sexpr() == 'H0:f:' + c or '|H0:f:%s|' % c == st.heap['f:' + c].sexpr():
                st.assume(V.ov(x.term) < ALLOC0 if c in RF[:3] else z3.BoolVal(True))     # no record of a result is made while results are counted
            vals.append(ex.hget(st, 'L', ex.oid(x)) if c in RF[:3] else x.term)
        yield st, Sym(vb(pred_f(f.term, *vals)), BOOL)
    reg.callbacks['*'] = predicate
    install_handling(reg)
    for c in CONTRACTS:
        reg.contracts[c.key] = c
    return reg


class R(object):
    """the state of results at entry"""
    def __init__(self, s, obj):
        self.s, self.obj = s, obj

    def flag(self, n):
        return V.bv(self.s.f(self.obj, n, True))

    def some(self, n):
        return self.s.lst(self.s.f(self.obj, n, True), True) != nil

    def success(self, allow):
        return And(Not(self.some('_errors')), Not(self.some('_failures')), Not(self.flag('_interrupted')),
                   If(self.some('_skips'), allow, self.flag('_started')))


class Pred(Contract):
    params = {'self': 'obj:Result'}
    ret = 'bool'
    touches = ()

    def __init__(self, name, meaning, text):
        Contract.__init__(self)
        self.key, self.meaning, self.text = F + 'Result.' + name, meaning, text

    def post(self, s):
        return [(self.text, V.bv(s.res) == self.meaning(R(s, s.self)))]


PREDS = {
    'is_error': (lambda r: r.some('_errors'), 'error iff an error was recorded'),
    'is_failure': (lambda r: r.some('_failures'), 'failure iff a failure was recorded'),
    'is_just_failure': (lambda r: And(r.some('_failures'), Not(r.some('_errors'))), 'pure failure iff a failure and no error was recorded'),
    'is_skip': (lambda r: r.some('_skips'), 'skip iff a skip was recorded'),
    'has_skips': (lambda r: r.some('_skips'), 'skips iff a skip was recorded'),
    'has_errors_or_failures': (lambda r: Or(r.some('_errors'), r.some('_failures')), 'errors or failures iff one was recorded'),
    'is_started': (lambda r: r.flag('_started'), 'started iff marked so'),
    'is_finished': (lambda r: r.flag('_finished'), 'finished iff marked so'),
    'is_interrupted': (lambda r: r.flag('_interrupted'), 'interrupted iff marked so'),
    'is_not_run': (lambda r: And(Not(r.flag('_started')), Not(r.some('_errors')), Not(r.some('_failures'))), 'not run iff never started, with no error and no failure'),
    'is_run_and_skip': (lambda r: And(r.flag('_started'), r.some('_skips')), 'run and skipped iff started with a skip recorded'),
    'is_success_finished': (lambda r: And(r.success(z3.BoolVal(False)), r.flag('_finished')), 'successful and finished'),
}


class IsSuccess(Contract):
    key = F + 'Result.is_success'
    params = {'self': 'obj:Result', 'allow_skips': 'bool'}
    ret = 'bool'
    touches = ()

    def post(self, s):
        return [('success iff started, with no error, failure, interruption or (unless tolerated) skip', V.bv(s.res) == R(s, s.self).success(V.bv(s.allow_skips)))]


class Mark(Contract):
    params = {'self': 'obj:Result'}
    ret = 'none'

    def __init__(self, name, field, extra=()):
        Contract.__init__(self)
        self.key, self.field, self.extra = F + 'Result.' + name, field, extra
        self.touches = ('f:' + field,) + tuple('f:' + e for e in extra)

    def mods(self, s):
        return [('f:' + f, V.ov(s.self)) for f in (self.field,) + tuple(self.extra)]

    def post(self, s):
        return [('the result is marked', V.bv(s.f(s.self, self.field)))]


def passes(s):
    """fold: every result of a list is successful (in the state at entry)"""
    def ok(*a):
        x, allow, e, f, k, st, fi, it, lists = a[-1], a[0], *a[1:8]
        g = lambda m, o: z3.Select(m, V.ov(o))
        some = lambda m: z3.Select(lists, V.ov(g(m, x))) != nil
        return And(Not(some(e)), Not(some(f)), Not(V.bv(g(it, x))), If(some(k), allow, V.bv(g(st, x))))
    name = 'all_successful'
    if name not in T.funs:
        T.fold(name, Bool, lambda *p: z3.BoolVal(True), lambda *a: And(a[-3], ok(*(a[:-3] + (a[-2],)))), (Bool,) + PRED_ARGS)
        T.lemma(name + '.prefix', (Bool,) + PRED_ARGS + (L,), lambda *a: Implies(And(T_.prefix(a[-2], a[-1]), T.funs[name](*(a[:-2] + (a[-1],)))), T.funs[name](*(a[:-2] + (a[-2],)))),
                lambda *a: [T_.prefix(a[-2], a[-1]), T.funs[name](*(a[:-2] + (a[-1],)))])
    return T.funs[name]


class SR(Contract):
    params = {'self': 'obj:SessionResults'}
    ret = 'int'
    touches = ()

    def results(self, s, obj=None):
        obj = s.self if obj is None else obj
        d = V.ov(s.f(obj, '_results_dict', True))
        return s.ex.reg.vals_of(z3.Select(s._h('Dv', True), d), z3.Select(s._h('Dk', True), d))

    def inv(self, s, obj=None):
        obj = s.self if obj is None else obj
        return ('the iterator goes over the results kept (established by the constructor)', iterated(s.f(obj, '_iterator', True)) == s.f(obj, '_results_dict', True))

    def pre(self, s):
        return [self.inv(s)]

    def args(self, s):
        return [s._h('f:' + c, True) for c in RF] + [s._h('L', True)]


def at(maps, x):
    g = [z3.Select(m, V.ov(x)) for m in maps[:6]]
    return [z3.Select(maps[6], V.ov(y)) for y in g[:3]] + g[3:]


def count_fold():
    name = 'results_with'
    if name not in T.funs:
        T.fold(name, Int, lambda *p: z3.IntVal(0), lambda *a: a[-3] + If(pred_f(a[0], *at(a[1:8], a[-2])), 1, 0), (V,) + PRED_ARGS)
    return T.funs[name]


class Count(SR):
    key = F + 'SessionResults._count'
    params = {'self': 'obj:SessionResults', 'pred': 'any', 'include_global': 'bool'}

    def folds(self, s):
        a = self.args(s)
        return [('results_with', Int, lambda l: count_fold()(s.pred, *(a + [l])))]

    def invariants(self, s, info):
        return [('counted so far', lambda P, st: V.iv(st.env['returned'].term) == count_fold()(s.pred, *(self.args(s) + [P])))]

    def all(self, s):
        return L.snoc(self.results(s), s.f(s.self, 'global_result', True))

    def post(self, s):
        f = count_fold()
        p = self.args(s)
        return [('the number of results with the property, the global one included where asked for', V.iv(s.res) == f(s.pred, *(p + [If(V.bv(s.include_global), self.all(s), self.results(s))])))]


class Num(Count):
    params = {'self': 'obj:SessionResults'}

    def __init__(self, name, pred, with_global, ret='int'):
        Contract.__init__(self)
        self.key, self.pr, self.glob = F + 'SessionResults.' + name, pred, with_global

    def folds(self, s):
        return []

    def invariants(self, s, info):
        return []

    def post(self, s):
        n = count_fold()(vk('fn ' + F + 'Result.' + self.pr), *(self.args(s) + [self.all(s) if self.glob else self.results(s)]))
        return [('the number of results for which %s holds' % self.pr, V.iv(s.res) == n)]


class Skipped(Num):
    params = {'self': 'obj:SessionResults', 'include_not_run': 'bool'}

    def __init__(self):
        Contract.__init__(self)
        self.key = F + 'SessionResults.get_num_skipped'

    def post(self, s):
        n = lambda p: count_fold()(vk('fn ' + F + 'Result.' + p), *(self.args(s) + [self.all(s)]))
        return [('the number of skipped results, of those started only where asked for', V.iv(s.res) == If(V.bv(s.include_not_run), n('is_skip'), n('is_run_and_skip')))]


class Fatal(Num):
    ret = 'bool'

    def __init__(self):
        Contract.__init__(self)
        self.key = F + 'SessionResults.has_fatal_errors'

    def post(self, s):
        return [('iff some result has a fatal error', V.bv(s.res) == (count_fold()(vk('fn ' + F + 'Result.has_fatal_errors'), *(self.args(s) + [self.all(s)])) != 0))]


class GlobalSuccess(SR):
    key = F + 'GlobalResult.is_success'
    params = {'self': 'obj:GlobalResult', 'allow_skips': 'bool'}
    ret = 'bool'
    touches = ()

    def sr(self, s):
        return s.f(s.self, '_session_results', True)

    def pre(self, s):
        n, p = self.inv(s, self.sr(s))
        return [(n, Implies(self.sr(s) != none, p))]

    def folds(self, s):
        return [('all_successful', Bool, lambda l: passes(s)(*([V.bv(s.allow_skips)] + self.args(s) + [l])))]

    def invariants(self, s, info):
        return [('all so far successful', lambda P, st: passes(s)(*([V.bv(s.allow_skips)] + self.args(s) + [P])))]

    def post(self, s):
        allow = V.bv(s.allow_skips)
        sr = self.sr(s)
        session = s.f(sr, 'session', True)
        failed = And(V.bv(z3.Function('m_Session_has_children', L, V)(mk(session))),
                     V.bv(s.f(s.f(s.f(session, 'parallel_manager', True), 'server', True), 'worker_error_reported', True)))
        return [('the session is successful iff the global result and every test result are and no worker failed',
                 V.bv(s.res) == And(R(s, s.self).success(allow), Implies(sr != none, And(Not(failed), passes(s)(*([allow] + self.args(s) + [self.results(s, sr)]))))))]


class Init(Contract):
    key = F + 'SessionResults.__init__'
    params = {'self': 'obj:SessionResults', 'session': 'obj:Session'}
    ret = 'none'
    touches = ('f:session', 'f:global_result', 'f:_results_dict', 'f:_iterator', 'Dk', 'Dv', 'L', 'f:_session_results', 'f:test_metadata', 'f:data', 'f:details', 'f:facts',
               'f:_start_time', 'f:_end_time', 'f:_log_path', 'f:_extra_logs') + tuple('f:' + f for f in RF)

    def mods(self, s):
        return [('f:' + f, V.ov(s.self)) for f in ('session', 'global_result', '_results_dict', '_iterator')]

    def post(self, s):
        d = s.f(s.self, '_results_dict')
        g = s.f(s.self, 'global_result')
        return [('the iterator goes over the results kept', iterated(s.f(s.self, '_iterator')) == d),
                ('no test result at first', s.dkeys(d) == nil),
                ('the global result is a new one that knows the session results', And(s.newobj(g), s.f(g, '_session_results') == s.self)),
                ('the session is kept', s.f(s.self, 'session') == s.session)]


class Create(SR):
    key = F + 'SessionResults.create_result'
    params = {'self': 'obj:SessionResults', 'test': 'obj:Test'}
    ret = 'obj:Result'
    may_raise = True
    touches = ('Dk', 'Dv', 'L', 'f:test_metadata', 'f:data', 'f:details', 'f:facts', 'f:_start_time', 'f:_end_time', 'f:_log_path', 'f:_extra_logs') + tuple('f:' + f for f in RF)

    def pre(self, s):
        return [('the dictionary of results is an object of its own', s.oldobj(s.f(s.self, '_results_dict', True)))]

    def d(self, s):
        return s.f(s.self, '_results_dict', True)

    def tid(self, s):
        return s.f(s.f(s.test, '__slash__', True), 'id', True)

    def mods(self, s):
        return [('Dk', V.ov(self.d(s))), ('Dv', V.ov(self.d(s)))]

    def post(self, s):
        r = R(s, s.res)
        e = lambda f: s.lst(s.f(s.res, f)) == nil
        fl = lambda f: Not(V.bv(s.f(s.res, f)))
        return [('exactly the result of this test is added', s.dmap(self.d(s)) == z3.Store(s.dmap(self.d(s), True), self.tid(s), s.res)),
                ('it had none', z3.Select(s.dmap(self.d(s), True), self.tid(s)) == absent),
                ('it is new', s.newobj(s.res)),
                ('nothing is recorded in it', And(e('_errors'), e('_failures'), e('_skips'), fl('_started'), fl('_finished'), fl('_interrupted'))),
                ('it belongs to the test', s.f(s.res, 'test_metadata') == s.f(s.test, '__slash__', True))]

    def exc_post(self, s):
        return [('refused only when the test has a result', z3.Select(s.dmap(self.d(s), True), self.tid(s)) != absent),
                ('which is kept', s.dmap(self.d(s)) == s.dmap(self.d(s), True))]


class Summary(Contract):
    key = 'slash/runner.py::_fire_test_summary_hooks'
    params = {'test': 'any', 'result': 'obj:Result'}
    ret = 'any'
    may_raise = True
    touches = ('G:tr',)

    def mods(self, s):
        return [('G:tr', None)]

    def chosen(self, s, tr):
        r = R(s, s.result)
        ev = lambda n: L.last(tr) == vt(event('hook ' + n))
        just = And(r.some('_failures'), Not(r.some('_errors')))
        return And(L.is_snoc(tr), L.init(tr) == s.tr(True),
                   If(just, ev('test_failure'), If(r.some('_skips'), L.last(tr) == vt(event('hook test_skip'), T_.nth(s.lst(s.f(s.result, '_skips', True), True), 0)),
                                                   If(r.success(z3.BoolVal(False)), ev('test_success'), ev('test_error')))))

    def post(self, s):
        return [('exactly one summary hook fires, chosen by the result', self.chosen(s, s.tr()))]

    def exc_post(self, s):
        return [('a raising callback of the one chosen hook is handled, and no other summary hook fires',
                 And(self.chosen(s, L.init(s.tr())), L.last(s.tr()) == vt(event('handled'), s.e)))]


CONTRACTS = [Pred(n, *p) for n, p in PREDS.items()] + [
    IsSuccess(), Mark('mark_started', '_started', ('_start_time',)), Mark('mark_finished', '_finished', ('_end_time',)), Mark('mark_interrupted', '_interrupted'),
    Init(), Create(), Count(), GlobalSuccess(),
    Num('get_num_started', 'is_started', False), Num('get_num_successful', 'is_success_finished', False), Num('get_num_errors', 'is_error', True),
    Num('get_num_failures', 'is_just_failure', True), Num('get_num_not_run', 'is_not_run', False), Skipped(), Fatal(), Summary()]
LEMMAS = []
BOUNDED = ['the order in which the runner records, finishes and summarises a test, and the exit status: bounded harness only']
ASSUMPTIONS = ['test results are instances of Result itself (create_result makes them); datetime and Details constructors do not touch the record of the result',
               'functools.partial(iter, d.values()) called later iterates over the values d has then']
