"""C16: the accounting of the parallel server."""
from .common import *
from . import c15
from engine.values import CMExt
from engine.models import card

F = 'slash/parallel/server.py::Server.'
NI, WC, WV, SERVE, STOP, STOPSERVE = [vi(n) for n in range(1, 7)]     # ServerStates, in definition order
CTX = V.o(z3.Int('CTX'))
EMPTY = z3.K(V, z3.BoolVal(False))


def registry():
    reg = base_registry()
    c15_fields = c15.registry().fields
    reg.fields.update({k: v for k, v in c15_fields.items() if k[0] in ('TestsDistributer', 'WorkerConfiguration')})
    reg.fields.update({
        ('Server', 'state'): 'int', ('Server', 'tests'): 'list[obj:Test]', ('Server', 'executing_tests'): 'dict[str,opt[int]]',
        ('Server', 'finished_tests'): 'list[int]', ('Server', 'num_collections_validated'): 'int',
        ('Server', 'connected_clients'): 'set[str]', ('Server', 'collection'): 'list[any]', ('Server', '_sorted_collection'): 'any',
        ('Server', '_tests_distrubuter'): 'obj:TestsDistributer', ('Server', 'worker_error_reported'): 'bool',
        ('Server', 'interrupted'): 'bool', ('Server', 'worker_session_ids'): 'list[str]', ('Server', 'worker_to_pid'): 'dict[str,any]',
        ('Test', '__slash__'): 'obj:Metadata', ('Metadata', 'address'): 'str', ('Metadata', 'id'): 'str',
        ('Session', 'id'): 'str', ('Session', 'logging'): 'obj:SessionLogging', ('Session', 'reporter'): 'obj:Reporter',
        ('Session', 'results'): 'obj:SessionResults', ('SessionResults', 'global_result'): 'obj:Result', ('Result', 'of_test'): 'any',
    })
    config_leaf(reg, 'parallel.num_workers', 'int')
    config_leaf(reg, 'run.stop_on_error', 'bool')
    for c in c15.CONTRACTS:
        reg.contracts[c.key] = c
    for c in CONTRACTS + TRUSTED:
        reg.contracts[c.key] = c
    reg.eq_models = {}
    reg.ext_methods[('SessionLogging', '*')] = quiet

    def result_of(ex, st, recv):
        return ex.hget(st, 'f:of_test', ex.oid(recv))

    def ev_method(name):
        def h(ex, st, recv, a, kw, exc):
            st = st.fork()
            ex.emit(st, event(name), result_of(ex, st, recv), *[ex.to_v(x) for x in a.items])
            yield st, NONEV
        return h
    for n in ('mark_interrupted', 'deserialize'):
        reg.fn_models['slash/core/result.py::Result.' + n] = None
    reg.ext_methods[('Result', 'mark_interrupted')] = ev_method('result interrupted')
    reg.ext_methods[('Result', 'deserialize')] = ev_method('result filled')
    reg.fn_models = {}

    def deserialize(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('result filled'), result_of(ex, st, recv), ex.to_v(a.items[0]))
        ex.hset(st, 'f:of_content', ex.oid(recv), ex.to_v(a.items[0]))
        yield st, NONEV
    reg.ext_methods[('Result', 'deserialize')] = deserialize

    def report_end(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('test end reported'), ex.to_v(a.items[0]), result_of(ex, st, a.items[1]))
        yield st, NONEV
    reg.ext_methods[('Reporter', 'report_test_end')] = report_end

    def pred(name, f):
        def h(ex, st, recv, a, kw, exc):
            # decided by what the worker sent (Result.serialize/deserialize: C03)
            yield st, Sym(V.b(f(ex.hget(st, 'f:of_content', ex.oid(recv)), vt(*[ex.to_v(x) for x in list(a.items) + [v for k, v in sorted(kw.items())]]))), BOOL)
        reg.ext_methods[('Result', name)] = h
    pred('has_fatal_exception', fatal_f)
    pred('is_success', succ_f)

    # _get_test_context(test): creates the one result of that test and makes it current for the block
    def handler(ex, st, args, kw, run):
        st = st.fork()
        t = ex.to_v(args.items[0] if isinstance(args, Tup) else args[0])
        r = ex.new_obj(st, 'Result')
        ex.hset(st, 'f:of_test', ex.oid(r), t)
        ex.emit(st, event('result created'), t)
        return run(st, Tup([r, Sym(fresh('prev', V))]))
    handler.model_name = '_get_test_context (creates and installs the result of the test; decided under C21/C06)'

    def make(ex, st, a, kw, exc):
        yield st, CMExt(handler, a, kw)
    reg.fn_models['slash/runner.py::_get_test_context'] = make
    return reg


fatal_f = z3.Function('result_has_fatal_exception', V, V, Bool)
succ_f = z3.Function('result_is_success', V, V, Bool)


def unrun_fold():
    return T.fold('unrun_events', L, lambda tests: nil,
                  lambda tests, r, x, l: L.snoc(r, vt(event('result created'), T_.nth(tests, V.iv(x)))), (L,))


class Base(Contract):
    params = {'self': 'obj:Server'}
    touches = ('f:state', 'f:tests', 'f:executing_tests', 'f:finished_tests', 'f:num_collections_validated', 'f:connected_clients',
               'f:collection', 'f:_sorted_collection', 'f:_tests_distrubuter', 'f:worker_error_reported', 'f:interrupted',
               'f:_unstarted_tests_indices', 'f:_forced_tests_dict', 'f:_workers_excluded_tests', 'L', 'Dv', 'Dk', 'S', 'G:tr')

    def state(self, s, pre=False):
        return s.f(s.self, 'state', pre)

    def dist(self, s):
        return s.f(s.self, '_tests_distrubuter', True)

    def waiting(self, s, pre=False):
        return s.lst(s.f(self.dist(s), '_unstarted_tests_indices', pre), pre)

    def executing(self, s, pre=False):
        return s.dmap(s.f(s.self, 'executing_tests', True), pre)

    def finished(self, s, pre=False):
        return s.lst(s.f(s.self, 'finished_tests', True), pre)

    def tests(self, s):
        return s.lst(s.f(s.self, 'tests', True), True)

    def clients(self, s, pre=False):
        return s.sset(s.f(s.self, 'connected_clients', True), pre)

    def test(self, s, i):
        return T_.nth(self.tests(s), V.iv(i))

    def inrange(self, s, v):
        return And(V.is_i(v), V.iv(v) >= 0, V.iv(v) < length(self.tests(s)))

    def wf(self, s):
        """representation invariant: separate containers, indices in range"""
        f = lambda n: s.f(s.self, n, True)
        v = z3.Const('v', V)
        w = s.f(self.dist(s), '_unstarted_tests_indices', True)
        fd, we = s.f(self.dist(s), '_forced_tests_dict', True), s.f(self.dist(s), '_workers_excluded_tests', True)
        isl = lambda *ts: And([s.oldobj(t) for t in ts])
        return [('the lists of the server are separate lists', And(isl(f('tests'), f('finished_tests'), f('collection'), w),
                                                                   distinct_ids(f('tests'), f('finished_tests'), f('collection'), w))),
                ('the dictionaries of the server and distributer are separate', And(isl(f('executing_tests'), fd, we), distinct_ids(f('executing_tests'), fd, we))),
                ('a session is active', s.f(CTX, 'session', True) != none),
                ('waiting indices are in range', ForAll([v], Implies(mem(v, self.waiting(s, True)), self.inrange(s, v)),
                                                        patterns=[mem(v, self.waiting(s, True))])),
                ('waiting indices are distinct', T_.nodup(self.waiting(s, True))),
                ('tests under way are in range', ForAll([v], Implies(And(z3.Select(self.executing(s, True), v) != none,
                                                                         z3.Select(self.executing(s, True), v) != absent),
                                                                     self.inrange(s, z3.Select(self.executing(s, True), v))),
                                                        patterns=[z3.Select(self.executing(s, True), v)])),
                ('one collection entry per test', length(s.lst(f('collection'), True)) == length(self.tests(s)))]

    def known(self, s):
        fd = s.dmap(s.f(self.dist(s), '_workers_excluded_tests', True), True)
        return [('the client connected earlier', And(z3.Select(self.executing(s, True), s.client_id) != absent,
                                                     z3.Select(fd, s.client_id) != absent))]


class HasClients(Base):
    key = F + 'has_connected_clients'
    ret = 'bool'

    def post(self, s):
        return [('true iff a client is connected', V.bv(s.res) == (self.clients(s, True) != EMPTY))]


class HasMore(Base):
    key = F + 'has_more_tests'
    ret = 'bool'

    def post(self, s):
        return [('true iff a test is unaccounted for', V.bv(s.res) == (length(self.finished(s, True)) < length(self.tests(s))))]


class ShouldWait(Base):
    key = F + 'should_wait_for_request'
    ret = 'bool'

    def post(self, s):
        return [('waits exactly while a client is connected or a test is unaccounted for',
                 V.bv(s.res) == Or(self.clients(s, True) != EMPTY, length(self.finished(s, True)) < length(self.tests(s))))]


class Unstarted(Base):
    key = F + 'get_unstarted_tests'
    ret = 'list[int]'

    def post(self, s):
        return [('reports exactly the waiting tests', s.lst(s.res) == self.waiting(s, True)), ('callers cannot alter them', s.newobj(s.res))]


class Validate(Base):
    key = F + 'validate_collection'
    params = {'self': 'obj:Server', 'client_id': 'str', 'sorted_client_collection': 'any'}
    ret = 'bool'

    def mods(self, s):
        return [('f:state', V.ov(s.self)), ('f:num_collections_validated', V.ov(s.self))]

    def post(self, s):
        same = s.f(s.self, '_sorted_collection', True) == s.sorted_client_collection
        n0, n1 = V.iv(s.f(s.self, 'num_collections_validated', True)), V.iv(s.f(s.self, 'num_collections_validated'))
        st0, st1 = self.state(s, True), self.state(s)
        enough = And(n0 + 1 >= V.iv(cfg('parallel.num_workers')), st0 == WV)
        return [('accepted iff it is the collection of the server', V.bv(s.res) == same),
                ('a validated collection is counted', n1 == If(same, n0 + 1, n0)),
                ('serving starts exactly when all workers connected and validated', st1 == If(And(same, enough), SERVE, st0))]


class Disconnect(Base):
    key = F + 'disconnect'
    params = {'self': 'obj:Server', 'client_id': 'str', 'has_failure': 'bool'}
    ret = 'none'
    may_raise = True

    def mods(self, s):
        return [('f:state', V.ov(s.self)), ('S', V.ov(s.f(s.self, 'connected_clients', True)))]

    def post(self, s):
        return [('the client is gone, the others stay', self.clients(s) == z3.Store(self.clients(s, True), s.client_id, z3.BoolVal(False))),
                ('a failing worker stops the distribution', self.state(s) == If(V.bv(s.has_failure), STOP, self.state(s, True)))]

    def exc_post(self, s):
        return [('only an unknown client is refused', Not(z3.Select(self.clients(s, True), s.client_id))),
                ('a refused request changes nothing', And(self.clients(s) == self.clients(s, True), self.state(s) == self.state(s, True)))]


class GetTest(Base):
    key = F + 'get_test'
    params = {'self': 'obj:Server', 'client_id': 'str'}
    ret = 'any'
    may_raise = True         # a test_distributed hook callback may raise

    def pre(self, s):
        return self.wf(s) + self.known(s)

    def mods(self, s):
        ex = V.ov(s.f(s.self, 'executing_tests', True))
        d = V.ov(self.dist(s))
        return [('f:state', V.ov(s.self)), ('Dv', ex), ('Dk', ex), ('L', V.ov(s.f(self.dist(s), '_unstarted_tests_indices', True))),
                ('f:_unstarted_tests_indices', d), ('G:tr', None)]

    def first(self, s):
        d = self.dist(s)
        fm, em = s.dmap(s.f(d, '_forced_tests_dict', True), True), s.dmap(s.f(d, '_workers_excluded_tests', True), True)
        x = c15.View_first(s, d, s.client_id)
        return x(self.waiting(s, True))

    def post(self, s):
        busy = z3.Select(self.executing(s, True), s.client_id) != none
        st0, st1 = self.state(s, True), self.state(s)
        w0, w1 = self.waiting(s, True), self.waiting(s)
        early = Or(st0 == WC, st0 == WV)
        serving = And(Not(busy), st0 == SERVE, w0 != nil)
        first = self.first(s)
        give = And(serving, first != none)
        unchanged = And(self.executing(s) == self.executing(s, True), w1 == w0)
        coll = s.lst(s.f(s.self, 'collection', True), True)
        return [('asking again before reporting is a protocol error that changes nothing',
                 Implies(busy, And(s.res == vs('PROTOCOL_ERROR'), unchanged, st1 == st0))),
                ('nothing is handed out after distribution stopped',
                 Implies(And(Not(busy), st0 == STOP), And(s.res == vs('NO_MORE_TESTS'), unchanged, st1 == STOP))),
                ('nothing is handed out before all workers validated',
                 Implies(And(Not(busy), early), And(s.res == vs('WAITING_FOR_CLIENTS'), unchanged, st1 == st0))),
                ('a test is handed out exactly when serving and a permitted test waits', Implies(Not(give), unchanged)),
                ('the first permitted waiting test is handed out, assigned to this client and no longer waits',
                 Implies(give, And(s.res == vt(T_.nth(coll, V.iv(first)), first),
                                   self.executing(s) == z3.Store(self.executing(s, True), s.client_id, first),
                                   w1 == remove1(first, w0), st1 == st0))),
                ('a worker that may run none of the waiting tests does not stop the others',
                 Implies(And(serving, first == none), And(s.res == vs('NO_MORE_TESTS'), st1 == st0)))]


class Interrupted(Base):
    key = F + 'session_interrupted'
    ret = 'none'

    def pre(self, s):
        return [('a session is active', s.f(CTX, 'session', True) != none)]

    def mods(self, s):
        return [('f:state', V.ov(s.self)), ('f:interrupted', V.ov(s.self)), ('G:tr', None)]

    def post(self, s):
        st0, st1 = self.state(s, True), self.state(s)
        return [('interruption is recorded', s.f(s.self, 'interrupted') == vb(True)),
                ('distribution stops', st1 == If(st0 == STOPSERVE, st0, STOP))]


class SessionError(Base):
    key = F + 'report_session_error'
    params = {'self': 'obj:Server', 'message': 'str'}
    ret = 'none'

    def mods(self, s):
        return [('f:worker_error_reported', V.ov(s.self))]

    def post(self, s):
        return [('the session is marked as failed', s.f(s.self, 'worker_error_reported') == vb(True))]


class StopServe(Base):
    key = F + 'stop_serve'
    ret = 'none'

    def mods(self, s):
        return [('f:state', V.ov(s.self))]

    def post(self, s):
        return [('the server loop is told to end', self.state(s) == STOPSERVE)]


class MarkUnrun(Base):
    key = F + '_mark_unrun_tests'
    ret = 'none'

    def pre(self, s):
        return self.wf(s)

    def folds(self, s):
        f = unrun_fold()
        return [('unrun_events', L, lambda l: f(self.tests(s), l))]

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, 'finished_tests', True))), ('f:_unstarted_tests_indices', V.ov(self.dist(s))),
                ('L', V.ov(s.f(self.dist(s), '_unstarted_tests_indices', True))), ('G:tr', None)]

    def post(self, s):
        f = unrun_fold()
        return [('every test that waited is accounted for, once', self.finished(s) == app(self.finished(s, True), self.waiting(s, True))),
                ('every test that waited gets exactly one (not run) result, in order',
                 s.tr() == app(s.tr(True), f(self.tests(s), self.waiting(s, True)))),
                ('nothing waits any more', self.waiting(s) == nil)]


class FinishedTest(Base):
    key = F + 'finished_test'
    params = {'self': 'obj:Server', 'client_id': 'str', 'result_dict': 'any'}
    ret = 'any'

    def pre(self, s):
        return self.wf(s)

    def mods(self, s):
        ex = V.ov(s.f(s.self, 'executing_tests', True))
        return MarkUnrun.mods(self, s) + [('f:state', V.ov(s.self)), ('Dv', ex), ('Dk', ex)]

    def post(self, s):
        e0 = z3.Select(self.executing(s, True), s.client_id)
        idle = Or(e0 == absent, e0 == none)
        st0, st1 = self.state(s, True), self.state(s)
        t = self.test(s, e0)
        tr2 = L.snoc(L.snoc(s.tr(True), vt(event('result created'), t)), vt(event('result filled'), t, s.result_dict))
        stop = Or(fatal_f(s.result_dict, vt()), And(Not(succ_f(s.result_dict, vt(vb(True)))), V.bv(cfg('run.stop_on_error'))))
        tr3 = L.snoc(tr2, vt(event('test end reported'), t, t))
        w0 = self.waiting(s, True)
        return [('a result nobody was asked for is rejected and changes nothing',
                 Implies(idle, And(s.res == vs('PROTOCOL_ERROR'), self.finished(s) == self.finished(s, True), s.tr() == s.tr(True), st1 == st0,
                                   self.executing(s) == self.executing(s, True), self.waiting(s) == w0))),
                ('the client is free again', Implies(Not(idle), self.executing(s) == z3.Store(self.executing(s, True), s.client_id, none))),
                ('the test under way at this client is accounted for, once (with the unrun ones when stopping)',
                 Implies(Not(idle), self.finished(s) == If(stop, app(L.snoc(self.finished(s, True), e0), w0), L.snoc(self.finished(s, True), e0)))),
                ('exactly one result is created for it, filled with what the worker sent, and reported',
                 Implies(Not(idle), s.tr() == If(stop, app(tr3, unrun_fold()(self.tests(s), w0)), tr3))),
                ('a fatal result, or an unsuccessful one under stop-on-error, stops the distribution',
                 Implies(Not(idle), And(st1 == If(stop, STOP, st0), self.waiting(s) == If(stop, nil, w0))))]


class ClientFailure(Base):
    key = F + 'report_client_failure'
    params = {'self': 'obj:Server', 'client_id': 'str'}
    ret = 'none'
    may_raise = True

    def pre(self, s):
        return self.wf(s)

    def mods(self, s):
        return FinishedTest.mods(self, s) + [('f:worker_error_reported', V.ov(s.self)), ('S', V.ov(s.f(s.self, 'connected_clients', True)))]

    def post(self, s):
        e0 = z3.Select(self.executing(s, True), s.client_id)
        idle = Or(e0 == absent, e0 == none)
        t = self.test(s, e0)
        w0 = self.waiting(s, True)
        f0 = self.finished(s, True)
        tr1 = If(idle, s.tr(True), L.snoc(L.snoc(s.tr(True), vt(event('result created'), t)), vt(event('result interrupted'), t)))
        return [('the client is gone, the others stay', self.clients(s) == z3.Store(self.clients(s, True), s.client_id, z3.BoolVal(False))),
                ('the test it was running is accounted for once, then every waiting one',
                 self.finished(s) == app(If(idle, f0, L.snoc(f0, e0)), w0)),
                ('the test it was running gets exactly one interrupted result, every waiting one a not-run result',
                 s.tr() == app(tr1, unrun_fold()(self.tests(s), w0))),
                ('a later report of the dead client is not taken for a result',
                 Or(z3.Select(self.executing(s), s.client_id) == none, z3.Select(self.executing(s), s.client_id) == absent)),
                ('distribution stops and the session fails', And(self.state(s) == STOP, self.waiting(s) == nil,
                                                                 s.f(s.self, 'worker_error_reported') == vb(True)))]

    def exc_post(self, s):
        return [('only an unknown client is refused', Not(z3.Select(self.clients(s, True), s.client_id)))]


CONTRACTS = [HasClients(), HasMore(), ShouldWait(), Unstarted(), Validate(), Disconnect(), GetTest(), Interrupted(), SessionError(),
             StopServe(), MarkUnrun(), FinishedTest(), ClientFailure()]
TRUSTED = []
ASSUMPTIONS = ['one request at a time (the XML-RPC server is single threaded)',
               'values compared with == are represented by their equality class',
               'hook callbacks, reporters and loggers do not touch the server',
               'worker ids are strings that connected earlier; configuration does not change during a call']
BOUNDED = ['Server.connect, Server.__init__, Server.serve, ParallelManager, Worker: bounded harness only']
