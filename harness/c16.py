"""C16: what the parallel server accounts for, whatever the workers do."""
import os
import threading
from .base import forked, ensure_slash, slash_main, REPO
from .parallel_common import with_server, client_collection, wire

SRC = {'test_a.py': ''.join('def test_%d():\n    pass\n' % i for i in range(12))}
OUTCOMES = ['success', 'error', 'failure', 'skip', 'fatal', 'details', 'interrupted', 'two errors']


class Model(object):
    def __init__(self, n, k, stop_on_error, excl=()):
        self.n, self.k, self.soe = n, k, stop_on_error
        self.state = 'CLIENTS'
        self.connected, self.ever = set(), set()
        self.waiting = list(range(n))
        self.executing = {}
        self.finished = 0
        self.validated = 0
        self.failed = False
        self.interrupted = False
        self.results = {}            # index -> (kind, mark)
        self.excl = excl
        self.given, self.done = [], []

    def connect(self, c):
        self.connected.add(c)
        self.ever.add(c)
        self.executing[c] = None
        if len(self.connected) >= self.k:
            self.state = 'VALIDATE'

    def validate(self, c, good):
        if not good:
            return False
        self.validated += 1
        if self.validated >= self.k and self.state == 'VALIDATE':
            self.state = 'SERVE'
        return True

    def get_test(self, c):
        if self.executing[c] is not None:
            return 'PROTOCOL_ERROR'
        if self.state == 'STOP':
            return 'NO_MORE_TESTS'
        if self.state in ('CLIENTS', 'VALIDATE'):
            return 'WAITING_FOR_CLIENTS'
        if self.waiting:
            for i in self.waiting:
                if (c, i) not in self.excl:
                    self.waiting.remove(i)
                    self.executing[c] = i
                    self.given.append((c, i))
                    return i
            return 'NO_MORE_TESTS'
        self.state = 'STOP'
        return 'NO_MORE_TESTS'

    def finish(self, c, outcome, mark):
        i = self.executing.get(c)
        if i is None:
            return 'PROTOCOL_ERROR'
        self.executing[c] = None
        self.finished += 1
        self.results[i] = (outcome, mark)
        self.done.append(i)
        if outcome == 'fatal' or (self.soe and outcome in ('error', 'failure', 'interrupted', 'two errors')):
            self.stop()
        return None

    def stop(self):
        self.state = 'STOP'
        for i in self.waiting:
            self.results[i] = ('not run', None)
            self.finished += 1
        self.waiting = []

    def died(self, c):
        self.connected.remove(c)
        i = self.executing.get(c)
        if i is not None:
            self.results[i] = ('worker died', None)
            self.finished += 1
        self.executing[c] = None
        self.failed = True
        self.stop()

    def disconnect(self, c, failure):
        self.connected.remove(c)
        if failure:
            self.state = 'STOP'


def make_result(test, outcome, mark):
    from slash.core.result import Result
    r = Result(test.__slash__)
    r.mark_started()
    r.details.set('mark', mark)
    if outcome in ('error', 'two errors'):
        r.add_error('err %s' % mark)
    if outcome == 'two errors':
        r.add_error('err2 %s' % mark)
    if outcome == 'failure':
        r.add_failure('fail %s' % mark)
    if outcome == 'skip':
        r.add_skip('skip %s' % mark)
    if outcome == 'fatal':
        r.add_error('fatal %s' % mark).mark_fatal()
    if outcome == 'interrupted':
        r.mark_interrupted()
    r.data['mark'] = mark
    r.mark_finished()
    return r


def describe(session, tests):
    out = []
    for t in tests:
        rs = [r for r in session.results.iter_test_results() if r.test_metadata is t.__slash__]
        row = []
        for r in rs:
            row.append({'mark': r.details.all().get('mark'), 'data': r.data.get('mark'), 'errors': [e.message for e in r.get_errors()],
                        'failures': [e.message for e in r.get_failures()], 'skips': list(r.get_skips()), 'started': r.is_started(),
                        'interrupted': r.is_interrupted(), 'not_run': r.is_not_run(), 'success': r.is_success(allow_skips=True),
                        'fatal': r.has_fatal_exception(), 'finished': r.is_finished()})
        out.append(row)
    return out


def expected(kind, mark):
    d = {'mark': mark, 'data': mark, 'errors': [], 'failures': [], 'skips': [], 'started': True, 'interrupted': False, 'not_run': False,
         'success': True, 'fatal': False, 'finished': True}
    if kind in ('error', 'two errors'):
        d.update(errors=['err %s' % mark], success=False)
    if kind == 'two errors':
        d['errors'].append('err2 %s' % mark)
    if kind == 'failure':
        d.update(failures=['fail %s' % mark], success=False)
    if kind == 'skip':
        d.update(skips=['skip %s' % mark])
    if kind == 'fatal':
        d.update(errors=['fatal %s' % mark], success=False, fatal=True)
    if kind == 'interrupted':
        d.update(interrupted=True, success=False)
    if kind == 'worker died':
        d.update(mark=None, data=None, interrupted=True, success=False, started=None, not_run=None, finished=None)
    if kind == 'not run':
        d.update(mark=None, data=None, started=False, not_run=True, success=False, finished=None)
    return d


def cmp_results(h, got, m, where):
    for i, row in enumerate(got):
        if i not in m.results:
            h.eq(len(row), 0, 'a result for a test nobody reported', '%s test %d' % (where, i))
            continue
        if not h.eq(len(row), 1, 'exactly one result per test', '%s test %d' % (where, i)):
            continue
        want = expected(*m.results[i])
        g = {k: v for k, v in row[0].items() if want[k] is not None or k in ('mark', 'data')}
        h.eq(g, {k: want[k] for k in g}, 'result of the right test', '%s test %d %r' % (where, i, m.results[i]))


def gen_ops(rng, k, n, well_behaved):
    """op list; the driver skips ops that make no sense at that point"""
    ops = []
    ws = [str(i + 1) for i in range(k)]
    if well_behaved or rng.random() < .7:
        order = ws[:]
        rng.shuffle(order)
        ops += [('connect', w) for w in order]
        order = ws[:]
        rng.shuffle(order)
        if rng.random() < .9:
            ops += [('validate', w, True) for w in order]
    for _ in range(rng.randint(4, 34)):
        w = rng.choice(ws)
        x = rng.random()
        if x < .4:
            ops.append(('get', w))
        elif x < .85:
            ops.append(('finish', w, rng.choice(OUTCOMES if rng.random() < .6 else ['success'])))
        elif well_behaved:
            ops.append(('get', w))
        elif x < .88:
            ops.append(('died', w))
        elif x < .90:
            ops.append(('disconnect', w, rng.random() < .4))
        elif x < .94:
            ops.append(('connect', w))
        elif x < .97:
            ops.append(('validate', w, rng.random() < .8))
        elif x < .98:
            ops.append(('session_error',))
        elif x < .99:
            ops.append(('interrupt',))
        else:
            ops.append(('warning', w))
    return ops


def drive(api, server, session, tests, m, ops, log, n_warn):
    """runs ops on the server (directly or over the wire) and on the model; log gets (op, got, expected)"""
    coll = client_collection(tests)
    mark = 0
    warn0 = len(list(session.warnings))
    for op in ops:
        kind, w = op[0], op[1] if len(op) > 1 else None
        if kind == 'connect':
            if w in m.ever:
                continue
            m.connect(w)
            got, want = api.connect(w, 4242), None
        elif w is not None and w not in m.ever:
            continue
        elif kind == 'validate':
            if w not in m.connected:
                continue
            bad = [coll[:-1], coll + coll[:1], list(reversed(coll)), []][mark % 4]
            if bad == coll:
                bad = coll[:-1]
            got, want = api.validate_collection(w, coll if op[2] else bad), m.validate(w, op[2])
        elif kind == 'get':
            if w not in m.connected:
                continue
            got, want = api.get_test(w), m.get_test(w)
            if isinstance(got, (tuple, list)):
                entry = list(got[0])
                i = got[1]
                ok = entry == [tests[i].__slash__.file_path, tests[i].__slash__.function_name, tests[i].__slash__.variation.dump_variation_dict()]
                got = i if ok else ('entry of another test', entry, i)
        elif kind == 'finish':
            mark += 1
            i = m.executing.get(w)
            r = make_result(tests[i if i is not None else 0], op[2], 'm%d' % mark)
            want = m.finish(w, op[2], 'm%d' % mark)
            got = api.finished_test(w, wire(r))
        elif kind == 'died':
            if w not in m.connected:
                continue
            m.died(w)
            got, want = api.report_client_failure(w), None
        elif kind == 'disconnect':
            if w not in m.connected:
                continue
            m.disconnect(w, op[2])
            got, want = api.disconnect(w, op[2]), None
        elif kind == 'session_error':
            m.failed = True
            got, want = api.report_session_error('boom'), None
        elif kind == 'interrupt':
            m.interrupted = True
            m.state = 'STOP'
            got, want = api.session_interrupted(), None
        elif kind == 'warning':
            import pickle
            from xmlrpc.client import Binary
            n_warn[0] += 1
            got, want = None, None
            api.report_warning(w, Binary(pickle.dumps({'warning': n_warn[0]})))
        log.append((op, got, want))
        state = (server.has_connected_clients(), sorted(server.get_connected_clients()), server.has_more_tests(),
                 server.should_wait_for_request(), list(server.get_unstarted_tests()), bool(server.worker_error_reported), server.interrupted,
                 session.results.is_success(allow_skips=True), session.results.global_result.is_interrupted(), len(list(session.warnings)) - warn0)
        log.append(('state after %r' % (op,), state, (
            bool(m.connected), sorted(m.connected), m.finished < m.n, bool(m.connected) or m.finished < m.n, list(m.waiting), m.failed,
            m.interrupted, None if m.interrupted else not m.failed and all(r[0] in ('success', 'skip', 'details') for r in m.results.values()), m.interrupted, n_warn[0])))


def check_log(h, log):
    for what, got, want in log:
        if isinstance(want, tuple) and isinstance(got, tuple) and len(want) == 10:
            got = tuple(got)
            if want[7] is None:
                got, want = got[:7] + got[8:], want[:7] + want[8:]
            if not h.eq(got, want, 'server state', str(what)):
                return False
        elif not h.eq(got, want, 'answer to a worker', str(what)):
            return False
    return True


def one(h, k, n, soe, excl, ops, wired):
    # the run order (file b first) is not the sorted order
    nb = n // 2 if n > 1 else 0
    src = {'test_a.py': ''.join('def test_%02d():\n    pass\n' % i for i in range(n - nb))}
    if nb:
        src['test_b.py'] = 'def test_00():\n    pass\n' * 0 + ''.join('def test_%02d():\n    pass\n' % i for i in range(nb))
    paths = ['test_b.py', 'test_a.py'] if nb else ['test_a.py']

    def run():
        m = Model(n, k, soe, excl)

        def loaded(session, tests):
            for w, i in excl:
                session.parallel_manager.workers[w].exclude_test(i)

        def body(slash, session, tests, server):
            from slash.parallel.server import ServerStates
            log, nw = [], [0]
            ended = complete = None
            import gossip
            hooked, reported = [], []
            gossip.register(lambda test_logical_id, worker_session_id: hooked.append((test_logical_id, worker_session_id)),
                            'slash.test_distributed', token='vh')
            orig = session.reporter.report_test_end
            session.reporter.report_test_end = lambda test, result: (reported.append((test.__slash__.id, result.test_metadata.id)), orig(test, result))[1]
            if wired:
                from xmlrpc.client import ServerProxy
                th = threading.Thread(target=server.serve, daemon=True)
                th.start()
                import time
                t0 = time.time()
                while server.state == ServerStates.NOT_INITIALIZED and time.time() - t0 < 10:
                    time.sleep(.005)
                api = ServerProxy('http://localhost:%d' % server.port, allow_none=True)
                drive(api, server, session, tests, m, ops, log, nw)
                api.stop_serve()
                th.join(5)
                ended = not th.is_alive()
                complete = session.is_complete()
            else:
                server.state = ServerStates.WAIT_FOR_CLIENTS
                drive(server, server, session, tests, m, ops, log, nw)
            ctx = slash.context
            return log, describe(session, tests), m, ended, complete, ctx.test is None, ctx.result is session.results.global_result, \
                len(list(session.results.iter_test_results())), hooked, reported, [t.__slash__.id for t in tests]
        return with_server(src, k, body, paths=paths, stop_on_error=soe, tests_loaded=loaded)
    log, res, m, ended, complete, no_test, glob, total, hooked, reported, ids = forked(run)
    if not check_log(h, log):
        return
    cmp_results(h, res, m, 'end')
    h.eq(total, len(m.results), 'number of results')
    h.eq([(a, b.split('_')[-1]) for a, b in hooked], [(ids[i], w) for w, i in m.given], 'distribution announced for the right test and worker')
    h.eq(reported, [(ids[i], ids[i]) for i in m.done], 'each reported test is announced as ended once, with its own result')
    h.check(no_test and glob, 'context restored after results are filed')
    if wired:
        h.check(ended, 'the server ends when told to stop')
        h.eq(complete, not m.interrupted, 'session complete unless interrupted')


def random_histories(h):
    """random worker behaviour (connects, validations, requests, results of every kind, deaths, disconnects, repeated and unasked for reports) against a model of the accounting"""
    ensure_slash()
    for _ in range(h.scale(450, 6000)):
        k, n = h.rng.randint(1, 3), h.rng.randint(1, 7)
        soe = h.rng.random() < .3
        excl = [(str(h.rng.randint(1, k)), h.rng.randrange(n)) for _ in range(h.rng.choice([0, 0, 0, 1, 3]))]
        ops = gen_ops(h.rng, k, n, h.rng.random() < .35)
        if h.go((k, n, soe, excl, ops)):
            one(h, k, n, soe, excl, ops, False)


def over_the_wire(h):
    """the same histories through the real XML-RPC server loop"""
    ensure_slash()
    for _ in range(h.scale(40, 400)):
        k, n = h.rng.randint(1, 3), h.rng.randint(1, 7)
        soe = h.rng.random() < .3
        ops = gen_ops(h.rng, k, n, h.rng.random() < .5)
        if h.go((k, n, soe, ops)):
            one(h, k, n, soe, [], ops, True)


def directed(h):
    """histories that must be there whatever the seed"""
    ensure_slash()
    C, V = [('connect', '1'), ('connect', '2')], [('validate', '1', True), ('validate', '2', True)]
    G1, G2 = ('get', '1'), ('get', '2')
    cases = [
        C + [G1] + V[:1] + [G1] + V[1:] + [G1, G1, G2, ('finish', '1', 'success'), ('finish', '1', 'success'), ('finish', '2', 'error'), G1],
        C + V + [G1, G2, ('died', '1'), ('finish', '1', 'success'), G2, ('finish', '2', 'success'), G2, ('disconnect', '2', False)],
        C + V + [G1, ('finish', '1', 'fatal'), G1, G2],
        C + V + [G1, G2, ('finish', '1', 'fatal'), ('finish', '2', 'success'), G1, G2, ('disconnect', '1', False), ('disconnect', '2', False)],
        C + V + [G1, ('interrupt',), G2, ('finish', '1', 'interrupted')],
        C + [('validate', '1', True), ('validate', '2', False), G1, ('disconnect', '2', True), G1, ('disconnect', '1', False)],
        C + [('validate', '1', False), ('validate', '2', True), G1, G2],
        [C[0], ('validate', '1', True), G1, C[1], ('validate', '2', True), G1],
        C + V + [G1, ('finish', '1', 'skip'), G1, ('finish', '1', 'details'), G1, ('finish', '1', 'failure'), G1, G2, ('finish', '2', 'success'), G2],
        C + V + [('finish', '1', 'success'), G1, ('finish', '2', 'success'), ('finish', '1', 'success')],
        C + V + [G1, ('disconnect', '2', True), ('finish', '1', 'success'), G1],
        C + V + [('session_error',), G1, ('warning', '1')],
    ]
    for ops in cases:
        for soe in (False, True):
            for n in (1, 3, 5):
                if h.go((ops, soe, n)):
                    one(h, 2, n, soe, [], ops, False)


def real_workers(h):
    """whole parallel runs with real worker processes"""
    def run(files, argv, cfg=()):
        def body():
            os.environ['PYTHONPATH'] = REPO
            os.environ['SLASH_USER_SETTINGS'] = '/nonexistent'
            import slash.parallel.parallel_manager as pm
            pm.TIME_BETWEEN_CHECKS = 0.2
            import slash
            for k, v in cfg:
                slash.config.assign_path(k, v)
            return slash_main(['test_a.py', '--parallel', '2'] + argv, files=files).__dict__
        return forked(body, 120)
    body = ('import slash\n'
            'def test_0():\n    pass\n'
            'def test_1():\n    slash.add_error("e1")\n'
            'def test_2():\n    slash.skip_test("s2")\n'
            'def test_3():\n    assert False\n'
            '@slash.parametrize("x", [1, 2])\ndef test_4(x):\n    slash.set_test_detail("x", x)\n')
    if h.go('mixed results'):
        o = run({'test_a.py': body}, [])
        h.eq(len(o['results']), 6, 'one result per test')
        by = {}
        for r in o['results']:
            by.setdefault(r['address'].split(':')[-1].split('(')[0], []).append(r)
        h.eq({k: len(v) for k, v in by.items()}, {'test_0': 1, 'test_1': 1, 'test_2': 1, 'test_3': 1, 'test_4': 2}, 'one result per test')
        h.check(by['test_0'][0]['success'] and not by['test_0'][0]['errors'], 'result of the right test')
        h.eq(by['test_1'][0]['errors'], ['e1'], 'result of the right test')
        h.eq(by['test_2'][0]['skips'], ['s2'], 'result of the right test')
        h.check(by['test_3'][0]['failure'], 'result of the right test')
        h.eq([r['details'].get('x') for r in sorted(by['test_4'], key=lambda r: r['address'])], [1, 2], 'result of the right test')
        h.check(o['exit_code'] != 0, 'the session fails')
    if h.go('worker dies'):
        o = run({'test_a.py': 'import os, slash\ndef test_0():\n    pass\ndef test_1():\n    os._exit(3)\n'
                              + ''.join('def test_%d():\n    import time; time.sleep(.05)\n' % i for i in range(2, 5))}, [],
                [('parallel.communication_timeout_secs', 2)])
        rs = {r['address'].split(':')[-1]: r for r in o['results']}
        h.eq(len(o['results']), 5, 'one result per test')
        h.check(rs['test_1']['interrupted'], 'the test of the dead worker is interrupted')
        h.check(o['exit_code'] != 0 and not o['session']['success'], 'the session fails')
    if h.go('all good'):
        o = run({'test_a.py': ''.join('def test_%d():\n    pass\n' % i for i in range(8))}, [])
        h.eq([r['success'] for r in o['results']], [True] * 8, 'one success per test')
        h.check(o['exit_code'] == 0 and o['session']['success'] and o['session']['complete'], 'the session succeeds')
    if h.go('mismatched collections'):
        o = run({'test_a.py': 'import sys\ndef test_0():\n    pass\nif "--parallel-worker-id" in sys.argv and sys.argv[sys.argv.index("--parallel-worker-id") + 1] == "2":\n'
                              '    def test_1():\n        pass\n'}, [], [('parallel.no_request_timeout', 2), ('parallel.communication_timeout_secs', 2)])
        h.check(o['raised'] or o['exit_code'] != 0, 'a mismatched collection fails the session', repr((o['exit_code'], o['raised'])))
        h.check(all(not r['success'] for r in o['results']), 'nothing is handed out when a collection does not match')


CHECKS = [directed, random_histories, over_the_wire, real_workers]
