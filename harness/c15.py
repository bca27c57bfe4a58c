"""C15: distribution of tests to parallel workers."""
import itertools
from .base import forked, ensure_slash
from .parallel_common import with_server, start_serving, Args, wire


def make(n, workers, config):
    """config: list of (worker, 'force'|'exclude', index, form) -> (distributer, worker configs, accepted operations)"""
    from slash import ctx
    from slash.parallel.worker_configuration import ProcessWorkerConfiguration
    from slash.parallel.tests_distributer import TestsDistributer

    class PM(object):
        pass

    class S(object):
        id = 'sid_0'
        parallel_manager = PM()

    class T(object):
        pass
    ctx.push_context()
    ctx.context.session = S()
    try:
        wc = {w: ProcessWorkerConfiguration(Args(), w) for w in workers}
        S.parallel_manager.workers = wc
        done = []
        for w, op, i, obj in config:
            named = i
            if obj:
                named = T()
                named.__slash__ = T()
                named.__slash__.parallel_index = i
            try:
                (wc[w].force_test if op == 'force' else wc[w].exclude_test)(named)
                done.append(True)
            except RuntimeError:
                done.append(False)
        return TestsDistributer(n), wc, done
    finally:
        ctx.pop_context()


class Model(object):
    def __init__(self, n, workers, config):
        self.waiting = list(range(n))
        self.forced, self.excl, self.accept = {}, {w: set() for w in workers}, []
        fset = {w: set() for w in workers}
        for w, op, i, _ in config:
            other = self.excl[w] if op == 'force' else fset[w]
            if i in other:
                self.accept.append(False)
                continue
            self.accept.append(True)
            (fset[w] if op == 'force' else self.excl[w]).add(i)
        self.fset = fset

    def may(self, i, w):
        f = [x for x in self.fset if i in self.fset[x]]
        if f:
            return w in f
        return i not in self.excl[w]

    def next(self, w):
        for i in self.waiting:
            if self.may(i, w):
                self.waiting.remove(i)
                return i
        return None


def replay(h, n, workers, config, ops):
    d, wc, done = make(n, workers, config)
    m = Model(n, workers, config)
    h.eq(done, m.accept, 'contradictory request', 'accepted force/exclude requests')
    for w in workers:
        h.eq((set(wc[w].get_forced_tests()), set(wc[w].get_excluded_tests()), wc[w].get_worker_id()), (m.fset[w], m.excl[w], w), 'worker configuration')
    given = []
    for op in ops:
        if op == 'clear':
            d.clear_unstarted_tests()
            m.waiting = []
        elif op == 'steal':
            got = d.get_unstarted_tests()
            if got:
                got.pop()      # a caller altering what it was given
        else:
            got = d.get_next_test_for_client(op)
            want = m.next(op)
            if not h.eq(got, want, 'handed out', 'worker %s, waiting %r' % (op, m.waiting)):
                return
            if got is not None:
                h.check(got not in given, 'handed out twice')
                given.append(got)
        h.eq(list(d.get_unstarted_tests()), m.waiting, 'waiting tests')
        h.eq(bool(d.has_unstarted_tests()), bool(m.waiting), 'has_unstarted_tests')


def single_owner(config):
    """no test forced to two workers"""
    own = {}
    for w, op, i, _ in config:
        if op == 'force' and own.setdefault(i, w) != w:
            return False
    return True


def random_histories(h):
    """random worker counts, force/exclude requests (also contradictory and repeated ones), random request histories"""
    ensure_slash()
    for _ in range(h.scale(4000, 40000)):
        n, k = h.rng.randint(0, 9), h.rng.randint(1, 4)
        workers = [str(i + 1) for i in range(k)]
        config = [(h.rng.choice(workers), h.rng.choice(['force', 'exclude', 'exclude']), h.rng.randrange(max(n, 1)), h.rng.random() < .4)
                  for _ in range(h.rng.randint(0, 8))]
        if not single_owner(config):
            continue
        ops = [h.rng.choice(workers * 6 + ['clear', 'steal', 'steal']) if h.rng.random() < .5 else h.rng.choice(workers) for _ in range(h.rng.randint(0, 14))]
        if h.go((n, config, ops)):
            replay(h, n, workers, config, ops)


def exhaustive_small(h):
    """every assignment of {nothing, forced to 1/2, excluded by 1, 2 or both} to 3 tests and every request order of length 5"""
    ensure_slash()
    choices = [[], [('1', 'force')], [('2', 'force')], [('1', 'exclude')], [('2', 'exclude')], [('1', 'exclude'), ('2', 'exclude')]]
    orders = list(itertools.product('12', repeat=5))
    for asg in itertools.product(choices, repeat=3):
        config = [(w, op, i, False) for i, c in enumerate(asg) for w, op in c]
        for order in (orders if h.tier != 'quick' else orders[::5]):
            if h.go((3, config, order)):
                replay(h, 3, ['1', '2'], config, order)


def naming(h):
    """tests named by object or by index in a real session, handed out through the server; definition order equal to load order"""
    src = {'test_a.py': ''.join('def test_%d():\n    pass\n' % i for i in range(6))}
    for trial in range(h.scale(12, 60)):
        k = h.rng.randint(1, 3)
        cfg = [(str(h.rng.randint(1, k)), h.rng.choice(['force', 'exclude']), h.rng.randrange(6), h.rng.random() < .6) for _ in range(5)]
        if not single_owner(cfg):
            continue
        if not h.go((k, cfg)):
            continue
        asks = [str(h.rng.randint(1, k)) for _ in range(14)]

        def run():
            def loaded(session, tests):
                for w, op, i, obj in cfg:
                    wc = session.parallel_manager.workers[w]
                    try:
                        (wc.force_test if op == 'force' else wc.exclude_test)(tests[i] if obj else i)
                    except RuntimeError:
                        pass

            def body(slash, session, tests, server):
                start_serving(server, [str(i + 1) for i in range(k)], tests)
                out = []
                from slash.core.result import Result
                for w in asks:
                    got = server.get_test(w)
                    if isinstance(got, tuple):
                        r = Result(tests[got[1]].__slash__)
                        r.mark_started()
                        server.finished_test(w, wire(r))
                        out.append((w, got[0][1], got[1]))
                    else:
                        out.append((w, got, None))
                return out
            return with_server(src, k, body, tests_loaded=loaded)
        got = forked(run)
        m = Model(6, [str(i + 1) for i in range(k)], cfg)
        for w, name, idx in got:
            want = m.next(w)
            if not m.waiting and want is None:
                h.check(idx is None, 'handed out', 'nothing waits but %r was handed out' % (name,))
                continue
            if not h.eq((name if idx is not None else None, idx), ('test_%d' % want if want is not None else None, want), 'named test', 'worker %s' % w):
                break


def naming_resorted(h):
    """a test named by object in tests_loaded when a custom sort key makes the run order differ from the load order"""
    src = {'test_a.py': ''.join('def test_%d():\n    pass\n' % i for i in range(4))}
    for named in range(4):
        if not h.go(('forced to worker 2', named)):
            continue

        def run():
            def loaded(session, tests):
                session.parallel_manager.workers['2'].force_test(tests[named])
                for n, t in enumerate(reversed(tests)):
                    t.__slash__.set_sort_key(n)

            def body(slash, session, tests, server):
                start_serving(server, ['1', '2'], tests)
                got = server.get_test('1'), server.get_test('2')
                return [g[0][1] if isinstance(g, tuple) else None for g in got]
            return with_server(src, 2, body, tests_loaded=loaded)
        got = forked(run)
        # run order is test_3, test_2, test_1, test_0
        free = ['test_%d' % i for i in (3, 2, 1, 0) if i != named]
        want1 = free[0]
        order = ['test_%d' % i for i in (3, 2, 1, 0) if 'test_%d' % i != want1]
        want2 = order[0]
        h.eq(got, [want1, want2], 'a test named in tests_loaded is another one when the run order differs from the load order')


CHECKS = [random_histories, exhaustive_small, naming, naming_resorted]
