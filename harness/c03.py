"""C03: a result is success exactly when it ran cleanly; the session verdict, the counts and the summary hooks follow"""
import io, itertools, os
from base import forked, ensure_slash, slash_run


class St(object):
    """the state of a result"""
    def __init__(self, e, f, s, started, finished, interrupted):
        self.e, self.f, self.s, self.started, self.finished, self.interrupted = e, f, s, started, finished, interrupted

    def want(self):
        clean = not self.e and not self.f and not self.interrupted
        return {'is_error': bool(self.e), 'is_failure': bool(self.f), 'is_just_failure': bool(self.f) and not self.e, 'is_skip': bool(self.s), 'has_skips': bool(self.s),
                'is_success': clean and not self.s and self.started, 'is_success_finished': clean and not self.s and self.started and self.finished,
                'is_not_run': not self.started and not self.e and not self.f, 'is_interrupted': self.interrupted, 'is_started': self.started, 'is_finished': self.finished,
                'has_errors_or_failures': bool(self.e or self.f), 'is_run_and_skip': self.started and bool(self.s)}

    def tolerant(self):
        """success with skips tolerated: an executed or skipped test without anything bad"""
        return not self.e and not self.f and not self.interrupted and (bool(self.s) or self.started)

    def make(self, r, order):
        steps = [('e', i) for i in range(self.e)] + [('f', i) for i in range(self.f)] + [('s', i) for i in range(self.s)]
        if self.started:
            steps.append(('started', 0))
        if self.finished:
            steps.append(('finished', 0))
        if self.interrupted:
            steps.append(('int', 0))
        order.shuffle(steps)
        for k, i in steps:
            {'e': lambda: r.add_error('e%d' % i), 'f': lambda: r.add_failure('f%d' % i), 's': lambda: r.add_skip(order.choice(['reason', '', None])), 'started': r.mark_started, 'finished': r.mark_finished,
             'int': r.mark_interrupted}[k]()

    def __repr__(self):
        return 'e%d f%d s%d started=%d finished=%d int=%d' % (self.e, self.f, self.s, self.started, self.finished, self.interrupted)


def some(r, easy=.5):
    if r.random() < easy:
        return St(0, 0, r.choice([0, 0, 0, 1]), True, r.random() < .9, False)
    return St(r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2]), r.random() < .8, r.random() < .7, r.random() < .15)


class FakeTest(object):
    def __init__(self, i):
        class Md(object):
            id = 'id%d' % i
            test_index0 = i
            address = 'fake%d' % i
        self.__slash__ = Md()


def in_session(fn):
    def go():
        slash = ensure_slash()
        from slash.core.session import Session
        with Session(reporter=None, console_stream=io.StringIO()) as s:
            return fn(slash, s)
    return forked(go)


def single(h):
    """every combination of records and marks of one result"""
    combos = [St(*c) for c in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2), (False, True), (False, True), (False, True))]
    part = combos if h.tier == 'thorough' else combos
    orders = h.rng

    def go(slash, s):
        out = []
        for i, c in enumerate(part):
            r = s.results.create_result(FakeTest(i))
            c.make(r, orders)
            out.append(({m: getattr(r, m)() for m in c.want()}, r.is_success(allow_skips=True), r.is_success(allow_skips=False), repr(r), len(r.get_errors()), len(r.get_failures()), len(r.get_skips())))
        return out
    for c, (got, tol, strict, text, ne, nf, ns) in zip(part, in_session(go)):
        if not h.go(repr(c)):
            continue
        h.eq(got, c.want(), 'predicates of a result')
        h.eq(tol, c.tolerant(), 'success when skips are tolerated')
        h.eq(strict, c.want()['is_success'], 'success when skips are not tolerated')
        h.eq((ne, nf, ns), (c.e, c.f, c.s), 'records of a result')


def sessions(h):
    """verdict and counts of a session with any results"""
    r = h.rng
    for _ in range(h.scale(120, 1500)):
        easy = r.choice([.3, .9, 1, 1])
        sts = [some(r, easy) for _ in range(r.choice([0, 1, 2, 3, 5, 8]))]
        glob = St(0, 0, 0, True, True, False) if r.random() < .6 else some(r, .3)
        glob.started = True         # the global result of an active session is started
        workers = r.choice([None, None, None, False, True])
        if not h.go('%r global %r workers failed %r' % (sts, glob, workers)):
            continue

        def go(slash, s):
            for i, c in enumerate(sts):
                c.make(s.results.create_result(FakeTest(i)), r)
            glob.make(s.results.global_result, r)

            class PM(object):
                class server(object):
                    worker_error_reported = workers
            if workers is not None:
                s.parallel_manager = PM
            x = s.results
            out = {n: getattr(x, n)() for n in ('get_num_results', 'get_num_started', 'get_num_successful', 'get_num_errors', 'get_num_failures', 'get_num_skipped', 'get_num_not_run', 'is_success')}
            out['tolerant'] = x.is_success(allow_skips=True)
            out['executed and skipped'] = x.get_num_skipped(include_not_run=False)
            out['len'] = len(x)
            out['order'] = [q.test_metadata.id for q in x.iter_test_results()]
            out['all'] = [q.test_metadata.id if q.test_metadata is not None else None for q in x.iter_all_results()]
            out['failures of'] = [(q.test_metadata.id if q.test_metadata is not None else None, len(l)) for q, l in x.iter_all_failures()]
            out['errors of'] = [(q.test_metadata.id if q.test_metadata is not None else None, len(l)) for q, l in x.iter_all_errors()]
            s.parallel_manager = None
            return out
        got = in_session(go)
        w, g = [c.want() for c in sts], glob.want()
        every = sts + [glob]
        ids = ['id%d' % i for i in range(len(sts))]
        n = lambda p, l: sum(1 for c in l if c.want()[p])
        h.eq(got, {'get_num_results': len(sts), 'get_num_started': n('is_started', sts), 'get_num_successful': n('is_success_finished', sts), 'get_num_errors': n('is_error', every),
                   'get_num_failures': n('is_just_failure', every), 'get_num_skipped': n('is_skip', every), 'get_num_not_run': n('is_not_run', sts),
                   'is_success': g['is_success'] and all(x['is_success'] for x in w) and not workers, 'tolerant': glob.tolerant() and all(c.tolerant() for c in sts) and not workers,
                   'executed and skipped': n('is_run_and_skip', every), 'len': len(sts), 'order': ids, 'all': ids + [None],
                   'failures of': [(i, c.f) for i, c in zip(ids + [None], every) if c.f], 'errors of': [(i, c.e) for i, c in zip(ids + [None], every) if c.e]}, 'verdict and counts of the session')


ACTS = {'pass': 'pass', 'addf': 'slash.add_failure("f")', 'adde': 'slash.add_error("e")', 'skip': 'slash.skip_test("s")', 'fail': 'assert 0', 'err': 'raise ValueError("v")', 'skips': 'slash.context.result.add_skip("soft")',
        'int': 'raise KeyboardInterrupt()', 'should': 'slash.should.be_true(False)', 'cle': 'slash.add_cleanup(vrec.boom)', 'clf': 'slash.add_cleanup(vrec.fail)', 'cls': 'slash.add_cleanup(vrec.skip)', 'clok': 'slash.add_cleanup(lambda: None)',
        'exit': 'raise SystemExit()'}
PRE = '''import slash, vrec
def boom(): raise ValueError('c')
def fail(): assert 0
def skip(): slash.skip_test('later')
vrec.boom, vrec.fail, vrec.skip = boom, fail, skip
'''


def runs(h):
    """whole runs: the verdict, the counts, and one summary hook for each executed test"""
    r = h.rng
    names = sorted(ACTS)
    for _ in range(h.scale(70, 900)):
        tests = []
        for i in range(r.randint(1, 5)):
            acts = [r.choice(names if r.random() < .5 else ['pass', 'skip', 'clok', 'skips']) for _ in range(r.choice([1, 1, 2, 3]))]
            req = r.random() < .1
            tests.append((acts, req))
        if sum(a in ('int',) for t, _ in tests for a in t) > 1:
            continue
        src = PRE
        for i, (acts, req) in enumerate(tests):
            src += ('@slash.requires(False)\n' if req else '') + 'def test_%d():\n' % i + ''.join('    %s\n' % ACTS[a] for a in acts)
        extra = r.choice([[], [], ['--repeat-each', '2'], ['-x']])
        if not h.go('%s %r' % (extra, tests)):
            continue
        o = slash_run(['t.py'] + extra, files={'t.py': src}, record_hooks=['test_start', 'test_success', 'test_error', 'test_failure', 'test_skip', 'test_end', 'test_interrupt', 'test_avoided'])
        mult = 2 if '--repeat-each' in extra else 1
        if not any(a in ('int', 'exit') for t, _ in tests for a in t):
            h.eq(len(o.results), len(tests) * mult, 'results')
        # per test, in the order of running: the hooks seen
        seqs, cur = [], None
        for e in o.events:
            if e[0] != 'hook':
                continue
            if e[1] == 'test_start':
                cur = []
                seqs.append((e[2], cur))
            if cur is not None and e[1] not in ('test_avoided',):
                cur.append(e[1])
        executed = [x for x in o.results if x['started']]
        h.eq([x['address'] for x in executed], [a for a, _ in seqs], 'executed tests')
        for x, (addr, seq) in zip(executed, seqs):
            summary = [q for q in seq if q in ('test_success', 'test_error', 'test_failure', 'test_skip')]
            acts = [t[0] for t in tests for _ in range(mult)][o.results.index(x)]
            cut = next((a for a in acts if a in ('skip', 'fail', 'err', 'int', 'exit')), None)
            if x['interrupted'] or cut == 'exit':
                h.check(len(summary) <= 1, 'at most one summary hook for an interrupted test', (x, seq))
                h.check('test_success' not in summary, 'an interrupted test is no success', (x, seq))
                continue
            want = 'test_failure' if x['just_failure'] else 'test_skip' if x['skip'] else 'test_success' if x['success'] else 'test_error'
            h.eq(summary, [want], 'summary hook')
            h.check(seq.index(want) < seq.index('test_end') if 'test_end' in seq else False, 'the summary hook comes before the end of the test', (x, seq))
        # the kinds of records each executed test has, from its script alone
        for x, (acts, req) in zip(o.results, [t for t in tests for _ in range(mult)]):
            if not x['started']:
                continue
            e = f = s = bad = 0
            defer = []
            for a in acts:
                if a in ('cle', 'clf', 'cls'):
                    defer.append(a)
                e += a in ('adde', 'err', 'exit', 'should')
                f += a in ('addf', 'fail')
                s += a in ('skip', 'skips')
                bad = a == 'int'
                if a in ('skip', 'fail', 'err', 'int', 'exit'):
                    break
            if not bad:
                e += defer.count('cle')
                f += defer.count('clf')
                s += defer.count('cls')
                h.eq((x['error'], x['failure'], x['skip'], x['interrupted']), (bool(e), bool(f), bool(s), False), 'classification')
                h.eq(x['success'], not (e or f or s), 'success')
            else:
                h.eq((x['success'], x['success_skips'], x['interrupted']), (False, False, True), 'interrupted')
        good = lambda strict: all((x['success'] if strict else x['success_skips']) for x in o.results) and not o.glob['errors'] and not o.glob['failures'] and not o.glob['interrupted']
        h.eq(o.session['success'], good(True) and not o.glob['skips'], 'verdict of the session')
        h.eq(o.session['success_skips'], good(False), 'verdict of the session, skips tolerated')
        h.eq(o.exit_code == 0, good(False), 'exit status')
        cnt = lambda k: sum(bool(x[k]) for x in o.results)
        h.eq((o.session['num_success'], o.session['num_errors'], o.session['num_failures'], o.session['num_skips'], o.session['num_not_run'], o.session['num_started'], o.session['num_results']),
             (cnt('success'), cnt('error') + bool(o.glob['errors']), cnt('just_failure') + bool(o.glob['failures'] and not o.glob['errors']), cnt('skip') + bool(o.glob['skips']), cnt('not_run'), cnt('started'), len(o.results)), 'counts')


CHECKS = [single, sessions, runs]
