"""C06: the runner executes the tests it was given in order, each at most once, with one result per test"""
import io, itertools, os, sys
from base import forked, ensure_slash, slash_main

# outcome -> (body, errors, failures, skips, fatal, does the body begin, escapes)
O = {
    'pass': ('pass', 0, 0, 0, 0, 1, 0),
    'fail': ('assert False', 0, 1, 0, 0, 1, 0),
    'error': ('raise ValueError()', 1, 0, 0, 0, 1, 0),
    'skip': ('slash.skip_test("s")', 0, 0, 1, 0, 1, 0),
    'addfail': ('slash.add_failure("f")', 0, 1, 0, 0, 1, 0),
    'adderr': ('slash.add_error("e")', 1, 0, 0, 0, 1, 0),
    'addskip': ('slash.context.result.add_skip("s")', 0, 0, 1, 0, 1, 0),
    'errskip': ('slash.add_error("e"); slash.skip_test("s")', 1, 0, 1, 0, 1, 0),
    'req': ('pass', 0, 0, 1, 0, 0, 0),
    'excl': ('pass', 0, 0, 1, 0, 0, 0),
    'fatal': ('slash.add_error("x").mark_fatal()', 1, 0, 0, 1, 1, 0),
    'fatalf': ('slash.add_failure("x").mark_fatal()', 0, 1, 0, 1, 1, 0),
    'fatalexc': ('e = ValueError(); slash.exception_handling.mark_exception_fatal(e); raise e', 1, 0, 0, 1, 1, 0),
    'cleanup': ('slash.add_cleanup(boom)', 1, 0, 0, 0, 1, 0),
    'start': ('pass', 1, 0, 0, 0, 0, 0),
    'startfail': ('pass', 0, 1, 0, 0, 0, 0),
    'startskip': ('pass', 0, 0, 1, 0, 0, 0),
    'end': ('pass', None, None, None, 0, 1, 0),
    'endskip': ('pass', None, None, None, 0, 1, 0),
    'success': ('pass', 1, 0, 0, 0, 1, 0),
    'fixture': ('pass', 1, 0, 0, 0, 0, 0),
    'kill': ('raise KeyboardInterrupt()', 0, 0, 0, 0, 1, 1),
    'exit': ('raise slash.exceptions.TerminatedException()', 0, 0, 0, 0, 1, 1),
    'sysexit': ('raise SystemExit(3)', None, None, None, None, 1, 1),
    'startkill': ('pass', 0, 0, 0, 0, 0, 1),
    'endkill': ('pass', None, None, None, None, 1, 1),
    'cleanupkill': ('slash.add_cleanup(kill)', 0, 0, 0, 0, 1, 1),
    'reqskip': ('pass', 0, 0, 1, 0, 0, 0),
    'reqerr': ('pass', 1, 0, 0, 0, 0, 0),
    'reqkill': ('pass', None, None, None, None, 0, 1),
}
EASY = ['pass'] * 5 + ['fail', 'error', 'skip', 'addfail', 'adderr', 'addskip', 'errskip', 'req', 'req', 'excl', 'reqskip', 'reqerr', 'cleanup', 'start', 'startfail', 'startskip', 'end', 'endskip', 'success', 'fixture']
HARD = ['fatal', 'fatalf', 'fatalexc', 'kill', 'exit', 'sysexit', 'startkill', 'endkill', 'cleanupkill', 'reqkill']
HEAD = '''import slash, vrec
def boom():
    raise ValueError('cleanup')
def kill():
    raise KeyboardInterrupt()
def skipreq():
    slash.skip_test('requirement')
def errreq():
    raise ValueError('requirement')
def killreq():
    raise KeyboardInterrupt()
@slash.fixture
def broken():
    raise ValueError('fixture')
'''


def source(i, ocs, classes):
    out = [HEAD]
    cls = False
    for j, oc in enumerate(ocs):
        deco, arg = [], ''
        if oc == 'req':
            deco = ['@slash.requires(False)']
        elif oc in ('reqkill', 'reqerr', 'reqskip'):
            deco = ['@slash.requires(%sreq)' % oc[3:]]
        elif oc == 'excl':
            deco, arg = ['@slash.exclude("p", [1])', '@slash.parametrize("p", [1])'], 'p'
        elif oc == 'fixture':
            arg = 'broken'
        label = '%d_%d' % (i, j)
        incls = classes[j] and arg == ''
        if incls and not cls:
            out.append('class TestC%d(slash.Test):' % j)
        cls = incls
        lines = deco + ['def test_%s(%s):' % (label, ', '.join(x for x in ('self' if incls else '', arg) if x)), '    vrec.ev("body", %r)' % label] + ['    ' + O[oc][0]]
        out += [('    ' if incls else '') + l for l in lines]
    return '\n'.join(out) + '\n'


def label_of(test):
    return test.__slash__.function_name[5:] if hasattr(test.__slash__, 'function_name') else test.__slash__.address.split('test_')[-1].split('(')[0]


def hooks_for(outcome, rec):
    import gossip
    import slash

    def label():
        t = slash.context.test
        return t.__slash__.address.split('test_')[-1].split('(')[0] if t is not None else None

    def start(**_):
        l = label()
        rec.ev('start', l, slash.context.result is not None and slash.context.result.test_metadata is slash.context.test.__slash__, slash.context.test.__slash__.test_index0, slash.context.result.is_started())
        oc = outcome.get(l)
        if oc == 'start':
            raise ValueError('hook')
        if oc == 'startfail':
            assert False
        if oc == 'startskip':
            slash.skip_test('hook')
        if oc == 'startkill':
            raise KeyboardInterrupt()

    def end(**_):
        l = label()
        rec.ev('end', l, slash.context.result.test_metadata is slash.context.test.__slash__)
        oc = outcome.get(l)
        if oc == 'end':
            raise ValueError('hook')
        if oc == 'endskip':
            slash.skip_test('hook')
        if oc == 'endkill':
            raise KeyboardInterrupt()

    def avoided(**_):
        rec.ev('avoided', label())

    def success(**_):
        if outcome.get(label()) == 'success':
            raise ValueError('hook')

    def ends(**_):
        rec.ev('session_end')
    for f, n in ((start, 'test_start'), (end, 'test_end'), (avoided, 'test_avoided'), (success, 'test_success'), (ends, 'session_end')):
        gossip.register(f, 'slash.' + n, token='vh')


def reporter(rec):
    from slash.reporting.null_reporter import NullReporter
    import slash

    class Rep(NullReporter):
        def report_test_start(self, test):
            rec.ev('rstart', test.__slash__.address.split('test_')[-1].split('(')[0])

        def report_test_end(self, test, result):
            s = slash.context.session
            rec.ev('rend', test.__slash__.address.split('test_')[-1].split('(')[0], result.test_metadata is test.__slash__, bool(result.has_fatal_exception()),
                   bool(s.results.is_success(allow_skips=True)))

        def report_file_start(self, fn):
            rec.ev('fstart', os.path.basename(fn))

        def report_file_end(self, fn):
            rec.ev('fend', os.path.basename(fn))
    return Rep()


def suites(h, r, nfiles=3, ntests=4):
    files, outcome, order = {}, {}, []
    hard = r.random() < .55
    fl = []
    for i in range(r.randint(1, nfiles)):
        ocs = [r.choice(EASY) for _ in range(r.randint(1, ntests))]
        fl.append(ocs)
    if hard:
        i = r.randrange(len(fl))
        fl[i][r.randrange(len(fl[i]))] = r.choice(HARD)
    for i, ocs in enumerate(fl):
        files['t_%d.py' % i] = source(i, ocs, [r.random() < .3 for _ in ocs])
        outcome.update({'%d_%d' % (i, j): oc for j, oc in enumerate(ocs)})
    return files, outcome


def judge(h, given, outcome, stop, events, results, complete, worker=False):
    """given: labels in the order of running"""
    evs = [e for e in events if e[0] in ('start', 'end', 'rstart', 'rend', 'body', 'avoided')]
    # split by reported test
    ran, cut, escaped = [], None, False
    pos = 0
    at = {}
    for e in evs:
        if e[0] == 'rstart':
            ran.append(e[1])
            at[len(ran) - 1] = []
        if not ran:
            h.fail('something of a test happens before it is reported', repr(e))
            return
        at[len(ran) - 1].append(e)
    h.eq(ran, given[:len(ran)], 'tests run in the given order, each once')
    good = True                     # is the session successful so far
    for k, l in enumerate(ran):
        es, oc = at[k], outcome[l]
        h.check(all(e[1] == l for e in es), 'what happens between start and end of a test belongs to it', (l, es))
        kinds = [e[0] for e in es]
        esc = O[oc][6]
        want = ['rstart']
        if oc in ('req', 'excl'):
            want += ['avoided']
        elif oc.startswith('req'):
            pass
        elif oc == 'fixture' or oc in ('start', 'startfail', 'startskip', 'startkill'):
            want += ['start', 'end']
        else:
            want += ['start', 'body', 'end']
        if not esc:
            want += ['rend']
        h.eq(kinds, want, 'notifications of a test are paired and nested', oc=oc)
        for e in es:
            if e[0] == 'start':
                h.eq((e[2], e[3], e[4]), (True, k, True), 'the current result and the index at the start of a test')
            elif e[0] == 'end':
                h.check(e[2], 'the current result at the end of a test')
            elif e[0] == 'rend':
                h.check(e[2], 'the result reported is that of the test')
        if esc:
            escaped = True
            h.eq(k, len(ran) - 1, 'an interruption ends the run')
            break
        if not kinds or kinds[-1] != 'rend':
            return
        fatal, ok = es[-1][3:]
        _, e, f, s, wf, _, _ = O[oc]
        if e or f or oc == 'end':
            good = False
        h.eq((bool(fatal), ok), (bool(wf), good), 'state of the session after a test', oc=oc)
        cutting = fatal or (stop and not ok)
        if cutting:
            h.eq(k, len(ran) - 1, 'the run stops after a fatal error, or an unsuccessful test with stop-on-error')
            cut = k
            break
    if cut is None and not escaped:
        h.eq(len(ran), len(given), 'the run stops only after a fatal error, with stop-on-error, or by an interruption')
    # results
    labels = [r['address'].split('test_')[-1].split('(')[0] for r in results]
    h.eq(labels, given[:len(ran)] if escaped else given, 'one result per test, in order')
    for k, (l, r) in enumerate(zip(labels, results)):
        oc = outcome[l]
        if k >= len(ran):
            h.check(r['not_run'] and not r['started'] and not r['errors'] and not r['failures'] and not r['skips'], 'a test that was not reached has a result marked as not run', (l, r))
            continue
        h.eq(r['index0'], k, 'consecutive indices')
        _, e, f, s, wf, body, esc = O[oc]
        h.eq(r['started'], not oc.startswith('req') and oc != 'excl', 'started', oc=oc)
        if e is not None:
            h.eq((len(r['errors']), len(r['failures']), len(r['skips'])), (e, f, s), 'what is recorded for a test', oc=oc)
            if not esc:
                h.eq(r['finished'], not oc.startswith('req') and oc != 'excl', 'finished', oc=oc)
    h.eq(complete, cut is None and not escaped, 'the session is complete exactly when no test was cut off')


def whole(h):
    """runs of the command line program with every kind of outcome and fault"""
    r = h.rng
    for _ in range(h.scale(110, 1500)):
        files, outcome = suites(h, r)
        stop = r.random() < .4
        shuffle = r.random() < .3
        if not h.go('x=%s shuffle=%s %s' % (stop, shuffle, sorted(outcome.items()))):
            continue
        seed = r.random()

        def go():
            ensure_slash()
            import gossip, random
            given = []
            slash_main([], files={})
            rec = sys.modules['vrec']
            hooks_for(outcome, rec)

            def loaded(tests):
                if shuffle:
                    keys = list(range(len(tests)))
                    random.Random(seed).shuffle(keys)
                    for t, k in zip(tests, keys):
                        t.__slash__.set_sort_key(k)
                    tests = [t for _, t in sorted(zip(keys, tests), key=lambda p: p[0])]
                given[:] = [t.__slash__.address.split('test_')[-1].split('(')[0] for t in tests]
            gossip.register(loaded, 'slash.tests_loaded')

            def cb(app):
                app.session.reporter = reporter(rec)
            o = slash_main(sorted(files) + (['-x'] if stop else []), files=files, app_callback=cb)
            return given, o
        given, o = forked(go)
        esc = [l for l in outcome if O[outcome[l]][6]]
        h.check(set(given) == set(outcome), 'harness: all tests are collected', (given, o.output[-300:]))
        judge(h, given, outcome, stop, o.events, o.results, o.session['complete'])
        h.eq(len([e for e in o.events if e[0] == 'session_end']), 1, 'the session ends once')


def direct(h):
    """run_tests on lists and on generators that may fail, with and without stop_on_error given"""
    r = h.rng
    for _ in range(h.scale(60, 800)):
        files, outcome = suites(h, r, 2, 4)
        arg, conf = r.choice([None, True, False]), r.random() < .5
        gen = r.random() < .5
        broken = r.randint(0, len(outcome)) if gen and r.random() < .3 else None
        again = r.random() < .2
        if not h.go('stop_on_error=%s config=%s generator=%s fails at %s twice=%s %s' % (arg, conf, gen, broken, again, sorted(outcome.items()))):
            continue

        def go():
            slash = ensure_slash()
            from base import result_summary
            from slash.core.session import Session
            from slash.loader import Loader
            from slash.runner import run_tests
            slash_main([], files=files)
            rec = sys.modules['vrec']
            hooks_for(outcome, rec)
            slash.config.root.run.stop_on_error = conf
            raised = raised2 = None
            with Session(reporter=reporter(rec), console_stream=io.StringIO()) as s:
                tests = Loader().get_runnables(sorted(files))
                given = [t.__slash__.address.split('test_')[-1].split('(')[0] for t in tests]
                pulled = []

                def it():
                    for i, t in enumerate(tests):
                        if broken == i:
                            raise RuntimeError('iterator')
                        pulled.append(i)
                        yield t
                    if broken == len(tests):
                        raise RuntimeError('iterator')
                before = None
                try:
                    run_tests(it() if gen else tests, stop_on_error=arg)
                except BaseException as e:
                    before = type(e).__name__
                try:
                    with s.get_started_context():
                        try:
                            run_tests(it() if gen else tests, stop_on_error=arg)
                        except BaseException as e:
                            raised = type(e).__name__
                        first = list(rec.events), [result_summary(x) for x in s.results.iter_test_results()], s.is_complete()
                        if again:
                            try:
                                run_tests(tests[:1])
                            except BaseException as e:
                                raised2 = type(e).__name__
                except BaseException as e:
                    raised2 = type(e).__name__
                n = len(list(s.results.iter_test_results()))
            return given, raised, before, first, raised2, n
        given, raised, before, (events, results, complete), raised2, n = forked(go)
        h.eq(before, 'NoActiveSession', 'tests run only in a started session')
        stop = conf if arg is None else arg
        esc = [l for l in given if O[outcome[l]][6]]
        if broken is None:
            judge(h, given, outcome, stop, events, results, complete)
            ran = [e[1] for e in events if e[0] == 'rstart']
            h.eq(bool(raised), bool(ran) and bool(O[outcome[ran[-1]]][6]), 'the interruption comes out of the run')
        else:
            ran = [e[1] for e in events if e[0] == 'rstart']
            h.eq(ran, given[:len(ran)], 'tests run in the given order')
            h.check(len(ran) <= broken, 'tests that were not given do not run', ran)
            if raised is None:
                # stopped on its own before the iterator failed
                h.check(not complete, 'not complete', events)
        if again:
            h.eq(n, len(results), 'a test is not given a second result')
            h.check(raised2 is not None, 'a test is not run twice in a session')


CHECKS = [whole, direct]
