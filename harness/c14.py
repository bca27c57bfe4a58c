"""C14: resuming selects exactly the tests of the previous run that were asked for"""
import collections, datetime, os, sys
from base import forked, ensure_slash, slash_main

OUTCOMES = ['pass'] * 4 + ['fail', 'fail', 'error', 'skip', 'req', 'addfail', 'skipdeco']
BODY = {'pass': 'pass', 'fail': 'assert False', 'error': 'raise ValueError()', 'skip': 'slash.skip_test("s")', 'req': 'pass',
        'addfail': 'slash.add_failure("f")', 'skipdeco': 'pass', 'kill': 'raise KeyboardInterrupt()', 'exit': 'raise slash.exceptions.TerminatedException()'}
STATUS = {'pass': 'success', 'fail': 'failed', 'error': 'failed', 'skip': 'skipped', 'req': 'skipped', 'skipdeco': 'skipped', 'addfail': 'failed', 'kill': 'failed', 'exit': 'failed'}


def suite(r, stop):
    """-> files, outcome of (file, name) , has repeat markers"""
    files, outcome, marked = {}, {}, False
    names = []
    for i in range(r.randint(1, 3)):
        fn = 't_%d.py' % i
        out = ['import slash, vrec']
        for j in range(r.randint(1, 4)):
            oc = r.choice(OUTCOMES)
            names.append((fn, j))
            pre, args, vals = [], [], 0
            if r.random() < .35:
                for p in 'pq'[:r.randint(1, 2)]:
                    vals = r.randint(1, 3)
                    pre.append('@slash.parametrize(%r, %r)' % (p, [r.choice([0, 1, 'x', None]) for _ in range(vals)]))
                    args.append(p)
            deco = {'req': ['@slash.requires(False)'], 'skipdeco': ['@slash.skipped("why")']}.get(oc, [])
            if r.random() < .15:
                deco.append('@slash.repeat(%d)' % r.randint(1, 3))
                marked = True
            ev = 'vrec.ev("run", slash.context.test.__slash__.file_path.split("/")[-1], slash.context.test.__slash__.address_in_file, dict(slash.context.test.__slash__.variation.id))'
            if r.random() < .3 and oc != 'skipdeco':
                out += ['class TestC%d(slash.Test):' % j] + ['    ' + l for l in pre + deco]
                out += ['    def test_m(%s):' % ', '.join(['self'] + args), '        ' + ev, '        BODY_%d_%d' % (i, j)]
                if r.random() < .3:
                    out += ['    def test_n(self):', '        ' + ev, '        pass']
                    outcome[(fn, 'TestC%d.test_n' % j)] = 'pass'
                outcome[(fn, 'TestC%d.test_m' % j)] = oc
                key = (fn, 'TestC%d.test_m' % j)
            else:
                out += pre + deco + ['def test_%d(%s):' % (j, ', '.join(args)), '    ' + ev, '    BODY_%d_%d' % (i, j)]
                key = (fn, 'test_%d' % j)
                outcome[key] = oc
            names[-1] = (key, 'BODY_%d_%d' % (i, j))
        files[fn] = '\n'.join(out) + '\n'
    if stop:
        key, _ = r.choice(names)
        if outcome[key] not in ('req', 'skipdeco'):
            outcome[key] = stop
    for key, tag in names:
        files[key[0]] = files[key[0]].replace(tag + '\n', BODY[outcome[key]] + '\n')
    return files, outcome, marked


def norm(path):
    return os.path.basename(path)


def key_of(t):
    return (norm(t.file_name), t.address_in_file.split('(')[0], tuple(sorted((t.variation or {}).items())))


def case(args, files, outcome, resume_opts, fail_start, mode, by_id, again, interrupt_hook):
    def go():
        ensure_slash()
        import gossip
        from slash import resuming
        o = None
        coll = []
        state = {'n': 0, 'on': bool(fail_start)}

        def start(**_):
            if state['on']:
                raise {'error': RuntimeError, 'kill': KeyboardInterrupt}[fail_start]()

        def loaded(tests):
            coll[:] = [(norm(t.__slash__.file_path), t.__slash__.address_in_file.split('(')[0], tuple(sorted(t.__slash__.variation.id.items()))) for t in tests]

        def tend(**_):
            state['n'] += 1
            if interrupt_hook and state['n'] == interrupt_hook and not state.get('second'):
                raise KeyboardInterrupt()
        gossip.register(start, 'slash.session_start')
        gossip.register(loaded, 'slash.tests_loaded')
        gossip.register(tend, 'slash.test_end')
        o = slash_main(args, files=files)
        saved = [(key_of(t), t.status) for t in resuming.get_tests_locally(o.session_id)]
        collected = list(coll)
        state['on'] = False
        state['second'] = True
        sid = o.session_id
        outs = []
        for rnd in range(1 + again):
            o2 = slash_main(([sid] if by_id else []) + resume_opts, mode=mode)
            saved2 = [(key_of(t), t.status) for t in resuming.get_tests_locally(o2.session_id)] if o2.session_id else []
            outs.append((o2, list(coll), saved2))
            sid = o2.session_id
            if not o2.results:
                break
        return o, collected, saved, outs
    return forked(go, 120)


def resumes(h):
    """the state saved by a run lists every collected test once with what became of it; resuming runs what was asked for"""
    r = h.rng
    for _ in range(h.scale(45, 600)):
        stop = r.choice([None, None, 'kill', 'exit'])
        files, outcome, marked = suite(r, stop)
        fail_start = r.choice([None, None, None, 'error', 'kill'])
        args = sorted(files)
        if r.random() < .3:
            args = args + [r.choice(args)]
        if r.random() < .25:
            args += ['-x']
        if r.random() < .25:
            args += [r.choice(['--repeat-each', '--repeat-all']), '2']
        opts = []
        for opt, p in (('--failed-only', .2), ('--unstarted-only', .2), ('--no-skipped', .25), ('--failed-first', .3), ('--unstarted-first', .3)):
            if r.random() < p:
                opts.append(opt)
        mode = r.choice(['resume', 'resume', 'rerun'])
        by_id, again = r.random() < .6, r.random() < .3
        ih = r.choice([None, None, None, 1, 2])
        if not h.go('%s|%s|%s|%s|%s|%s\n%s' % (args, opts, fail_start, mode, by_id, ih, files)):
            continue
        o, collected, saved, outs = case(args, files, outcome, opts, fail_start, mode, by_id, again, ih)
        h.eq(sorted(k for k, _ in saved), sorted(collected), 'every collected test is saved once')
        # statuses: the results of the run, test by test (results are in the order of running)
        want = collections.defaultdict(list)
        runs = collections.Counter((e[1], e[2].split('(')[0], tuple(sorted(e[3].items()))) for e in o.events if e[0] == 'run')
        unfinished = {k: collected.count(k) for k in set(collected)}
        for k in sorted(unfinished):
            oc = outcome[k[:2]]
            n = unfinished[k]
            got = collections.Counter(s for kk, s in saved if kk == k)
            if oc in ('req', 'skipdeco'):
                h.check(set(got) <= {'skipped', 'planned'}, 'status of a test that is skipped before it starts', (k, got))
            else:
                # those whose body ran have the status of the outcome, the others are planned
                expected = collections.Counter({STATUS[oc]: runs[k], 'planned': n - runs[k]})
                if ih and +got != +expected:    # the test during whose end the run was interrupted
                    h.check(got['planned'] == expected['planned'] and got['failed'] + got[STATUS[oc]] == sum(expected.values()) - expected['planned'] and (STATUS[oc] == 'failed' or got['failed'] <= 1), 'saved status', (k, got, expected))
                    continue
                h.eq(+got, +expected, 'saved status')
        if not stop and not fail_start and '-x' not in args and not ih:
            for k, s in saved:
                h.eq(s, STATUS[outcome[k[:2]]], 'status after a complete run')
        prev = saved
        for o2, loaded, saved2 in outs:
            check_resume(h, prev, o2, loaded, opts, mode, marked)
            if saved2:
                h.eq(sorted(k for k, _ in saved2), sorted(loaded), 'every resumed test is saved once')
            prev = saved2


def selection(prev, opts, mode):
    """-> list of keys in order or None when the options contradict each other"""
    o = set(opts)
    if {'--failed-only', '--unstarted-only'} <= o or {'--no-skipped', '--failed-only'} <= o or {'--failed-first', '--unstarted-first'} <= o:
        return None
    want = ['planned', 'skipped'] if '--unstarted-only' in o else ['failed'] if '--failed-only' in o else ['failed', 'planned', 'skipped']
    if '--no-skipped' in o:
        want = [w for w in want if w != 'skipped']
    if mode == 'rerun':
        want = want + ['success']
    sel = [(k, s) for k, s in prev if s in want]
    first = 'failed' if '--failed-first' in o else 'planned' if '--unstarted-first' in o else None
    return [k for k, s in sel if s == first] + [k for k, s in sel if s != first]


def check_resume(h, prev, o2, loaded, opts, mode, marked):
    sel = selection(prev, opts, mode)
    if sel is None:
        h.check(o2.exit_code not in (0, None) or o2.raised, 'contradictory options are rejected', (opts, o2.exit_code))
        h.check(not [e for e in o2.events if e[0] == 'run'], 'nothing runs with contradictory options', (opts, o2.events))
        return
    h.check(loaded == sel, 'tests resumed', (opts, mode, marked, loaded, sel))


def retention(h):
    """old state is forgotten after the retention time, and only then"""
    r = h.rng
    for _ in range(h.scale(15, 100)):
        days = r.choice([1, 2, 10, 30])
        ages = [r.choice([datetime.timedelta(days=days, minutes=m) for m in (-60, -1, 1, 60)] + [datetime.timedelta(days=d) for d in (0, days - 1, days + 1, 2 * days, 100)]) for _ in range(r.randint(1, 6))]
        counts = [r.randint(0, 3) for _ in ages]
        if not h.go('%r %r %r' % (days, ages, counts)):
            continue

        def go():
            ensure_slash()
            from slash import resuming
            now = datetime.datetime.now()
            with resuming.connecting_to_db() as conn:
                for i, (a, n) in enumerate(zip(ages, counts)):
                    conn.add(resuming.SessionMetadata(session_id='s%d' % i, src_folder=os.getcwd(), created_at=now - a))
                    for k in range(n):
                        conn.add(resuming.ResumeState(session_id='s%d' % i, file_name='f', address_in_file='t%d' % k, status='failed'))
            o = slash_main(['t.py', '-o', 'resume.state_retention_days=%d' % days], files={'t.py': 'def test_a(): pass\n'})
            with resuming.connecting_to_db() as conn:
                left = sorted(x.session_id for x in conn.query(resuming.SessionMetadata).all())
                tests = collections.Counter(x.session_id for x in conn.query(resuming.ResumeState).all())
            return o, left, tests, resuming.get_last_resumeable_session_id()
        o, left, tests, last = forked(go)
        keep = ['s%d' % i for i, a in enumerate(ages) if a < datetime.timedelta(days=days)]
        h.eq(left, sorted(keep + [o.session_id]), 'sessions remembered')
        h.eq(dict(tests), dict([('s%d' % i, counts[i]) for i in range(len(ages)) if 's%d' % i in keep and counts[i]] + [(o.session_id, 1)]), 'tests remembered')
        h.eq(last, o.session_id, 'the last session of the folder')


def folders(h):
    """without a session id the last session of the current folder is resumed; unknown sessions are refused"""
    r = h.rng
    for _ in range(h.scale(10, 60)):
        plan = [r.choice('abc') for _ in range(r.randint(1, 5))]
        at = r.choice('abc')
        if not h.go('%r %r' % (plan, at)):
            continue

        def go():
            top = os.getcwd()
            last = {}
            for i, d in enumerate(plan):
                p = os.path.join(top, d)
                os.makedirs(p, exist_ok=True)
                os.chdir(p)
                slash_main(['t_%s_%d.py' % (d, i)], files={'t_%s_%d.py' % (d, i): 'def test_x(): assert 0\n'}, cwd=p)
                last[d] = 't_%s_%d.py' % (d, i)
            p = os.path.join(top, at)
            os.makedirs(p, exist_ok=True)
            os.chdir(p)
            o = slash_main([], mode='resume', cwd=p)
            o2 = slash_main(['no_such_session'], mode='resume', cwd=p)
            return last.get(at), o, o2
        want, o, o2 = forked(go, 120)
        if want is None:
            h.check(o.exit_code not in (0, None) and not o.results, 'nothing to resume in this folder', (plan, at, o.exit_code, o.results))
        else:
            h.check(len(o.results) == 1 and want in o.results[0]['address'], 'the last session of the folder is resumed', (plan, at, o.results, want))
        h.check(o2.exit_code not in (0, None) and not o2.results, 'unknown session', (o2.exit_code, o2.results))


CHECKS = [resumes, retention, folders]
