"""C19: recorded warnings and ignore rules."""
import re
from .base import forked, ensure_slash, slash_run

MSGS = ['alpha', 'alphabet', 'beta', 'be.a', 'gamma delta', 'x' * 200, u'\u05d0\u05d1', '{braces} %s']
FILES = ['/some/file_a.py', '/some/file_b.py', '/rel.py', '/some/file_a.pyc']
RULE_MSGS = ['alpha', 'beta', 'be.a', 're:be.a', 're:al', 're:.*delta', 're:^$', 're:pha', 'x' * 200]
RULE_FILES = ['/some/file_a.py', 're:/some/', 're:.*file_[ab]', 're:file_a', '/rel.py', 'file_a.py']
CATS = ['UserWarning', 'DeprecationWarning', 'FutureWarning', 'RuntimeWarning', 'Sub', 'SubSub', 'Warning', 'LogbookWarning', 'ResourceWarning', 'PendingDeprecationWarning']


def rules(r):
    out = {}
    if r.random() < .5:
        out['category'] = r.choice(CATS)
    if r.random() < .5:
        out['message'] = r.choice(RULE_MSGS)
    if r.random() < .4:
        out['filename'] = r.choice(RULE_FILES)
    if r.random() < .3:
        out['lineno'] = r.choice([1, 2, 30])
    if not out and r.random() < .8:
        out['lineno'] = 2
    return out


def matches(rule, w, classes):
    """oracle: every criterion given matches"""
    def pat(p, s):
        if p.startswith('re:'):
            return re.compile(p[3:]).match(s) is not None
        return p == s
    return (('category' not in rule or issubclass(classes[w['category']], classes[rule['category']])) and ('message' not in rule or pat(rule['message'], w['message']))
            and ('filename' not in rule or pat(rule['filename'], w['filename'])) and ('lineno' not in rule or rule['lineno'] == w['lineno']))


def gen(r, depth):
    ops = []
    for _ in range(r.randrange(1, 7)):
        k = r.choice(['warn', 'warn', 'warn', 'explicit', 'log', 'log', 'rule', 'block', 'block', 'clear', 'caught block'])
        if k in ('warn', 'explicit'):
            ops.append((k, r.choice(CATS[:7]), r.choice(MSGS), r.choice(FILES), r.choice([1, 2, 30]), r.choice(['str', 'instance', 'instance', 'empty', 'number']), r.choice([1, 1, 2, 3])))
        elif k == 'log':
            ops.append((k, r.choice(['a.logger', 'slash.runner', 'other']), r.choice(MSGS), r.choice(FILES), r.choice([1, 2, 30]), r.choice([1, 1, 2])))
        elif k == 'rule':
            if r.random() < .4:
                ops.append((k, rules(r)))
        elif k == 'clear':
            if r.random() < .3:
                ops.append((k,))
        elif depth:
            ops.append((k, rules(r), gen(r, depth - 1), r.choice([None, None, 'ValueError', 'SkipTest', 'KeyboardInterrupt', 'GeneratorExit', 'TestFailed'])))
    return ops


class Sub(UserWarning):
    pass


class SubSub(Sub):
    pass


def play(ops, where, core_level):
    """-> (recorded, expected) lists; runs in a child process"""
    import slash, warnings, logbook
    from slash.warnings import LogbookWarning
    import slash.exceptions as E
    classes = {n: getattr(__import__('builtins'), n, None) or {'Sub': Sub, 'SubSub': SubSub, 'LogbookWarning': LogbookWarning}[n] for n in CATS}
    if core_level is not None:
        slash.config.root.log.core_log_level = core_level
    force, expected, told = [], [], []
    import gossip

    @gossip.register('slash.warning_added', token='vh')
    def added(warning):
        told.append(warning)

    def build(rule):
        out = dict(rule)
        if 'category' in out:
            out['category'] = classes[out['category']]
        for k in ('message', 'filename'):
            if out.get(k, '').startswith('re:'):
                out[k] = re.compile(out[k][3:])
        return out

    def note(w, n=1):
        for _ in range(n):
            if not any(matches(x, w, classes) for x in force):
                expected.append((w['category'], w['message'], w['filename'], w['lineno']))

    def run(ops):
        for op in ops:
            k = op[0]
            if k in ('warn', 'explicit'):
                _, cat, msg, fname, line, how, n = op
                c = classes[cat]
                if how == 'empty':
                    msg = ''
                if how == 'number':
                    msg = '5'
                note({'category': cat, 'message': msg, 'filename': fname, 'lineno': line}, n)
                m = {'str': msg, 'instance': c(msg), 'empty': c(), 'number': c(5)}[how]
                if k == 'warn':
                    code = compile('\n' * (line - 1) + 'for _i in range(n): warnings.warn(m, c)', fname, 'exec')
                    exec(code, {'warnings': warnings, 'm': m, 'c': c, 'n': n})
                else:
                    for _ in range(n):
                        warnings.warn_explicit(m, c, fname, line)
            elif k == 'log':
                _, chan, msg, fname, line, n = op
                note({'category': 'LogbookWarning', 'message': msg, 'filename': fname, 'lineno': line}, n)
                code = compile('\n' * (line - 1) + 'for _i in range(n): log.warning("{}", m)', fname, 'exec')
                exec(code, {'__name__': 'user_code', 'log': logbook.Logger(chan), 'm': msg, 'n': n})
                logbook.Logger(chan).info('not a warning {}', msg)
            elif k == 'rule':
                force.append(dict(op[1]))
                slash.ignore_warnings(**build(op[1]))
            elif k == 'clear':
                del force[:]
                slash.clear_ignored_warnings()
            elif k in ('block', 'caught block'):
                _, rule, body, exc = op
                mine = dict(rule)
                force.append(mine)
                try:
                    with slash.ignored_warnings(**build(rule)):
                        run(body)
                        if exc is not None:
                            raise getattr(__import__('builtins'), exc, None) or getattr(E, exc)
                except BaseException as e:
                    if type(e).__name__ != exc:
                        raise
                finally:
                    for i, x in enumerate(force):
                        if x is mine:
                            del force[i]
                            break

    def check_session(s):
        names = {v: k for k, v in classes.items()}
        rec = [(names.get(w.category, w.category), w.message, w.filename, w.lineno) for w in s.warnings]
        if [id(w) for w in s.warnings] != [id(w) for w in told]:
            return (rec, 'announced exactly once each: %r' % ([w.message for w in told],))
        if len(s.warnings) != len(rec) or bool(s.warnings) != bool(rec):
            return (rec, 'len and truth')
        for w in s.warnings:
            d = w.to_dict()
            if d['message'] != w.message or d['filename'] != w.filename or d['lineno'] != w.lineno or d['type'] != w.category.__name__ or tuple(w.key) != (w.filename, w.lineno) \
                    or d['session_id'] != s.id or repr(w) != w.message or d['test_id'] != (tid[0] if where == 'test' else None):
                return (d, 'details of the warning')
        return (rec, list(expected))
    tid = [None]
    import logbook as lb
    with lb.NullHandler().applicationbound():
        with slash.Session() as s:
            with s.get_started_context():
                if where == 'session':
                    run(ops)
                else:
                    s.fixture_store.resolve()

                    def test_it():
                        tid[0] = slash.context.test.__slash__.id
                        run(ops)
                    from slash.loader import Loader
                    slash.runner.run_tests(Loader().get_runnables(test_it))
            out = check_session(s)
    if s.results.get_num_errors() and where == 'test':
        err = [e for r in s.results for e in r.get_errors()]
        real = [str(e.message) for e in err if not re.search('ValueError|GeneratorExit|TestFailed|KeyboardInterrupt|SkipTest', str(e.exception_type) + str(e.message))]
        if real:
            return ('errors', real)
    slash.clear_ignored_warnings()
    gossip.unregister_token('vh')
    return out


def histories(h):
    """random warnings (machinery and logging) under random nested rules and blocks ended by anything, in a session and in a test, against an oracle"""
    r = h.rng
    ensure_slash()
    import slash.runner
    cases = []
    for _ in range(h.scale(600, 8000)):
        cases.append((gen(r, 2), r.choice(['session', 'test']), None))
    batch = 20
    for b in range(0, len(cases), batch):
        chunk = cases[b:b + batch]
        todo = [c for c in chunk if h.go(c)]
        if not todo:
            continue

        def run():
            return [play(*c) for c in todo]
        try:
            outs = forked(run)
        except Exception:
            outs = [forked(lambda c=c: play(*c)) for c in todo]
        for c, (got, want) in zip(todo, outs):
            h.cur = c
            i = [x == y for x, y in zip(list(got), list(want))].index(False) if list(got[:len(want)]) != list(want)[:len(got)] else min(len(got), len(want))
            h.check(list(got) == list(want), 'recorded warnings', 'where %s: at %d got %r, expected %r' % (c[1], i, list(got)[i:i + 2], list(want)[i:i + 2]))


def hidden_core_logs(h):
    """warnings of slash's own loggers that log.core_log_level keeps out of the log files"""
    ensure_slash()
    import slash.runner
    import logbook
    for where in ('session', 'test'):
        for level in (logbook.WARNING, logbook.ERROR):
            for chan in ('slash.runner', 'user'):
                if h.go((where, level, chan)):
                    got, want = forked(lambda: play([('log', chan, 'alpha', '/f.py', 1, 1)], where, level))
                    if chan == 'slash.runner' and where == 'test' and level == logbook.ERROR:
                        h.check(got == want, 'a warning of a core logger below log.core_log_level is recorded twice inside a test', got)
                    else:
                        h.check(got == want, 'recorded warnings', (got, want))


def whole_runs(h):
    """warnings raised while loading, in project files, fixtures, hooks, tests and cleanups of a real run are each recorded exactly once"""
    r = h.rng
    for _ in range(h.scale(20, 250)):
        spots = [s for s in ['rc', 'module', 'test', 'fixture', 'cleanup', 'log', 'session_start', 'session_end'] if r.random() < .6]
        rule = r.choice([None, 're:m_t', 'm_fixture', 'm_log'])
        if not h.go((spots, rule)):
            continue
        W = lambda s: 'import warnings; warnings.warn("m_%s")' % s if s in spots else 'pass'
        rc = 'import slash, re\nimport gossip\n'
        if rule:
            rc += 'slash.ignore_warnings(message=%s)\n' % ('re.compile(%r)' % rule[3:] if rule.startswith('re:') else repr(rule))
        rc += W('rc') + '\n'
        for hk in ('session_start', 'session_end'):
            rc += '@gossip.register("slash.%s", token="vh")\ndef _h():\n    %s\n' % (hk, W(hk))
        src = 'import slash\n%s\n@slash.fixture\ndef fx():\n    %s\n' % (W('module'), W('fixture'))
        src += 'def test_a(fx):\n    %s\n    slash.add_cleanup(cl)\n    %s\ndef cl():\n    %s\n' % (W('test'), 'slash.logger.warning("m_log")' if 'log' in spots else 'pass', W('cleanup'))

        def observe(app):
            return [w.message for w in app.session.warnings]
        o = slash_run(['test_it.py'], files={'.slashrc': rc, 'test_it.py': src}, observe=observe)
        order = ['rc', 'module', 'session_start', 'fixture', 'test', 'log', 'cleanup', 'session_end']
        want = ['m_' + s for s in order if s in spots and not (rule and (re.match(rule[3:], 'm_' + s) if rule.startswith('re:') else rule == 'm_' + s))]
        got = [m for m in o.observed if m.startswith('m_')]
        h.eq(sorted(got), sorted(want), 'warnings of a run', 'each once')
        if got != want:
            # loading may happen before or after session_start
            h.check([m for m in got if m != 'm_module'] == [m for m in want if m != 'm_module'], 'warnings of a run are in order', got)


CHECKS = [histories, hidden_core_logs, whole_runs]
