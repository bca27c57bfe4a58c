"""C22: logs of tests and sessions."""
import gzip
import os
from .base import forked, slash_main, ensure_slash

KINDS = ['pass', 'pass', 'pass', 'fail', 'error', 'skip', 'skip req', 'cleanup error', 'add_failure', 'fixture error', 'log error', 'raise log', 'warn', 'quiet']
BODY = {'pass': 'pass', 'fail': 'assert 1 == 2', 'error': 'raise Exception("boom")', 'skip': 'slash.skip_test("s")', 'skip req': 'pass', 'cleanup error': 'slash.add_cleanup(lambda: 1 / 0)', 'add_failure': 'slash.add_failure("f")',
        'fixture error': 'pass', 'log error': 'log.error("E logged error")', 'raise log': 'log.critical("C"); raise ValueError("v")', 'warn': 'slash.logger.warning("W")', 'quiet': 'pass', 'interrupt': 'raise KeyboardInterrupt()', 'exit': 'raise SystemExit(3)'}
GOOD = ('pass', 'skip', 'skip req', 'warn', 'quiet', 'log error')


class World(object):
    def __init__(self, r):
        self.tests = [r.choice(KINDS) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if r.random() < .12:
            self.tests[-1] = r.choice(['interrupt', 'exit'])
        self.cfg = {
            'root': r.choice(['logs', 'logs', 'logs', 'logs/deep/er', None]) if r.random() < .9 else '~/lg',
            'subpath': r.choice(['{context.session.id}/{context.test_id}/debug.log'] * 3 + ['{context.test_id}.log', 't/{context.session.id}/{context.test.__slash__.test_index0}.log', 'same.log', None, '{context.session.id}/session.log', 'x/y/z/{context.test_id}']),
            'session_subpath': r.choice(['{context.session.id}/session.log'] * 3 + ['s.log', 'ses/{context.session.id}.log', None]),
            'cleanup.enabled': r.random() < .6, 'cleanup.keep_failed': r.random() < .75,
            'unified_session_log': r.random() < .25,
            'highlights_subpath': r.choice([None, None, None, 'hl/{context.session.id}/{context.test_id}.log']),
            'last_session_symlink': r.choice([None, 'links/session', 'ls', 'ABS/lsession']), 'last_test_symlink': r.choice([None, 'links/test', 'lt']), 'last_failed_symlink': r.choice([None, 'links/failed', 'lf']),
            'last_session_dir_symlink': r.choice([None, None, 'links/dir']),
            'compression.enabled': r.random() < .2, 'silence_loggers': r.choice([[], [], ['silent'], ['silent', 'other']]), 'colorize': r.random() < .1,
        }
        if self.cfg['compression.enabled'] and self.cfg['unified_session_log']:
            self.cfg['unified_session_log'] = False
        self.presession = r.random() < .5
        self.oldlinks = r.random() < .3
        self.stop = r.random() < .2

    def source(self):
        out = ['import slash, vrec, logbook, threading', 'log, silent, other = logbook.Logger("mine"), logbook.Logger("silent"), logbook.Logger("other")',
               '@slash.fixture\ndef bad():\n    log.info("M fixture of test")\n    raise RuntimeError("fx")',
               '@slash.fixture\ndef fine(this):\n    log.debug("M%s fixture" % slash.context.test.__slash__.test_index0)\n    return 1']
        for i, k in enumerate(self.tests):
            if k == 'skip req':
                out.append('@slash.requires(lambda: False)')
            args = 'bad' if k == 'fixture error' else ('fine' if k in ('warn', 'pass') else '')
            body = ['slash.add_cleanup(lambda: log.info("M%d cleanup"))' % i, 'log.debug("M%d debug")' % i, 'log.info("M%d info")' % i, 'slash.logger.notice("M%d notice")' % i, 'log.warning("M%d warning")' % i, 'silent.info("S%d silent")' % i, 'other.info("O%d other")' % i,
                    't = threading.Thread(target=lambda: log.info("M%d thread")); t.start(); t.join()' % i, 'slash.logger.info("H%d highlight", extra={"highlight": True})' % i, BODY[k]]
            if k == 'quiet':
                body = ['pass']
            out.append('def test_%d(%s):\n' % (i, args) + ''.join('    %s\n' % b for b in body))
        return '\n'.join(out)


def read(path):
    if path.endswith('.gz'):
        with gzip.open(path, 'rt') as f:
            return f.read()
    with open(path) as f:
        return f.read()


def logs(h):
    """what is on disk after a run: the logs asked for, each record once in its log, links to the right logs"""
    n = h.scale(130, 2500)
    for i in range(n):
        w = World(h.rng)
        if not h.go((w.tests, w.cfg, w.presession, w.oldlinks, w.stop)):
            continue
        c = w.cfg

        def run():
            slash = ensure_slash()
            cwd = os.getcwd()
            for k, v in c.items():
                if isinstance(v, str):
                    v = v.replace('ABS', cwd)
                slash.config.assign_path('log.' + k, v)
            if c['compression.enabled']:
                slash.config.assign_path('log.compression.algorithm', 'gzip')
            root = os.path.join(cwd, c['root']) if c['root'] and not c['root'].startswith('~') else (os.path.expanduser(c['root']) if c['root'] else None)
            if root and not c['root'].startswith('~'):
                slash.config.root.log.root = root
            if w.oldlinks and root:
                for k in ('last_session_symlink', 'last_test_symlink', 'last_failed_symlink'):
                    if c[k]:
                        p = os.path.join(root, c[k].replace('ABS', cwd))
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        os.symlink('/nowhere/' + k, p)
            if w.stop:
                slash.config.root.run.stop_on_error = True
            closed, runinfo = [], []

            def start():
                import logbook
                logbook.Logger('mine').info('P session start')
            if w.presession:
                slash.hooks.session_start.register(start)
            slash.hooks.log_file_closed.register(lambda path, result: closed.append(path))
            slash.hooks.test_start.register(lambda: slash.logger.info('M%s hook' % slash.context.test.__slash__.test_index0))

            def observe(app):
                s = app.session
                if s is None:
                    return None
                g = s.results.global_result
                return {'id': s.id, 'log': g.get_log_path(), 'ok': s.results.is_success(allow_skips=True),
                        'tests': [{'log': r.get_log_path(), 'name': r.test_metadata.address_in_file, 'ok': r.is_success(allow_skips=True), 'bad': r.is_error() or r.is_failure(), 'tid': r.test_metadata.id, 'started': r.is_started(), 'index': r.test_metadata.test_index0,
                                   'ran': not r.is_not_run()} for r in s.results.iter_test_results()]}
            o = slash_main(['t.py'], files={'t.py': w.source()}, observe=observe)
            files, links = {}, {}
            for base in {root, cwd}:
                if not base:
                    continue
                for d, ds, fs in os.walk(base):
                    for f in fs + ds:
                        p = os.path.join(d, f)
                        if os.path.islink(p):
                            links[p] = os.readlink(p)
                        elif f in fs and not p.endswith('.py') and '__pycache__' not in p and '.session' not in p:
                            files[p] = read(p)
            dirs = [d for d, ds, fs in os.walk(root) if not ds and not fs] if root else []
            return o.observed, files, links, closed, root, cwd, dirs, o.raised, o.output[-500:]
        try:
            obs, files, links, closed, root, cwd, dirs, raised, output = forked(run)
        except Exception as e:
            h.fail('raises', e)
            continue
        if obs is None:
            h.fail('no run', '%r %s' % (raised, output))
            continue
        if root is None:
            h.eq((files, links, closed), ({}, {}, []), 'no root, no logs')
            h.check(obs['log'] is None and all(t['log'] is None for t in obs['tests']), 'no root, no log paths', repr(obs))
            continue
        ran = [t for t in obs['tests'] if t['ran'] or t['log'] or (c['subpath'] is None and t['index'] is not None)]
        gz = '.gz' if c['compression.enabled'] else ''

        def where(tpl, t):
            if tpl is None:
                return None
            p = tpl.replace('{context.session.id}', obs['id'])
            if t is not None:
                p = p.replace('{context.test_id}', t['tid']).replace('{context.test.__slash__.test_index0}', str(t['index']))
            else:
                p = p.replace('{context.test_id}', 'None')
            return os.path.join(root, p)
        plus = lambda p: p + gz if p else None
        ses = plus(where(c['session_subpath'], None))
        h.eq(obs['log'], ses, 'log path of the session')
        use = {}
        for t in ran:
            p = plus(where(c['subpath'], t))
            h.eq(t['log'], p, 'log path of a test', t['name'])
            if p is not None:
                use.setdefault(p, []).append(t)
        on, keep = c['cleanup.enabled'], c['cleanup.keep_failed']
        gone = lambda ok: on and (not keep or ok)
        expected = {}
        # a path shared by tests of a run is the log of each of them
        for p, ts in use.items():
            if p == ses:
                continue
            expected[p] = not all(gone(t['ok']) for t in ts)
        if ses:
            expected[ses] = not gone(obs['ok'])
        hl = c['highlights_subpath']
        hls = set()
        if hl is not None:
            for t in [None] + ran:
                hls.add(where(hl, t))
        for p, there in expected.items():
            if there is not None:
                h.eq(p in files, there, 'a log which is %s' % ('to be kept is there' if there else 'to be removed is gone'), '%s %r' % (os.path.relpath(p, root), obs))
        extra = [p for p in files if p not in expected and p not in hls]
        h.eq(extra, [], 'no other files')
        h.eq(sorted(set(closed) - hls), sorted(expected), 'log_file_closed names the logs')
        for t, ok in [(t, t['ok']) for t in ran] + [(None, obs['ok'])]:
            if hl is not None:
                h.eq(where(hl, t) in files, not gone(ok), 'highlights log %s' % ('kept' if not gone(ok) else 'removed'))
        if True:
            for t in ran:
                p = t['log']
                if p != ses and len(use.get(p, [])) > 1 and gone(t['ok']):
                    continue        # its part of a shared file may be gone
                if c['compression.enabled'] and p != ses and p in files and use.get(p, [t])[-1] is not t:
                    seen = getattr(h, 'compressed_lost', False)
                    if w.tests[t['index']] not in ('skip req', 'quiet', 'fixture error') and t['started'] and 'M%d info' % t['index'] not in files[p] and not seen:
                        h.compressed_lost = True
                        h.fail('a compressed log written again by another test lost the records before', repr(c['subpath']))
                    continue
                k = w.tests[t['index']]
                if k in ('skip req', 'quiet') or not t['started']:
                    want = []
                elif k == 'fixture error':
                    want = []
                else:
                    want = ['M%d debug', 'M%d info', 'M%d notice', 'M%d warning', 'M%d thread'] + (['M%d cleanup'] if k not in ('interrupt', 'exit') else []) + (['M%d fixture'] if k in ('warn', 'pass') else [])
                if t['started']:
                    want = want + ['M%d hook']
                want = [x % t['index'] for x in want]
                for m in want:
                    if p in files:
                        h.eq(files[p].count(m), 1, 'a record is in the log of its test once', '%s in %s' % (m, k), text=files[p][:1500])
                    for q, text in files.items():
                        if q == p or q in hls:
                            continue
                        n_ = text.count(m)
                        h.eq(n_, 1 if (q == ses and (c['unified_session_log'] or p is None) and p != ses) and not (p is None and not c['unified_session_log']) else 0, 'a record is in no other log', '%s in %s' % (m, os.path.relpath(q, root)))
                body = k not in ('skip req', 'quiet', 'fixture error') and t['started']
                if body and p in files:
                    for name, m in (('silent', 'S%d silent'), ('other', 'O%d other')):
                        h.eq(files[p].count(m % t['index']), 0 if name in c['silence_loggers'] else 1, 'silenced loggers', name)
                    h.eq(files[p].count('H%d highlight' % t['index']), 1, 'a highlight is in the log as well')
                if body and hl is not None and where(hl, t) in files:
                    h.eq(files[where(hl, t)].count('H%d highlight' % t['index']), 1, 'a highlight is in the highlights log')
                    h.eq(sum(files[where(hl, t)].count(m) for m in want), 0, 'only highlights are in the highlights log')
            if w.presession and ses in files:
                h.eq(files[ses].count('P session start'), 1, 'a record of the session is in the session log')
        # links
        full = lambda l: os.path.join(root, l.replace('ABS', cwd))
        want = {}
        if w.oldlinks:
            for k in ('last_session_symlink', 'last_test_symlink', 'last_failed_symlink'):
                if c[k]:
                    want[full(c[k])] = '/nowhere/' + k
        if c['last_session_symlink'] and ses:
            want[full(c['last_session_symlink'])] = ses
        if c['last_session_dir_symlink'] and ses:
            want[full(c['last_session_dir_symlink'])] = os.path.dirname(ses)
        mine = [t for t in ran if t['log'] and t['log'] != ses]
        if c['last_test_symlink'] and mine:
            want[full(c['last_test_symlink'])] = mine[-1]['log']
        bad = [t for t in ran if t['bad'] and t['log']]
        if c['last_failed_symlink'] and bad:
            want[full(c['last_failed_symlink'])] = bad[-1]['log']
        if c['last_failed_symlink'] and not bad and any(t['bad'] for t in ran):
            want.pop(full(c['last_failed_symlink']), None)      # a failed test without log: nothing to point to
            links.pop(full(c['last_failed_symlink']), None)
        for l, p in want.items():
            h.eq(links.get(l), p, 'link %s' % os.path.basename(l))
        h.eq(sorted(set(links) - set(want)), [], 'no other links')


def decisions(h):
    """the outcome decides about the log whatever produced it, also in sessions without tests and after internal errors"""
    for keep in (True, False):
        for kind in ('pass', 'fail', 'none', 'interrupt', 'global error', 'session cleanup error', 'skip'):
            if not h.go((keep, kind)):
                continue

            def run():
                slash = ensure_slash()
                cwd = os.getcwd()
                for k, v in {'root': os.path.join(cwd, 'logs'), 'subpath': '{context.test_id}.log', 'session_subpath': 'session.log', 'cleanup.enabled': True, 'cleanup.keep_failed': keep}.items():
                    slash.config.assign_path('log.' + k, v)
                if kind == 'global error':
                    def end():
                        slash.context.session.results.global_result.add_error('global')
                    slash.hooks.session_end.register(end)
                src = {'pass': 'def test_a(): pass', 'fail': 'def test_a(): assert False', 'none': 'x = 1', 'interrupt': 'def test_a(): raise KeyboardInterrupt()', 'global error': 'def test_a(): pass',
                       'session cleanup error': 'def test_a(): slash.add_cleanup(lambda: 1/0, scope="session")', 'skip': 'def test_a(): slash.skip_test()'}[kind]
                o = slash_main(['t.py'], files={'t.py': 'import slash\n' + src}, observe=lambda app: app.session.results.is_success(allow_skips=True))
                return sorted(os.listdir('logs')) if os.path.isdir('logs') else [], o.observed, [r['success_skips'] for r in o.results if not r['not_run']]
            try:
                files, ok, tests = forked(run)
            except Exception as e:
                h.fail('raises', e)
                continue
            if kind == 'none':
                continue
            h.eq('session.log' in files, keep and not ok, 'session log', kind)
            h.eq(len([f for f in files if f != 'session.log']), len([t for t in tests if keep and not t]), 'test log', kind)


CHECKS = [logs, decisions]
