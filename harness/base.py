"""Bounded concrete checks of the real code: replay of refuted obligations, and stand-in for functions outside the
verifier's reach.  Runs under /opt/venv/bin/python with the package imported from the repository root (SLASH_REPO)."""
import os, sys, time, json, random, traceback, tempfile, shutil, pickle, io, signal, warnings, types

REPO = os.environ.get('SLASH_REPO', '/repo')


class Stop(Exception):
    pass


class Skip(Exception):
    pass


class H(object):
    """one check function's view: deterministic case numbering, failures, time budget"""

    def __init__(self, check, tier, seed, only_case=None, budget=None):
        self.check_name, self.tier, self.seed, self.only = check, tier, seed, only_case
        self.rng = random.Random('%s/%s' % (seed, check))
        self.n = 0
        self.ran = 0
        self.failures = []
        self.samples = []
        self.cur = None
        self.t0 = time.time()
        self.budget = budget or (25.0 if tier == 'quick' else 300.0)
        self.cut = False

    @property
    def quick(self):
        return self.tier == 'quick'

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def go(self, desc):
        """start a case; False when it is to be skipped"""
        self.n += 1
        if self.only is not None:
            if self.n > self.only:
                raise Stop()
            if self.n != self.only:
                return False
        elif time.time() - self.t0 > self.budget:
            self.cut = True
            raise Stop()
        self.cur = desc
        self.ran += 1
        if len(self.samples) < 2:
            self.samples.append(repr(desc)[:300])
        return True

    def fail(self, key, msg, **extra):
        self.failures.append({'check': self.check_name, 'key': key, 'case': self.n, 'input': repr(self.cur)[:3000],
                              'what': str(msg)[:3000], 'extra': {k: repr(v)[:3000] for k, v in extra.items()}})
        if len(self.failures) >= 8:
            raise Stop()

    def check(self, cond, key, msg='', **extra):
        if not cond:
            self.fail(key, msg, **extra)
        return cond

    def eq(self, got, want, key, msg='', **extra):
        return self.check(got == want, key, '%s: got %r, expected %r' % (msg or key, got, want), **extra)


def run_check(fn, tier, seed, only=None, budget=None):
    h = H(fn.__name__, tier, seed, only, budget)
    try:
        fn(h)
    except Stop:
        pass
    except BaseException as e:     # the code under test raised where it must not
        if isinstance(e, MemoryError):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        h.failures.append({'check': fn.__name__, 'key': 'unexpected %s' % type(e).__name__, 'case': h.n,
                           'input': repr(h.cur)[:3000], 'what': traceback.format_exc()[-3000:],
                           'extra': {'in_repo': any(f.filename.startswith(REPO) for f in tb)}})
    return {'check': fn.__name__, 'cases': h.ran, 'failures': h.failures, 'samples': h.samples, 'cut': h.cut,
            'secs': round(time.time() - h.t0, 2), 'doc': (fn.__doc__ or '').strip()}


# ---- forking ---------------------------------------------------------------------------------------------------------
class ChildDied(Exception):
    pass


def forked(fn, timeout=60):
    """run fn() in a forked child with a scratch directory as HOME/cwd; returns its (pickled) result"""
    scratch = tempfile.mkdtemp(prefix='vh.', dir=os.environ.get('VH_SCRATCH'))
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.environ['HOME'] = scratch
            os.environ['TMPDIR'] = scratch
            tempfile.tempdir = scratch
            wd = os.path.join(scratch, 'wd')
            os.mkdir(wd)
            os.chdir(wd)
            dn = os.open('/dev/null', os.O_RDWR)
            for fd in (0, 1, 2):
                if not (fd == 2 and os.environ.get('VH_DEBUG')):
                    os.dup2(dn, fd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout))
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('exc', type(e).__name__, traceback.format_exc())
            try:
                data = pickle.dumps(out)
            except Exception:
                data = pickle.dumps(('exc', 'PickleError', traceback.format_exc() + repr(out)[:2000]))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            raise ChildDied('the run did not end within %d s' % timeout)
        raise ChildDied('the run died: status %r' % status)
    out = pickle.loads(data)
    if out[0] == 'exc':
        raise ChildDied('the run raised %s\n%s' % (out[1], out[2]))
    return out[1]


# ---- whole slash runs --------------------------------------------------------------------------------------------------
class Rec(types.ModuleType):
    """module `vrec` importable from generated test files: an event log"""

    def __init__(self):
        super(Rec, self).__init__('vrec')
        self.events = []

    def ev(self, *a):
        self.events.append(a)
        return a[-1] if a else None


_warm = []
HOOKS = ['session_start', 'session_end', 'before_session_start', 'after_session_start', 'after_session_end', 'test_start',
         'test_end', 'test_success', 'test_error', 'test_failure', 'test_skip', 'test_avoided', 'test_interrupt',
         'session_interrupt', 'before_test_cleanups', 'before_session_cleanup', 'fact_set', 'error_added', 'warning_added',
         'exception_caught_before_debugger', 'exception_caught_after_debugger', 'tests_loaded', 'result_summary', 'app_quit',
         'configure', 'log_file_closed', 'interruption_added', 'before_interactive_shell', 'prepare_notification',
         'entering_debugger']


class Out(object):
    """what a run of slash did"""


def ensure_slash():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import slash
    assert os.path.realpath(slash.__file__).startswith(os.path.realpath(REPO)), slash.__file__
    if not _warm:
        _warm.append(1)
        for m in ('slash.frontend.slash_run', 'slash.frontend.slash_list', 'slash.frontend.main', 'pytest', '_pytest._code', 'sqlite3',
                  'sqlalchemy.dialects.sqlite', 'slash.parallel.server', 'raven', 'coverage'):
            try:
                __import__(m)
            except Exception:
                pass
        import inspect
        inspect.stack()
        inspect.getmodule(inspect.currentframe())
    return slash


def result_summary(r):
    md = r.test_metadata
    return {
        'address': md.address if md is not None else None,
        'index0': md.test_index0 if md is not None else None,
        'id': md.id if md is not None else None,
        'started': r.is_started(), 'finished': r.is_finished(), 'not_run': r.is_not_run(), 'success': r.is_success(),
        'success_skips': r.is_success(allow_skips=True), 'error': r.is_error(), 'failure': r.is_failure(),
        'just_failure': r.is_just_failure(), 'skip': r.is_skip(), 'interrupted': r.is_interrupted(),
        'ran': r.is_run() if hasattr(r, 'is_run') else None,
        'errors': [str(e.message)[:200] for e in r.get_errors()], 'failures': [str(e.message)[:200] for e in r.get_failures()],
        'skips': list(r.get_skips()), 'fatal': r.has_fatal_exception(), 'details': r.details.all(), 'facts': r.facts.all(),
    }


def slash_main(argv, files=None, mode='run', app_callback=None, observe=None, record_hooks=(), cwd=None, before=None):
    """one slash run in the current process (call inside forked): -> Out"""
    ensure_slash()
    import gossip, logbook, slash
    from slash.frontend import slash_run as sr
    rec = sys.modules.get('vrec')
    if not isinstance(rec, Rec):
        rec = sys.modules['vrec'] = Rec()
    cwd = cwd or os.getcwd()
    for name, src in (files or {}).items():
        p = os.path.join(cwd, name)
        if os.path.dirname(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(src)
    for hk in record_hooks:
        def cb(hk=hk, **kw):
            t = slash.context.test
            rec.ev('hook', hk, str(t.__slash__.address) if t is not None else None,
                   {k: (v if isinstance(v, (str, int, bool, type(None))) else str(v)[:100]) for k, v in sorted(kw.items())})
        gossip.register(cb, 'slash.' + hk, token='vh')
    if before:
        before()

    class Args(object):
        pass
    args = Args()
    args.argv, args.cmd = list(argv), {'run': 'run', 'resume': 'resume', 'rerun': 'rerun'}[mode]
    stream = io.StringIO()
    fn = {'run': sr.slash_run, 'resume': sr.slash_resume, 'rerun': sr.slash_rerun}[mode]
    o = Out()
    o.raised = None
    app = None
    try:
        app = fn(args, report_stream=stream, working_directory=cwd, app_callback=app_callback)
    except BaseException as e:
        o.raised = type(e).__name__ + ': ' + str(e)
    o.output = stream.getvalue()
    o.events = list(rec.events)
    del rec.events[:]
    o.exit_code = app.exit_code if app is not None else None
    o.interrupted = app.interrupted if app is not None else None
    o.results, o.session = [], None
    if app is not None and app.session is not None:
        s = app.session
        o.session_id = s.id
        o.results = [result_summary(r) for r in s.results.iter_test_results()]
        g = s.results.global_result
        o.glob = {'errors': [str(e.message)[:200] for e in g.get_errors()],
                  'failures': [str(e.message)[:200] for e in g.get_failures()], 'success': g.is_success(),
                  'skips': list(g.get_skips()), 'interrupted': g.is_interrupted()}
        o.session = {'success': s.results.is_success(), 'success_skips': s.results.is_success(allow_skips=True),
                     'complete': s.is_complete(), 'num_success': s.results.get_num_successful(),
                     'num_errors': s.results.get_num_errors(), 'num_failures': s.results.get_num_failures(),
                     'num_skips': s.results.get_num_skipped(), 'num_not_run': s.results.get_num_not_run(),
                     'num_started': s.results.get_num_started(), 'num_results': s.results.get_num_results(),
                     'interrupted': s.results.is_interrupted(), 'open_scopes': s.scope_manager.get_current_stack()}
    else:
        o.glob = {'errors': [], 'failures': [], 'success': None, 'skips': [], 'interrupted': None}
    o.observed = observe(app) if observe else None
    gossip.unregister_token('vh')
    return o


def slash_run(argv, files=None, timeout=60, **kw):
    return forked(lambda: slash_main(argv, files=files, **kw), timeout)
