"""C18: the callbacks of a plugin are called exactly while it is active"""
import sys
from base import forked, ensure_slash, slash_main

KINDS = ['plain', 'plain', 'startend', 'endonly', 'custom', 'cond', 'unknown', 'unknown2', 'badactivate', 'cycle', 'provides', 'needs', 'baddeactivate', 'spaced', 'marked', 'sub', 'attr']
FAILS = {'unknown': 'IncompatiblePlugin', 'unknown2': 'IncompatiblePlugin', 'badactivate': 'ValueError', 'cycle': 'CannotResolveDependencies'}
NAMES = ['one', 'two', 'three four', 'five']


def make(slash, ident, kind, name, log):
    from slash.plugins import PluginInterface, registers_on, register_if, provides, needs
    """-> plugin object, {hook: [method names called by it]}"""
    def cb(m):
        def f(self, **kw):
            log.append((ident, m))
        f.__name__ = m
        return f
    ns = {'get_name': lambda self: name, 'activate': lambda self: log.append((ident, '*activate')), 'deactivate': lambda self: log.append((ident, '*deactivate'))}
    calls = {}

    def add(m, hook=None, deco=None):
        f = cb(m)
        if deco:
            f = deco(f)
        ns[m] = f
        calls.setdefault(hook or m, []).append(m)
    bases = (PluginInterface,)
    if kind in ('plain', 'spaced', 'badactivate', 'baddeactivate', 'unknown', 'sub', 'attr'):
        add('test_start')
        add('test_skip')
    if kind == 'startend':
        add('session_start')
        add('session_end')
        add('test_start')
    if kind == 'endonly':
        add('session_end')
    if kind == 'custom':
        add('begin', 'test_start', registers_on('slash.test_start'))
        add('_private', 'test_skip', registers_on('slash.test_skip'))
        ns['both'] = registers_on('slash.test_start')(registers_on('slash.test_skip')(cb('both')))
        calls['test_start'].append('both')
        calls['test_skip'].append('both')
        ns['helper'] = registers_on(None)(cb('helper'))
        add('own', 'vhgroup.own', registers_on('vhgroup.own'))
    if kind == 'cond':
        ns['test_start'] = register_if(False)(cb('test_start'))
        add('test_skip', None, register_if(True))
        ns['_test_end'] = cb('_test_end')
    if kind == 'unknown':
        ns['zz_no_such_hook'] = cb('zz_no_such_hook')
    if kind == 'unknown2':
        add('test_start')
        ns['other'] = registers_on('slash.no_such_hook_either')(cb('other'))
    if kind == 'badactivate':
        def activate(self):
            log.append((ident, '*activate'))
            raise ValueError('activate')
        ns['activate'] = activate
    if kind == 'baddeactivate':
        def deactivate(self):
            log.append((ident, '*deactivate'))
            raise ValueError('deactivate')
        ns['deactivate'] = deactivate
    if kind == 'cycle':
        add('test_skip')
        ns['a_one'] = registers_on('slash.test_start', needs=['x%d' % ident], provides=['y%d' % ident])(cb('a_one'))
        ns['b_two'] = registers_on('slash.test_start', needs=['y%d' % ident], provides=['x%d' % ident])(cb('b_two'))
    if kind == 'sub':
        class Base(PluginInterface):
            def test_end(self):
                log.append((ident, 'test_end'))
        bases = (Base,)
        calls['test_end'] = ['test_end']
    if kind == 'attr':
        ns['some_value'] = 3
    cls = type('P%d' % ident, bases, ns)
    if kind == 'provides':
        pass
    if kind == 'marked':
        cls.test_start = provides('vh%d' % ident)(cb('test_start'))
        calls['test_start'] = ['test_start']
    if kind == 'provides':
        cls.test_skip = cb('test_skip')
        calls['test_skip'] = ['test_skip']
        cls = provides('vhp%d' % ident)(cls)
    if kind == 'needs':
        cls.test_skip = needs('vhq%d' % ident)(cb('test_skip'))
        cls.test_start = provides('vhq%d' % ident)(cb('test_start'))
        cls.also = registers_on('slash.test_skip')(provides('vhq%d' % ident)(cb('also')))
        calls.update(test_skip=['test_skip', 'also'], test_start=['test_start'])
    return cls(), calls


HOOKS = ['slash.session_start', 'slash.session_end', 'slash.test_start', 'slash.test_skip', 'slash.test_end', 'vhgroup.own']


def histories(h):
    """random histories of installing, activating and so on, with saved states, against a model"""
    r = h.rng
    for _ in range(h.scale(150, 2500)):
        specs = [(i, r.choice(KINDS), r.choice(NAMES)) for i in range(r.randint(1, 4))]
        ops = []
        depth = 0
        for _ in range(r.randint(2, 14)):
            c = r.random()
            i = r.randrange(len(specs))
            if c < .25:
                ops.append(('install', i, r.choice(['', 'activate', 'later', 'internal'])))
            elif c < .35:
                ops.append(('uninstall', i, r.choice(['object', 'name', 'class'])))
            elif c < .6:
                ops.append(('activate', i, r.choice(['object', 'name', 'class', 'dashed'])))
            elif c < .75:
                ops.append(('deactivate', i, r.choice(['object', 'name', 'dashed'])))
            elif c < .83 and depth < 2:
                ops.append(('enter',))
                depth += 1
            elif c < .9 and depth:
                ops.append(('leave', r.random() < .3))
                depth -= 1
            elif c < .94:
                ops.append(('later', i))
            elif c < .96:
                ops.append(('notlater', i))
            else:
                ops.append(('pending',))
        ops += [('leave', False)] * depth
        if not h.go('%s %s' % (specs, ops)):
            continue
        bad = forked(lambda: history(specs, ops))
        for key, what in bad[:3]:
            h.fail(key, what)
        if not bad:
            h.check(True, 'ok')


def history(specs, ops):
    slash = ensure_slash()
    import gossip
    import warnings
    warnings.simplefilter('ignore')
    m = slash.plugins.manager
    log, bad = [], []
    things = [make(slash, i, k, n, log) for i, k, n in specs]
    builtin = set(m.get_installed_plugins())
    installed, active, pending, unpending = {}, set(), set(), set()       # name -> (index, internal); names
    saved = []

    def fail(key, what):
        bad.append((key, 'after %s: %s' % (step, what)))

    def look():
        got = {n: next((i for i, (p, _) in enumerate(things) if p is x), -1) for n, x in m.get_installed_plugins().items() if n not in builtin}
        if got != {n: i for n, (i, _) in installed.items()}:
            fail('the installed plugins', 'got %s, expected %s' % (got, installed))
        got = set(m.get_installed_plugins(include_internals=False)) - builtin
        if got != {n for n, (i, internal) in installed.items() if not internal}:
            fail('internal plugins', 'got %s, expected %s' % (got, installed))
        got = set(m.get_active_plugins()) - builtin
        if got != active:
            fail('the active plugins', 'got %s, expected %s' % (got, active))
        elif any(m.get_active_plugins()[n] is not things[installed[n][0]][0] for n in active if n in installed):
            fail('the active plugins are the installed ones', '')
        want = []
        for hk in HOOKS:
            short = hk.replace('slash.', '')
            for n in active:
                i = installed[n][0]
                want += [(i, x) for x in things[i][1].get(short, [])]
        del log[:]
        for hk in HOOKS:
            try:
                gossip.trigger(hk, **({'reason': 'x'} if hk == 'slash.test_skip' else {}))
            except Exception as e:
                fail('triggering a hook', '%s: %r' % (hk, e))
        if sorted(log) != sorted(want):
            fail('callbacks are called exactly while the plugin is active', 'called %s, expected %s' % (sorted(log), sorted(want)))

    def activate(i):
        """what activation does to the model -> the error it gives"""
        n, k = specs[i][2], specs[i][1]
        if n in active:
            return None
        if k in FAILS:
            return FAILS[k]
        active.add(n)
        return None

    def ref(i, how):
        p = things[i][0]
        return {'object': p, 'name': specs[i][2], 'class': type(p), 'dashed': specs[i][2].replace(' ', '-')}[how]

    def known(i, how):
        """is the reference to plugin i known? -> index of the plugin meant"""
        n = specs[i][2]
        if how in ('name', 'dashed'):
            return installed[n][0] if n in installed else None
        return i if n in installed and installed[n][0] == i else None

    for op in ops:
        step = op
        err = want = None
        cms = None
        try:
            if op[0] == 'install':
                i = op[1]
                n, k = specs[i][2], specs[i][1]
                old = installed.get(n)
                if old is not None and old[0] != i:
                    if specs[old[0]][1] == 'baddeactivate' and n in active or n in pending | unpending:
                        continue
                    active.discard(n)
                    del installed[n]
                installed[n] = (i, op[2] == 'internal')
                if op[2] == 'activate':
                    want = activate(i)
                    if want == 'IncompatiblePlugin':
                        del installed[n]
                        active.discard(n)
                        pending.discard(n) if False else None
                        if n in pending | unpending:
                            return bad
                elif op[2] == 'later':
                    pending.add(n)
                m.install(things[i][0], activate=op[2] == 'activate', activate_later=op[2] == 'later', is_internal=op[2] == 'internal')
            elif op[0] == 'uninstall':
                j = known(op[1], op[2])
                if j is None:
                    want = 'UnknownPlugin'
                else:
                    n = specs[j][2]
                    if n in pending | unpending:
                        continue
                    if n in active and specs[j][1] == 'baddeactivate':
                        want = 'ValueError'
                    else:
                        del installed[n]
                    active.discard(n)
                m.uninstall(ref(op[1], op[2]))
            elif op[0] == 'activate':
                j = known(op[1], op[2])
                want = 'UnknownPlugin' if j is None else activate(j)
                m.activate(ref(op[1], op[2]))
            elif op[0] == 'deactivate':
                j = known(op[1], op[2])
                if j is None:
                    want = 'UnknownPlugin'
                else:
                    if specs[j][2] in active and specs[j][1] == 'baddeactivate':
                        want = 'ValueError'
                    active.discard(specs[j][2])
                m.deactivate(ref(op[1], op[2]))
            elif op[0] == 'later':
                if known(op[1], 'object') is None:
                    continue
                pending.add(specs[op[1]][2])
                m.activate_later(things[op[1]][0])
            elif op[0] == 'notlater':
                if known(op[1], 'object') is None:
                    continue
                unpending.add(specs[op[1]][2])
                m.deactivate_later(things[op[1]][0])
            elif op[0] == 'pending':
                todo = [n for n in pending if n not in unpending]
                if any(specs[installed[n][0]][1] in FAILS for n in todo) or any(specs[installed[n][0]][1] == 'baddeactivate' for n in unpending if n in active):
                    continue
                for n in todo:
                    active.add(n)
                active -= unpending
                pending.clear()
                unpending.clear()
                future = set(m.get_future_active_plugins()) - builtin
                if future != active:
                    fail('the plugins to be active', 'got %s, expected %s' % (future, active))
                m.activate_pending_plugins()
            elif op[0] == 'enter':
                if pending or unpending:
                    continue
                cm = m.restoring_state_context()
                cm.__enter__()
                saved.append((cm, dict(installed), set(active)))
            elif op[0] == 'leave':
                if not saved or pending or unpending:
                    continue
                cm, ins, act = saved[-1]
                used = {i for i, _ in ins.values()} | {i for i, _ in installed.values()}
                if any(specs[i][1] == 'baddeactivate' for i in used) or any(specs[ins[n][0]][1] in FAILS for n in act):
                    continue
                saved.pop()
                installed.clear()
                installed.update(ins)
                active.clear()
                active.update(act)
                if op[1]:
                    try:
                        cm.__exit__(KeyError, KeyError('x'), None)
                    except KeyError:
                        pass
                else:
                    cm.__exit__(None, None, None)
        except Exception as e:
            err = type(e).__name__
        if err != want:
            fail('the error of an operation', 'got %s, expected %s' % (err, want))
        look()
        if bad:
            break
    return bad


def refused(h):
    """things which are not plugins and illegal names"""
    for what in ('object', 'class', 'dict', 'name.with.dots', 'name/', 'tab\t', ''):
        if not h.go('%r' % what):
            continue

        def go():
            slash = ensure_slash()
            m = slash.plugins.manager
            before = set(m.get_installed_plugins())
            P = type('P', (slash.plugins.PluginInterface,), {'get_name': lambda self: what, 'test_start': lambda self: None})
            try:
                m.install({'object': object(), 'class': P, 'dict': {}}.get(what, P()) if what in ('object', 'class', 'dict') else P())
                err = None
            except Exception as e:
                err = type(e).__name__
            return err, set(m.get_installed_plugins()) - before
        err, new = forked(go)
        if what:
            h.check(err in ('IncompatiblePlugin', 'IllegalPluginName') and not new, 'refused', (err, new))


def whole(h):
    """plugins activated from the command line and from project files in a whole run"""
    r = h.rng
    for _ in range(h.scale(6, 60)):
        on, off = r.random() < .5, r.random() < .5
        n = r.randint(1, 3)
        if not h.go('with=%s active by default=%s %d tests' % (on, off, n)):
            continue

        def go():
            slash = ensure_slash()
            calls = []

            class P(slash.plugins.PluginInterface):
                def get_name(self):
                    return 'vh plug'

                def session_start(self):
                    calls.append('session_start')

                def test_start(self):
                    calls.append('test_start')

                def session_end(self):
                    calls.append('session_end')
            p = P()
            slash.plugins.manager.install(p, activate_later=off)
            o = slash_main(['t.py'] + (['--with-vh-plug'] if on and not off else []) + (['--without-vh-plug'] if on and off else []), files={'t.py': ''.join('def test_%d():\n    pass\n' % i for i in range(n))})
            return calls, o.exit_code, o.output
        calls, code, out = forked(go)
        act = on != off
        h.eq(code, 0, 'harness: the run succeeds', out=out[-300:])
        h.eq(calls, (['session_start'] + ['test_start'] * n + ['session_end']) if act else [], 'callbacks of a plugin in a run')


CHECKS = [histories, refused, whole]
