"""C20: settings given on the command line."""
import ast
import copy
from .base import forked, ensure_slash, slash_run

VALUES = {
    'int': [0, 1, -3, 100], 'str': ['', 'x', 'a=b'], 'bool': [True, False], 'list': [[], ['one'], ['one', 'two']],
    'none': [None], 'float': [0.5, -2.0],
}
GIVEN = {
    'int': ['5', '0', '12345', '007', 'x', '1.5', '', ' 4'], 'str': ['', 'abc', 'a=b', '5', 'yes', 'with space', 'a.b=c=d'],
    'bool': ['yes', 'no', 'true', 'False', 'TRUE', 'y', 'N', 'f', 'maybe', '1', ''], 'list': ['[1, 2]', '[]', '["a"]', '[', '5', '"text"', '{}', '(1, 2)', 'x'],
    'none': ['abc', '', '5', 'None'], 'float': ['1.5', '2', '-0.25', 'x', ''],
}
NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'alphabet']


class Refused(Exception):
    pass


def convert(old, text):
    """the oracle of conversion: to the type of the setting; a setting without value takes strings"""
    if old is None or isinstance(old, str):
        return text
    if isinstance(old, bool):
        t = text.lower()
        if t in ('yes', 'y', 'true', 't'):
            return True
        if t in ('no', 'n', 'false', 'f'):
            return False
        raise Refused()
    try:
        if isinstance(old, list):
            r = ast.literal_eval(text)
            if not isinstance(r, list):
                raise Refused()
            return r
        return type(old)(text)
    except (ValueError, SyntaxError):
        raise Refused()


def gen(r):
    """-> (leaves, argv, ops): leaves: (path, kind, value, metadata); ops: what argv means, in order"""
    leaves = []
    used = set()
    for i in range(r.randint(1, 7)):
        path = '.'.join(r.choice(NAMES) for _ in range(r.randint(1, 3)))
        if any(path == p or p.startswith(path + '.') or path.startswith(p + '.') for p in used):
            continue
        used.add(path)
        kind = r.choice(list(VALUES))
        md = {}
        n = 'p%d' % i
        if r.random() < .75:
            if kind == 'bool':
                for k in ('on', 'off', 'arg'):
                    if r.random() < .5:
                        md[k] = '--%s-%s' % (n, k)
            elif kind in ('int', 'float'):
                for k in ('arg', 'increase', 'decrease'):
                    if r.random() < .6:
                        md[k] = '--%s-%s' % (n, k)
            elif kind == 'list':
                md['append'] = '--%s-append' % n
            else:
                md['arg'] = '--%s-arg' % n
                if r.random() < .3 and kind == 'none':
                    md['on'] = '--%s-on' % n
                    md['off'] = '--%s-off' % n
        leaves.append((path, kind, r.choice(VALUES[kind]), md))
    argv, ops = [], []
    for _ in range(r.randint(0, 7)):
        path, kind, value, md = r.choice(leaves)
        if r.random() < .4:
            text = r.choice(GIVEN[kind] if r.random() < .85 else [x for g in GIVEN.values() for x in g])
            if r.random() < .06:
                path = r.choice(['nosuch', 'alpha.nosuch.x', path + '.more', path.split('.')[0] + 'x', ''])
            expr = '%s=%s' % (path, text)
            if r.random() < .04:
                expr = path
            argv += ['-o', expr]
            ops.append(('o', expr))
        elif md:
            k = r.choice(sorted(md))
            if k == 'arg':
                text = r.choice(GIVEN[kind])
                argv += ['%s=%s' % (md[k], text)] if r.random() < .5 or text.startswith('-') or not text else [md[k], text]
                ops.append(('arg', path, text))
            elif k == 'append':
                text = r.choice(['v', 'w x', '5', 'k=v'])
                argv += [md[k], text]
                ops.append(('append', path, text))
            else:
                argv.append(md[k])
                ops.append((k, path))
    return leaves, argv, ops


def model(leaves, ops):
    """-> settings during the run; raises Refused"""
    now = {p: copy.deepcopy(v) for p, _, v, _ in leaves}
    for p, kind, _, _ in leaves:
        mine = [o for o in ops if o[0] != 'o' and o[1] == p]
        args = [o[2] for o in mine if o[0] == 'arg']
        v = now[p]
        text = None
        if args:
            text = args[-1]
            v = text
        v = v + [o[2] for o in mine if o[0] == 'append'] if isinstance(v, list) else v
        steps = [o[0] for o in mine if o[0] in ('on', 'off', 'increase', 'decrease')]
        if steps:
            if text is not None and kind in ('int', 'float'):
                return None         # a number and steps together: what it means is not specified
            for k in steps:
                v = {'on': lambda v: True, 'off': lambda v: False, 'increase': lambda v: v + 1, 'decrease': lambda v: v - 1}[k](v)
        elif text is not None:
            v = convert(now[p], text)
        now[p] = v
    for o in ops:
        if o[0] == 'o':
            if '=' not in o[1]:
                raise Refused()
            p, text = o[1].split('=', 1)
            if p not in now:
                raise Refused()
            now[p] = convert(now[p], text)
    return now


def build(leaves, conf_utils, Config):
    tree = {}
    for p, _, v, md in leaves:
        d = tree
        parts = p.split('.')
        for x in parts[:-1]:
            d = d.setdefault(x, {})
        v = copy.deepcopy(v)
        d[parts[-1]] = v // conf_utils.Cmdline(**md) // conf_utils.Doc('doc of ' + p) if md else v
    return Config(tree)


def typed(v):
    return (type(v).__name__, [typed(x) for x in v]) if isinstance(v, (list, tuple)) else (type(v).__name__, v)


def settings(h):
    """random configurations and command lines against a model of the settings during and after the run"""
    r = h.rng
    ensure_slash()
    from slash.utils import cli_utils, conf_utils
    from confetti import Config
    import io
    import contextlib
    for _ in range(h.scale(500, 8000)):
        leaves, argv, ops = gen(r)
        end = r.choice([None, None, ValueError, KeyboardInterrupt, SystemExit, 'assign', 'grow'])
        if not leaves or not h.go('%s %s %s' % (leaves, argv, end)):
            continue
        try:
            want = model(leaves, ops)
            if want is None:
                continue
        except Refused:
            want = 'refused'
        cfg = build(leaves, conf_utils, Config)
        before = {p: typed(cfg.get_path(p)) for p, _, _, _ in leaves}
        during = None
        refused = None
        positional = []
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            parser = cli_utils.SlashArgumentParser()
            cli_utils.configure_arg_parser_by_config(parser, cfg)
            words = ['pos%d' % i for i in range(r.randint(0, 3))]
            mixed = list(words) + argv if r.random() < .5 else argv + words
            try:
                args, positional = parser.parse_known_args(mixed)
                cm = cli_utils.get_modified_configuration_from_args_context(parser, args, config=cfg)
                with cm:
                    during = {p: typed(cfg.get_path(p)) for p, _, _, _ in leaves}
                    if end == 'assign':
                        for p in {o[1].split('=')[0] if o[0] == 'o' else o[1] for o in ops}:
                            if typed(cfg.get_path(p)) != before[p]:
                                cfg.assign_path(p, 'left')
                    elif end == 'grow':
                        for p in {o[1] for o in ops if o[0] == 'append'}:
                            if during[p] != before[p]:
                                cfg.get_path(p).append('left')
                    elif end:
                        raise end('body')
            except BaseException as e:
                if during is None:
                    refused = e
                elif not isinstance(end, type) or not isinstance(e, end):
                    h.fail('the exception of the run', 'raised %r, expected %r' % (e, end))
            else:
                h.check(not isinstance(end, type), 'the exception of the run', 'nothing raised, expected %r' % (end,))
        after = {p: typed(cfg.get_path(p)) for p, _, _, _ in leaves}
        h.eq(after, before, 'after the run the configuration is what it was')
        if want == 'refused':
            h.check(refused is not None, 'unknown settings and values of the wrong type are rejected', 'accepted %s: %s' % (argv, during))
            if refused is not None:
                h.check(isinstance(refused, (SystemExit, Exception)), 'how it is rejected', repr(refused))
        else:
            h.check(refused is None, 'a correct command line is accepted', '%s: %r %s' % (argv, refused, err.getvalue()[-200:]))
            if refused is None:
                h.eq(during, {p: typed(v) for p, v in want.items()}, 'each setting has the value given')
                h.eq(positional, words, 'positional arguments are passed on unchanged and in order')


# run.project_name is deduced from the working directory, not given on the command line
FLAGS = {
    '-x': ('run.stop_on_error', True), '-X': ('run.stop_on_error', False), '-v': ('log.console_level', 'less'), '-q': ('log.console_level', 'more'),
    '--no-color': ('log.color_console', False), '--force-color': ('log.color_console', True),
}
WITH_VALUE = [('--tb', '0', 'log.console_traceback_level', 0), ('--tb', '4', 'log.console_traceback_level', 4), ('--repeat-each', '2', 'run.repeat_each', 2),
              ('--repeat-all', '3', 'run.repeat_all', 3), ('--truncate-console-lines', 'no', 'log.truncate_console_lines', False),
              ('-o', 'run.default_sources=["vh_s"]', 'run.default_sources', ['vh_s']), ('-o', 'log.colorize=yes', 'log.colorize', True),
              ('-o', 'run.user_customization_file_path=/nonexistent/vh=2', 'run.user_customization_file_path', '/nonexistent/vh=2'),
              ('-o', 'run.dump_variation=true', 'run.dump_variation', True), ('-o', 'debug.debug_skips=t', 'debug.debug_skips', True)]
BAD = [['-o', 'nosuch=2'], ['-o', 'run.nosuch=2'], ['-o', 'run.repeat_each=x'], ['--repeat-each', 'x'], ['--tb', 'high'], ['-o', 'novalue'], ['-o', 'run=3'], ['-o', 'log.colorize=perhaps'],
       ['-o', 'run.filter_strings=5'], ['-o', 'run.filter_strings=['], ['-o', 'run.default_sources="text"'], ['--truncate-console-lines', 'perhaps']]

TEST = '''
import vrec
import slash
def leaves():
    return {p: repr(n.get_value()) for p, n in slash.config.traverse_leaves() if p != 'run.project_name'}
def test_it():
    vrec.ev('during', leaves())
    %s
'''


def whole(h):
    """slash run with flags: what the tests see, what is left afterwards, the order of the files"""
    r = h.rng
    for n in range(h.scale(14, 120)):
        argv, want = [], {}
        bad = None
        for _ in range(r.randint(0, 5)):
            if r.random() < .5:
                f = r.choice(sorted(FLAGS))
                p, v = FLAGS[f]
                if p in want and p != 'log.console_level' or ('--no-color' in argv or '--force-color' in argv) and p == 'log.color_console':
                    continue
                argv.append(f)
                if p == 'log.console_level':
                    want[p] = want.get(p, 0) + (1 if v == 'more' else -1)
                else:
                    want[p] = v
            else:
                f, t, p, v = r.choice(WITH_VALUE)
                if p in want:
                    continue
                argv += [f, t]
                want[p] = v
        if n % 2:
            bad = BAD[(n // 2) % len(BAD)]
            argv += bad
        end = r.choice(['pass', 'raise ValueError()', 'raise KeyboardInterrupt()', 'slash.skip_test()', 'slash.add_error("x")', 'assert 0', 'raise SystemExit(3)'])
        names = ['b_one.py', 'a_two.py', 'c_three.py'][:r.randint(1, 3)]
        r.shuffle(names)
        if not h.go('%s %s %s' % (argv, end, names)):
            continue
        files = {f: 'import vrec\nvrec.ev("file", %r)\n' % f + TEST % end for f in names}
        words = list(argv)
        at = r.choice([0, len(words)])
        out = forked(lambda: run(words[:at] + names + words[at:], files))
        if 'error' in out:
            h.fail('the run', out['error'])
            continue
        h.eq({p: (v, out['after'].get(p)) for p, v in out['before'].items() if out['after'].get(p) != v}, {}, 'after the run the configuration is what it was')
        if bad:
            h.eq(out['during'], [], 'nothing runs with a command line that is rejected', bad=bad)
            h.check(out['code'] not in (0, None), 'the exit code when rejected', repr(out['code']))
            continue
        h.check(bool(out['during']), 'the tests run', '%s' % (out,))
        h.eq(out['loaded'], names, 'files are loaded in the order given')
        for during in out['during'][:1]:
            base = dict(out['before'])
            for p, v in want.items():
                base[p] = repr(v) if p != 'log.console_level' else repr(int(out['before'][p]) + v)
            h.eq({p: v for p, v in during.items() if base.get(p) != v and p not in out['own']}, {}, 'the tests see exactly the settings given')


def run(argv, files):
    import slash
    out = {'own': []}

    def leaves():
        return {p: repr(n.get_value()) for p, n in slash.config.traverse_leaves() if p != 'run.project_name'}
    out['before'] = leaves()
    from .base import slash_main
    o = slash_main(argv, files)
    out['after'] = leaves()
    out['code'] = o.raised or o.exit_code
    out['during'] = [e[1] for e in o.events if e[0] == 'during']
    out['loaded'] = [e[1] for e in o.events if e[0] == 'file']
    return out


def positional(h):
    """an application of the user: positional arguments, with flags in between"""
    r = h.rng
    for n in range(h.scale(8, 60)):
        argv, words = [], []
        for _ in range(r.randint(0, 8)):
            if r.random() < .6:
                w = r.choice(['a', 'b', 'dir/file.py', 'x=y', 'with space', u'\u05d0', '', '.', 'a', 'file.py:test_x', '*.py'])
                argv.append(w)
                words.append(w)
            else:
                argv += r.choice([['-x'], ['-v'], ['--tb', '1'], ['-o', 'run.repeat_each=2'], ['--with-notifications'], ['--without-xunit'], ['--repeat-all', '2'], ['-k', 'some'], ['--repeat-each=3']])
        how = r.choice(['ok', 'raise', 'configure', 'session_start', 'interrupt'])
        if not h.go('%s %s' % (argv, how)):
            continue

        def child():
            slash = ensure_slash()
            import io
            before = {p: repr(n.get_value()) for p, n in slash.config.traverse_leaves() if p != 'run.project_name'}
            app = __import__("slash.app").app.Application()
            app.set_report_stream(io.StringIO())
            app.set_argv(argv)
            got = None
            import gossip
            if how in ('configure', 'session_start'):
                @gossip.register('slash.' + how)
                def failing():
                    raise ValueError('hook')
            try:
                with app:
                    got = list(app.positional_args)
                    if how == 'raise':
                        raise ValueError('body')
                    if how == 'interrupt':
                        raise KeyboardInterrupt()
            except ValueError:
                got = list(app.positional_args)
            after = {p: repr(n.get_value()) for p, n in slash.config.traverse_leaves() if p != 'run.project_name'}
            return got, {p: (v, after.get(p)) for p, v in before.items() if after.get(p) != v}, argv
        got, changed, left = forked(child)
        h.eq(got, words, 'positional arguments are passed on unchanged and in order')
        h.eq(changed, {}, 'after the run the configuration is what it was')


CHECKS = [settings, whole, positional]
