"""C13: loading tests."""
import os
from .base import forked, ensure_slash, slash_main

# (no word can be part of a scratch directory's name)
FNAMES = ['test_alpha', 'test_alpha_beta', 'test_beta', 'test_', 'test_zeta', 'test_a', 'test_b']
CNAMES = ['Alpha', 'AlphaTest', 'Beta', 'ZCls', 'aCls', 'TestClass']
MNAMES = ['test_one', 'test_one_more', 'test_two', 'test_alpha', 'testThree']
PATHS = ['m0.py', 'm1.py', 'a/m2.py', 'a/m1.py', 'a/b/m3.py', 'a.d/m4.py', 'b/m0.py', 'b/x y.py', 'Z/m5.py', 'a/Z.py', 'm10.py', 'm-x.py']
FILTERS = ['test_alpha', 'not test_alpha', 'Alpha', 'test_one or test_b', 'not (test_one or test_beta)', 'm1', 'not a/b', 'test_two and not Beta', 'nothing_at_all', 'b/m0']


def simple_holds(f, address):
    env = f.replace('(', ' ( ').replace(')', ' ) ').split()
    return bool(eval(' '.join(w if w in ('and', 'or', 'not', '(', ')') else repr(w in address) for w in env)))


class Unit(object):
    """one test function or method: its parameter values and repeat mark"""

    def __init__(self, r, name):
        self.name = name
        self.values = None if r.random() < .75 else r.sample([1, 2, 'x', 'y', None, True, (1, 2), 3.5], r.choice([1, 2, 3]))
        self.repeat = r.choice([None, None, None, None, 1, 2, 3])
        self.with_fixture = self.values is None and r.random() < .15

    def source(self, indent, method, where):
        out = []
        if self.repeat is not None:
            out.append('@slash.repeat(%d)' % self.repeat)
        if self.values is not None:
            out.append('@slash.parametrize("p", %r)' % (self.values,))
        args = (['self'] if method else []) + (['p'] if self.values is not None else []) + (['fix'] if self.with_fixture else [])
        out.append('def %s(%s):' % (self.name, ', '.join(args)))
        out.append('    vrec.ev("ran", %r, %s)' % (where, 'repr(p)' if self.values is not None else 'None'))
        return ''.join(indent + l + '\n' for l in out)

    def cases(self):
        return [None] if self.values is None else [repr(v) for v in self.values]


class File(object):
    def __init__(self, r, path):
        self.path = path
        self.funcs = [Unit(r, n) for n in r.sample(FNAMES, r.choice([0, 1, 2, 3]))]
        self.classes = []
        for n in r.sample(CNAMES, r.choice([0, 0, 1, 2])):
            base = r.choice([c for c in self.classes if c[2] is None] or [None]) if r.random() < .4 else None
            self.classes.append((n, [Unit(r, m) for m in r.sample(MNAMES, r.choice([0, 1, 2, 3]))], base))
        self.noise = r.sample(['def helper(): pass', 'def _test_hidden(): pass', 'class Plain(object):\n    def test_plain(self): pass', 'test_value = 3', 'TEST = None', 'import os', 'class Later(slash.Test):\n    pass',
                               'def tests(): pass', '@slash.abstract_test_class\nclass Abstract(slash.Test):\n    def test_abstract(self): pass', 'from slash import Test'], r.choice([0, 1, 2]))
        self.noise = [x for x in self.noise if not x.startswith('def tests')]
        self.order = r.random()

    def methods(self, cls):
        """name -> (unit, class it is defined in): own methods hide those of the base"""
        out = {u.name: (u, cls[0]) for u in cls[2][1]} if cls[2] else {}
        out.update({u.name: (u, cls[0]) for u in cls[1]})
        return out

    def source(self, r):
        bits = [u.source('', False, (self.path, u.name)) for u in self.funcs] + [n + '\n' for n in self.noise]
        r.shuffle(bits)
        cl = []
        for n, units, base in self.classes:
            body = ''.join(u.source('    ', True, (self.path, '%s' % u.name)) for u in units) or '    pass\n'
            cl.append('class %s(%s):\n%s' % (n, base[0] if base else 'slash.Test', body))
        at = r.randrange(len(bits) + 1)
        bits[at:at] = cl
        fix = '@slash.fixture\ndef fix(): return 1\n'
        return 'import slash, vrec\n' + fix + '\n'.join(bits)

    def tests(self):
        """(factory, name in file, unit) in the order of names"""
        out = {}
        for u in self.funcs:
            out[u.name] = [(u.name, u.name, u)]
        for c in self.classes:
            ms = self.methods(c)
            out[c[0]] = [(c[0], '%s.%s' % (c[0], m), ms[m][0]) for m in sorted(ms)]
        return [t for n in sorted(out) for t in out[n]]


def walk(paths, d):
    """files below directory d: those of a directory first, then its subdirectories, by name"""
    d = '' if d in ('.', '') else d.rstrip('/') + '/'
    below = [p[len(d):] for p in paths if p.startswith(d)]
    files = sorted(p for p in below if '/' not in p)
    dirs = sorted({p.split('/')[0] for p in below if '/' in p})
    out = [d + f for f in files]
    for s in dirs:
        out += walk(paths, d + s)
    return out


class World(object):
    def __init__(self, r):
        self.files = {p: File(r, p) for p in r.sample(PATHS, r.choice([1, 2, 3, 5]))}
        self.srcs = {p: f.source(r) for p, f in self.files.items()}
        self.each, self.all = r.choice([1, 1, 1, 2, 3]), r.choice([1, 1, 1, 2, 3])
        self.filters = r.sample(FILTERS, r.choice([0, 0, 0, 1, 2]))
        self.junk = r.sample(['notes.txt', 'a/data', '.hid/m9.py', 'a/.git/m9.py', 'b/m0.pyc.txt', 'm0.pyx', 'a/readme.md', 'a/b/test_x'], r.choice([0, 1, 3]))
        self.targets = [self.target(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        self.slash = r.random() < .2

    def target(self, r):
        p = r.choice(list(self.files))
        k = r.random()
        if k < .25:
            return (p, None)
        if k < .45:
            parts = p.split('/')[:-1]
            return ('/'.join(parts[:r.randrange(len(parts) + 1)]) or '.', None)
        tests = self.files[p].tests()
        if not tests or k > .95:
            return (p, r.choice(['test_al', 'nothing', 'Alpha.test', 'Bet', 'test_one', 'm0', 'est_alpha', 'alpha', 'Alpha.']))
        t = r.choice(tests)
        return (p, r.choice([t[0], t[1]]))

    def selected(self):
        """-> the (file, name, case) once per repetition, or None for an error"""
        out = []
        for p, a in self.targets:
            files = walk(list(self.files), p) if p not in self.files else [p]
            hits = [(f, t) for f in files for t in self.files[f].tests() if a is None or a in (t[0], t[1])]
            if a is not None and not hits:
                return None
            for f, (fac, name, u) in hits:
                for c in u.cases():
                    if all(simple_holds(x, f + ':' + name) for x in self.filters):
                        out += [(f, name, c)] * (self.each * (u.repeat or 1))
        return out * self.all

    def write(self):
        for p, s in self.srcs.items():
            if os.path.dirname(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(s)
        for p in self.junk:
            if os.path.dirname(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p):
                with open(p, 'w') as f:
                    f.write('import vrec\nvrec.ev("ran", "junk", None)\ndef test_junk(): pass\n')

    def argv(self):
        return [p + (':' + a if a is not None else ('/' if self.slash and p not in self.files else '')) for p, a in self.targets]


def describe(t, root):
    md = t.__slash__
    v = dict(md.variation.values)
    f = md.file_path
    return (os.path.relpath(f, root), md.address_in_file, repr(v['p']) if 'p' in v else None)


def loads(h):
    """what is loaded: the tests of the paths and addresses passing the filters, in order, each as often as asked"""
    n = h.scale(420, 4000)
    for i in range(n):
        w = World(h.rng)
        keys = [h.rng.choice([1, 2, 3]) for _ in range(200)] if h.rng.random() < .2 else None
        if not h.go((w.srcs, w.targets, w.filters, w.each, w.all, w.junk, keys and keys[:20])):
            continue

        def run():
            slash = ensure_slash()
            import sys
            from slash.loader import Loader
            from slash.exceptions import CannotLoadTests
            from slash.reporting.null_reporter import NullReporter
            from .base import Rec
            sys.modules['vrec'] = Rec()
            root = os.getcwd()
            w.write()
            slash.config.root.run.repeat_each, slash.config.root.run.repeat_all = w.each, w.all
            slash.config.root.run.filter_strings = list(w.filters)
            with slash.Session() as s:
                seen = []

                def loaded(tests):
                    seen.append([describe(t, root) for t in tests])
                    if keys is not None:
                        for t, k in zip(tests, keys):
                            t.__slash__.set_sort_key(k)
                if hasattr(slash.hooks, 'tests_loaded'):
                    slash.hooks.register(loaded, 'tests_loaded') if False else slash.hooks.tests_loaded.register(loaded)
                try:
                    got = Loader().get_runnables(w.argv())
                except CannotLoadTests as e:
                    return None
                return ([describe(t, root) for t in got], [t.__slash__.id for t in got], [os.path.relpath(t.__slash__.address.replace(root + '/', ''), '.') for t in got], seen, s.get_total_num_tests() if hasattr(s, 'get_total_num_tests') else None,
                        len({id(t) for t in got}), len({id(t.__slash__) for t in got}))
        try:
            got = forked(run)
        except Exception as e:
            h.fail('raises', e)
            continue
        want = w.selected()
        if want is None or got is None:
            h.eq(got is None, want is None, 'an address that names nothing is an error, others are not')
            continue
        tests, ids, addresses, seen, total, objs, metas = got
        h.check(seen == [want] or (seen == [] and not want), 'tests announced', 'got %r, expected %r' % (seen, want))
        expected = want
        if keys is not None:
            per = len(want) // w.all
            expected = []
            for k in range(w.all):
                block = list(range(k * per, (k + 1) * per))
                expected += [want[j] for j in sorted(block, key=lambda j: keys[j] if j < len(keys) else 99)]
            if len(want) > len(keys):
                continue
        h.eq(tests, expected, 'tests loaded')
        h.check(len(set(ids)) == len(ids) and None not in ids, 'ids are distinct', repr(ids))
        h.eq((objs, metas), (len(tests), len(tests)), 'repetitions are tests of their own')
        by = {}
        for t, a in zip(tests, addresses):
            by.setdefault(a, set()).add(t)
        h.check(all(len(v) == 1 for v in by.values()), 'different tests have different addresses', repr(by))
        h.check(len({a for a in addresses}) == len(set(tests)), 'the repetitions of a test have one address', repr(by))
        if total is not None:
            h.eq(total, len(want), 'number of tests')


def runs(h):
    """whole runs: what is loaded is what is run"""
    n = h.scale(40, 500)
    for i in range(n):
        w = World(h.rng)
        if not h.go((w.srcs, w.targets, w.filters, w.each, w.all, w.junk)):
            continue

        def run():
            w.write()
            argv = w.argv() + [x for f in w.filters for x in ('-k', f)]
            if w.each != 1:
                argv += ['--repeat-each', str(w.each)]
            if w.all != 1:
                argv += ['--repeat-all', str(w.all)]
            return slash_main(argv)
        try:
            o = forked(run)
        except Exception as e:
            h.fail('raises', e)
            continue
        want = w.selected()
        ran = [(e[1][0], e[1][1], e[2]) for e in o.events if e[0] == 'ran']
        if want is None:
            h.check((o.exit_code != 0 or o.raised) and not ran, 'accepted', repr(ran), out=o.output[-500:])
            continue
        h.eq(ran, [(f, name.split('.')[-1], c) for f, name, c in want], 'tests run', out=o.output[-600:])
        h.eq(len({r['id'] for r in o.results}), len(want), 'a result of its own for every repetition')
        if want:
            h.eq(o.exit_code, 0, 'exit code', out=o.output[-600:])


GOOD = 'import slash, vrec\ndef test_good(): vrec.ev("ran", "good", None)\n'
BROKEN = {'raises': 'raise Exception("x")', 'missing module': 'import no_such_module_xyz', 'syntax': 'def test_x(:\n', 'indent': 'def test_x():\npass', 'name': 'undefined_name', 'assert': 'assert 1 == 2', 'bad decorator': 'import slash\n@slash.parametrize\ndef test_x(): pass',
          'value error late': GOOD + 'raise ValueError("late")', 'unknown fixture': GOOD + 'def test_unknown(no_such_fixture): pass', 'exception class': 'class E(Exception): pass\nraise E()', 'encoding': '# coding: nothing\nx = 1', 'zero': '1/0', 'slash error': 'import slash\nslash.skip_test("x")'}


def errors(h):
    """a missing path, an address naming nothing, a file that does not import: an error, and no test runs"""
    cases = []
    for name in BROKEN:
        for how in ('file', 'dir', 'after', 'before', 'address'):
            cases.append((name, how))
    for how in ('missing.py', 'nodir', 'good.py:test_nothing', 'good.py:test_goo', 'missing.py:test_good', 'nodir/good.py', 'good.py:', 'good', 'empty:test_good', 'good.py:Good'):
        for pos in ('only', 'after', 'before'):
            cases.append((how, pos))
    if h.quick:
        h.rng.shuffle(cases)
    for what, how in cases[:h.scale(50, 1000)]:
        if not h.go((what, how)):
            continue

        def run():
            os.mkdir('d')
            os.mkdir('empty')
            open('empty/x.txt', 'w').close()
            for p in ('good.py', 'd/a.py', 'd/z.py'):
                with open(p, 'w') as f:
                    f.write(GOOD)
            if what in BROKEN:
                with open('d/bad.py', 'w') as f:
                    f.write(BROKEN[what])
                argv = {'file': ['d/bad.py'], 'dir': ['d'], 'after': ['good.py', 'd/bad.py'], 'before': ['d/bad.py', 'good.py'], 'address': ['d/bad.py:test_good']}[how]
            else:
                argv = {'only': [what], 'after': ['good.py', what], 'before': [what, 'good.py']}[how]
            return slash_main(argv)
        try:
            o = forked(run)
        except Exception as e:
            h.fail('raises', e)
            continue
        h.check(o.exit_code != 0 or o.raised, 'accepted', repr((what, how)), out=o.output[-500:])
        h.eq([e for e in o.events if e[0] == 'ran'], [], 'tests run')
    for what in ('empty', 'good.py', 'd', './good.py', 'd/../good.py'):
        if not h.go(('fine', what)):
            continue

        def run():
            os.mkdir('d')
            os.mkdir('empty')
            for p in ('good.py', 'd/a.py', 'd/z.py'):
                with open(p, 'w') as f:
                    f.write(GOOD)
            return slash_main([what, 'good.py'])
        o = forked(run)
        h.eq(o.exit_code, 0, 'refused', what, out=o.output[-500:])
        h.eq(len([e for e in o.events if e[0] == 'ran']), {'empty': 1, 'd': 3}.get(what, 2), 'tests run')


CHECKS = [loads, runs, errors]
