"""C12: suite files."""
import os
from .base import forked, ensure_slash, slash_main
from .c11 import render as render_filter, gen as gen_filter, holds, MD, make_tags

TESTFILE = '''import slash, vrec
def test_alpha(): vrec.ev('ran', %(n)r, 'test_alpha')
def test_beta(): vrec.ev('ran', %(n)r, 'test_beta')
class Cls(slash.Test):
    def test_one(self): vrec.ev('ran', %(n)r, 'Cls.test_one')
    def test_two(self): vrec.ev('ran', %(n)r, 'Cls.test_two')
'''
TESTS = ['Cls.test_one', 'Cls.test_two', 'test_alpha', 'test_beta']
PYS = ['t0.py', 'lib/t1.py', 'lib/t2.py', 'lib/deep/t3.py', 'other/t4.py', 't5 x.py']
DIRS = ['lib', 'lib/deep', 'other', 'other.d']
SUITEDIRS = ['.', 'suites', 'suites/a', 'lib', 'other']
# (no word can be part of a scratch directory's name)
SIMPLE = ['test_alpha', 'test_beta', 'Cls', 'test_one', 'not test_one', 'not Cls', 'test_alpha or test_two', 'py:test_ and not test_beta', 'nothing.', 'not nothing.', 'lib/t1', 'not (test_alpha or test_beta)', 'deep/t3']


def rel(p, start):
    return os.path.relpath(p, start)


class World(object):
    """suite files: name -> list of lines (kind, ...); rendered to text relative to their own directories"""

    def __init__(self, r, nfiles, concrete):
        self.r, self.files, self.order = r, {}, []
        self.uniq = 0
        for i in range(nfiles):
            name = os.path.normpath(os.path.join(r.choice(SUITEDIRS), r.choice(['s%d.txt', 's%d', 's%d.suite', '.s%d', 's %d.lst']) % i))
            self.files[name] = [self.line(concrete) for _ in range(r.choice([0, 1, 2, 3, 4]))]
            self.order.append(name)
        self.concrete = concrete

    def line(self, concrete):
        r = self.r
        k = r.random()
        if k < .1:
            return ('comment', r.choice(['# a comment', '#', '#filter: x, repeat: 3', '   # t0.py', '#\tt0.py', '# repeat: z']))
        if k < .17:
            return ('blank', r.choice(['', '  ', '\t']))
        if k < .4 and self.order:
            target = ('suite', r.choice(self.order))
        elif k < .55:
            target = ('dir', r.choice(DIRS[:3] if concrete else DIRS))
        elif k < .7:
            target = ('test', r.choice(PYS), r.choice(TESTS))
        elif k < .74 and concrete:
            target = ('test', r.choice(PYS), 'Cls')
        else:
            target = ('file', r.choice(PYS))
        f = None
        if r.random() < .4:
            f = r.choice(SIMPLE) if concrete or r.random() < .5 else None
            if f is None:
                while True:
                    e = gen_filter(r, 2)
                    f = render_filter(r, e)
                    if ',' not in f and '#' not in f:
                        break
                f = (f, e)
        rep = r.choice([None, None, None, 1, 2, 3, 0, 12]) if not concrete else r.choice([None, None, None, 1, 2, 3])
        mods = ([('filter', f)] if f else []) + ([('repeat', rep)] if rep is not None else [])
        r.shuffle(mods)
        return ('entry', target, mods, r.random() < .4, r.choice(['', '', ' ', '\t']), r.choice(['', ' ', '  ', '\t']), r.choice([' # ', '#', ' #', '# ', '  #  ']), r.choice([',', ', ', ' , ']),
                r.choice(['', '', ' ', '/']), r.random() < .15)

    def text(self, name, root):
        out = []
        for l in self.files[name]:
            if l[0] != 'entry':
                out.append(l[1])
                continue
            _, target, mods, absolute, lead, trail, hash_, comma, tail, junk = l
            p = os.path.join(root, target[1])
            if not absolute:
                p = rel(p, os.path.join(root, os.path.dirname(name)))
            if target[0] == 'dir' and tail == '/':
                p += '/'
            if target[0] == 'test':
                p += ':' + target[2]
            m = [k + ':' + self.r.choice(['', ' ']) + str(v[0] if isinstance(v, tuple) else v) for k, v in mods]
            if junk:
                m.insert(self.r.randrange(len(m) + 1), self.r.choice(['a note', 'see filter', '', 'see #12']))
            out.append(lead + p + (hash_ + comma.join(m) if m else '') + trail)
        eol = self.r.choice(['\n', '\n', '\r\n'])
        return eol.join(out) + self.r.choice(['', eol])

    def expand(self, name, filters=()):
        """the entries of a suite file: (target, filters, repeated)"""
        out = []
        for l in self.files[name]:
            if l[0] != 'entry':
                continue
            mods = dict(l[2])
            fs = filters + ((mods['filter'],) if 'filter' in mods else ())
            n = mods.get('repeat', 1)
            inner = self.expand(l[1][1], fs) if l[1][0] == 'suite' else [(l[1], fs)]
            out.extend(inner * n)
        return out

    def write(self, root):
        for name in self.files:
            p = os.path.join(root, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='') as f:
                f.write(self.text(name, root))


def base_tree(root):
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for p in PYS:
        with open(os.path.join(root, p), 'w') as f:
            f.write(TESTFILE % {'n': p})


def simple_holds(f, address):
    if isinstance(f, tuple):
        return holds(f[1], address, {})
    env = f.replace('(', ' ( ').replace(')', ' ) ').split()
    return bool(eval(' '.join(w if w in ('and', 'or', 'not', '(', ')') else repr(w in address) for w in env)))


def expansion(h):
    """the entries suite files stand for: targets, order, filters and repeats, over generated nestings"""
    n = h.scale(350, 3000)
    for i in range(n):
        w = World(h.rng, h.rng.choice([1, 1, 2, 3, 4, 5]), False)
        top = [h.rng.choice(w.order) for _ in range(h.rng.choice([1, 1, 2]))]
        how = h.rng.choice(['abs', 'rel'])
        addrs = ['lib/t1.py:test_alpha', 'other/t4.py:Cls.test_one', 'a/b.py:foo(n=1)', 'x.py:test_beta', 'dir/a:bar', '']
        if not h.go((w.files, top, how)):
            continue

        def run():
            ensure_slash()
            from slash.utils.suite_files import iter_suite_file_paths
            root = os.getcwd()
            base_tree(root)
            w.write(root)
            names = [os.path.join(root, t) if how == 'abs' else t for t in top]
            out = []
            for p, m in iter_suite_file_paths(names):
                out.append((os.path.relpath(os.path.abspath(p), root), [bool(m.matches(MD(a, make_tags({})))) if m is not None else True for a in addrs]))
            return out
        try:
            got = forked(run)
        except Exception as e:
            h.fail('raises', e)
            continue
        want = []
        for t in top:
            for target, fs in w.expand(t):
                p = target[1] + (':' + target[2] if target[0] == 'test' else '')
                want.append((p, [all(simple_holds(f, a) for f in fs) for a in addrs]))
        h.eq([p for p, _ in got], [p for p, _ in want], 'entries')
        h.eq(got, want, 'filters')


def directories(h):
    """a directory given as suite file: every suite file in it, however deep, once; each file's entries together and in order"""
    n = h.scale(80, 600)
    for i in range(n):
        nf = h.rng.choice([1, 2, 3, 4, 5])
        places = ['', 'x', 'x/y', 'x/y/z', 'w', 'empty/e']
        spec = {}
        for k in range(nf):
            spec[os.path.join(h.rng.choice(places), 's%d.txt' % k)] = ['/q/f%d_%d.py' % (k, j) for j in range(h.rng.choice([0, 1, 2, 3]))]
        before, after = h.rng.random() < .5, h.rng.random() < .5
        if not h.go((spec, before, after)):
            continue

        def run():
            ensure_slash()
            from slash.utils.suite_files import iter_suite_file_paths
            root = os.path.join(os.getcwd(), 'dd')
            for d in places:
                os.makedirs(os.path.join(root, d), exist_ok=True)
            for p, lines in spec.items():
                with open(os.path.join(root, p), 'w') as f:
                    f.write('\n'.join(lines))
            with open('b.txt', 'w') as f:
                f.write('/q/before.py')
            with open('a.txt', 'w') as f:
                f.write('/q/after.py')
            return [p for p, _ in iter_suite_file_paths((['b.txt'] if before else []) + [root] + (['a.txt'] if after else []))]
        try:
            got = forked(run)
        except Exception as e:
            h.fail('raises', e)
            continue
        if before:
            h.eq(got[:1], ['/q/before.py'], 'in place')
            got = got[1:]
        if after:
            h.eq(got[-1:], ['/q/after.py'], 'in place')
            got = got[:-1]
        blocks = {tuple(v) for v in spec.values() if v}
        h.eq(sorted(got), sorted(x for b in blocks for x in b), 'each once')
        pos = 0
        while pos < len(got):
            b = [b for b in blocks if got[pos] == b[0] and tuple(got[pos:pos + len(b)]) == b]
            if not h.check(b, 'order within a file', repr(got)):
                break
            pos += len(b[0])


def runs(h):
    """whole runs: the tests run are those of the lines, in order"""
    n = h.scale(45, 500)
    for i in range(n):
        w = World(h.rng, h.rng.choice([1, 2, 3]), True)
        top = [h.rng.choice(w.order) for _ in range(h.rng.choice([1, 1, 2]))]
        extra = h.rng.random() < .2
        k = h.rng.choice([None, None, 'not test_beta', 'Cls'])
        if not h.go((w.files, top, extra, k)):
            continue

        def run():
            root = os.getcwd()
            base_tree(root)
            w.write(root)
            argv = (['t0.py:test_alpha'] if extra else []) + [x for t in top for x in ('-f', t)] + (['-k', k] if k else [])
            return slash_main(argv)
        try:
            o = forked(run)
        except Exception as e:
            h.fail('raises', e)
            continue
        want = [('t0.py', 'test_alpha')] if extra and (not k or simple_holds(k, 't0.py:test_alpha')) else []
        for t in top:
            for target, fs in w.expand(t):
                if target[0] == 'dir':
                    files = []
                    for d, dirs, names in sorted(os_walk(target[1])):
                        files.extend(names)
                else:
                    files = [target[1]]
                for f in files:
                    for test in TESTS:
                        if target[0] == 'test' and test != target[2] and test.split('.')[0] != target[2]:
                            continue
                        addr = f + ':' + test
                        if all(simple_holds(x, addr) for x in fs) and (not k or simple_holds(k, addr)):
                            want.append((f, test))
        h.eq([e[1:] for e in o.events if e[0] == 'ran'], want, 'tests run', out=o.output[-800:])


def os_walk(d):
    """PYS below directory d in walk order (files of a directory before its subdirectories, both sorted)"""
    out = {}
    for p in PYS:
        if p.startswith(d + '/'):
            out.setdefault(os.path.dirname(p), []).append(p)
    return [(k, [], sorted(v)) for k, v in out.items()]


BAD = ['missing.py', 'missing.py:test_x', 'missing.txt', 't0.py:test_nothing', 't0.py # repeat: x', 't0.py # repeat:', 't0.py # filter: (', 't0.py # repeat: 1.5',
       'nodir/', 't0.py:', 't0.py # filter: alpha, repeat: two', 't0.py # filter: )']


def malformed(h):
    """a suite file with a malformed line is rejected: no test runs and the exit code tells"""
    for bad in BAD:
        for pos in (['only', 'last'] if h.quick else ['only', 'first', 'last', 'nested']):
            if not h.go((bad, pos)):
                continue

            def run():
                root = os.getcwd()
                base_tree(root)
                lines = {'only': [bad], 'first': [bad, 't0.py'], 'last': ['t0.py', bad], 'nested': ['n.txt']}[pos]
                with open('s.txt', 'w') as f:
                    f.write('\n'.join(lines))
                with open('n.txt', 'w') as f:
                    f.write('t0.py\n' + bad)
                return slash_main(['-f', 's.txt'])
            try:
                o = forked(run)
            except Exception as e:
                h.fail('raises', e)
                continue
            h.check(o.exit_code != 0 or o.raised, 'accepted', '%r' % bad, out=o.output[-500:])
            h.eq([e for e in o.events if e[0] == 'ran'], [], 'tests run')


CHECKS = [expansion, directories, runs, malformed]
