"""C08: parametrization."""
import itertools
from .base import slash_run, forked, ensure_slash, slash_main

POOL = [[1, 2, 3], ['a', 'b'], [None, 1], [(1, 2), (3, 4)], [[1], [2, 3]], [True, False], [10, 20], [1, 1], [1, True, 1.0], ['x', 'x', 'y'], [0], [''], [[], ()], [{'k': 1}, {}], [-1, 1.5], ['a b', 'c=d', 'e,f'], []]


class World(object):
    """a generated file: fixtures, functions and classes with parameters"""

    def __init__(self, r):
        self.r, self.out, self.n = r, ['import slash, vrec', 'CUR = {}'], 0
        self.groups = {}                       # group id -> list of (value expressions, values, tags)
        self.fixtures = {}                     # name -> (params, deps, auto, uses)
        self.alias = 0

    def vals(self, ntuple=0):
        r = self.r
        vs = r.choice(POOL) if r.random() < .93 else r.choice(POOL[:-1])
        if vs == [] and r.random() < .8:
            vs = [7]
        vs = vs[:r.choice([1, 2, 2, 3])]
        if ntuple:
            vs = [tuple(r.choice([v, i]) for i in range(ntuple)) if r.random() < .8 else [v] * ntuple for v in vs]
        out = []
        for i, v in enumerate(vs):
            self.n += 1
            k = r.random()
            if k < .12:
                out.append(('(%r,)[0] // slash.param("lbl%d")' % (v, self.n), v, {}))
            elif k < .3:
                t = 't%d' % r.choice([self.n, 1, 2])
                out.append(('(%r) // slash.param("lbl%d", tags=%r)' % (v, self.n, t), v, {t: None}))
            elif k < .4:
                t = 'v%d' % self.n
                out.append(('(%r) // slash.param(tags=[(%r, %d), "t0"])' % (v, t, i), v, {t: i, 't0': None}))
            else:
                out.append((repr(v), v, {}))
        return out

    def params(self, owner, maxn=2):
        """decorators and {argument: (group, index in the tuple or None)}"""
        r, lines, args = self.r, [], {}
        for k in range(r.choice([0, 1, 1, 2][:maxn + 2])):
            gid = '%s/%d' % (owner, k)
            kind = r.random()
            if kind < .2:
                n = r.choice([2, 2, 3])
                names = ['%s%d' % (r.choice('abcxyz'), len(args) + i) for i in range(n)]
                vs = self.vals(n)
                for i, nm in enumerate(names):
                    args[nm] = (gid, i)
                lines.append('@slash.parametrize(%s, [%s])' % (tuple(names), ', '.join(v[0] for v in vs)))
            else:
                nm = '%s%d' % (r.choice('abcxyz'), len(args))
                args[nm] = (gid, None)
                if kind < .3:
                    vs = [('True', True, {}), ('False', False, {})]
                    lines.append('@slash.parameters.toggle(%r)' % nm)
                else:
                    vs = self.vals()
                    text = '[%s]' % ', '.join(v[0] for v in vs)
                    text = r.choice([text, text, 'iter(%s)' % text, '(x for x in %s)' % text, 'tuple(%s)' % text])
                    lines.append('@slash.parametrize(%r, %s)' % (nm, text) if kind < .85 else '@slash.parameters.iterate(%s=%s)' % (nm, text))
            self.groups[gid] = vs
        r.shuffle(lines)
        return lines, args

    def add_fixture(self, i):
        r = self.r
        name = 'fx%d' % i
        lines, args = self.params(name)
        deps = [d for d in self.fixtures if r.random() < .4]
        uses = []
        auto = r.random() < .1
        lines.insert(r.randrange(len(lines) + 1), '@slash.fixture(autouse=True)' if auto else '@slash.fixture')
        order = list(args) + deps
        r.shuffle(order)
        self.out += lines + ['def %s(%s):' % (name, ', '.join(order)), '    CUR[%r] = {%s}' % (name, ', '.join('%r: %s' % (a, a) for a in order)), '    return CUR[%r]' % name]
        self.fixtures[name] = (args, deps, auto)

    def closure(self, args, deps, acc=None):
        """parameter groups reached"""
        acc = [] if acc is None else acc
        for g, _ in args.values():
            if g not in acc:
                acc.append(g)
        for d in deps:
            self.closure(self.fixtures[d][0], self.fixtures[d][1], acc)
        return acc

    def seen(self, args, deps, env):
        out = {a: env[g][1] if i is None else env[g][1][i] for a, (g, i) in args.items()}
        out.update({d: self.seen(self.fixtures[d][0], self.fixtures[d][1], env) for d in deps})
        return out


def canon(x):
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (canon(k), canon(x[k])) for k in sorted(x, key=repr))
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ', '.join(map(canon, x)))
    return '%s %r' % (type(x).__name__, x)


def sig(r, args, deps):
    names = list(args) + list(deps)
    r.shuffle(names)
    out = []
    for d in names:
        out.append(d)
    return out


REC = 'vrec.ev("run", %r, {%s}, dict(CUR), dict(slash.context.test.__slash__.variation.id), dict(slash.context.test.__slash__.variation.values), {t: slash.context.test.__slash__.tags[t] if slash.context.test.__slash__.tags.has_tag(t) else 0 for t in []}, sorted(str(t) for t in slash.context.test.__slash__.tags))'


def build(r):
    w = World(r)
    for i in range(r.choice([0, 1, 2, 2, 3])):
        w.add_fixture(i)
    autos = [f for f in w.fixtures if w.fixtures[f][2]]
    tests = {}

    def expect(name, parts, cur):
        """parts: [(label, args, deps)]"""
        gs = []
        for _, args, deps in parts:
            w.closure(args, deps, gs)
        for a in autos + cur:
            w.closure(w.fixtures[a][0], w.fixtures[a][1], gs)
        runs = []
        for combo in itertools.product(*[range(len(w.groups[g])) for g in gs]):
            env = {g: w.groups[g][c] for g, c in zip(gs, combo)}
            tags = set()
            for g in gs:
                tags.update(env[g][2])
            runs.append(({lab: w.seen(args, deps, env) for lab, args, deps in parts}, {a: w.seen(w.fixtures[a][0], w.fixtures[a][1], env) for a in autos + cur}, sorted(tags)))
        tests[name] = runs
    for i in range(r.choice([1, 1, 2])):
        name = 'test_f%d' % i
        lines, args = w.params(name)
        deps = [d for d in w.fixtures if r.random() < .5]
        uses = [d for d in w.fixtures if d not in deps and r.random() < .2]
        if uses:
            lines.insert(r.randrange(len(lines) + 1), '@slash.use_fixtures(%r)' % uses)
        names = sig(r, args, deps)
        w.out += lines + ['def %s(%s):' % (name, ', '.join(names)), '    rec(%r, {"test": {%s}})' % (name, ', '.join('%r: %s' % (a, a) for a in names))]
        expect(name, [('test', args, deps)], uses)
    if r.random() < .5:
        w.out += ['class Base(slash.Test):']
        body = []
        bparts = []

        def setup(cls, which, sup):
            if r.random() < .5:
                return None
            lines, args = w.params(cls + '.' + which, 1)
            deps = [d for d in w.fixtures if r.random() < .3]
            if sup is not None and False:
                pass
            names = sig(r, args, deps)
            return lines, args, deps, ['    ' + l for l in lines] + ['    def %s(%s):' % (which, ', '.join(['self'] + names)), '        self.%s_saw = {%s}' % (which, ', '.join('%r: %s' % (a, a) for a in names))]
        sets = {}
        for which in ('before', 'after'):
            sets[which] = setup('Base', which, None)
        text = []
        for which in ('before', 'after'):
            if sets[which]:
                text += sets[which][3]
                if which == 'after':
                    text.append('        vrec.ev("after", self.rec_id, self.after_saw)')
        for m in range(r.choice([1, 2])):
            name = 'test_m%d' % m
            lines, args = w.params('Base.' + name)
            deps = [d for d in w.fixtures if r.random() < .4]
            names = sig(r, args, deps)
            text += ['    ' + l for l in lines] + ['    def %s(%s):' % (name, ', '.join(['self'] + names)), '        self.rec_id = rec(type(self).__name__ + "." + %r, dict({"test": {%s}}, **({"before": self.before_saw} if hasattr(self, "before_saw") else {})))' % (name, ', '.join('%r: %s' % (a, a) for a in names))]
            for cls in ('Base', 'Derived'):
                parts = [('test', args, deps)]
                for which in ('before', 'after'):
                    if sets[which]:
                        parts.append((which, sets[which][1], sets[which][2]))
                expect(cls + '.' + name, parts, [])
        w.out += text + ['class Derived(Base):', '    pass']
    w.out[2:2] = ['COUNT = []', 'def rec(name, saw):', '    COUNT.append(1)', '    md = slash.context.test.__slash__', '    vrec.ev("run", name, len(COUNT), saw, {k: CUR[k] for k in AUTOS if k in CUR}, dict(md.variation.id), dict(md.variation.values), sorted(t for t in md.variation.tags), md.address)', '    return len(COUNT)',
                  'AUTOS = ()']
    return '\n'.join(w.out) + '\n', tests, autos


def runs(h):
    """generated files: the multiset of what the runs received is the cartesian product"""
    for i in range(h.scale(220, 2500)):
        while True:
            src, tests, autos = build(h.rng)
            if sum(len(v) for v in tests.values()) <= 120:
                break
        if not h.go(src):
            continue
        o = slash_run(['t_mod.py'], files={'t_mod.py': src})
        if not h.check(o.raised is None and (o.exit_code in (0, 1)), 'the run failed', (o.raised, o.exit_code, o.glob['errors'])):
            continue
        afters = {e[1]: e[2] for e in o.events if e[0] == 'after'}
        h.check(all(x['success'] for x in o.results), 'a run is not a success', [(x['address'], x['errors'], x['skips']) for x in o.results if not x['success']][:2])
        h.eq(len(o.results), sum(len(v) for v in tests.values()), 'number of results', (o.glob['errors'], src))
        for name, want in tests.items():
            got = [e for e in o.events if e[0] == 'run' and e[1] == name]
            have = []
            for e in got:
                saw = dict(e[3])
                if e[2] in afters:
                    saw['after'] = afters[e[2]]
                have.append(canon(saw) + ' tags ' + canon(e[7]))
            h.eq(sorted(have), sorted(canon(a) + ' tags ' + canon(t) for a, _, t in want), 'combinations', name)
            ids = [canon(e[5]) for e in got]
            h.eq(len(set(ids)), len(ids), 'distinct identities', name)
            for e in got:
                # the values the variation reports are the ones that were received
                for k, v in e[6].items():
                    place, _, key = k.partition(':') if k.split(':')[0] in ('before', 'after') else ('test', '', k)
                    if k.startswith('::'):
                        continue
                    saw = dict(e[3])
                    if place == 'after':
                        continue
                    x = saw.get(place, {})
                    found = True
                    for part in key.split('.'):
                        if part in x:
                            x = x[part]
                        else:
                            found = False
                            break
                    if found:
                        h.check(canon(x) == canon(v), 'the reported value differs from the received one', (name, k, v, x))


def used(h):
    """fixtures used without an argument and autouse fixtures: each combination once, seen through globals"""
    for i in range(h.scale(40, 400)):
        r = h.rng
        vs = [r.choice(POOL[:8])[:r.choice([1, 2, 3])] for _ in range(3)]
        how = r.choice(['use', 'auto', 'usefx', 'both', 'deco', 'deco', 'decouse'])
        auto = how in ('auto', 'both')
        src = '''import slash, vrec
CUR = {}
@slash.fixture
@slash.parametrize('p', %r)
def inner(p):
    CUR['inner'] = p
    return p
@slash.fixture%s
@slash.parametrize('q', %r)
%sdef outer(q%s):
    CUR['outer'] = q
    return q
%s@slash.parametrize('z', %r)
def test_x(z%s):
    vrec.ev('run', (CUR['inner'], CUR['outer'], z), dict(slash.context.test.__slash__.variation.id))
''' % (vs[0], '(autouse=True)' if auto else '', vs[1], '@slash.use_fixtures(["inner"])\n' if how in ('deco', 'decouse') else '', '' if how in ('deco', 'decouse') else ', inner', {'use': '@slash.use_fixtures(["outer"])\n', 'decouse': '@slash.use_fixtures(["outer"])\n', 'both': '@slash.use_fixtures(["inner"])\n'}.get(how, ''), vs[2], ', outer' if how in ('usefx', 'deco') else '')
        if not h.go((src,)):
            continue
        o = slash_run(['t_mod.py'], files={'t_mod.py': src})
        got = [e for e in o.events if e[0] == 'run']
        h.eq(sorted(canon(e[1]) for e in got), sorted(canon(c) for c in itertools.product(*vs)), 'combinations', src)
        h.eq(len({canon(e[2]) for e in got}), len(got), 'distinct identities', src)


def chains(h):
    """setup functions of a class and of its base, each with parameters of their own"""
    for i in range(h.scale(60, 500)):
        r = h.rng
        names = [r.choice(['x', 'y']) for _ in range(4)]
        vs = [r.choice(POOL[:8])[:r.choice([1, 2])] for _ in range(5)]
        has = [r.random() < .7 for _ in range(4)]
        src = ['import slash, vrec', 'class Base(slash.Test):', '    saw = ()']
        used_ = []
        for k, which in ((0, 'before'), (1, 'after')):
            if has[k]:
                src += ['    @slash.parametrize(%r, %r)' % (names[k], vs[k]), '    def %s(self, %s):' % (which, names[k]), '        self.saw += (("Base.%s", %s),)' % (which, names[k])]
        src += ['class Derived(Base):']
        for k, which in ((2, 'before'), (3, 'after')):
            if has[k]:
                src += ['    @slash.parametrize(%r, %r)' % (names[k], vs[k]), '    def %s(self, %s):' % (which, names[k]), '        super(Derived, self).%s()' % which, '        self.saw += (("Derived.%s", %s),)' % (which, names[k])]
        src += ['    @slash.parametrize("x", %r)' % vs[4], '    def test_m(self, x):', '        self.saw += (("test", x),)', '        slash.add_critical_cleanup(lambda: vrec.ev("run", self.saw, dict(slash.context.test.__slash__.variation.id)))']
        src = '\n'.join(src) + '\n'
        if not h.go((src,)):
            continue
        o = slash_run(['t_mod.py'], files={'t_mod.py': src})
        h.check(all(x['success'] for x in o.results), 'a run is not a success', [x['errors'] for x in o.results if not x['success']][:2])
        labs = [('Base.before', 0), ('Derived.before', 2), ('test', 4), ('Base.after', 1), ('Derived.after', 3)]
        labs = [(n, k) for n, k in labs if k == 4 or has[k]]
        got = [e for e in o.events if e[0] == 'run']
        h.eq(sorted(canon(e[1]) for e in got), sorted(canon(tuple((n, v) for (n, k), v in zip(labs, combo))) for combo in itertools.product(*[vs[k] for n, k in labs])), 'combinations', src)
        h.eq(len({canon(e[2]) for e in got}), len(got), 'distinct identities', src)


def rejected(h):
    """parameters that cannot be are rejected where they are written"""
    cases = [('@slash.parametrize("a", [1])\n@slash.parametrize("a", [2])\ndef test_x(a): pass\n', 'ParameterException'),
             ('@slash.parametrize(("a", "b"), [1])\ndef test_x(a, b): pass\n', 'RuntimeError'),
             ('@slash.parametrize(("a", "b"), [(1, 2, 3)])\ndef test_x(a, b): pass\n', 'RuntimeError'),
             ('@slash.parametrize("a", [slash.param("x")])\ndef test_x(a): pass\n', 'RuntimeError'),
             ('@slash.parametrize("a", [1 // slash.param("not valid")])\ndef test_x(a): pass\n', 'RuntimeError'),
             ('@slash.parametrize("a", [1 // slash.param("9x")])\ndef test_x(a): pass\n', 'RuntimeError'),
             ('@slash.parametrize("a", [1 // slash.param("ok_9")])\ndef test_x(a): pass\n', None),
             ('@slash.parametrize("a", [1])\n@slash.parametrize("b", [2])\ndef test_x(a, b): pass\n', None),
             ('def test_x(a): pass\n', 'UnknownFixtures'),
             ('@slash.parametrize("a", [slash.param("x", 1), 2 // slash.param("y", tags=["q"])])\ndef test_x(a): pass\n', None)]
    for text, want in cases:
        if not h.go(text):
            continue
        o = slash_run(['t_mod.py'], files={'t_mod.py': 'import slash\n' + text})
        if want is None:
            h.check(o.results and all(x['success'] for x in o.results), 'accepted parameters', (text, o.glob['errors'], o.raised))
        else:
            h.check(not o.results and (want in str(o.glob['errors']) or want in str(o.raised) or want in o.output), 'rejected parameters', (text, o.glob['errors'], o.raised, o.output[-300:]))


def names_twice(h):
    """a name cannot be given values twice on one function, and names may come in a list as well as in a tuple"""
    for first in ('"b"', '("b", "c")', '("c", "b")'):
        for second in ('"b"', '("a", "b")', '("b", "a")'):
            text = ''.join('@slash.parametrize(%s, %s)\n' % (n, '[(1, 2)]' if 'c' in n or 'a' in n else '[1]') for n in (first, second)) + 'def test_x(%s): pass\n' % ', '.join(sorted(set(c for c in first + second if c.isalpha())))
            if not h.go(text):
                continue
            o = slash_run(['t_mod.py'], files={'t_mod.py': 'import slash\n' + text})
            h.check(not o.results and 'ParameterException' in str(o.glob['errors']) + str(o.raised) + o.output,
                    'repeated parametrization of a name is refused' if ',' not in first + second else 'repeated parametrization of a name is not noticed when names are given together', (text, o.glob['errors'], o.raised))
    for n in (1, 2, 3):
        text = '@slash.parametrize(%r, %r)\ndef test_x(%s): vrec.ev("run", %s)\n' % (list('abc'[:n]), [tuple(range(i, i + n)) for i in range(2)], ', '.join('abc'[:n]), ', '.join('abc'[:n]))
        if not h.go(text):
            continue
        o = slash_run(['t_mod.py'], files={'t_mod.py': 'import slash, vrec\n' + text})
        want = [('run',) + tuple(range(i, i + n)) for i in range(2)] if n > 1 else None
        h.check(len(o.results) == 2 and (want is None or sorted(map(tuple, o.events)) == want), 'names given in a list cannot be parametrized', (text, o.glob['errors'], o.raised, o.events))


CHECKS = [runs, used, chains, rejected, names_twice]
