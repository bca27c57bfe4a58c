"""C07: requirements and exclusions."""
import itertools
import re
from .base import forked, ensure_slash, slash_main, slash_run

NONE = object()


class Gen(object):
    """a generated test file and what each of its tests is expected to do"""

    def __init__(self, r):
        self.r, self.out, self.n = r, ['import slash, vrec', 'from slash.core.requirements import Requirement'], 0
        self.shared = []

    def uid(self, p='m'):
        self.n += 1
        return '%s%dx' % (p, self.n)

    def put(self, *lines):
        self.out.extend(lines)

    def req(self, p_met, cls=False):
        """a decorator line and the (met, reason) it stands for; reason NONE: any text"""
        r, m = self.r, self.uid()
        met = r.random() < p_met
        k = r.choice(['bool', 'bool', 'call', 'call', 'callm', 'tuple', 'tuple', 'tuplem', 'skip', 'skip0', 'obj', 'objc', 'lam', 'truthy', 'shared', 'skipreq', 'inst'])
        if k.startswith('skip') and p_met >= 1:
            k = 'bool'
        if k == 'bool':
            return ('@slash.requires(%s, %r)' % (met, m) if r.random() < .6 else '@slash.requires(%s, message=%r)' % (met, m), (met, m)) if r.random() < .7 else ('@slash.requires(%s)' % met, (met, NONE))
        if k in ('call', 'callm', 'tuple', 'tuplem'):
            f = self.uid('f_')
            val = r.choice({True: ['True', '1', '"x"', '[0]'], False: ['False', '0', 'None', '[]', '""']}[met])
            self.put('def %s(): return %s' % (f, val if k.startswith('call') else '(%s, %r)' % (val, m)))
            if k == 'call':
                return '@slash.requires(%s)' % f, (met, f)
            if k == 'callm':
                return '@slash.requires(%s, message=%r)' % (f, m), (met, m)
            if k == 'tuple':
                return '@slash.requires(%s)' % f, (met, m)
            return '@slash.requires(%s, message="other")' % f, (met, m)
        if k == 'lam':
            return '@slash.requires(lambda: %s, %r)' % (met, m), (met, m)
        if k == 'truthy':
            return '@slash.requires(lambda: %s, %r)' % ('[1]' if met else 'None', m), (met, m)
        if k == 'inst':
            c = self.uid('C_')
            self.put('class %s(object):' % c, '    def __call__(self): return %s' % met)
            return '@slash.requires(%s(), %r)' % (c, m), (met, m)
        if k == 'skip':
            return ('@slash.skipped(%r)' if r.random() < .5 else '@slash.skipped(%r)') % m, (False, m)
        if k == 'skip0':
            return '@slash.skipped', (False, None)
        if k == 'skipreq':
            return '@slash.requires(slash.core.requirements.Skip(%r))' % m, (False, m)
        if k == 'obj':
            return '@slash.requires(Requirement(%s, %r))' % (met, m), (met, m)
        if k == 'objc':
            return '@slash.requires(Requirement(lambda: (%s, %r)))' % (met, m), (met, m)
        name = self.uid('R_')
        self.put('%s = Requirement(%s, %r)' % (name, met, m))
        return '@slash.requires(%s)' % name, (met, m)

    def reqs(self, p_met, ns=(0, 0, 1, 1, 2, 3)):
        got = [self.req(p_met) for _ in range(self.r.choice(ns))]
        return [g[0] for g in got], [g[1] for g in got]


def file_of(r):
    g = Gen(r)
    p = r.choice([.75, .85, .95])
    fixtures = {}                # name -> (own reqs, deps)

    def plain(d):
        # requirements of fixtures reached through use_fixtures: see used_fixtures
        return not fixtures[d][0] and all(plain(x) for x in fixtures[d][1])
    for i in range(r.choice([0, 1, 2, 3, 4])):
        name = 'fx%d' % i
        lines, rs = g.reqs(r.choice([p, 1]), (0, 0, 0, 1, 2))
        deps = [d for d in fixtures if r.random() < .35]
        uses = [d for d in fixtures if d not in deps and plain(d) and r.random() < .25]
        auto = r.random() < .1
        deco = '@slash.fixture%s' % ('(autouse=True)' if auto else r.choice(['', '()'] + (['(scope="module")'] if not deps + uses else [])))
        lines = lines + [deco] if r.random() < .5 else [deco] + lines
        if uses:
            lines.append('@slash.use_fixtures(%r)' % uses)
        g.put(*lines)
        g.put('def %s(%s):' % (name, ', '.join(deps)), '    return vrec.ev("fx", %r)' % name)
        fixtures[name] = (rs, deps + uses, auto)

    def closure(names):
        seen, todo = [], list(names) + [f for f in fixtures if fixtures[f][2]]
        while todo:
            f = todo.pop()
            if f not in seen:
                seen.append(f)
                todo.extend(fixtures[f][1])
        return seen
    tests = {}                  # address in file -> (unmet reasons, {body ids})

    def expect(addr, rs, names):
        cl = closure(names)
        rs = rs + [x for f in cl for x in fixtures[f][0]]
        tests[addr] = [m for met, m in rs if not met], cl
    for i in range(r.choice([1, 2, 3])):
        lines, rs = g.reqs(p)
        args = [f for f in fixtures if r.random() < .4]
        uses = [f for f in fixtures if f not in args and plain(f) and r.random() < .3]
        if uses:
            lines.insert(r.randrange(len(lines) + 1), '@slash.use_fixtures(%r)' % uses)
        name = 'test_f%d' % i
        if r.random() < .1:
            lines.insert(0, '@slash.tag("t")')
        g.put(*lines)
        g.put('def %s(%s):' % (name, ', '.join(args)), '    vrec.ev("body", %r)' % name)
        expect(name, rs, args + uses)
    classes = {}                # name -> (own reqs, bases, methods {name: (reqs, fixtures, definer)})
    for i in range(r.choice([0, 1, 2, 3, 4, 5])):
        name = 'Cls%d' % i
        bases = [c for c in classes if r.random() < .45][:2] if r.random() < .8 else []
        bases.reverse()
        if len(bases) == 2 and bases[1] in mro(classes, bases[0]):
            bases = bases[:1]
        try:
            mro(dict(classes, **{name: (None, bases, None)}), name)
        except TypeError:
            bases = bases[:1]
        lines, rs = g.reqs(p, (0, 0, 1, 2))
        body = []
        methods = {}
        for mname in ('test_a', 'test_b', 'test_c'):
            if r.random() < (.55 if not bases else .25):
                mlines, mrs = g.reqs(p, (0, 0, 1, 2))
                margs = [f for f in fixtures if r.random() < .25]
                methods[mname] = (mrs, margs)
                body += ['    ' + l for l in mlines] + ['    def %s(%s):' % (mname, ', '.join(['self'] + margs)), '        vrec.ev("body", type(self).__name__ + ".%s")' % mname]
        before = None
        if r.random() < .15:
            before = [f for f in fixtures if r.random() < .3]
            body += ['    def %s(%s):' % ('before', ', '.join(['self'] + before)), '        vrec.ev("before", type(self).__name__)']
        g.put(*lines)
        g.put('class %s(%s):' % (name, ', '.join(bases) or 'slash.Test'))
        g.put(*(body or ['    pass']))
        classes[name] = (rs, bases, methods, before)
    for c in classes:
        line = mro(classes, c)
        creqs = [x for b in line for x in classes[b][0]]
        bf = next((classes[b][3] for b in line if classes[b][3] is not None), [])
        for mname in ('test_a', 'test_b', 'test_c'):
            for b in line:
                if mname in classes[b][2]:
                    mrs, margs = classes[b][2][mname]
                    expect(c + '.' + mname, creqs + mrs, list(margs) + [f for f in bf if f not in margs])
                    break
    return '\n'.join(g.out) + '\n', tests


def mro(classes, c):
    made = {}

    def make(n):
        if n not in made:
            made[n] = type(n, tuple(make(b) for b in classes[n][1]) or (object,), {})
        return made[n]
    return [k.__name__ for k in make(c).__mro__ if k is not object]


def words(s):
    return set(re.findall(r'\w+', s or ''))


def judge(h, o, tests, parts=lambda a: a.split(':', 1)[1]):
    if not h.check(o.raised is None and o.exit_code in (0, 1), 'the run failed', (o.raised, o.exit_code, o.glob['errors'])):
        return
    by = {parts(x['address']): x for x in o.results}
    if not h.eq(sorted(by), sorted(tests), 'tests', 'tests of the session'):
        return
    for name, (unmet, cl) in sorted(tests.items()):
        x = by[name]
        bodies = [e for e in o.events if e[0] == 'body' and e[1] == name]
        hooks = [e for e in o.events if e[0] == 'hook' and parts(e[2] or ':') == name]
        kinds = [e[1] for e in hooks]
        avoided = [e[3] for e in hooks if e[1] == 'test_avoided']
        if not unmet:
            h.check(len(bodies) == 1 and x['success'], 'a test whose requirements are met does not run', (name, x))
            h.check(kinds.count('test_start') == 1 and kinds.count('test_end') == 1 and not avoided, 'notifications of a run test', (name, kinds))
            h.check(not x['skips'], 'a test whose requirements are met is skipped', (name, x['skips']))
            continue
        h.check(not bodies, 'the body of a test with an unmet requirement ran', (name, unmet))
        h.check(not x['started'], 'a test with an unmet requirement was started', name)
        h.check(not [k for k in kinds if k != 'test_avoided'], 'notifications of an avoided test', (name, kinds))
        if h.eq(len(avoided), 1, 'number of avoidance notifications'):
            for m in unmet:
                if m not in (None, NONE):
                    h.check(m in words(avoided[0].get('reason')), 'avoidance without the reason', (name, m, avoided))
        h.check(not x['errors'] and not x['failures'], 'an avoided test has errors', (name, x['errors'], x['failures']))
        h.eq(len(x['skips']), len(unmet), 'number of skips', (name, x['skips'], [m for m in unmet]))
        for m in set(unmet):
            if m is None:
                h.eq(x['skips'].count(None), unmet.count(None), 'skips without a reason', name)
            elif m is not NONE:
                h.eq(len([s for s in x['skips'] if m in words(s)]), 1, 'the skip of an unmet requirement', (name, m, x['skips']))
        known = {m for m in unmet if m not in (None, NONE)}
        for s in x['skips']:
            foreign = {w for w in words(s) if re.match(r'(m|f_)\d+x$', w)} - known
            h.check(not foreign or NONE in unmet, 'a skip for a requirement of something else', (name, s))
    wanted = {f for n, (unmet, cl) in tests.items() if not unmet for f in cl}
    got = {e[1] for e in o.events if e[0] == 'fx'}
    h.eq(sorted(got), sorted(wanted), 'fixtures', 'fixtures that ran')


HK = ('test_start', 'test_end', 'test_avoided', 'test_skip', 'test_success', 'test_error', 'test_failure')


def requirement_runs(h):
    """generated files: requirements on functions, methods, class hierarchies and fixtures"""
    for i in range(h.scale(130, 1500)):
        src, tests = file_of(h.rng)
        if not h.go(src):
            continue
        judge(h, slash_run(['t_mod.py'], files={'t_mod.py': src}, record_hooks=HK), tests)


# ---- exclusions --------------------------------------------------------------------------------------------------------
def exclusion_file(r):
    """fixtures and tests with parameters; -> source, expected {test name: [(values by dotted name, excluded)]}"""
    out = ['import slash, vrec', 'O1, O2 = object(), object()']
    pool = [[1, 2, 3], ['a', 'b'], [None, 1], [(1, 2), (3, 4)], [[1], [2, 3]], [True, 2], [10, 20], [1.5, 2], ['', 'a']]
    fixtures = {}                        # name -> (params {p: values}, deps, rules)
    tests = {}
    autos = []

    def params_of(own, deps, prefix=''):
        got = [(prefix + p, own[p], p) for p in own]
        for d in deps:
            got += params_of(fixtures[d][0], fixtures[d][1], prefix + d + '.')
        return got

    def key(dotted, owner):
        """what a dotted name stands for: (owner, parameter)"""
        parts = dotted.split('.')
        return (parts[-2] if len(parts) > 1 else owner, parts[-1])

    def rules(own, deps, owner):
        names = params_of(own, deps)
        got, lines = [], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if names else 0):
            n = r.choice([1, 1, 2, 3])
            chosen = r.sample(names, min(n, len(names)))
            if r.random() < .35 and got:
                nn = r.choice(got)[0]           # a further rule over the same names
                chosen = [[x for x in names if x[0] == q][0] for q in nn]
            ns = [c[0] for c in chosen]
            vals = [tuple(r.choice(c[1] + ([99] if r.random() < .2 else [])) for c in chosen) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if len(ns) == 1 and r.random() < .8:
                lines.append('@slash.exclude(%r, %r)' % (ns[0], r.choice([list, tuple])(v[0] for v in vals)))
            else:
                lines.append('@slash.exclude(%r, %r)' % (r.choice([list, tuple])(ns), vals))
            got.append((ns, vals))
        return got, lines
    nfx = r.choice([0, 1, 2, 3])
    for i in range(nfx):
        name = 'fx%d' % i
        own = {'p%d' % k: r.choice(pool)[:r.choice([1, 2, 3])] for k in range(r.choice([0, 1, 1, 2]))}
        deps = [d for d in fixtures if r.random() < .3]
        rs, lines = rules(own, deps, name) if r.random() < .4 else ([], [])
        for p in own:
            lines.insert(r.randrange(len(lines) + 1), '@slash.parametrize(%r, %r)' % (p, own[p]))
        auto = r.random() < .12
        lines.insert(r.randrange(len(lines) + 1), '@slash.fixture(autouse=True)' if auto else '@slash.fixture')
        out.extend(lines)
        args = list(own) + deps
        out += ['def %s(%s):' % (name, ', '.join(args)), '    vrec.ev("fx", %r)' % name, '    return {%s}' % ', '.join('%r: %s' % (a, a) for a in args)]
        fixtures[name] = (own, deps, rs)
        if auto:
            autos.append(name)
    for i in range(r.choice([1, 2])):
        incls = r.random() < .3
        name = 'test_%d' % i
        own = {'q%d' % k: r.choice(pool)[:r.choice([1, 2, 3])] for k in range(r.choice([0, 1, 1, 2]))}
        deps = [d for d in fixtures if r.random() < .5]
        rs, lines = rules(own, deps, name)
        for p in own:
            lines.insert(r.randrange(len(lines) + 1), '@slash.parametrize(%r, %r)' % (p, own[p]))
        args = list(own) + deps
        text = lines + ['def %s(%s):' % (name, ', '.join((['self'] if incls else []) + args)), '    vrec.ev("body", %r, {%s})' % (name, ', '.join('%r: %s' % (a, a) for a in args))]
        out += ['class Cls%d(slash.Test):' % i] + ['    ' + t for t in text] if incls else text
        # every parameter object once: (owner, param) -> values
        keys = []

        def collect(o, own_, deps_):
            for p in own_:
                if (o, p) not in keys:
                    keys.append((o, p))
            for d in deps_:
                collect(d, fixtures[d][0], fixtures[d][1])
        collect(name, own, deps + [a for a in autos if a not in deps])
        values = {(o, p): (own[p] if o == name else fixtures[o][0][p]) for o, p in keys}
        allrules = [(name, x) for x in rs]
        seen, todo = set(), list(deps) + autos
        while todo:
            d = todo.pop()
            if d not in seen:
                seen.add(d)
                allrules += [(d, x) for x in fixtures[d][2]]
                todo.extend(fixtures[d][1])
        combos = []
        for combo in itertools.product(*[range(len(values[k])) for k in keys]):
            env = {k: values[k][c] for k, c in zip(keys, combo)}
            excluded = any(tuple(env[key(n, owner)] for n in ns) in vals for owner, (ns, vals) in allrules)

            def seen_by(own_, deps_, o):
                return dict([(p, env[(o, p)]) for p in own_] + [(d, seen_by(fixtures[d][0], fixtures[d][1], d)) for d in deps_])
            combos.append((seen_by(own, deps, name), excluded))
        tests[name] = combos
    return '\n'.join(out) + '\n', tests


def exclusion_runs(h):
    """generated parametrized tests and fixtures with exclusion rules: exactly the excluded combinations are avoided"""
    for i in range(h.scale(150, 1800)):
        while True:
            src, tests = exclusion_file(h.rng)
            if sum(len(c) for c in tests.values()) <= 80:
                break
        if not h.go(src):
            continue
        o = slash_run(['t_mod.py'], files={'t_mod.py': src}, record_hooks=HK)
        if not h.check(o.raised is None and o.exit_code in (0, 1), 'the run failed', (o.raised, o.exit_code, o.glob['errors'])):
            continue
        for name, combos in tests.items():
            res = [x for x in o.results if re.search(r'[:.]%s($|\()' % name, x['address'])]
            h.eq(len(res), len(combos), 'number of variations', name)
            bodies = [e[2] for e in o.events if e[0] == 'body' and e[1] == name]
            want = [v for v, ex in combos if not ex]
            h.eq(sorted(map(repr, bodies)), sorted(map(repr, want)), 'combinations that ran', name)
            skipped = [x for x in res if x['skips']]
            h.eq(len(skipped), len(combos) - len(want), 'number of excluded combinations', name)
            for x in res:
                kinds = [e[1] for e in o.events if e[0] == 'hook' and e[2] == x['address']]
                h.check(not x['errors'] and not x['failures'], 'errors', (x['address'], x['errors']))
                if x['skips']:
                    h.check(len(x['skips']) == 1 and not x['started'] and kinds == ['test_avoided'], 'an excluded combination', (x['address'], x['skips'], kinds))
                else:
                    h.check(x['started'] and 'test_avoided' not in kinds and kinds.count('test_start') == 1, 'a combination that runs', (x['address'], kinds))
        if not any(not ex for c in tests.values() for v, ex in c):
            h.check(not [e for e in o.events if e[0] == 'fx'], 'fixtures of excluded combinations ran', '')


def both(h):
    """unmet requirements come first; unknown or non-parameter names in rules are errors, not silent runs"""
    H = 'import slash, vrec\n@slash.parametrize("p", [1, 2])\n@slash.fixture\ndef fx(p):\n    vrec.ev("fx")\n    return p\n@slash.fixture\ndef plain(): pass\n'
    cases = [('@slash.requires(False, "mm")\n@slash.exclude("fx.p", [1])\ndef test_x(fx): vrec.ev("body", fx)\n', [], [['mm'], ['mm']], 0),
             ('@slash.exclude("fx.p", [1])\n@slash.requires(True, "mm")\ndef test_x(fx): vrec.ev("body", fx)\n', [2], None, 0),
             ('@slash.exclude("nothing", [1])\ndef test_x(fx): vrec.ev("body", fx)\n', [], None, 2),
             ('@slash.exclude("plain", [1])\ndef test_x(fx, plain): vrec.ev("body", fx)\n', [], None, 2),
             ('@slash.exclude("fx.p.q", [1])\ndef test_x(fx): vrec.ev("body", fx)\n', [], None, 2),
             ('@slash.nofixtures\n@slash.requires(False, "mm")\ndef test_x(): vrec.ev("body", 0)\n', [], [['mm']], 0),
             ('@slash.nofixtures\n@slash.requires(True, "mm")\ndef test_x(): vrec.ev("body", 0)\n', [0], None, 0)]
    for text, bodies, skips, errors in cases:
        if not h.go(text):
            continue
        o = slash_run(['t_mod.py'], files={'t_mod.py': H + text}, record_hooks=HK)
        h.eq([e[1] for e in o.events if e[0] == 'body'], bodies, 'bodies', text)
        h.eq(len([x for x in o.results if x['errors']]), errors, 'tests with errors', text)
        for x, want in zip(o.results, skips or []):
            h.check(len(x['skips']) == 1 and all(w in words(x['skips'][0]) for w in want), 'skips', (text, x['skips']))


def malformed(h):
    """exclusions that are not lists of values are rejected where they are written"""
    for args in ('"a", 5', '"a", None', '"a", "xy"', '("a", "b"), [1, 2]', '["a", "b"], [(1, 2), 3]', '("a", "b"), 5', '("a",), [[1]]', '"a", {1: 2}'):
        if not h.go(args):
            continue

        def run():
            import slash
            try:
                eval('slash.exclude(%s)' % args, {'slash': slash})
                return None
            except RuntimeError:
                return 'RuntimeError'
        ensure_slash()
        h.eq(forked(run), 'RuntimeError', 'malformed exclusion', args)


def evaluation(h):
    """a requirement is evaluated for each test it applies to when that test is reached, for repeated tests as well"""
    src = '''import slash, vrec
STATE = {'on': True}
def cond():
    vrec.ev('asked')
    return (STATE['on'], 'mm')
def test_a(): vrec.ev('body', 'a')
@slash.requires(cond)
def test_b():
    vrec.ev('body', 'b')
    STATE['on'] = False
@slash.requires(cond)
def test_c(): vrec.ev('body', 'c')
'''
    for argv, want in ((['t_mod.py'], ['a', 'b']), (['t_mod.py', '--repeat-all', '2'], ['a', 'b', 'a']), (['t_mod.py', '--repeat-each', '2'], ['a', 'a', 'b'])):
        if not h.go(argv):
            continue
        o = slash_run(argv, files={'t_mod.py': src})
        h.eq([e[1] for e in o.events if e[0] == 'body'], want, 'bodies')
        h.eq(sum('mm' in words(s) for x in o.results for s in x['skips']), len(o.results) - len(want), 'skips')


def used_fixtures(h):
    """requirements of fixtures needed through use_fixtures only"""
    for where in ('function', 'method', 'fixture', 'deep'):
        if not h.go(where):
            continue
        src = 'import slash, vrec\n@slash.requires(False, "m1x")\n@slash.fixture\ndef bad(): vrec.ev("fx", "bad")\n'
        if where in ('fixture', 'deep'):
            src += '@slash.use_fixtures(["bad"])\n@slash.fixture\ndef outer(): pass\n'
        if where == 'method':
            src += 'class T(slash.Test):\n    @slash.use_fixtures(["bad"])\n    def test_a(self): vrec.ev("body", 1)\n'
        else:
            src += ('@slash.use_fixtures(["bad"])\n' if where == 'function' else '@slash.use_fixtures(["outer"])\n' if where == 'deep' else '') + 'def test_a(%s): vrec.ev("body", 1)\n' % ('outer' if where == 'fixture' else '')
        o = slash_run(['t.py'], files={'t.py': src})
        h.check(not [e for e in o.events if e[0] == 'body'] and not any(x['started'] for x in o.results), 'a requirement of a fixture needed through use_fixtures only does not apply', (where, o.results))


CHECKS = [requirement_runs, exclusion_runs, both, malformed, evaluation, used_fixtures]
