"""C17: tags."""
import itertools
from .base import forked, ensure_slash, slash_run

NAMES = ['a', 'b', 'ab', 'covers', 'with-dash']
VALUES = [1, 2, 'x', 'y', None, 'long value']


def as_dict(tags):
    return {n: tags[n] for n in tags}


def val(v):
    from sentinels import NOTHING
    return '<none>' if v is NOTHING else v


def laws(h):
    """random programs over tag sets (set, merge, add, copy) against dictionaries"""
    ensure_slash()
    from sentinels import NOTHING
    from slash.core.tagging import Tags, NO_TAGS
    from slash.exceptions import TaggingConflict
    for _ in range(h.scale(1500, 30000)):
        r = h.rng
        init = [{r.choice(NAMES): r.choice(VALUES) for _ in range(r.randrange(4))} for _ in range(3)]
        ops = [(r.choice(['set', 'update', 'add', 'copy', 'none+', '+none', 'update_none']), r.randrange(8), r.randrange(8),
                r.choice(NAMES), r.choice(VALUES)) for _ in range(r.randrange(1, 9))]
        if not h.go((init, ops)):
            continue
        real, model = [], []
        for d in init:
            t = Tags()
            for k, v in d.items():
                t[k] = v
            real.append(t)
            model.append(dict(d))

        def conflict(a, b):
            return any(k in a and a[k] != b[k] for k in b)
        for op, i, j, n, v in ops:
            i, j = i % len(real), j % len(real)
            if op == 'set':
                real[i][n] = v
                model[i][n] = v
            elif op == 'copy':
                real.append(real[i].copy())
                model.append(dict(model[i]))
            elif op in ('none+', '+none'):
                t = NO_TAGS + real[i] if op == 'none+' else real[i] + NO_TAGS
                h.eq(as_dict(t), model[i], 'adding no tags changes the tags')
            elif op == 'update_none':
                real[i].update(NO_TAGS)
            elif op == 'update':
                try:
                    real[i].update(real[j])
                    refused = False
                except TaggingConflict:
                    refused = True
                h.eq(refused, conflict(model[i], model[j]), 'conflict detection in update')
                if not conflict(model[i], model[j]):
                    model[i].update(model[j])
            else:
                try:
                    t = real[i] + real[j]
                    refused = False
                except TaggingConflict:
                    refused = True
                h.eq(refused, conflict(model[i], model[j]), 'conflict detection in addition')
                if not refused:
                    m = dict(model[i])
                    m.update(model[j])
                    h.eq(as_dict(t), m, 'sum of tags')
                    real.append(t)
                    model.append(m)
                    if r.random() < .5:
                        t['fresh'] = 'f'
                        model[-1]['fresh'] = 'f'
            for k, (t, m) in enumerate(zip(real, model)):
                h.eq(as_dict(t), m, 'tags after %s' % op, set=k)
                h.eq(list(t), list(m), 'order of tags')
                for n2 in NAMES:
                    h.eq((n2 in t, t.has_tag(n2), t.get(n2, 'dflt')), (n2 in m, n2 in m, m.get(n2, 'dflt')), 'lookup')


def patterns(h):
    """matches_pattern against the documented meaning"""
    ensure_slash()
    from sentinels import NOTHING
    from slash.core.tagging import Tags, NO_TAGS
    for _ in range(h.scale(1500, 20000)):
        r = h.rng
        d = {r.choice(NAMES): r.choice(VALUES + [NOTHING]) for _ in range(r.randrange(4))}
        key = r.choice(NAMES + ['c', 'v', 'zz', 'as', ''])
        pat = key if r.random() < .5 else '%s=%s' % (key, r.choice(['1', '2', 'x', 'None', 'long value', '', 'a=b', 'va']))
        exact = r.random() < .5
        if not h.go((d, pat, exact)):
            continue
        t = Tags()
        for k, v in d.items():
            t[k] = v
        if '=' in pat:
            k, v = pat.split('=', 1)
            want = k in d and d[k] is not NOTHING and str(d[k]) == v
        else:
            want = any((pat == k) if exact else (pat in k) for k in d)
        h.eq(bool(t.matches_pattern(pat, exact=exact)), want, 'matching of a pattern')
        if not exact:
            h.eq(bool(t.matches_pattern(pat)), want, 'matching of a pattern, inexact by default')
        for k in d:
            if d[k] is NOTHING:
                h.check(not t.matches_pattern('%s=%s' % (k, NOTHING)), 'a tag without a value has no value')
        h.check(not NO_TAGS.matches_pattern(pat, exact=exact), 'no tags match something')
        h.eq((list(NO_TAGS), key in NO_TAGS, NO_TAGS.has_tag(key)), ([], False, False), 'no tags')


def tagging(h):
    """tagging functions and classes in any order: each has exactly what it and its bases were given"""
    ensure_slash()
    import slash
    from slash.core.tagging import get_tags
    from slash.exceptions import TaggingConflict
    for _ in range(h.scale(600, 8000)):
        r = h.rng
        # classes: 0..3, parent of i is p[i] < i or None; ops: declare class / tag class / tag function / tag method
        ncls = r.randrange(1, 5)
        parent = [None if i == 0 or r.random() < .3 else r.randrange(i) for i in range(ncls)]
        ops = [(r.choice(['cls', 'cls', 'func', 'meth']), r.randrange(4), r.choice(NAMES), r.choice(VALUES), r.random() < .2)
               for _ in range(r.randrange(1, 8))]
        pre_ops = [[(r.choice(NAMES), r.choice(VALUES)) for _ in range(r.randrange(3))] for i in range(ncls)]
        if not h.go((parent, pre_ops, ops)):
            continue

        funcs = [(lambda k: (lambda: k))(k) for k in range(3)]
        own_f = [{} for _ in funcs]
        classes, own_c = [], [{} for _ in range(ncls)]
        inherit_frozen = [None] * ncls

        def seen(i):
            """effective tags of class i: its own over what it inherited at its first own tagging, else its parent's"""
            if own_c[i]:
                m = dict(inherit_frozen[i])
                m.update(own_c[i])
                return m
            return seen(parent[i]) if parent[i] is not None else {}

        def tag_cls(i, n, v):
            before = seen(i)
            try:
                res = slash.tag(n, v)(classes[i])
                h.check(res is classes[i], 'tagging returns the target')
                ok = True
            except TaggingConflict:
                ok = False
            want = n not in before or before[n] == v
            h.eq(ok, want, 'a second value is refused, anything else accepted')
            if want:
                if not own_c[i]:
                    inherit_frozen[i] = before
                own_c[i][n] = v
        for i in range(ncls):
            base = classes[parent[i]] if parent[i] is not None else object
            classes.append(type('C%d' % i, (base,), {'test_m': lambda self: None}))
            for n, v in pre_ops[i]:
                tag_cls(i, n, v)
        for kind, i, n, v, novalue in ops:
            if kind == 'cls':
                # only leaves: a base tagged after its subclass froze its view is a matter of definition
                i %= ncls
                if not any(parent[j] == i for j in range(ncls)):
                    tag_cls(i, n, v)
            else:
                i %= len(funcs)
                before = dict(own_f[i])
                try:
                    slash.tag(n, v)(funcs[i])
                    ok = True
                except TaggingConflict:
                    ok = False
                want = n not in before or before[n] == v
                h.eq(ok, want, 'a second value is refused, anything else accepted')
                if want:
                    own_f[i][n] = v
        for i in range(ncls):
            h.eq(as_dict(get_tags(classes[i])), seen(i), 'tags of a class', cls=i)
        for i in range(len(funcs)):
            h.eq(as_dict(get_tags(funcs[i])), own_f[i], 'tags of a function', func=i)


def gen_suite(r):
    """source of a file with tagged tests, the expected tags per address"""
    names = ['t%d' % k for k in range(5)]
    uniq = itertools.count()

    def some(k=2):
        # unique values per name avoid conflicts unless wanted
        return [(r.choice(names) + '_%d' % next(uniq), r.choice([None, '1', 'x'])) for _ in range(r.randrange(k + 1))]

    def deco(tags):
        return ''.join('@slash.tag(%r%s)\n' % (n, '' if v is None else ', %r' % v) for n, v in tags)
    src = ['import slash\n']
    fixtures = {}
    for i in range(r.randrange(0, 4)):
        own = some()
        uses = [f for f in fixtures if r.random() < .4]
        src.append('%s@slash.fixture\ndef fx%d(%s):\n    return %d\n' % (deco(own), i, ', '.join(uses), i))
        t = dict(own)
        for f in uses:
            t.update(fixtures[f])
        fixtures['fx%d' % i] = t
    want = []          # multiset of (function name, tags)

    def params():
        """-> decorators, argument names, list of tags per variation"""
        decs, args, var = [], [], [{}]
        for k in range(r.choice([0, 0, 1, 1, 2])):
            vals, tagsets = [], []
            for j in range(r.randrange(1, 4)):
                form = r.randrange(4)
                tg = dict(some(1)) if form else {}
                if not tg:
                    vals.append(repr(j))
                elif form == 1:
                    vals.append('slash.param("l%d", %d, tags=[%s])' % (j, j, ', '.join(repr((n, v)) if v is not None else repr(n) for n, v in tg.items())))
                elif form == 2:
                    vals.append('%d // slash.param("l%d", tags=%s)' % (j, j, [(n, v) if v is not None else n for n, v in tg.items()]))
                else:
                    (n, v) = list(tg.items())[0]
                    tg = {n: v}
                    vals.append('%d // slash.tag(%r%s)' % (j, n, '' if v is None else ', %r' % v))
                tagsets.append(tg)
            decs.append('@slash.parametrize("p%d", [%s])\n' % (k, ', '.join(vals)))
            args.append('p%d' % k)
            var = [dict(list(a.items()) + list(b.items())) for a in var for b in tagsets]
        return ''.join(decs), args, var

    for i in range(r.randrange(1, 4)):
        own = some()
        uses = [f for f in fixtures if r.random() < .4]
        decs, args, var = params()
        src.append('%s%sdef test_f%d(%s):\n    pass\n' % (deco(own), decs, i, ', '.join(args + uses)))
        for v in var:
            t = dict(own)
            t.update(v)
            for f in uses:
                t.update(fixtures[f])
            want.append(('test_f%d' % i, t))
    if r.random() < .3:
        own = some()
        src.append('%s@slash.nofixtures\ndef test_nf():\n    pass\n' % deco(own))
        want.append(('test_nf', dict(own)))
        src.append('class CNF(slash.Test):\n%s    @slash.nofixtures\n    def test_m(self):\n        pass\n' % ''.join('    ' + l + '\n' for l in deco(own).splitlines()))
        want.append(('CNF.test_m', dict(own)))
    classes = {}
    for c in range(r.randrange(0, 3)):
        own = some()
        base = r.choice([None] + list(classes))
        eff = dict(classes[base][0]) if base else {}
        eff.update(own)
        meths = dict(classes[base][1]) if base else {}
        body = []
        for m in range(r.randrange(0, 3)):
            mown = some()
            uses = [f for f in fixtures if r.random() < .3]
            decs, args, var = params()
            name = 'test_%d' % m
            body.append(''.join('    ' + l + '\n' for l in ('%s%sdef %s(%s):\n    pass' % (deco(mown), decs, name, ', '.join(['self'] + args + uses))).splitlines()))
            meths[name] = (dict(mown), var, uses)
        src.append('%sclass C%d(%s):\n%s    pass\n' % (deco(own), c, base or 'slash.Test', ''.join(body)))
        classes['C%d' % c] = (eff, meths)
    for c, (eff, meths) in classes.items():
        for name, (mown, var, uses) in meths.items():
            for v in var:
                t = dict(eff)
                t.update(mown)
                t.update(v)
                for f in uses:
                    t.update(fixtures[f])
                want.append(('%s.%s' % (c, name), t))
    return ''.join(src), want


def metadata(h):
    """the tags of every loaded test are those of its class, function, parameter values and fixtures"""
    ensure_slash()

    def load(src):
        import slash, os
        from slash.loader import Loader
        from sentinels import NOTHING
        with open('tags_of_test.py', 'w') as f:
            f.write(src)
        with slash.Session() as s:
            with s.get_started_context():
                tests = Loader().get_runnables(['tags_of_test.py'])
                out = []
                for t in tests:
                    md = t.__slash__
                    addr = md.address_in_file
                    name = addr.split('(')[0].rstrip('.')
                    one = {n: (None if md.tags[n] is NOTHING else md.tags[n]) for n in md.tags}
                    two = {n: (None if t.get_tags()[n] is NOTHING else t.get_tags()[n]) for n in t.get_tags()}
                    out.append((name, one, two))
                return out
    for _ in range(h.scale(120, 1500)):
        src, want = gen_suite(h.rng)
        if not h.go(src):
            continue
        got = forked(lambda: load(src))
        key = lambda x: (x[0], sorted((k, str(v)) for k, v in x[1].items()))
        h.eq(sorted([(n.replace(')', ''), a) for n, a, b in got], key=key), sorted(want, key=key), 'tags of loaded tests', src=src)
        for n, a, b in got:
            h.eq(a, b, 'metadata and test agree on the tags')


def conflicts_at_load(h):
    """different values of one tag from class, method, parameter and fixture are refused; equal ones are not"""
    ensure_slash()
    places = ['cls', 'meth', 'param', 'fixture', 'fixture2']
    for a, b in itertools.combinations(places, 2):
        for same in (True, False):
            if not h.go((a, b, same)):
                continue
            tg = {p: '' for p in places}
            tg[a], tg[b] = "@slash.tag('k', 1)\n", "@slash.tag('k', %d)\n" % (1 if same else 2)
            pv = {'': '1'}.get(tg['param'], "1 // slash.tag('k', %d)" % (1 if (same or a == 'param') else 2))
            src = 'import slash\n%s@slash.fixture\ndef fx():\n    pass\n%s@slash.fixture\ndef fx2(fx):\n    pass\n%sclass TestC(slash.Test):\n%s    @slash.parametrize("p", [%s])\n    def test_m(self, p, fx2):\n        pass\n' % (
                tg['fixture'], tg['fixture2'], tg['cls'], ('    ' + tg['meth']) if tg['meth'] else '', pv)
            o = slash_run(['x.py'], files={'x.py': src})
            if same:
                h.eq((o.exit_code, len(o.results)), (0, 1), 'equal values are accepted', out=o.output)
            else:
                h.check(o.exit_code != 0 and not any(r['started'] for r in o.results), 'two values of one tag are refused', out=o.output)


CHECKS = [laws, patterns, tagging, metadata, conflicts_at_load]
