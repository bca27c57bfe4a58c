"""C11: filter expressions."""
import itertools
from .base import forked, ensure_slash, slash_run

WORDS = ['a', 'b', 'foo', 'bar', 'test_x', 'x.py', 'dir/a', 'n=1', 'android', 'order', 'nothing', 'nota', 'x:y', '1', '-a', 'a,b', 'tag', 'A', '_', 'f.test', 'tag_foo', 'or_a', 'and1']
NAMES = ['foo', 'bar', 'foobar', 'tag_foo', 'a', 'n', 'f.o', '1', 'x-y']
TAGVALS = [None, 1, '1', 'v', 'val', True, '', 0, 'a=b']
NOVAL = None


def gen(r, depth):
    k = r.random()
    if depth == 0 or k < .25:
        w = r.random()
        if w < .6:
            return ('word', r.choice(WORDS))
        if w < .8:
            return ('tag', r.choice(NAMES), r.choice(['', ' ', '   ']))
        return ('tagv', r.choice(NAMES), r.choice(['1', 'v', 'val', 'True', 'None', 'x', '0']), r.choice(['', ' ']))
    if k < .5:
        return ('not', gen(r, depth - 1))
    return (r.choice(['and', 'or']),) + tuple(gen(r, depth - 1) for _ in range(r.choice([2, 2, 2, 3, 4])))


PREC = {'or': 0, 'and': 1, 'not': 2}


def render(r, e, ctx=0):
    op = e[0]
    if op == 'word':
        s, p = e[1], 3
    elif op == 'tag':
        s, p = 'tag:%s%s' % (e[2], e[1]), 3
    elif op == 'tagv':
        s, p = 'tag:%s%s=%s' % (e[3], e[1], e[2]), 3
    elif op == 'not':
        s, p = 'not ' + r.choice(['', ' ']) + render(r, e[1], 2), 2
    else:
        p = PREC[op]
        s = (' ' + r.choice(['', ' ']) + op + ' ').join(render(r, x, p + 1) for x in e[1:])
    if p < ctx or r.random() < .15:
        s = r.choice(['(%s)', '( %s )']) % s
    return s


def holds(e, address, tags):
    op = e[0]
    if op == 'word':
        w = e[1]
        if '=' in w:
            k, v = w.split('=', 1)
            return w in address or (k in tags and tags[k] != '<no value>' and str(tags[k]) == v)
        return w in address or any(w in k for k in tags)
    if op == 'tag':
        return e[1] in tags
    if op == 'tagv':
        return e[1] in tags and tags[e[1]] != '<no value>' and str(tags[e[1]]) == e[2]
    if op == 'not':
        return not holds(e[1], address, tags)
    return (all if op == 'and' else any)([holds(x, address, tags) for x in e[1:]])


ADDR = ['dir/a.py:test_x', 'foo.py:test_bar(n=1)', 'x.py:android', 'a/b/c.py:Order.test_nothing', 'test_1.py:test_x(x:y)', 'f.py:T.test_a,b', '', 'A.py:test-a', 'tag.py:nota']


class MD(object):
    def __init__(self, address, tags):
        self.address, self.tags = address, tags


def make_tags(d):
    from slash.core.tagging import Tags, NO_TAGS
    from sentinels import NOTHING
    if not d:
        return NO_TAGS
    t = Tags()
    for k, v in d.items():
        t[k] = NOTHING if v == '<no value>' else v
    return t


def expressions(h):
    """random expressions over addresses and tags against their boolean meaning; repeated and interleaved evaluation"""
    ensure_slash()
    from slash.utils.pattern_matching import Matcher
    r = h.rng
    for _ in range(h.scale(500, 8000)):
        e = gen(r, r.choice([0, 1, 2, 3, 4]))
        text = render(r, e)
        mds = [(r.choice(ADDR), {r.choice(NAMES): r.choice(TAGVALS + ['<no value>']) for _ in range(r.choice([0, 1, 2, 3]))}) for _ in range(4)]
        if not h.go((text, mds)):
            continue
        m = Matcher(text)
        objs = [MD(a, make_tags(t)) for a, t in mds]
        before = [(o.address, [(k, o.tags.get(k)) for k in o.tags] if mds[i][1] else None) for i, o in enumerate(objs)]
        for i in r.sample(range(4), 4) + [r.randrange(4) for _ in range(2)]:
            h.eq(bool(m.matches(objs[i])), holds(e, *mds[i]), 'selection', text, address=mds[i][0], tags=mds[i][1])
        h.eq(bool(m.matches('just/a/string foo')), holds_str(e, 'just/a/string foo'), 'matching a plain string', text)
        after = [(o.address, [(k, o.tags.get(k)) for k in o.tags] if mds[i][1] else None) for i, o in enumerate(objs)]
        h.eq(after, before, 'evaluation has a side effect')


def holds_str(e, s):
    op = e[0]
    if op == 'word':
        return e[1] in s
    if op == 'tag':
        return e[1] in s
    if op == 'tagv':
        return (e[1] + '=' + e[2]) in s
    if op == 'not':
        return not holds_str(e[1], s)
    return (all if op == 'and' else any)([holds_str(x, s) for x in e[1:]])


def small_expressions(h):
    """every expression of two operators over three words, every truth assignment"""
    ensure_slash()
    from slash.utils.pattern_matching import Matcher
    words = ['pa', 'qb', 'rc']
    for op1, op2 in itertools.product(['and', 'or'], repeat=2):
        for n in itertools.product(['', 'not '], repeat=3):
            for par in (0, 1, 2, 3, 4):
                t = [n[i] + words[i] for i in range(3)]
                text = ['%s %s %s %s %s', '(%s %s %s) %s %s', '%s %s (%s %s %s)', 'not (%s %s %s) %s %s', '%s %s not (%s %s %s)'][par] % (t[0], op1, t[1], op2, t[2])
                if not h.go(text):
                    continue
                m = Matcher(text)
                for vals in itertools.product([False, True], repeat=3):
                    address = ' '.join(w for w, v in zip(words, vals) if v)
                    want = eval(text, {}, dict(zip(words, vals)))
                    h.eq(bool(m.matches(MD(address, make_tags({})))), want, 'boolean meaning', text, address=address)


def selection(h):
    """whole runs with -k filters (one or several) and suite file filters select exactly the tests satisfying them"""
    ensure_slash()
    r = h.rng
    for _ in range(h.scale(40, 400)):
        files, tests = {}, []
        for i in range(r.randrange(1, 4)):
            fn = r.choice(['foo', 'bar', 'dir_a', 'x'])+'%d.py' % i
            src = 'import slash\n'
            for j in range(r.randrange(1, 5)):
                tags = {r.choice(NAMES): r.choice([1, 'v', '<no value>', 'val', True]) for _ in range(r.choice([0, 0, 1, 2]))}
                name = 'test_%s%d' % (r.choice(['a', 'foo', 'nothing', 'order', 'B']), j)
                par = r.random() < .3
                src += ''.join('@slash.tag(%r%s)\n' % (k, '' if v == '<no value>' else ', %r' % v) for k, v in tags.items())
                src += ('@slash.parametrize("n", [1, 2])\ndef %s(n):\n    pass\n' if par else 'def %s():\n    pass\n') % name
                for p in ([1, 2] if par else [None]):
                    tests.append((fn, name, tags, p))
            files[fn] = src
        es = [gen(r, r.choice([0, 1, 2])) for _ in range(r.choice([1, 1, 2, 3]))]
        texts = [render(r, e) for e in es]
        sf = r.random() < .3
        se = gen(r, r.choice([0, 1, 2])) if sf else None
        st = render(r, se) if sf else None
        if st and ',' in st:       # the comma separates the remarks of a suite file line
            continue
        if not h.go((files, texts, st)):
            continue

        argv = []
        for t in texts:
            argv += ['-k', t] if not t.startswith('-') else ['-k=' + t]
        fs = dict(files)
        if sf:
            fs['suite'] = ''.join('%s  # filter: %s\n' % (f, st) for f in sorted(files))
            argv += ['-f', 'suite']
        else:
            argv += sorted(files)
        # the address of every test, from an unfiltered run
        def run():
            from .base import slash_main
            allrun = slash_main(sorted(files), files=fs)
            o = slash_main(argv)
            return [x['address'] for x in allrun.results], [x['address'] for x in o.results], o.exit_code, o.output
        alladdr, got, code, out = forked(run)
        h.eq(len(alladdr), len(tests), 'all tests run without a filter')
        def tags_of(a):
            for fn, name, tags, p in tests:
                if ('/' + a).split(':')[0].endswith('/' + fn) and a.split(':')[1].split('(')[0] == name:
                    return tags
            raise KeyError(a)
        want = [a for a in alladdr if all(holds(e, a, tags_of(a)) for e in es) and (se is None or holds(se, a, tags_of(a)))]
        h.eq(got, want, 'selected tests', '%r %r' % (texts, st), output=out[-300:], code=code)


CHECKS = [small_expressions, expressions, selection]
