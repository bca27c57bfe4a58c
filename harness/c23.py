"""C23: look-ahead iteration and helpers."""
import itertools
from .base import forked, ensure_slash, slash_run

VALS = [None, 0, '', False, (), 1, 'a', StopIteration, NotImplemented]


def make(kind, items):
    if kind == 'list':
        return list(items)
    if kind == 'tuple':
        return tuple(items)
    if kind == 'iter':
        return iter(list(items))
    if kind == 'gen':
        return (x for x in list(items))

    class Old(object):
        def __getitem__(self, i):
            return items[i]
    return Old()


def history(items, kind, ops):
    """-> problems"""
    from slash.utils.iteration import PeekableIterator
    it = PeekableIterator(make(kind, items))
    pos = 0
    for k, op in enumerate(ops):
        more = pos < len(items)
        try:
            if op == 'next':
                got = ('v', next(it))
            elif op == 'next_m':
                got = ('v', it.next())
            elif op == 'default':
                got = ('v', next(it, 'the default'))
            elif op == 'peek':
                got = ('v', it.peek())
            elif op == 'has':
                got = ('v', it.has_next())
            elif op == 'pon':
                got = ('v', it.peek_or_none())
            elif op == 'for':
                for x in it:
                    got = ('v', x)
                    break
                else:
                    got = ('v', 'exhausted')
            elif op == 'rest':
                got = ('v', list(it))
        except StopIteration:
            got = ('stop',)
        if op == 'has':
            want = ('v', more)
        elif op == 'pon':
            want = ('v', items[pos] if more else None)
        elif op == 'default':
            want = ('v', items[pos] if more else 'the default')
        elif op == 'for':
            want = ('v', items[pos] if more else 'exhausted')
        elif op == 'rest':
            want = ('v', list(items[pos:]))
        else:
            want = ('v', items[pos]) if more else ('stop',)
        if got != want or (want[0] == 'v' and got[1] is not want[1] and op != 'rest'):
            return 'operation %d (%s) gave %r, expected %r' % (k, op, got, want)
        if op in ('next', 'next_m', 'default', 'for') and more:
            pos += 1
        if op == 'rest':
            pos = len(items)
    return None


OPS = ['next', 'peek', 'has', 'pon', 'next_m', 'default', 'for']


def exhaustive(h):
    """all interleavings of up to 5 operations over sequences of up to 2 items"""
    ensure_slash()
    seqs = [[], [None], [0], [None, 'a'], ['a', None], [False, 0]]
    for items in seqs:
        for n in range(0, h.scale(5, 6)):
            for ops in itertools.product(['next', 'peek', 'has', 'pon'], repeat=n):
                if h.go((items, ops)):
                    p = history(items, 'list', ops)
                    h.check(p is None, 'look-ahead', p)


def random_histories(h):
    """random operation histories over sequences with falsy and None items, any kind of iterable"""
    ensure_slash()
    r = h.rng
    for _ in range(h.scale(4000, 60000)):
        items = [r.choice(VALS) for _ in range(r.choice([0, 1, 2, 3, 8]))]
        kind = r.choice(['list', 'tuple', 'iter', 'gen', 'old'])
        w = r.choice([OPS, ['peek', 'next'], ['has', 'next', 'peek']])
        ops = [r.choice(w) for _ in range(r.randrange(0, 24))] + ['rest', r.choice(OPS), r.choice(OPS)]
        if h.go((items, kind, ops)):
            p = history(items, kind, ops)
            h.check(p is None, 'look-ahead', p)


def lazy(h):
    """the source is advanced at most one item beyond what was yielded, and an infinite one can be iterated"""
    ensure_slash()
    from slash.utils.iteration import PeekableIterator
    r = h.rng
    for _ in range(h.scale(200, 2000)):
        ops = [r.choice(['next', 'peek', 'has']) for _ in range(12)]
        if not h.go(ops):
            continue
        taken = []
        it = PeekableIterator(taken.append(i) or i for i in itertools.count())
        out = []
        for op in ops:
            if op == 'next':
                out.append(next(it))
            else:
                getattr(it, 'peek' if op == 'peek' else 'has_next')()
            h.check(len(taken) <= len(out) + 1, 'nothing is taken beyond the item looked at', (len(taken), len(out)))
        h.eq(out, list(range(len(out))), 'items in order')

    class Boom(Exception):
        pass

    def src():
        yield 1
        raise Boom()
    for op in ('peek', 'has_next', 'next', 'peek_or_none'):
        if h.go(('raising source', op)):
            it = PeekableIterator(src())
            h.eq(next(it), 1, 'first item')
            try:
                getattr(it, op)()
                h.fail('an error of the source is hidden', op)
            except Boom:
                pass


def iterations(h):
    """iteration(): elements, counters, first/last flags and totals"""
    ensure_slash()
    from slash.utils.iteration import iteration
    r = h.rng
    for n in range(0, h.scale(12, 60)):
        for kind in ('list', 'tuple', 'iter', 'gen', 'str', 'dict', 'range', 'set'):
            items = [r.choice(VALS) for _ in range(n)]
            if not h.go((kind, n)):
                continue
            if kind == 'str':
                items = [chr(97 + i % 26) for i in range(n)]
                src = ''.join(items)
            elif kind == 'dict':
                items = list(range(n))
                src = dict.fromkeys(items)
            elif kind == 'range':
                items = list(range(n))
                src = range(n)
            elif kind == 'set':
                src = set(range(n))
                items = list(src)
            else:
                src = make(kind, items)
            sized = kind not in ('iter', 'gen')
            out = list(iteration(src))
            h.eq(len(out), n, 'one iteration per item')
            for i, x in enumerate(out):
                h.check(x.element is items[i], 'element', (i, x.element))
                h.eq((x.counter0, x.counter1, x.first), (i, i + 1, i == 0), 'counters and first flag')
                info, el = x
                h.check(info is x and el is items[i], 'unpacking', (info, el))
                if sized:
                    h.eq((x.last, x.total, x.last_counter0, x.last_counter1), (i == n - 1, n, n - 1, n), 'last flag and totals')
                else:
                    try:
                        x.last
                        h.fail('last flag claimed for an unsized iterable', kind)
                    except NotImplementedError:
                        pass
                    h.eq((x.total, x.last_counter0, x.last_counter1), (None,) * 3, 'no totals for an unsized iterable')


def cartesian(h):
    """iter_cartesian_dicts yields every combination once"""
    ensure_slash()
    from slash.utils.iteration import iter_cartesian_dicts
    r = h.rng
    for _ in range(h.scale(300, 3000)):
        names = r.sample(['a', 'b', 'c', 'd', 'z'], r.randrange(0, 5))
        d = {k: [r.choice([None, 0, 1, 'x', False]) for _ in range(r.choice([0, 1, 2, 3]))] for k in names}
        if not h.go(d):
            continue
        want = [{}]
        for k in names:
            want = [dict(list(w.items()) + [(k, v)]) for w in want for v in d[k]]
        got = list(iter_cartesian_dicts(d))
        key = lambda x: sorted((k, str(v)) for k, v in x.items())
        h.eq(sorted(got, key=key), sorted(want, key=key), 'all combinations')
        h.eq(got, want, 'in order')


def ids(h):
    """ids never repeat; all results of a session have distinct ids and consecutive indexes"""
    ensure_slash()
    from slash.utils.id_space import IDSpace
    for base in ('x', 'x_', '', 'session_1'):
        if h.go(base):
            s = IDSpace(base)
            got = [s.allocate() for _ in range(h.scale(500, 5000))]
            h.eq(len(set(got)), len(got), 'ids repeat')
            h.check(all(g.startswith(base) for g in got), 'ids start with their base', got[:3])
    r = h.rng
    for _ in range(h.scale(12, 100)):
        n, m, rep = r.randrange(1, 4), r.randrange(1, 3), r.choice([1, 1, 2, 3])
        files = {'test_%d.py' % i: 'import slash\n' + ''.join('def test_%d():\n    %s\n' % (j, r.choice(['pass', 'assert 0', 'slash.skip_test()'])) for j in range(m)) for i in range(n)}
        ext = ['--repeat-all', str(rep)]
        if not h.go((files, ext)):
            continue
        o = slash_run(ext + sorted(files), files=files)
        h.eq(len(o.results), n * m * rep, 'one result per test')
        i = [x['id'] for x in o.results]
        h.check(len(set(i)) == len(i) and None not in i, 'test ids repeat', i)
        h.eq([x['index0'] for x in o.results], list(range(len(i))), 'indexes')


CHECKS = [exhaustive, random_histories, lazy, iterations, cartesian, ids]
