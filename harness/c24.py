"""C24: details and facts."""
from .base import forked, ensure_slash, slash_run

KEYS = ['a', 'b', 'key with spaces', '', 1, None, ('t', 1), 0, False, 'copy', '__class__', u'\u05d0']
VALS = [None, 0, '', 'x', [], [1], (1,), {'k': 1}, 3.5, False]


class Refused(Exception):
    pass


def random_histories(h):
    """random set/append/read histories on one or several Details objects, with and without an observer (possibly raising)"""
    ensure_slash()
    from slash.core.details import Details
    r = h.rng
    for _ in range(h.scale(3000, 40000)):
        nobj = r.choice([1, 2, 2])
        observer = [r.choice(['none', 'record', 'raises']) for _ in range(nobj)]
        ops = []
        for _ in range(r.randrange(1, 20)):
            ops.append((r.choice(['set', 'append', 'append', 'all', 'in', 'bool', 'alter view']), r.randrange(nobj), r.choice(KEYS[:r.choice([2, 12])]), r.randrange(len(VALS))))
        if not h.go((observer, ops)):
            continue
        told = [[] for _ in range(nobj)]
        boom = [False]

        def cb(i):
            def f(key, value):
                told[i].append((key, list(value) if isinstance(value, list) else value))
                if boom[0]:
                    raise Refused()
            return f if observer[i] != 'none' else None
        ds = []
        for i in range(nobj):
            ds.append(Details(cb(i)) if observer[i] != 'none' else (Details() if r.random() < .5 else Details(set_callback=None)))
        model, want = [{} for _ in range(nobj)], [[] for _ in range(nobj)]
        for op, i, k, vi in ops:
            v = VALS[vi]
            v = list(v) if isinstance(v, list) else v
            d, m = ds[i], model[i]
            boom[0] = observer[i] == 'raises' and r.random() < .2
            obs = observer[i] != 'none'
            try:
                if op == 'set':
                    if obs:
                        want[i].append((k, list(v) if isinstance(v, list) else v))
                    if not boom[0]:
                        m[k] = list(v) if isinstance(v, list) else v
                    err = None
                    d.set(k, v)
                elif op == 'append':
                    if k in m and not isinstance(m[k], list):
                        try:
                            d.append(k, v)
                            h.fail('appending to something that is not a list is accepted', (k, m[k]))
                        except TypeError:
                            pass
                    else:
                        m[k] = (m[k] if k in m else []) + [v]
                        if obs:
                            want[i].append((k, list(m[k])))
                        d.append(k, v)
                elif op == 'all':
                    h.eq(d.all(), m, 'content')
                elif op == 'in':
                    h.eq(k in d, k in m, 'membership')
                elif op == 'bool':
                    h.eq(bool(d), bool(m), 'truth')
                elif op == 'alter view':
                    view = d.all()
                    view[k] = 'altered'
                    view['another'] = 1
                    view.pop('a', None)
            except Refused:
                pass
            for j in range(nobj):
                got = ds[j].all()
                h.check(got == model[j] and list(got) == list(model[j]) and all(type(got[x]) is type(model[j][x]) for x in got),
                        'content', (j, got, model[j]), op=(op, i, k, v))
                h.eq(told[j], want[j], 'what the observer was told', j)


def appended_lists(h):
    """the list made by append is new: later appends to one key or object never show in another"""
    ensure_slash()
    from slash.core.details import Details
    r = h.rng
    for _ in range(h.scale(300, 3000)):
        seq = [(r.randrange(3), r.choice('abc'), r.randrange(100)) for _ in range(r.randrange(2, 15))]
        if not h.go(seq):
            continue
        ds = [Details() for _ in range(3)]
        m = [{} for _ in range(3)]
        for i, k, v in seq:
            ds[i].append(k, v)
            m[i].setdefault(k, []).append(v)
            h.eq([d.all() for d in ds], m, 'content')


def results(h):
    """details and facts of the results of a session are separate; a fact triggers fact_set once with name and value; set_test_detail reaches the current result"""
    ensure_slash()
    r = h.rng
    for _ in range(h.scale(25, 200)):
        n = r.randrange(1, 5)
        src, want, facts = 'import slash\n', [], []
        for t in range(n):
            det, fac, body, hist = {}, {}, [], []
            for _ in range(r.randrange(0, 7)):
                k, v = r.choice('abc'), r.choice([None, 0, 1, 'x', [1, 2], ''])
                kind = r.choice(['std', 'det', 'app', 'fact', 'factapp'])
                if kind in ('app', 'factapp'):
                    d = det if kind == 'app' else fac
                    if k in d and not isinstance(d[k], list):
                        continue
                    d[k] = list(d.get(k, [])) + [v]
                    body.append('slash.context.result.%s.append(%r, %r)' % ('details' if kind == 'app' else 'facts', k, v))
                    if kind == 'factapp':
                        facts.append((k, str(d[k]), t))
                elif kind == 'fact':
                    fac[k] = v
                    body.append('slash.context.result.facts.set(%r, %r)' % (k, v))
                    facts.append((k, str(v), t))
                else:
                    det[k] = v
                    body.append(('slash.set_test_detail(%r, %r)' if kind == 'std' else 'slash.context.result.details.set(%r, %r)') % (k, v))
            end = r.choice(['pass', 'pass', 'assert 0', 'slash.skip_test()'])
            src += 'def test_%d():\n    %s\n' % (t, '\n    '.join(body + [end]))
            want.append((det, fac))
        if not h.go(src):
            continue
        src = 'import gossip, vrec\n@gossip.register("slash.fact_set")\ndef _fs(name, value):\n    vrec.ev("fact", name, str(value), slash.context.result.test_metadata.test_index0)\n' + src
        src = src.replace('import gossip, vrec\n', 'import gossip, vrec, slash\n')
        o = slash_run(['test_d.py'], files={'test_d.py': src})
        h.eq([(x['details'], x['facts']) for x in o.results], want, 'details and facts of each result', o.output[-500:])
        h.eq([e[1:] for e in o.events if e[0] == 'fact'], facts, 'fact_set notifications')


def outside_tests(h):
    """details set outside a test go to the global result or are refused; separate sessions share nothing"""
    slash = ensure_slash()
    if h.go('sessions'):
        with slash.Session() as s:
            with s.get_started_context():
                s.results.global_result.details.set('a', 1)
                s.results.global_result.facts.set('b', 1)
        with slash.Session() as s2:
            with s2.get_started_context():
                h.eq((s2.results.global_result.details.all(), s2.results.global_result.facts.all()), ({}, {}), 'a new session starts without details')
                h.check(not s2.results.global_result.details and 'a' not in s2.results.global_result.details, 'empty')


CHECKS = [random_histories, appended_lists, results, outside_tests]
