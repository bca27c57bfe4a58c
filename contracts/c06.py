"""C06: the runner: one result per test in order, pairing of notifications, stop rule, completion."""
from .common import *
from . import c23
from .c23 import head, tail, one

R = 'slash/runner.py::'
CTX = V.o(z3.Int('CTX'))
skip_types = z3.Function('skip_types_of_session', V, V)
FIELDS = ('test', 'test_id', 'result', 'test_classname', 'test_methodname')
WORKER = cfg('parallel.worker_id')
first = lambda e: head(V.tv(e))
second = lambda e: head(tail(V.tv(e)))
START, END, AVOID, BODY = [event(x) for x in ('hook test_start', 'hook test_end', 'avoided', 'body')]

# tests a result was made for, in order
created = T.fold('results_made_for', L, lambda: nil, lambda r, x, l: If(And(V.is_t(x), first(x) == event('result of')), L.snoc(r, second(x)), r))


def step(r, x):
    k = first(x)
    t = V.is_t(x)
    return If(Not(t), r, If(r == 9, z3.IntVal(9),
              If(k == START, If(r == 0, z3.IntVal(1), z3.IntVal(9)),
              If(k == END, If(r == 1, z3.IntVal(0), z3.IntVal(9)),
              If(Or(k == BODY, k == AVOID), If(r == If(k == BODY, z3.IntVal(1), z3.IntVal(0)), r, z3.IntVal(9)), r)))))


# 0: between tests, 1: within a started test, 9: a notification out of place
nesting = T.fold('nesting', Int, lambda: z3.IntVal(0), lambda r, x, l: step(r, x))
# the verdict on the last test: 0 go on, 1 stop; 2: the session is marked complete
verdict = T.fold('verdict', Int, lambda: z3.IntVal(0), lambda r, x, l: If(Not(V.is_t(x)), r, If(first(x) == event('single'), z3.IntVal(0),
                 If(And(first(x) == event('fatal?'), V.bv(second(x))), z3.IntVal(1), If(And(first(x) == event('ok?'), Not(V.bv(second(x)))), z3.IntVal(1), r)))))
completed = T.fold('completed', Int, lambda: z3.IntVal(0), lambda r, x, l: If(And(V.is_t(x), first(x) == event('complete')), r + 1, r))


def silent(ex, st, recv, meth, a, kw, exc):
    yield st, NONEV


def theory():
    if 'lemma app.shift' not in [n for n, _ in T.axioms]:
        T.lemma('app.shift', (L, V), lambda a, x, l: app(L.snoc(a, x), l) == app(a, app(one(x), l)), lambda a, x, l: [app(L.snoc(a, x), l)])
        T.lemma('prefix.app', (L,), lambda a, b: T_.prefix(a, app(a, b)), lambda a, b: [T_.prefix(a, app(a, b))])
        T.lemma('prefix.next', (L, V), lambda a, x, l: T_.prefix(L.snoc(a, x), app(a, app(one(x), l))), lambda a, x, l: [T_.prefix(L.snoc(a, x), app(a, app(one(x), l)))])
        T.lemma('prefix.mono', (L, L), lambda a, p, q: Implies(T_.prefix(p, q), T_.prefix(app(a, p), app(a, q))), lambda a, p, q: [T_.prefix(app(a, p), app(a, q))])


theory()


def raising(ex, st, exc, what):
    bad = st.fork()
    e = Sym(fresh(what, V), EXC)
    bad.assume(ex.type_facts(e.term, EXC, bad))
    exc.append((bad, e))


def registry():
    reg = c23.registry()
    reg.fields.update({('PeekableIterator', '_iterator'): 'obj:SourceIterator',
                       ('Session', 'started'): 'bool', ('Session', 'results'): 'obj:Results', ('Session', 'reporter'): 'obj:Reporter', ('Session', 'cleanups'): 'obj:Cleanups',
                       ('Session', 'scope_manager'): 'obj:Scopes', ('Session', 'test_index_counter'): 'obj:Counter', ('Session', 'current_parallel_test_index'): 'any',
                       ('Test', '__slash__'): 'obj:Metadata', ('Metadata', 'test_index0'): 'opt[int]', ('Metadata', 'test_index1'): 'any', ('Metadata', 'file_path'): 'str', ('Counter', 'next'): 'int',
                       ('TestStartEndController', '_result'): 'opt[obj:Result]', ('TestStartEndController', '_prev_result'): 'opt[obj:Result]', ('TestStartEndController', '_started'): 'bool'})
    reg.merge_paths = True
    reg.iterator_classes = ('PeekableIterator',)
    config_leaf(reg, 'parallel.worker_id', 'any')
    config_leaf(reg, 'run.stop_on_error', 'bool')
    config_leaf(reg, 'run.dump_variation', 'bool')
    config_leaf(reg, 'log.show_raw_param_values', 'any')
    install_handling(reg, quiet=True)
    reg.ext_methods[('Reporter', '*')] = silent
    reg.any_seq = z3.Function('elements_of', V, L)

    def meth(cls, name, ev=None, may_raise=True, ret=None, before=True):
        def h(ex, st, recv, a, kw, exc):
            st = st.fork()
            if ev and before:
                ex.emit(st, event(ev), *[ex.to_v(x) for x in a.items])
            if may_raise:
                raising(ex, st, exc, name + '_exc')
            if ret is None:
                yield st, NONEV
            else:
                r = Sym(fresh(name, V), ret)
                st.assume(ex.type_facts(r.term, ty(ret), st))
                if ev and not before:
                    ex.emit(st, event(ev), r.term)
                yield st, r
        reg.ext_methods[(cls, name)] = h
    meth('Result', 'mark_started', None, False)
    meth('Result', 'mark_finished', None, False)
    meth('Result', 'has_fatal_exception', 'fatal?', False, 'bool', False)
    meth('Results', 'is_success', 'ok?', False, 'bool', False)
    meth('Results', 'get_num_skipped', None, False, 'int')
    meth('Scopes', 'begin_test')
    meth('Scopes', 'end_test')
    meth('Test', 'run', 'body')
    meth('Metadata', 'get_address', None, True, 'str')
    meth('Session', 'initiate_cleanup')
    meth('Session', 'mark_complete', 'complete', False)

    def get_result(ex, st, recv, a, kw, exc):
        st = st.fork()
        raising(ex, st, exc, 'no_result')
        r = Sym(fresh('result', V), 'obj:Result')
        st.assume(ex.type_facts(r.term, ty('obj:Result'), st))
        yield st, r
    reg.ext_methods[('Results', '__getitem__')] = get_result

    def skips(ex, st, recv, a, kw, exc):
        yield st, Sym(skip_types(ex.to_v(recv)), ANY)
    reg.ext_methods[('Session', 'get_skip_exception_types')] = skips

    def plain_cm(ex, st, args, kw, run):
        return run(st, NONEV)
    plain_cm.model_name = 'CleanupManager.forbid_implicit_scoping_context'

    def forbid(ex, st, recv, a, kw, exc):
        yield st, CMExt(plain_cm, a, kw)
    reg.ext_methods[('Cleanups', 'forbid_implicit_scoping_context')] = forbid

    def suppress_cm(ex, st, args, kw, run):
        """contextlib.suppress: exceptions of the given types end the block normally"""
        outs = []
        for st1, kind, val in run(st, NONEV):
            if kind != 'raise':
                outs.append((st1, kind, val))
                continue
            p, q = ex.branch(st1, isin(val.term, skip_types(ex.hget(st1, 'f:session', V.ov(CTX)))))
            if p is not None:
                outs.append((p, 'next', None))
            if q is not None:
                outs.append((q, 'raise', val))
        return outs
    suppress_cm.model_name = 'contextlib.suppress'

    def suppress(ex, st, a, kw, exc):
        yield st, CMExt(suppress_cm, a, kw)
    reg.ext_models['contextlib.suppress'] = suppress

    def stack_cm(ex, st, args, kw, run):
        """contextlib.ExitStack: what was entered is left at the end; the context of a test restores test, result and session (C21)"""
        outs = []
        st = st.fork()
        es = ex.new_obj(st, 'ExitStack')
        c = V.ov(CTX)
        before = {n: ex.hget(st, 'f:' + n, c) for n in ('test', 'test_id', 'result')}
        for st1, kind, val in run(st, es):
            st1 = st1.fork()
            for n, v in before.items():
                ex.hset(st1, 'f:' + n, c, v)
            outs.append((st1, kind, val))
            bad = st1.fork()
            e = Sym(fresh('exit_exc', V), EXC)
            bad.assume(ex.type_facts(e.term, EXC, bad))
            outs.append((bad, 'raise', e))
        return outs
    stack_cm.model_name = 'contextlib.ExitStack'

    def exit_stack(ex, st, a, kw, exc):
        yield st, CMExt(stack_cm, a, kw)
    reg.ext_models['contextlib.ExitStack'] = exit_stack

    def enter(ex, st, recv, a, kw, exc):
        # _get_test_context (contract proved under C21): a result is made for the test, which becomes current
        cm = a.items[0]
        test = cm.args[0]
        st = st.fork()
        raising(ex, st, exc, 'create_exc')
        c = V.ov(CTX)
        prev = ex.hget(st, 'f:result', c)
        r = ex.new_obj(st, 'Result')
        ex.emit(st, event('result of'), ex.to_v(test), ex.to_v(r))
        raising(ex, st, exc, 'logging_exc')
        ex.hset(st, 'f:result', c, ex.to_v(r))
        ex.hset(st, 'f:test', c, ex.to_v(test))
        ex.hset(st, 'f:test_id', c, fresh('test_id', V))
        for n in ('test_classname', 'test_methodname'):
            ex.hset(st, 'f:' + n, c, fresh(n, V))
        yield st, Tup([r, Sym(prev, 'opt[obj:Result]')])
    reg.ext_methods[('ExitStack', 'enter_context')] = enter

    def context_cm(ex, st, args, kw, run):
        """`with _get_test_context(test, logging=False)` (contract proved under C21)"""
        outs = []
        st = st.fork()
        bad = st.fork()
        e = Sym(fresh('create_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        outs.append((bad, 'raise', e))
        r = ex.new_obj(st, 'Result')
        ex.emit(st, event('result of'), ex.to_v(args[0]), ex.to_v(r))
        c = V.ov(CTX)
        before = {n: ex.hget(st, 'f:' + n, c) for n in ('test', 'test_id', 'result')}
        for n in FIELDS:
            ex.hset(st, 'f:' + n, c, fresh(n, V))
        for st1, kind, val in run(st, Tup([r, Sym(before['result'], ANY)])):
            st1 = st1.fork()
            for n, v in before.items():
                ex.hset(st1, 'f:' + n, c, v)
            outs.append((st1, kind, val))
        return outs
    context_cm.model_name = '_get_test_context (contract proved under C21)'

    def get_ctx(ex, st, a, kw, exc):
        yield st, CMExt(context_cm, a, kw)
    reg.fn_models[R + '_get_test_context'] = get_ctx

    def ensure(ex, st, a, kw, exc):
        st = st.fork()
        raising(ex, st, exc, 'md_exc')
        yield st, ex.load(st, ex.hget(st, 'f:__slash__', V.ov(ex.to_v(a[0]))), ty('obj:Metadata'))
    reg.fn_models['slash/core/metadata.py::ensure_test_metadata'] = ensure

    def process(ex, st, a, kw, exc):
        # contract proved under C07
        st = st.fork()
        raising(ex, st, exc, 'requirement_exc')
        p = st.fork()
        yield p, Sym(vb(True), BOOL)
        ex.emit(st, AVOID)
        yield st, Sym(vb(False), BOOL)
    reg.fn_models[R + '_process_requirements_and_exclusions'] = process

    def summary(ex, st, a, kw, exc):
        # contract proved under C03
        st = st.fork()
        raising(ex, st, exc, 'summary_exc')
        yield st, NONEV
    reg.fn_models[R + '_fire_test_summary_hooks'] = summary

    def dump(ex, st, a, kw, exc):
        st = st.fork()
        raising(ex, st, exc, 'dump_exc')
        yield st, NONEV
    reg.fn_models[R + '_dump_variation'] = dump

    def count(ex, st, recv, a, kw, exc):
        st = st.fork()
        n = ex.hget(st, 'f:next', ex.oid(recv))
        ex.hset(st, 'f:next', ex.oid(recv), V.i(V.iv(n) + 1))
        st.assume(V.is_i(n))
        yield st, Sym(n, INT)
    reg.ext_methods[('Counter', '__next__')] = count

    def itself(ex, st, a, kw, exc):
        yield st, a.items[0]
    reg.ext_models['builtins.iter'] = itself
    base_list = reg.ext_models['builtins.list']

    def list_(ex, st, a, kw, exc):
        # list() of a PeekableIterator calls its __next__ until the end (contract: the items still to come, in order)
        x = a.items[0] if a.items else None
        if not (isinstance(x, Sym) and x.ty.kind == 'obj' and x.ty.name == 'PeekableIterator'):
            for r in base_list(ex, st, a, kw, exc):
                yield r
            return
        st = st.fork()
        p = ex.hget(st, 'f:_peeked', ex.oid(x))
        src = V.ov(ex.hget(st, 'f:_iterator', ex.oid(x)))
        rest = ex.hget(st, 'L', src)
        items = If(p == c23.NOTHING, rest, If(p == c23.END, nil, app(one(p), rest)))
        raising(ex, st, exc, 'iteration_exc')
        ex.hset(st, 'L', src, nil)
        ex.hset(st, 'f:_peeked', ex.oid(x), c23.END)
        yield st, ex.new_list(st, items, ty('obj:Test'))
    reg.ext_models['builtins.list'] = list_
    for c in CONTRACTS:
        reg.contracts[c.key] = c
    return reg


def ctx(s, n, pre=False):
    return s.f(CTX, n, pre)


class Start(Contract):
    key = R + 'TestStartEndController.start'
    params = {'self': 'obj:TestStartEndController'}
    ret = 'none'
    may_raise = True
    touches = ('f:_started', 'f:_result', 'G:tr')

    def pre(self, s):
        return [('the result is known', s.f(s.self, '_result', True) != none)]

    def mods(self, s):
        return [('f:_started', V.ov(s.self)), ('G:tr', None)]

    def post(self, s):
        n0 = nesting(s.tr(True))
        on = V.bv(s.f(s.self, '_started', True))
        return [('the test is started', s.f(s.self, '_started') == vb(True)),
                ('the start is notified once', Implies(n0 == 0, nesting(s.tr()) == If(on, 0, 1))), ('a second start changes nothing', Implies(on, s.tr() == s.tr(True))),
                ('no result is made', created(s.tr()) == created(s.tr(True))), ('no verdict', And(verdict(s.tr()) == verdict(s.tr(True)), completed(s.tr()) == completed(s.tr(True))))]

    exc_post = post


class End(Contract):
    key = R + 'TestStartEndController.end'
    params = {'self': 'obj:TestStartEndController'}
    ret = 'none'
    may_raise = True
    touches = ('f:_started', 'f:_result', 'f:_prev_result', 'f:result', 'f:session', 'f:cleanups', 'G:tr')

    def pre(self, s):
        return [('the result is known', s.f(s.self, '_result', True) != none), ('a session is current', ctx(s, 'session', True) != none)]

    def mods(self, s):
        return [('f:_started', V.ov(s.self)), ('G:tr', None), ('f:result', V.ov(CTX))]

    def post(self, s):
        on = V.bv(s.f(s.self, '_started', True))
        n0 = nesting(s.tr(True))
        return [('the test is ended', s.f(s.self, '_started') == vb(False)),
                ('the end is notified once after a start', Implies(And(on, n0 == 1), nesting(s.tr()) == 0)), ('never without a start', Implies(Not(on), s.tr() == s.tr(True))),
                ('the result of before is current again', ctx(s, 'result') == If(on, s.f(s.self, '_prev_result', True), ctx(s, 'result', True))),
                ('no result is made', created(s.tr()) == created(s.tr(True))), ('no verdict', And(verdict(s.tr()) == verdict(s.tr(True)), completed(s.tr()) == completed(s.tr(True))))]

    exc_post = post


class SetMetadata(Contract):
    key = R + '_set_test_metadata'
    params = {'test': 'obj:Test'}
    ret = 'none'
    may_raise = True
    touches = ('f:test_index0', 'f:next', 'f:test_index_counter', 'f:current_parallel_test_index', 'f:__slash__', 'f:session')

    def pre(self, s):
        return [('a session is current', ctx(s, 'session', True) != none)]

    def md(self, s):
        return s.f(s.test, '__slash__', True)

    def counter(self, s):
        return s.f(ctx(s, 'session', True), 'test_index_counter', True)

    def mods(self, s):
        return [('f:test_index0', V.ov(self.md(s))), ('f:next', V.ov(self.counter(s)))]

    def post(self, s):
        n = s.f(self.counter(s), 'next', True)
        return [('a test gets an index once', s.f(self.md(s), 'test_index0', True) == none),
                ('the next index is given, in a worker that of the parent',
                 If(WORKER == none, And(s.f(self.md(s), 'test_index0') == n, s.f(self.counter(s), 'next') == V.i(V.iv(n) + 1)),
                    And(s.f(self.md(s), 'test_index0') == s.f(ctx(s, 'session', True), 'current_parallel_test_index', True), s.f(self.counter(s), 'next') == n)))]

    def exc_post(self, s):
        n = s.f(self.counter(s), 'next', True)
        return [('no index is used up', s.f(self.counter(s), 'next') == n), ('and none is changed', s.f(self.md(s), 'test_index0') == s.f(self.md(s), 'test_index0', True))]


class It(Contract):
    touches = ('f:_peeked', 'f:_iterator', 'L', 'f:session', 'f:result', 'f:test', 'f:test_id', 'f:test_classname', 'f:test_methodname', 'f:test_index0', 'f:next', 'f:test_index_counter',
               'f:current_parallel_test_index', 'f:__slash__', 'f:started', 'f:results', 'f:reporter', 'f:file_path', 'f:_started', 'f:_result', 'f:_prev_result', 'f:scope_manager', 'f:cleanups', 'G:tr')

    def keep(self, name):
        return not name.startswith('G:tr')

    def items(self, s, pre=False, it=None):
        it = self.it(s) if it is None else it
        p = s.f(it, '_peeked', pre)
        rest = s.lst(s.f(it, '_iterator', True), pre)
        return If(p == c23.NOTHING, rest, If(p == c23.END, nil, app(one(p), rest)))

    def it(self, s):
        return s.test_iterator

    def inv(self, s, pre):
        it = self.it(s)
        return Implies(s.f(it, '_peeked', pre) == c23.END, s.lst(s.f(it, '_iterator', True), pre) == nil)

    def pre(self, s):
        return [('a session is current', ctx(s, 'session', True) != none), ('nothing is lost behind the end', self.inv(s, True))]

    def ctx_mods(self):
        return [('f:' + n, V.ov(CTX)) for n in FIELDS] + [('G:tr', None)]

    def mods(self, s):
        it = self.it(s)
        return self.ctx_mods() + [('f:_peeked', V.ov(it)), ('L', V.ov(s.f(it, '_iterator', True)))]

    def same_ctx(self, s):
        return And(*[ctx(s, n) == ctx(s, n, True) for n in ('test', 'test_id', 'result', 'session')])


class Single(It):
    key = R + '_run_single_test'
    params = {'test': 'obj:Test', 'test_iterator': 'obj:PeekableIterator'}
    ret = 'none'
    may_raise = True

    def post(self, s):
        return [('one result is made for the test', created(s.tr()) == L.snoc(created(s.tr(True)), s.test)), *self.always(s)]

    def always(self, s):
        return [('the start and end of the test are notified in pairs around the body, nothing when it is avoided', Implies(nesting(s.tr(True)) == 0, nesting(s.tr()) == 0)),
                ('the following tests still come out', self.items(s) == self.items(s, True)), ('nothing is lost behind the end', self.inv(s, False)),
                ('test, result and session are those of before', self.same_ctx(s)),
                ('the session is not completed here', completed(s.tr()) == completed(s.tr(True))), ('no verdict here', verdict(s.tr()) == verdict(s.tr(True)))]

    def exc_post(self, s):
        return [('one result is made for the test, at most', Or(created(s.tr()) == L.snoc(created(s.tr(True)), s.test), created(s.tr()) == created(s.tr(True)))), *self.always(s)]


class Unrun(It):
    key = R + '_mark_unrun_tests'
    params = {'test_iterator': 'obj:PeekableIterator'}
    ret = 'none'
    may_raise = True

    def invariants(self, s, info):
        tr0 = s.tr(True)
        tr = lambda st: info.ex.ensure(st, 'G:tr')
        return [('results so far', lambda P, st: created(tr(st)) == app(created(tr0), P)), ('nothing runs', lambda P, st: nesting(tr(st)) == nesting(tr0)),
                ('no verdict', lambda P, st: And(verdict(tr(st)) == verdict(tr0), completed(tr(st)) == completed(tr0)))]

    def post(self, s):
        return [('every test left gets one result, in order', created(s.tr()) == app(created(s.tr(True)), self.items(s, True))),
                ('none of them runs', nesting(s.tr()) == nesting(s.tr(True))), ('test, result and session are those of before', self.same_ctx(s)),
                ('no verdict here', And(verdict(s.tr()) == verdict(s.tr(True)), completed(s.tr()) == completed(s.tr(True))))]

    def exc_post(self, s):
        return [('none of them runs', nesting(s.tr()) == nesting(s.tr(True))),
                ('results are made for the first of them, in order', T_.prefix(created(s.tr()), app(created(s.tr(True)), self.items(s, True))))]


class Run(It):
    key = R + 'run_tests'
    params = {'iterable': 'obj:SourceIterator', 'stop_on_error': 'opt[bool]'}
    ret = 'none'
    may_raise = True

    def pre(self, s):
        return [('no test is under way', nesting(s.tr(True)) == 0), ('the session is not complete yet', completed(s.tr(True)) == 0), ('nothing stopped it yet', verdict(s.tr(True)) == 0)]

    def given(self, s):
        return s.lst(s.iterable, True)

    def mods(self, s):
        return self.ctx_mods() + [('L', V.ov(s.iterable)), ('f:test_index0', None), ('f:next', None), ('f:_peeked', None), ('f:_iterator', None)]

    def invariants(self, s, info):
        g = self.given(s)
        tr0 = s.tr(True)
        out = []

        def tr(st):
            return info.ex.ensure(st, 'G:tr')
        made0 = created(tr0)
        out.append(('no test is under way', lambda P, st: nesting(tr(st)) == 0))
        out.append(('no reason to stop', lambda P, st: verdict(tr(st)) == 0))
        out.append(('not complete', lambda P, st: completed(tr(st)) == 0))

        def made(P, st):
            it = st.env.get('test_iterator')
            if it is None:
                return None
            p = info.ex.hget(st, 'f:_peeked', V.ov(it.term))
            rest = info.ex.hget(st, 'L', V.ov(s.iterable))
            items = If(p == c23.NOTHING, rest, If(p == c23.END, nil, app(one(p), rest)))
            return And(app(created(tr(st)), items) == app(made0, g), Implies(p == c23.END, rest == nil))
        out.append(('results made and tests left are those given', made))
        return out

    def post(self, s):
        tr = s.tr()
        return [('every test given has one result, in order', Implies(WORKER == none, created(tr) == app(created(s.tr(True)), self.given(s)))),
                ('notifications of the tests are paired and nested', nesting(tr) == 0),
                ('the session is complete exactly when nothing stopped the run', Implies(WORKER == none, completed(tr) == If(verdict(tr) == 0, 1, 0))),
                ('only in a started session', And(ctx(s, 'session', True) != none, V.bv(s.f(ctx(s, 'session', True), 'started', True))))]

    def exc_post(self, s):
        tr = s.tr()
        return [('the tests with a result are the first of those given', T_.prefix(created(tr), app(created(s.tr(True)), self.given(s)))),
                ('notifications of the tests are paired and nested', nesting(tr) == 0)]


CONTRACTS = [Start(), End(), SetMetadata(), Single(), Unrun(), Run()] + [c for c in c23.CONTRACTS if 'PeekableIterator' in c.key]
ASSUMPTIONS = ['_get_test_context, _process_requirements_and_exclusions, _fire_test_summary_hooks and handling_exceptions behave as their contracts, proved under C21, C07, C03 and C05',
               'the body of a test, hooks, scope changes and cleanups may raise anything but leave the current test, result and session as they found them',
               'reporters do not raise']
BOUNDED = ['what is recorded when hooks, fixtures, cleanups or summary hooks raise, and the stop rule as seen from outside: bounded harness only']
