"""C21: the current context."""
from .common import *

S = 'slash/ctx.py::_ContextStack.'
R = 'slash/runner.py::'


def registry():
    reg = base_registry()
    reg.fields.update({('_ContextStack', '_stack'): 'list[obj:Ctx]', ('Context', 'g'): 'any', ('Context', 'internal_globals'): 'any',
                       ('Session', 'results'): 'obj:Results', ('Session', 'logging'): 'obj:Logging', ('Test', '__slash__'): 'obj:Metadata',
                       ('Session', 'id'): 'any', ('Session', 'reporter'): 'any',
                       ('Metadata', 'id'): 'any', ('Metadata', 'factory_name'): 'any', ('Metadata', 'address_in_factory'): 'str'})

    def attr_get(ex, st, a, kw, exc):
        # attributes of a context: a map from names to values; a name without value raises AttributeError
        o, n = a.items[0], a.items[1]
        v = z3.Select(ex.hget(st, 'Dv', ex.oid(o)), ex.to_v(n))
        p, q = ex.branch(st, v == absent)
        if p is not None:
            ex.raise_builtin(p, 'AttributeError', exc)
        if q is not None:
            q = q.fork()
            yield q, ex.load(q, v, ANY)

    def attr_set(ex, st, a, kw, exc):
        o, n, v = a.items
        bad = st.fork()
        bad.assume(null_ctx(ex.to_v(o)))
        ex.raise_builtin(bad, 'AttributeError', exc)
        st = st.fork()
        st.assume(Not(null_ctx(ex.to_v(o))))
        m = ex.hget(st, 'Dv', ex.oid(o))
        ex.hset(st, 'Dv', ex.oid(o), z3.Store(m, ex.to_v(n), ex.to_v(v)))
        yield st, NONEV
    if True:
        base_get, base_set = reg.ext_models['builtins.getattr'], reg.ext_models['builtins.setattr']

        def getattr_(ex, st, a, kw, exc):
            return attr_get(ex, st, a, kw, exc) if isinstance(a.items[0], Sym) and a.items[0].ty.kind == 'obj' and a.items[0].ty.name == 'Ctx' else base_get(ex, st, a, kw, exc)

        def setattr_(ex, st, a, kw, exc):
            return attr_set(ex, st, a, kw, exc) if isinstance(a.items[0], Sym) and a.items[0].ty.kind == 'obj' and a.items[0].ty.name == 'Ctx' else base_set(ex, st, a, kw, exc)
        reg.ext_models['builtins.getattr'], reg.ext_models['builtins.setattr'] = getattr_, setattr_

    def own(ex, st, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('own attribute'), *[ex.to_v(x) for x in a.items])
        yield st, NONEV
    reg.ext_models['object.__setattr__'] = own

    def create_result(ex, st, recv, a, kw, exc):
        st = st.fork()
        bad = st.fork()
        e = Sym(fresh('create_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        r = ex.new_obj(st, 'Result')
        ex.emit(st, event('result of'), ex.to_v(a.items[0]), ex.to_v(r))
        yield st, r
    reg.ext_methods[('Results', 'create_result')] = create_result

    def log_ctx(ex, st, recv, a, kw, exc):
        yield st, CMExt(external_cm, a, kw)
    reg.ext_methods[('Logging', 'get_test_logging_context')] = log_ctx

    def external_cm(ex, st, args, kw, run):
        """an external context manager: may raise on entry and exit, hides no exception of the body, does not touch the ambient context"""
        outs = []
        bad = st.fork()
        e = Sym(fresh('enter_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        outs.append((bad, 'raise', e))
        for st1, kind, val in run(st, NONEV):
            outs.append((st1, kind, val))
            bad = st1.fork()
            e = Sym(fresh('exit_exc', V), EXC)
            bad.assume(ex.type_facts(e.term, EXC, bad))
            outs.append((bad, 'raise', e))
        return outs
    external_cm.model_name = 'logging context of a test'

    def empty_cm(ex, st, args, kw, run):
        return run(st, NONEV)
    empty_cm.model_name = 'contextlib.ExitStack (empty)'

    def exit_stack(ex, st, a, kw, exc):
        yield st, CMExt(empty_cm, a, kw)
    reg.ext_models['contextlib.ExitStack'] = exit_stack

    def ensure(ex, st, a, kw, exc):
        # fills in test.__slash__ when missing (types: a Metadata object)
        st = st.fork()
        bad = st.fork()
        e = Sym(fresh('md_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, NONEV
    reg.fn_models['slash/core/metadata.py::ensure_test_metadata'] = ensure
    return reg


null_ctx = z3.Function('is_null_context', V, Bool)


class Stack(Contract):
    params = {'self': 'obj:_ContextStack'}
    touches = ('f:_stack', 'L', 'Dv', 'G:tr')

    def stack(self, s, pre=False):
        return s.lst(s.f(s.self, '_stack', True), pre)

    def pre(self, s):
        st = self.stack(s, True)
        return [('the base context is there', L.is_snoc(st)), ('the stack is an object of its own', s.oldobj(s.f(s.self, '_stack', True)))]

    def top(self, s):
        return L.last(self.stack(s, True))


class Push(Stack):
    key = S + 'push'
    params = {'self': 'obj:_ContextStack', 'ctx': 'obj:Ctx'}
    ret = 'any'

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, '_stack', True)))]

    def post(self, s):
        return [('the context given becomes the top, those below stay', self.stack(s) == L.snoc(self.stack(s, True), s.ctx)), ('it is returned', s.res == s.ctx)]


class Pop(Stack):
    key = S + 'pop'
    ret = 'any'
    may_raise = True

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, '_stack', True)))]

    def post(self, s):
        st = self.stack(s, True)
        return [('exactly the top is removed', self.stack(s) == L.init(st)), ('and returned', s.res == L.last(st)), ('the base context is still there', L.is_snoc(self.stack(s)))]

    def exc_post(self, s):
        st = self.stack(s, True)
        return [('only the base context is not popped', L.init(st) == nil), ('nothing is popped', self.stack(s) == st)]


class Get(Stack):
    key = S + '__getattr__'
    params = {'self': 'obj:_ContextStack', 'attr': 'str'}
    may_raise = True

    def val(self, s):
        return z3.Select(s.dmap(self.top(s), True), s.attr)

    def post(self, s):
        return [('the value in the top context', s.res == self.val(s))]

    def exc_post(self, s):
        return [('only when the top context has none', self.val(s) == absent)]


class Set(Stack):
    key = S + '__setattr__'
    params = {'self': 'obj:_ContextStack', 'attr': 'str', 'value': 'any'}
    ret = 'any'
    may_raise = True

    def mods(self, s):
        return [('Dv', V.ov(self.top(s))), ('G:tr', None)]

    def post(self, s):
        t = self.top(s)
        written = And(s.dmap(t) == z3.Store(s.dmap(t, True), s.attr, s.value), s.tr() == s.tr(True))
        own = And(s.dmap(t) == s.dmap(t, True), s.tr() == L.snoc(s.tr(True), vt(event('own attribute'), s.attr, s.value)))
        return [('written in the top context only, or an own attribute of the stack', Or(written, own))]

    def exc_post(self, s):
        t = self.top(s)
        return [('only the base context refuses', And(null_ctx(t), s.dmap(t) == s.dmap(t, True), s.tr() == s.tr(True)))]


class NullSet(Contract):
    key = 'slash/ctx.py::NullContext.__setattr__'
    params = {'self': 'obj:NullContext', 'attr': 'str', 'value': 'any'}
    may_raise = True

    def post(self, s):
        return [('the base context is never written', z3.BoolVal(False))]

    def exc_post(self, s):
        return [('the refusal is an AttributeError', isin(s.e, vk('cls AttributeError')))]


class Init(Contract):
    key = 'slash/ctx.py::Context.__init__'
    params = {'self': 'obj:Context'}
    ret = 'none'
    touches = ('f:g', 'f:internal_globals')

    def mods(self, s):
        return [('f:g', V.ov(s.self)), ('f:internal_globals', V.ov(s.self))]

    def post(self, s):
        g, i = s.f(s.self, 'g'), s.f(s.self, 'internal_globals')
        return [('the globals of a context are its own', And(s.newobj(g), s.newobj(i), g != i))]


FIELDS = ('session', 'test', 'test_id', 'result', 'fixture', 'reporter', 'test_classname', 'test_methodname')


class Ctx(Contract):
    may_raise = True
    touches = tuple('f:' + n for n in FIELDS) + ('f:id', 'f:__slash__', 'f:factory_name', 'G:tr')

    def now(self, s, n, pre=False):
        return s.f(s.ex.reg.ctx, n, pre)

    def same(self, s, names):
        return And(*[self.now(s, n) == self.now(s, n, True) for n in names])

    def mods(self, s):
        c = s.ex.reg.ctx.term
        return [('f:' + n, V.ov(c)) for n in FIELDS] + [('G:tr', None)]

    def body(self, ex, st, during):
        """the with-body: any code at all; contexts nest strictly, so this context is the top one again afterwards; whatever it wrote into it"""
        st = st.fork()
        for name, g in during:
            ex.oblige('while the test runs: ' + name, st, g)
        outs = []
        for kind in ('next', 'raise'):
            s2 = st.fork()
            for n in FIELDS:
                if n != 'session':
                    s2.heap['f:' + n] = z3.Store(s2.heap['f:' + n], V.ov(ex.reg.ctx.term), fresh('left_' + n, V))
            if kind == 'raise':
                e = Sym(fresh('body_exc', V), EXC)
                s2.assume(ex.type_facts(e.term, EXC, s2))
                outs.append((s2, 'raise', e))
            else:
                outs.append((s2, 'next', NONEV))
        return outs


class SetCurrent(Ctx):
    key = R + '_set_current_test_context'
    params = {'test': 'obj:Test'}

    def cm(self, ex, s, st, v):
        md = s.f(s.test, '__slash__', True)
        return self.body(ex, st, [('the current test is this one', self.now(s, 'test') == s.test), ('the current test id is its id', self.now(s, 'test_id') == s.f(md, 'id', True)),
                                  ('session and result are as before', self.same(s, ('session', 'result')))])

    def post(self, s):
        return [('the test and test id of before are current again', self.same(s, ('session', 'test', 'test_id')))]

    def exc_post(self, s):
        return self.post(s)


class GetTest(Ctx):
    key = R + '_get_test_context'
    params = {'test': 'obj:Test', 'logging': 'bool'}

    def pre(self, s):
        ses = self.now(s, 'session', True)
        return [('a session is current', ses != none)]

    def cm(self, ex, s, st, v):
        md = s.f(s.test, '__slash__', True)
        tr = s.tr()
        return self.body(ex, st, [('the current test is this one', self.now(s, 'test') == s.test), ('the current test id is its id', self.now(s, 'test_id') == s.f(md, 'id', True)),
                                  ('the current result is the one created for it', And(s.newobj(self.now(s, 'result')), tr == L.snoc(s.tr(True), vt(event('result of'), s.test, self.now(s, 'result'))))),
                                  ('the session is as before', self.same(s, ('session',))),
                                  ('the body is given this result and the one of before', s.res == vt(self.now(s, 'result'), self.now(s, 'result', True)))])

    def post(self, s):
        return [('test, test id, result and session of before are current again', self.same(s, ('session', 'test', 'test_id', 'result')))]

    def exc_post(self, s):
        return self.post(s)


CONTRACTS = [Push(), Pop(), Get(), Set(), NullSet(), Init(), SetCurrent(), GetTest()]
ASSUMPTIONS = ['the body of a test leaves the context it ran in on top of the stack (contexts nest strictly: proved per operation, assumed of user code)']
BOUNDED = ['Session.activate/deactivate, proxies, computed properties of Context, TestStartEndController: bounded harness only']
