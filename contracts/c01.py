"""C01: cleanup scopes."""
from .common import *

CM = 'slash/core/cleanup_manager.py::CleanupManager.'
CL = 'slash/core/cleanup_manager.py::_Cleanup.'
FIELDS = {
    ('CleanupManager', '_scope_stack'): 'list[obj:_Scope]',
    ('CleanupManager', '_scopes_by_name'): 'dict[str,list[obj:_Scope]]',
    ('CleanupManager', '_pending'): 'list[obj:_Cleanup]',
    ('CleanupManager', '_allow_implicit_scopes'): 'bool',
    ('CleanupManager', '_default_scope'): 'opt[str]',
    ('CleanupManager', '_current_scope'): 'opt[obj:_Scope]',
    ('_Scope', 'name'): 'str', ('_Scope', 'cleanups'): 'list[obj:_Cleanup]',
    ('_Cleanup', 'func'): 'cb:cleanup', ('_Cleanup', 'args'): 'list[any]', ('_Cleanup', 'kwargs'): 'dict[str,any]',
    ('_Cleanup', 'critical'): 'bool', ('_Cleanup', 'success_only'): 'bool', ('_Cleanup', 'result'): 'opt[obj:Result]',
    ('_Cleanup', '_repr'): 'any',
}

# what running cleanup callbacks registers on a list: a function of the calls made so far and the list (unknown)
registered = z3.Function('registered_during', L, Int, L)
CALL = event('call')
Flags = (V, V)      # failure, interruption

# fin(stack, trace, lst, failure, interruption) : the trace when the scope is exhausted.  It is the orbit of a
# deterministic transition system, so these axioms have a model for every choice of `registered` and `raised`.
interrupts = z3.Function('interrupts', V, Bool)        # the exception is an interruption (KeyboardInterrupt, TerminatedException)
outcome = z3.Function('outcome', L, V)                 # exception leaving handling for the last call of a trace (none: swallowed/absent)
AM = z3.ArraySort(Int, V)
fin = z3.Function('finish', L, L, Int, AM, AM, Bool, Bool, L)


# lists no cleanup ever registers on
unregistered = z3.Function('never_registered_on', Int, Bool)


def called(crit, succ, c, f, i):
    return And(Or(Not(i), V.bv(z3.Select(crit, V.ov(c)))), Not(And(Or(f, i), V.bv(z3.Select(succ, V.ov(c))))))


def theory():
    if 'finish.nil' in [n for n, _ in T.axioms]:
        return
    s, tr = z3.Const('s', L), z3.Const('tr', L)
    x = z3.Const('x', V)
    T.ax('interrupts', ForAll([x], interrupts(x) == And(x != none, Or(isin(x, KI), isin(x, vk('cls TerminatedException')))),
                              patterns=[interrupts(x)]))
    c, r = z3.Const('c', V), z3.Const('r', Int)
    cr, su = z3.Const('cr', AM), z3.Const('su', AM)
    f, i = z3.Const('f', Bool), z3.Const('i', Bool)
    T.ax('never_registered_on', ForAll([tr, r], Implies(unregistered(r), registered(tr, r) == nil), patterns=[registered(tr, r)]))
    T.ax('finish.nil', ForAll([tr, r, cr, su, f, i], fin(nil, tr, r, cr, su, f, i) == tr, patterns=[fin(nil, tr, r, cr, su, f, i)]))
    tr2 = L.snoc(tr, vt(CALL, c))
    lhs = fin(L.snoc(s, c), tr, r, cr, su, f, i)
    T.ax('finish.snoc', ForAll([s, c, tr, r, cr, su, f, i], lhs ==
                               If(called(cr, su, c, f, i),
                                  fin(app(s, registered(tr2, r)), tr2, r, cr, su, f, Or(i, interrupts(outcome(tr2)))),
                                  fin(s, tr, r, cr, su, f, i)), patterns=[lhs]))


theory()


def registry():
    reg = base_registry()
    reg.fields.update(FIELDS)
    reg.bases['Result'] = []
    result_ok = pure_method(reg, 'Result', 'is_success', 'bool')
    result_int = pure_method(reg, 'Result', 'is_interrupted', 'bool')

    def is_success(ex, st, recv, a, kw, exc):
        t = z3.Function('result_is_success', V, V, V)(recv.term, ex.to_v(kw['allow_skips']) if 'allow_skips' in kw else (ex.to_v(a.items[0]) if a.items else vb(False)))
        st = st.fork()
        yield st, ex.load(st, t, BOOL)
    reg.ext_methods[('Result', 'is_success')] = is_success

    def add_exception(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('exception recorded'), recv.term)
        yield st, NONEV
    reg.ext_methods[('Result', 'add_exception')] = add_exception
    reg.ext_prefixes[:] = []

    def hook(ex, st, name, a, kw, exc):
        """hooks used here may raise; callbacks of before_test_cleanups are assumed not to register cleanups"""
        st = st.fork()
        s2 = st.fork()
        e = Sym(fresh('hookexc', V), EXC)
        s2.assume(ex.type_facts(e.term, EXC, s2))
        exc.append((s2, e))
        yield st, NONEV
    reg.ext_prefixes.append(('slash.hooks.', hook))
    install(reg)

    def callback(ex, st, f, a, kw, exc):
        """the registered function: may raise"""
        st = st.fork()
        ex.emit(st, CALL, f.term, V.t(a.term if isinstance(a, Seq) else mk(*[ex.to_v(x) for x in a.items])),
                kw['**'].term if '**' in kw else none)
        s2 = st.fork()
        e = Sym(fresh('cbexc', V), EXC)
        s2.assume(ex.type_facts(e.term, EXC, s2))
        exc.append((s2, e))
        yield st, Sym(fresh('cbres', V), ANY)
    reg.callbacks['cleanup'] = callback
    for c in CONTRACTS + TRUSTED:
        if c.use_at_calls:
            reg.contracts[c.key] = c
    return reg


def result_state(ctxresult):
    ok = z3.Function('result_is_success', V, V, V)(ctxresult, vb(True))
    return ok


def install(reg):
    """handling_exceptions(swallow=True) as verified under C05: Exceptions are swallowed unless they are skips; skips, interruptions
    and other BaseExceptions leave it.  `outcome` names what leaves it."""
    def handler(ex, st, args, kw, run):
        outs = []
        sw = kw.get('swallow')
        is_sw = z3.BoolVal(False) if sw is None else z3.simplify(V.bv(sw.term))
        ex.cls_const(ex.proj.builtin('Exception'))
        for st1, kind, val in run(st, NONEV):
            if kind != 'raise':
                outs.append((st1, kind, val))
                continue
            cond = And(is_sw, isin(val.term, EX), Not(swallowed(val.term)))
            p, q = ex.branch(st1, cond)
            if p is not None:
                outs.append((p, 'next', None))
            if q is not None:
                outs.append((q, 'raise', val))
        return outs
    handler.model_name = 'handling_exceptions (contract verified under C05)'

    def make(ex, st, a, kw, exc):
        yield st, CMExt(handler, a, kw)
    reg.fn_models['slash/exception_handling.py::handling_exceptions'] = make

    def text(ex, st, a, kw, exc):
        st = st.fork()
        yield st, Sym(fresh('repr', V), STR)
    reg.fn_models[CL + '_get_repr'] = text


class Base(Contract):
    params = {'self': 'obj:CleanupManager'}
    comps = ('f:_scope_stack', 'f:_scopes_by_name', 'f:_pending', 'L', 'Dk', 'Dv')
    touches = comps

    def stack(self, s, pre=False):
        return s.lst(s.f(s.self, '_scope_stack', True), pre)

    def pend(self, s, pre=False):
        return s.lst(s.f(s.self, '_pending', True), pre)

    def byname(self, s, name, pre=False):
        return z3.Select(s.dmap(s.f(s.self, '_scopes_by_name', True), pre), name)

    def cell(self, s, f):
        return ('L', V.ov(s.f(s.self, f, True)))

    def wf(self, s):
        """the lists of the manager are its own"""
        return [('own lists', And(field_facts(s, FIELDS, s.self, 'CleanupManager', ['_scope_stack', '_pending', '_scopes_by_name']),
                                  distinct_ids(s.f(s.self, '_scope_stack'), s.f(s.self, '_pending'))))]


class PushScope(Base):
    key = CM + 'push_scope'
    params = {'self': 'obj:CleanupManager', 'scope_name': 'str'}
    ret = 'none'
    touches = Base.comps + ('f:name', 'f:cleanups')

    def pre(self, s):
        b = self.byname(s, s.scope_name, True)
        return self.wf(s) + [('scope lists are separate lists', Implies(b != absent, And(
            V.is_o(b), V.ov(b) != V.ov(s.f(s.self, '_scope_stack')), V.ov(b) != V.ov(s.f(s.self, '_pending')), V.ov(b) < s.alloc(), V.ov(b) >= 0)))]

    def mods(self, s):
        b = self.byname(s, s.scope_name, True)
        return [self.cell(s, '_scope_stack'), self.cell(s, '_pending'), ('L', V.ov(b)), ('Dv', V.ov(s.f(s.self, '_scopes_by_name', True))),
                ('Dk', V.ov(s.f(s.self, '_scopes_by_name', True)))]

    def post(self, s):
        x = z3.Const('x', V)
        st0, st1 = self.stack(s, True), self.stack(s)
        top = L.last(st1)
        b0, b1 = self.byname(s, s.scope_name, True), self.byname(s, s.scope_name)
        other = z3.Const('other', V)
        return [('one scope is opened on top, the others stay', And(L.is_snoc(st1), L.init(st1) == st0, s.newobj(top))),
                ('it has the given name', s.f(top, 'name') == s.scope_name),
                ('it takes over exactly the pending cleanups, in order', s.lst(s.f(top, 'cleanups')) == self.pend(s, True)),
                ('its list is its own', And(s.newobj(s.f(top, 'cleanups')))),
                ('nothing stays pending', self.pend(s) == nil),
                ('it is the innermost scope of that name', And(b1 != absent, s.lst(b1) == L.snoc(If(b0 == absent, nil, s.lst(b0, True)), top))),
                ('other names keep their scopes', Implies(other != s.scope_name, self.byname(s, other) == self.byname(s, other, True)))]


class CallCleanup(Contract):
    """a cleanup object is called: one call; callbacks may register further cleanups on any scope"""
    key = CL + '__call__'
    params = {'self': 'obj:_Cleanup'}
    ret = 'any'
    may_raise = True
    touches = ('G:tr', 'L', 'f:func', 'f:args', 'f:kwargs', 'f:result')

    def mods(self, s):
        return [('G:tr', None), ('L', None)]

    def common(self, s):
        tr2 = L.snoc(s.tr(True), vt(CALL, s.self))
        r = z3.Const('r', Int)
        return [('called exactly once with its own arguments', s.tr() == tr2),
                ('registrations only append', ForAll([r], Implies(And(r >= 0, r < s.alloc()),
                                                                  z3.Select(s.h1['L'], r) == app(z3.Select(s.h0['L'], r), registered(tr2, r))),
                                                     patterns=[z3.Select(s.h1['L'], r)]))]

    def post(self, s):
        tr2 = L.snoc(s.tr(True), vt(CALL, s.self))
        return self.common(s) + [('outcome', outcome(tr2) == none)]

    def exc_post(self, s):
        tr2 = L.snoc(s.tr(True), vt(CALL, s.self))
        return self.common(s) + [('outcome', outcome(tr2) == If(And(isin(s.e, EX), Not(swallowed(s.e))), none, s.e))]


class CallCleanupBody(Contract):
    """the body behind the contract above: the registered function gets exactly the registered arguments, once"""
    key = CL + '__call__'
    name = CL + '__call__ (body)'
    use_at_calls = False
    params = {'self': 'obj:_Cleanup'}
    ret = 'any'
    may_raise = True
    touches = ('G:tr', 'f:func', 'f:args', 'f:kwargs', 'f:result', 'L')

    def mods(self, s):
        return [('G:tr', None)]

    def call(self, s):
        return vt(CALL, s.f(s.self, 'func', True), V.t(s.lst(s.f(s.self, 'args', True), True)), s.f(s.self, 'kwargs', True))

    def post(self, s):
        return [('called once with the registered arguments', s.tr() == L.snoc(s.tr(True), self.call(s)))]

    def exc_post(self, s):
        t1 = L.snoc(s.tr(True), self.call(s))
        return [('called once; an Exception is recorded on the result it was registered under',
                 Or(s.f(s.self, 'result', True) == none, s.tr() == If(isin(s.e, EX), L.snoc(t1, vt(event('exception recorded'), s.f(s.self, 'result', True))), t1)))]


class CallCleanups(Base):
    key = CM + 'call_cleanups'
    params = {'self': 'obj:CleanupManager', 'scope': 'obj:_Scope', 'in_failure': 'bool', 'in_interruption': 'bool'}
    ret = 'none'
    may_raise = True
    touches = ('G:tr', 'L', 'f:cleanups', 'f:name', 'f:critical', 'f:success_only', 'f:_current_scope')

    def pre(self, s):
        c = s.f(s.scope, 'cleanups', True)
        return [('scope has its list', And(V.is_o(c), V.ov(c) >= 0, V.ov(c) < s.alloc()))]

    def setup(self, ex, st):
        ex.cls_const(ex.proj.builtin('Exception'))

    def mods(self, s):
        return [('G:tr', None), ('L', None), ('f:_current_scope', V.ov(s.self))]

    def final(self, s):
        c = s.f(s.scope, 'cleanups', True)
        return fin(s.lst(c, True), s.tr(True), V.ov(c), s._h('f:critical', True), s._h('f:success_only', True), V.bv(s.in_failure), V.bv(s.in_interruption))

    def frame(self, s, l1=None):
        r = z3.Const('r', Int)
        l1 = s.h1['L'] if l1 is None else l1
        return ForAll([r], Implies(And(r >= 0, r < s.alloc(), unregistered(r), r != V.ov(s.f(s.scope, 'cleanups', True))),
                                   z3.Select(l1, r) == z3.Select(s.h0['L'], r)), patterns=[z3.Select(l1, r)])

    def invariants(self, s, info):
        if info.isfor:
            return []
        c = s.f(s.scope, 'cleanups', True)
        out = []

        def flag(st):
            # the interruption flag of the loop: the parameter, possibly overwritten by the loop
            nm = 'in_interruption'
            return V.bv(info.ex.to_v(st.frames[info.fid][nm]))
        info.fid = next((fid for fid, fr in info.st0.frames.items() if 'in_interruption' in fr and '$fn' in fr), None)
        if info.fid is None:
            return []

        def inv(P, st):
            ex = info.ex
            return fin(ex.hget(st, 'L', V.ov(c)), ex.ensure(st, 'G:tr'), V.ov(c), s._h('f:critical', True), s._h('f:success_only', True),
                       V.bv(s.in_failure), flag(st)) == self.final(s)
        out.append(('only lists that are registered on change', lambda P, st: self.frame(s, info.ex.ensure(st, 'L'))))
        out.append(('calls still due complete the specified run', inv))
        return out

    def post(self, s):
        c = s.f(s.scope, 'cleanups', True)
        return [('exactly the due cleanups are called, newest first, also those registered meanwhile', s.tr() == self.final(s)),
                ('nothing is left in the scope', s.lst(c) == nil),
                ('only lists that are registered on change', self.frame(s)),
                ('current scope restored', s.f(s.self, '_current_scope') == s.f(s.self, '_current_scope', True))]

    def exc_post(self, s):
        c = s.f(s.scope, 'cleanups', True)
        test_scope = s.f(s.scope, 'name', True) == vs('test')
        return [('an escaping exception loses no cleanup', Or(And(s.tr() == self.final(s), s.lst(c) == nil),
                                                              And(test_scope, s.tr() == s.tr(True)))),
                ('only lists that are registered on change', self.frame(s)),
                ('current scope restored', s.f(s.self, '_current_scope') == s.f(s.self, '_current_scope', True))]


class PopScope(Base):
    key = CM + 'pop_scope'
    params = {'self': 'obj:CleanupManager', 'scope_name': 'str'}
    ret = 'none'
    may_raise = True
    touches = Base.comps + ('G:tr', 'f:cleanups', 'f:name', 'f:critical', 'f:success_only', 'f:_current_scope', 'f:result')

    def pre(self, s):
        b = self.byname(s, s.scope_name, True)
        st0 = self.stack(s, True)
        top = L.last(st0)
        return self.wf(s) + [('a scope is open', L.is_snoc(st0)),
                             ('scope objects', And(V.is_o(top), V.is_o(s.f(top, 'cleanups')), V.ov(s.f(top, 'cleanups')) < s.alloc(), V.ov(s.f(top, 'cleanups')) >= 0)),
                             ('scope lists are separate lists', And(s.oldobj(b), V.ov(b) != V.ov(s.f(s.self, '_scope_stack')), L.is_snoc(s.lst(b)))),
                             ('cleanups only register on scopes and the pending list',
                              And(unregistered(V.ov(s.f(s.self, '_scope_stack'))), unregistered(V.ov(b)))),
                             ('the cleanup list is its own', And(V.ov(s.f(top, 'cleanups')) != V.ov(s.f(s.self, '_scope_stack')), V.ov(s.f(top, 'cleanups')) != V.ov(b)))]

    def mods(self, s):
        return [('G:tr', None), ('L', None), ('f:_current_scope', V.ov(s.self))]

    def due(self, s):
        top = L.last(self.stack(s, True))
        c = s.f(top, 'cleanups', True)
        r = s.f(s.ex.reg.ctx.term, 'result', True)
        failed = And(r != none, Not(V.bv(z3.Function('result_is_success', V, V, V)(r, vb(True)))))
        intr = And(r != none, V.bv(z3.Function('m_Result_is_interrupted', L, V)(mk(r))))
        return fin(s.lst(c, True), s.tr(True), V.ov(c), s._h('f:critical', True), s._h('f:success_only', True), failed, intr)

    def post(self, s):
        top = L.last(self.stack(s, True))
        b = self.byname(s, s.scope_name, True)
        return [('exactly the innermost scope is closed', self.stack(s) == L.init(self.stack(s, True))),
                ('its name no longer stands for it', s.lst(b) == L.init(s.lst(b, True))),
                ('only the innermost scope can be closed', s.f(top, 'name', True) == s.scope_name),
                ('the cleanups due for the current result were called', s.tr() == self.due(s))]

    def exc_post(self, s):
        top = L.last(self.stack(s, True))
        wrong = s.f(top, 'name', True) != s.scope_name
        b = self.byname(s, s.scope_name, True)
        return [('the name of the closed scope no longer stands for it', Implies(Not(wrong), s.lst(b) == L.init(s.lst(b, True)))),
                ('a mismatched close closes nothing, else exactly one scope is closed',
                 self.stack(s) == If(wrong, self.stack(s, True), L.init(self.stack(s, True)))),
                ('a mismatched close calls nothing', Implies(wrong, s.tr() == s.tr(True))),
                ('otherwise no cleanup is lost', Implies(Not(wrong), Or(s.tr() == self.due(s), And(s.scope_name == vs('test'), s.tr() == s.tr(True)))))]


class AddCleanup(Base):
    key = CM + 'add_cleanup'

    def kw(ex, st):
        t = z3.Const('arg_kwargs', V)
        st.assume(ex.type_facts(t, ty('dict[str,any]'), st))
        return Sym(t, ty('dict[str,any]'), ('keyed', {'scope': 'opt[str]', 'critical': 'bool', 'success_only': 'bool',
                                                      'args': 'list[any]', 'kwargs': 'dict[str,any]'}))
    params = {'self': 'obj:CleanupManager', '_func': 'cb:cleanup', '**kwargs': kw}
    ret = 'any'
    may_raise = True
    touches = Base.comps + ('f:name', 'f:cleanups', 'f:func', 'f:args', 'f:kwargs', 'f:critical', 'f:success_only', 'f:result', 'f:_repr',
                            'f:_default_scope', 'f:_allow_implicit_scopes')

    def given(self, s, name):
        return z3.Select(s.dmap(s.kwargs, True), vs(name))

    def kwd(self, s, name, default):
        g = self.given(s, name)
        return If(g == absent, default, g)

    def scope_name(self, s):
        return self.kwd(s, 'scope', s.f(s.self, '_default_scope', True))

    def target(self, s):
        n = self.scope_name(s)
        st0 = self.stack(s, True)
        b = self.byname(s, n, True)
        pend = s.f(s.self, '_pending', True)
        return If(n == none, If(L.is_snoc(st0), s.f(L.last(st0), 'cleanups', True), pend), s.f(L.last(s.lst(b, True)), 'cleanups', True))

    def pre(self, s):
        n = self.scope_name(s)
        b = self.byname(s, n, True)
        t = self.target(s)
        x = z3.Const('x', V)
        extra = s.f(s.self, '_scopes_by_name', True)
        return self.wf(s) + [('keyword types', And(*[Or(self.given(s, k) == absent, f(self.given(s, k))) for k, f in (
            ('scope', lambda v: Or(v == none, V.is_s(v))), ('critical', V.is_b), ('success_only', V.is_b),
            ('args', lambda v: And(V.is_o(v), V.ov(v) >= 0, V.ov(v) < s.alloc())), ('kwargs', lambda v: And(V.is_o(v), V.ov(v) >= 0, V.ov(v) < s.alloc())))])),
            ('names of open scopes map to their lists', Implies(b != absent, And(V.is_o(b), V.ov(b) >= 0, V.ov(b) < s.alloc(), b != s.f(s.self, '_pending')))),
            ('the target scope has its list', And(V.is_o(t), V.ov(t) >= 0, V.ov(t) < s.alloc())),
            ('the keyword dictionary is fresh', And(s.kwargs != s.self, s.kwargs != extra, s.kwargs != self.given(s, 'kwargs')))]

    def mods(self, s):
        return [('L', V.ov(self.target(s))), ('Dk', V.ov(s.kwargs)), ('Dv', V.ov(s.kwargs))]

    def post(self, s):
        t = self.target(s)
        l0, l1 = s.lst(t, True), s.lst(t)
        c = L.last(l1)
        n = self.scope_name(s)
        a0 = self.given(s, 'args')
        k0 = self.given(s, 'kwargs')
        key = z3.Const('key', V)
        return [('registered exactly once, last, in its scope (or pending)', And(L.is_snoc(l1), L.init(l1) == l0, s.newobj(c))),
                ('with its function', s.f(c, 'func') == s._func),
                ('with its arguments', s.lst(s.f(c, 'args')) == If(a0 == absent, nil, s.lst(a0, True))),
                ('with its keyword arguments', z3.Select(s.dmap(s.f(c, 'kwargs')), key) == If(k0 == absent, absent, z3.Select(s.dmap(k0, True), key))),
                ('its own copies of them', And(s.newobj(s.f(c, 'args')), s.newobj(s.f(c, 'kwargs')))),
                ('critical as given', s.f(c, 'critical') == self.kwd(s, 'critical', vb(False))),
                ('success_only as given', s.f(c, 'success_only') == self.kwd(s, 'success_only', vb(False))),
                ('a failure is recorded on the result current now', s.f(c, 'result') == s.f(s.ex.reg.ctx.term, 'result', True)),
                ('explicit scopes must be open', Implies(n != none, self.byname(s, n, True) != absent)),
                ('implicit scopes only when allowed', Implies(n == none, V.bv(s.f(s.self, '_allow_implicit_scopes', True)))),
                ('not both critical and success-only', Not(And(V.bv(self.kwd(s, 'critical', vb(False))), V.bv(self.kwd(s, 'success_only', vb(False)))))),
                ('returns the function', s.res == s._func)]

    def exc_post(self, s):
        r = z3.Const('r', Int)
        return [('a refused registration registers nothing', ForAll([r], Implies(And(r >= 0, r < s.alloc(True)), z3.Select(s.h1['L'], r) == z3.Select(s.h0['L'], r)),
                                                                   patterns=[z3.Select(s.h1['L'], r)]))]


TRUSTED = [CallCleanup()]
CONTRACTS = [AddCleanup(), PushScope(), CallCleanupBody(), CallCleanups(), PopScope()]
ASSUMPTIONS = []
