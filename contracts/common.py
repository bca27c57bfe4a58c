"""Models of slash's surroundings shared by all contract files: the ambient context, configuration, hooks, loggers,
the exception handling context. Each one is reported in the trusted base of the properties that use it."""
import z3
from engine import terms as T_
from engine.terms import V, L, none, absent, nil, vk, vs, vi, vb, vt, vo, fresh, mk, mem, length, app, T, remove1, revapp
from engine.values import (Unsupported, Ty, ty, ANY, INT, BOOL, STR, NONE, EXC, Sym, Fn, ClsV, Bound, BoundExt, Ext, Tup,
                           Seq, Partial, CMV, CMExt)
from engine.exec import NONEV, isin, str_in, lt_f, attr_f, has_attr, Exec, comp_sort, is_ghost
from engine.verify import Contract, Registry, View
from engine import models

And, Or, Not, If, Implies, ForAll = z3.And, z3.Or, z3.Not, z3.If, z3.Implies, z3.ForAll
Int, Bool = z3.IntSort(), z3.BoolSort()
cfg_f = z3.Function('config_value', Int, V)


class Config(object):
    """config.root.<path>: a constant during the call (assumption)"""


def cfg(path):
    return cfg_f(V.kv(vk('config.root.' + path)))


def k_of(const):
    return V.kv(const)


def event(name):
    return vs('event ' + name)


def base_registry():
    reg = Registry()
    models.install(reg)
    ctx = Sym(V.o(z3.Int('CTX')), 'obj:Context')
    reg.ctx = ctx
    for n in ('slash.ctx.context', 'slash.core.context', 'slash.exception_handling.slash_context'):
        reg.globals[n] = ctx
    reg.fields.update({
        ('Context', 'session'): 'opt[obj:Session]', ('Context', 'test'): 'any', ('Context', 'result'): 'opt[obj:Result]',
        ('Context', 'test_id'): 'any', ('Context', 'fixture'): 'any', ('Context', 'reporter'): 'obj:Reporter',
        ('Context', 'test_classname'): 'any', ('Context', 'test_methodname'): 'any',
    })
    # hooks.<name>(**kw): one event in the trace; a hook callback may raise anything
    def hook(ex, st, name, a, kw, exc, may_raise=True):
        st = st.fork()
        hn = name.split('.')[-1]
        vals = [ex.to_v(v) if isinstance(v, (Sym, Tup, Fn)) else none for k, v in sorted(kw.items())]
        ex.emit(st, event('hook ' + hn), *vals)
        hook_effect(ex, st)
        if may_raise:
            s2 = st.fork()
            e = Sym(fresh('hookexc', V), EXC)
            s2.assume(ex.type_facts(e.term, EXC, s2))
            exc.append((s2, e))
        yield st, NONEV
    reg.hook_mods = []          # (comp, id) cells hook callbacks may change; empty: nothing the contracts talk about

    def hook_effect(ex, st):
        for comp in reg.hook_mods:
            ex.havoc_cell(st, comp, None)
    reg.ext_prefixes.append(('slash.hooks.', hook))
    reg.hook = hook
    # config.root.a.b
    reg.globals['slash.conf.config'] = Ext('config')
    reg.cfg_types = {}

    class CfgRoot(object):
        pass
    reg.globals['config.root'] = Ext('config.root')
    reg.ext_methods[('Reporter', '*')] = quiet
    return reg


def quiet(ex, st, recv, meth, a, kw, exc):
    """reporter callbacks: trusted not to raise and not to touch the verified state; one trace event each"""
    st = st.fork()
    ex.emit(st, event('report ' + meth), *[ex.to_v(x) for x in a.items if isinstance(x, (Sym, Tup))])
    yield st, NONEV


def config_leaf(reg, path, t):
    """declare the type of a configuration leaf used by the code under contract"""
    reg.globals['config.root.' + path] = Sym(cfg(path), t)


def nothrow_const(val):
    def h(ex, st, a, kw, exc):
        yield st, val
    return h


def obj_method(reg, cls, meth, h):
    reg.ext_methods[(cls, meth)] = h


def pure_method(reg, cls, meth, ret, fname=None, heap_field=None):
    """an external pure method: uninterpreted function of the receiver and arguments"""
    f = z3.Function('m_%s_%s' % (cls, fname or meth), L, V)

    def h(ex, st, recv, a, kw, exc):
        st = st.fork()
        term = f(mk(ex.to_v(recv), *[ex.to_v(x) for x in a.items]))
        yield st, ex.load(st, term, ret)
    reg.ext_methods[(cls, meth)] = h
    return lambda *ts: f(mk(*ts))


def assume_field_types(ex, st, *pairs):
    """pairs: (object term, 'Class', [fields]) -> type facts of the stored values at entry"""


def distinct_ids(*terms):
    return z3.Distinct(*[V.ov(t) for t in terms]) if len(terms) > 1 else z3.BoolVal(True)


def field_facts(s, reg_fields, obj, cls, names):
    """type facts for the listed fields of obj in the entry heap"""
    out = []
    for n in names:
        t = ty(reg_fields[(cls, n)]) if not isinstance(reg_fields[(cls, n)], Ty) else reg_fields[(cls, n)]
        out.append(s.ex.type_facts(s.f(obj, n, pre=True), t, s.st))
    return And(out) if out else z3.BoolVal(True)


# ---- a context manager model of handling_exceptions(swallow=...) -------------------------------------------------
swallowed = z3.Function('never_swallowed', V, Bool)      # skip / interruption / passthrough exceptions
KI, SE, EX, GE = vk('cls KeyboardInterrupt'), vk('cls SystemExit'), vk('cls Exception'), vk('cls GeneratorExit')


def install_handling(reg, mods=(), quiet=False):
    """the contract of slash.exception_handling.handling_exceptions, as verified by C05: an exception leaving the block
    is handled (event) and swallowed iff it is an Exception, swallow was requested, and it is not a skip/interruption
    /passthrough exception (never_swallowed)"""
    def handler(ex, st, args, kw, run):
        outs = []
        sw = kw.get('swallow')
        is_sw = z3.BoolVal(False) if sw is None else z3.simplify(V.bv(sw.term))
        for c in ('Exception', 'KeyboardInterrupt', 'SystemExit'):
            ex.cls_const(ex.proj.builtin(c))
        for st1, kind, val in run(st, NONEV):
            if kind != 'raise':
                outs.append((st1, kind, val))
                continue
            st1 = st1.fork()
            if not quiet:
                ex.emit(st1, event('handled'), val.term)
            for comp in mods:
                ex.havoc_cell(st1, comp, None)
            cond = And(is_sw, isin(val.term, EX), Not(swallowed(val.term)))
            p, q = ex.branch(st1, cond)
            if p is not None:
                outs.append((p, 'next', None))
            if q is not None:
                outs.append((q, 'raise', val))
        return outs
    handler.model_name = 'handling_exceptions (contract verified under C05)'

    def make(ex, st, a, kw, exc):
        yield st, CMExt(handler, a, kw)
    reg.fn_models['slash/exception_handling.py::handling_exceptions'] = make


def any_fold(name, pred, params=()):
    """exists x in l. pred(params.., x), with the lemma that a prefix satisfying it suffices"""
    if name in T.funs:
        return T.funs[name]
    f = T.fold(name, Bool, lambda *ps: z3.BoolVal(False), lambda *a: Or(a[-3], pred(*(a[:-3] + (a[-2],)))), tuple(params))
    T.lemma(name + '.prefix', tuple(params) + (L,), lambda *a: Implies(And(T_.prefix(a[-2], a[-1]), f(*(a[:-2] + (a[-2],)))), f(*(a[:-2] + (a[-1],)))),
            lambda *a: [T_.prefix(a[-2], a[-1]), f(*(a[:-2] + (a[-2],)))])
    T.lemma(name + '.mem', tuple(params) + (V,), lambda *a: Implies(And(mem(a[-2], a[-1]), pred(*(a[:-2] + (a[-2],)))), f(*(a[:-2] + (a[-1],)))),
            lambda *a: [mem(a[-2], a[-1]), f(*(a[:-2] + (a[-1],)))])
    return f
