"""C20: settings of the command line, applied for the run and then restored."""
from .common import *

U = 'slash/utils/cli_utils.py::'
M_ = T_.MapS
CFG = V.o(z3.Int('CONFIG_TREE'))
path_of = z3.Function('path_of_leaf', V, V)
leaves_f = z3.Function('cmdline_leaves', V, L)
upd_f = z3.Function('updated_by_flags', V, V, V, V)           # cmdline, old value, parsed arguments
coerce_f = z3.Function('coerced', V, V, V)                    # text, old value
split_f = z3.Function('str_split', L, L)


def first(x):
    return L.last(L.init(V.tv(x)))


def second(x):
    return L.last(V.tv(x))


def registry():
    reg = base_registry()
    reg.fields.update({('ParsedArgs', 'config_overrides'): 'tup[str]'})
    reg.globals['slash.conf.config'] = Sym(CFG, Ty('obj', (), 'ConfigTree'))
    for c in CONTRACTS + TRUSTED:
        reg.contracts[c.key] = c

    def cmap(ex, st, recv):
        return ex.hget(st, 'Dv', ex.oid(recv))

    for n in ('activate_later', 'deactivate_later'):
        def later(ex, st, recv, a, kw, exc, n=n):
            raising(ex, st, exc)
            st = st.fork()
            ex.emit(st, event(n), ex.to_v(a.items[0]))
            yield st, NONEV
        reg.ext_methods[('PluginManagerObj', n)] = later
    reg.globals['slash.plugins.manager'] = Sym(V.o(z3.Int('PLUGIN_MANAGER')), Ty('obj', (), 'PluginManagerObj'))

    def raising(ex, st, exc):
        bad = st.fork()
        e = Sym(fresh('conf_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))

    def get_path(ex, st, recv, a, kw, exc):
        v = z3.Select(cmap(ex, st, recv), ex.to_v(a.items[0]))
        raising(ex, st, exc)
        st = st.fork()
        st.assume(v != absent)
        yield st, Sym(v)
    reg.ext_methods[('ConfigTree', 'get_path')] = get_path

    def get_value(ex, st, recv, a, kw, exc):
        v = z3.Select(ex.hget(st, 'Dv', V.ov(reg.tree)), path_of(ex.to_v(recv)))
        yield st, Sym(v)
    reg.ext_methods[('Leaf', 'get_value')] = get_value

    def put(ex, st, recv, p, v, kw, exc, text):
        deduce = 'deduce_type' in kw
        m = cmap(ex, st, recv)
        if deduce or not text:
            pass
        if deduce:
            raising(ex, st, exc)          # a value which does not fit, an unknown path: nothing is changed
            v = coerce_f(v, z3.Select(m, p))
        st = st.fork()
        st.assume(v != absent)
        ex.hset(st, 'Dv', ex.oid(recv), z3.Store(m, p, v))
        yield st, NONEV

    def assign_path(ex, st, recv, a, kw, exc):
        return put(ex, st, recv, ex.to_v(a.items[0]), ex.to_v(a.items[1]), kw, exc, False)

    def assign_expr(ex, st, recv, a, kw, exc):
        parts = split_f(mk(ex.to_v(a.items[0]), vs('='), vi(1)))
        return put(ex, st, recv, L.last(L.init(parts)), L.last(parts), kw, exc, True)
    reg.ext_methods[('ConfigTree', 'assign_path')] = assign_path
    reg.ext_methods[('ConfigTree', 'assign_path_expression')] = assign_expr

    def error(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.raise_builtin(st, 'SystemExit', exc)
        return iter(())
    reg.ext_methods[('Parser', 'error')] = error

    def update_value(ex, st, recv, a, kw, exc):
        raising(ex, st, exc)
        yield st, Sym(upd_f(ex.to_v(recv), ex.to_v(a.items[0]), ex.to_v(a.items[1])))
    reg.ext_methods[('CmdlineFlags', 'update_value')] = update_value

    def literal(ex, st, a, kw, exc):
        raising(ex, st, exc)
        yield st, Sym(z3.Function('literal', V, V)(ex.to_v(a.items[0])))
    reg.ext_models['ast.literal_eval'] = literal

    def type_(ex, st, a, kw, exc):
        yield st, Sym(z3.Function('type_of', V, V)(ex.to_v(a.items[0])))
    reg.ext_models['builtins.type'] = type_

    def unpack_split(ex, st, r, a, kw, exc):
        st = st.fork()
        yield st, Sym(V.t(split_f(mk(*[ex.to_v(x) for x in [r] + a.items]))), Ty('tuple', (STR, STR)))
    reg.ext_methods[('str', 'split')] = unpack_split
    return reg


class Leaves(Contract):
    key = U + '_iter_cmdline_config'
    params = {'config': 'obj:ConfigTree'}
    ret = 'tup[tuple[str,obj:Leaf,obj:CmdlineFlags]]'
    touches = ('L',)

    def post(self, s):
        x = z3.Const('x', V)
        l = V.tv(s.res)
        return [('the leaves with flags', l == leaves_f(s.config)), ('a path belongs to its leaf', ForAll([x], Implies(mem(x, l), L.last(L.init(L.init(V.tv(x)))) == path_of(L.last(L.init(V.tv(x))))), patterns=[mem(x, l)]))]


def flagged():
    """the settings after the flags"""
    def step(m, args, r, x, l):
        p, leaf, flags = L.last(L.init(L.init(V.tv(x)))), L.last(L.init(V.tv(x))), L.last(V.tv(x))
        old = z3.Select(r, path_of(leaf))
        new = upd_f(flags, old, args)
        return If(new == old, r, z3.Store(r, p, coerce_f(new, old)))
    return T.fold('after_flags', M_, lambda m, args: m, step, (M_, V))


def overridden():
    def step(m, r, x, l):
        parts = split_f(mk(x, vs('='), vi(1)))
        p = L.last(L.init(parts))
        return z3.Store(r, p, coerce_f(L.last(parts), z3.Select(r, p)))
    return T.fold('after_overrides', M_, lambda m: m, step, (M_,))


class Modified(Contract):
    key = U + 'get_modified_configuration_from_args_context'
    params = {'parser': 'obj:Parser', 'args': 'obj:ParsedArgs', 'config': 'opt[obj:ConfigTree]'}
    may_raise = True
    touches = ('Dv', 'L', 'f:config_overrides')

    def tree(self, s):
        return If(s.config == none, CFG, s.config)

    def pre(self, s):
        s.ex.reg.tree = self.tree(s)
        self.given = lambda s: s.ex.to_v(s.args['args'])
        return [('the configuration tree is an object', And(s.oldobj(self.tree(s))))]

    def mods(self, s):
        return [('Dv', V.ov(self.tree(s)))]

    def m(self, s, pre=False):
        return s.dmap(self.tree(s), pre)

    def invariants(self, s, info):
        ex, tree = info.ex, V.ov(self.tree(s))
        m = lambda st: z3.Select(ex.ensure(st, 'Dv'), tree)
        m0 = self.m(s, True)
        e = info.seq.ety
        if e.kind == 'tuple' and len(e.args) == 3:
            out = [('flags applied', lambda P, st: m(st) == flagged()(m(info.st0), self.given(s), P))]
        elif e.kind == 'str':
            out = [('overrides applied', lambda P, st: m(st) == overridden()(m(info.st0), P))]
        else:
            return []
        return out

    def cm(self, ex, s, st, v):
        m0 = self.m(s, True)
        a = flagged()(m0, self.given(s), leaves_f(self.tree(s)))
        want = overridden()(a, V.tv(s.f(self.given(s), 'config_overrides', True)))
        ex.oblige('during the run: every setting has the value of the flags and overrides, no other is changed', st, self.m(s) == want)
        outs = []
        for kind in ('next', 'raise'):
            s2 = st.fork()
            s2.heap['Dv'] = z3.Store(s2.heap['Dv'], V.ov(self.tree(s)), fresh('left', M_))
            if kind == 'raise':
                e = Sym(fresh('body_exc', V), EXC)
                s2.assume(ex.type_facts(e.term, EXC, s2))
                outs.append((s2, 'raise', e))
            else:
                outs.append((s2, 'next', NONEV))
        return outs

    def post(self, s):
        return []

    def exc_post(self, s):
        return []


def starts(x, prefix):
    return z3.Function('strp_startswith', L, Bool)(mk(x, vs(prefix)))


def rest_of():
    return T.fold('arguments_left', L, lambda: nil, lambda r, x, l: If(Or(starts(x, '--without-'), starts(x, '--with-')), r, L.snoc(r, x)))


class Pending(Contract):
    key = U + 'add_pending_plugins_from_commandline'
    params = {'argv': 'tup[str]'}
    ret = 'list[str]'
    may_raise = True
    touches = ('L', 'G:tr')

    def mods(self, s):
        return [('G:tr', None)]

    def folds(self, s):
        return [('left', L, rest_of())]

    def post(self, s):
        return [('every argument that is not a plugin switch is passed on unchanged and in order', s.lst(s.res) == rest_of()(V.tv(s.ex.to_v(s.args['argv']))))]


CONTRACTS = [Modified(), Pending()]
TRUSTED = [Leaves()]
ASSUMPTIONS = ['confetti: assigning a path changes that path only and nothing when it raises; leaves with flags are listed with their paths; _Cmdline.update_value as a function of flags, old value and arguments']
BOUNDED = ['that the configuration is what it was after the run (all ends), _Cmdline.update_value, argument parsing (argparse), conversion of values, Application: bounded harness only']
