"""C18: the registry of plugins."""
from .common import *

F = 'slash/plugins/plugin_manager.py::PluginManager.'
name_f = z3.Function('name_of_plugin', V, V)
class_f = z3.Function('class_of_plugin', V, V)
key_of = z3.Function('key_of_value', T_.MapS, V, V)
refused_f = z3.Function('refuses_parallel', V, Bool)


def token(name):
    return V.s(strf_format(name))


def strf_format(name):
    return T_.strf(V.kv(vk('str format')), mk(vs('slash.plugins.{}'), name))


def dashed(n):
    return V.s(T_.strf(V.kv(vk('str replace')), mk(n, vs(' '), vs('-'))))


def isclass(v):
    return isin(v, vk('cls type'))


def notclass(v):
    return Or(V.is_s(v), Not(isclass(v)))


def registry():
    reg = base_registry()
    reg.fields.update({
        ('PluginManager', '_installed'): 'dict[str,obj:PluginInfoObj]', ('PluginManager', '_active'): 'set[str]',
        ('PluginManager', '_cmd_line_to_name'): 'dict[str,str]', ('PluginManager', '_config_to_name'): 'dict[str,str]',
        ('PluginManager', '_pending_activation'): 'set[str]', ('PluginManager', '_pending_deactivation'): 'set[str]',
        ('PluginInfoObj', 'plugin_instance'): 'obj:PluginObj', ('PluginInfoObj', 'is_internal'): 'bool',
    })
    for c in CONTRACTS + TRUSTED:
        reg.contracts[c.key] = c

    def get_name(ex, st, recv, a, kw, exc):
        st = st.fork()
        t = name_f(ex.to_v(recv))
        st.assume(V.is_s(t))
        yield st, Sym(t, STR)
    reg.ext_methods[('PluginObj', 'get_name')] = reg.ext_methods[('PluginInterface', 'get_name')] = get_name
    reg.refine_classes = ('PluginInterface',)
    reg.fields[('PluginInterface', '__toggles__')] = 'any'
    reg.ext_methods[('any', 'get_name')] = lambda ex, st, recv, a, kw, exc: get_name(ex, st, a.items[0] if recv is None else recv, a, kw, exc)

    def user(name):
        def h(ex, st, recv, a, kw, exc):
            st = st.fork()
            ex.emit(st, event(name), ex.to_v(recv))
            bad = st.fork()
            e = Sym(fresh('user_exc', V), EXC)
            bad.assume(ex.type_facts(e.term, EXC, bad))
            exc.append((bad, e))
            yield st, NONEV
        return h
    reg.ext_methods[('PluginObj', 'activate')] = user('plugin activated')
    reg.ext_methods[('PluginObj', 'deactivate')] = user('plugin deactivated')

    def register(ex, st, recv, a, kw, exc):
        bad = st.fork()
        e = Sym(fresh('register_exc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        st = st.fork()
        k = kw.get('**')
        ex.emit(st, event('registered'), vt(ex.to_v(recv), ex.to_v(a.items[0]), ex.to_v(k) if k is not None else none))
        yield st, NONEV
    reg.ext_methods[('HookObj', 'register')] = register

    reg.star_methods = {('HookObj', 'register')}

    def group(ex, st, a, kw, exc):
        yield st, Sym(V.o(z3.Int('GOSSIP_GLOBAL')), Ty('obj', (), 'GossipGroup'))
    reg.ext_models['gossip.get_global_group'] = group

    def unregister(ex, st, recv, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('unregistered'), ex.to_v(a.items[0]))
        yield st, NONEV
    reg.ext_methods[('GossipGroup', 'unregister_token')] = unregister

    def info(ex, st, a, kw, exc):
        st = st.fork()
        o = ex.new_obj(st, 'PluginInfoObj')
        args = dict(zip(('plugin_instance', 'is_internal'), a.items), **kw)
        for k, v in args.items():
            ex.hset(st, 'f:' + k, ex.oid(o), ex.to_v(v))
        yield st, o
    reg.globals['slash.plugins.plugin_manager.PluginInfo'] = Ext('PluginInfo')
    reg.ext_models['PluginInfo'] = info

    # the values of a dict are values of some of its keys
    m, ks, x = z3.Const('m_', T_.MapS), z3.Const('ks_', L), z3.Const('x_', V)
    T.ax('vals_of.mem', ForAll([m, ks, x], Implies(mem(x, reg.vals_of(m, ks)), And(z3.Select(m, key_of(m, x)) == x, x != absent)), patterns=[mem(x, reg.vals_of(m, ks))]))

    # replacing the spaces twice is replacing them once
    T.ax('dashed', ForAll([x], dashed(dashed(x)) == dashed(x), patterns=[dashed(dashed(x))]))

    def search(ex, st, a, kw, exc):
        yield st, Sym(fresh('match', V), Ty('opt', (Ty('obj', (), 'Match'),)))
    reg.ext_models['re.search'] = search
    reg.ext_models['vintage.warn_deprecation'] = nothrow_const(NONEV)
    reg.ext_models['gossip.Toggle'] = lambda ex, st, a, kw, exc: iter([(st, Sym(fresh('toggle', V)))])

    def type_(ex, st, a, kw, exc):
        yield st, Sym(class_f(ex.to_v(a.items[0])))
    reg.ext_models['builtins.type'] = type_
    return reg


class M(Contract):
    params = {'self': 'obj:PluginManager'}
    touches = ('S', 'Dv', 'Dk', 'G:tr', 'f:plugin_instance', 'f:is_internal')

    def inst(self, s, n, pre=False):
        """what is installed under this name (only meaningful when something is)"""
        return s.f(z3.Select(s.dmap(s.f(s.self, '_installed', True), pre), n), 'plugin_instance', pre)

    def has(self, s, n, pre=False):
        return z3.Select(s.dmap(s.f(s.self, '_installed', True), pre), n) != absent

    def active(self, s, pre=False):
        return z3.Select(s._h('S', pre), V.ov(s.f(s.self, '_active', True)))

    def inv(self, s, pre=False):
        n = z3.Const('n', V)
        m = s.dmap(s.f(s.self, '_installed', True), pre)
        sel = z3.Select(m, n)
        p = s.f(sel, 'plugin_instance', pre)
        cmd = z3.Select(s.dmap(s.f(s.self, '_cmd_line_to_name', True), pre), n)
        return And(ForAll([n], Implies(sel != absent, And(name_f(p) == n, V.is_o(sel), V.ov(sel) < s.alloc(pre), V.is_o(p), V.ov(p) < s.alloc(pre), Not(isclass(p)))), patterns=[sel]),
                   ForAll([n], Implies(cmd != absent, dashed(n) == n), patterns=[cmd]))

    def dicts(self, s):
        return [V.ov(s.f(s.self, x, True)) for x in ('_installed', '_cmd_line_to_name', '_config_to_name')]

    def pre(self, s):
        ids = self.dicts(s)
        sets = [V.ov(s.f(s.self, x, True)) for x in ('_active', '_pending_activation', '_pending_deactivation')]
        return [('every plugin is installed under its name', self.inv(s, True)), ('the tables are distinct', And(z3.Distinct(*ids), z3.Distinct(*sets)))]

    def nothing(self, s):
        return And(self.active(s) == self.active(s, True), s.tr() == s.tr(True))


class ByName(M):
    key = F + '_get_installed_plugin_instance_by_name'
    params = {'self': 'obj:PluginManager', 'plugin_name': 'any'}
    ret = 'opt[obj:PluginObj]'
    touches = ()

    def mods(self, s):
        return []

    def post(self, s):
        return [('what is installed under this name', s.res == If(self.has(s, s.plugin_name, True), self.inst(s, s.plugin_name, True), none))]


class ByType(M):
    key = F + '_get_installed_plugin_instance_by_type'
    params = {'self': 'obj:PluginManager', 'plugin_class': 'any'}
    ret = 'opt[obj:PluginObj]'
    touches = ()

    def mods(self, s):
        return []

    def post(self, s):
        r = s.res
        return [('one installed of exactly this class, or none', Or(r == none, And(class_f(r) == s.plugin_class, self.has(s, name_f(r), True), self.inst(s, name_f(r), True) == r)))]


class Lookup(M):
    key = F + '_get_installed_plugin'
    params = {'self': 'obj:PluginManager', 'plugin': 'any'}
    ret = 'obj:PluginObj'
    may_raise = True
    touches = ()

    def mods(self, s):
        return []

    def post(self, s):
        r = s.res
        isstr = V.is_s(s.plugin)
        cmd = z3.Select(s.dmap(s.f(s.self, '_cmd_line_to_name', True), True), s.plugin)
        n = If(cmd != absent, cmd, s.plugin)
        return [('an installed plugin, under its name', And(self.has(s, name_f(r), True), self.inst(s, name_f(r), True) == r)),
                ('given a name: the plugin of that name', Implies(isstr, And(self.has(s, n, True), r == self.inst(s, n, True)))),
                ('given a class: a plugin of that class; otherwise the plugin given', Or(isstr, If(isclass(s.plugin), class_f(r) == s.plugin, r == s.plugin)))]

    def exc_post(self, s):
        isstr = V.is_s(s.plugin)
        cmd = z3.Select(s.dmap(s.f(s.self, '_cmd_line_to_name', True), True), s.plugin)
        n = If(cmd != absent, cmd, s.plugin)
        return [('it is an UnknownPlugin', isin(s.e, vk('cls UnknownPlugin'))),
                ('a name is refused only when nothing has it', Implies(isstr, Not(self.has(s, n, True)))),
                ('a plugin is refused only when it is not the one installed', Implies(And(Not(isstr), notclass(s.plugin)), Not(And(self.has(s, name_f(s.plugin), True), self.inst(s, name_f(s.plugin), True) == s.plugin))))]


class Registrations(M):
    key = F + '_get_plugin_registrations'
    params = {'self': 'obj:PluginManager', 'plugin': 'obj:PluginObj'}
    ret = 'list[tuple[obj:HookObj,any,dict[str,any]]]'
    may_raise = True
    touches = ('G:tr',)

    def mods(self, s):
        return [('G:tr', None)]

    def post(self, s):
        return [('asked once', s.tr() == L.snoc(s.tr(True), vt(event('asked'), s.plugin, V.t(s.lst(s.res)))))]

    def exc_post(self, s):
        return [('asked once', s.tr() == L.snoc(s.tr(True), vt(event('asked'), s.plugin, none)))]


class Parallel(M):
    key = F + '_is_parallel_supported'
    params = {'self': 'obj:PluginManager', 'plugin': 'obj:PluginObj'}
    ret = 'bool'
    touches = ()

    def mods(self, s):
        return []


def reg_events():
    return T.fold('registered_events', L, lambda: nil, lambda r, x, l: L.snoc(r, vt(event('registered'), vt(L.last(L.init(L.init(V.tv(x)))), L.last(L.init(V.tv(x))), L.last(V.tv(x))))))


def last_asked():
    """what the plugin asked for the last time"""
    return T.fold('last_asked', V, lambda: none, lambda r, e, l: If(L.init(L.init(V.tv(e))) == mk(event('asked')), L.last(V.tv(e)), r))


class Deactivate(M):
    key = F + 'deactivate'
    params = {'self': 'obj:PluginManager', 'plugin': 'any'}
    ret = 'none'
    may_raise = True

    def mods(self, s):
        return [('S', V.ov(s.f(s.self, '_active', True))), ('G:tr', None)]

    def found(self, s):
        """the plugin a reference stands for"""
        cmd = z3.Select(s.dmap(s.f(s.self, '_cmd_line_to_name', True), True), s.plugin)
        n = If(cmd != absent, cmd, s.plugin)
        return If(V.is_s(s.plugin), self.inst(s, n, True), s.plugin)

    def known(self, s):
        cmd = z3.Select(s.dmap(s.f(s.self, '_cmd_line_to_name', True), True), s.plugin)
        n = If(V.is_s(s.plugin), If(cmd != absent, cmd, s.plugin), name_f(s.plugin))
        return And(self.has(s, n, True), Or(V.is_s(s.plugin), self.inst(s, n, True) == s.plugin))

    def off(self, s, p, changed):
        n = name_f(p)
        was = z3.Select(self.active(s, True), n)
        return [('it is not active afterwards, the others are as before', self.active(s) == z3.Store(self.active(s, True), n, z3.BoolVal(False))),
                ('its callbacks are unregistered and it is told, when it was active', s.tr() == If(was, L.snoc(L.snoc(s.tr(True), vt(event('unregistered'), token(n))), vt(event('plugin deactivated'), p)), s.tr(True)))]

    def post(self, s):
        r = [(a, Implies(notclass(s.plugin), b)) for a, b in self.off(s, self.found(s), True)]
        n = z3.Const('n', V)
        r.append(('only callbacks of one plugin are touched', z3.Exists([n], And(self.has(s, n, True), *[b for a, b in self.off(s, self.inst(s, n, True), True)]))))
        return r

    def exc_post(self, s):
        n = z3.Const('n', V)
        return [('nothing happened, or it is not active any more', Or(self.nothing(s), z3.Exists([n], And(self.has(s, n, True), *[b for a, b in self.off(s, self.inst(s, n, True), True)])))),
                ('an installed plugin is not active any more also when it fails', Implies(And(notclass(s.plugin), self.known(s)), And(*[b for a, b in self.off(s, self.found(s), True)]))),
                ('given a plugin or its name, it is that one', Implies(notclass(s.plugin), Or(self.nothing(s), And(*[b for a, b in self.off(s, self.found(s), True)]))))]


class Activate(Deactivate):
    key = F + 'activate'
    touches = ('S', 'G:tr')

    def pre(self, s):
        return M.pre(self, s) + [('a reference by name or by the plugin itself', notclass(s.plugin))]

    def begun(self, s, l):
        p = self.found(s)
        return L.snoc(L.snoc(s.tr(True), vt(event('plugin activated'), p)), vt(event('asked'), p, V.t(l)))

    def post(self, s):
        p = self.found(s)
        n = name_f(p)
        was = z3.Select(self.active(s, True), n)
        l = V.tv(last_asked()(s.tr()))
        return [('it is active afterwards, the others are as before', self.active(s) == z3.Store(self.active(s, True), n, z3.BoolVal(True))),
                ('an active plugin is not registered again', Implies(was, s.tr() == s.tr(True))),
                ('otherwise it is told, then everything it asks for is registered, in order', Implies(Not(was), s.tr() == app(self.begun(s, l), reg_events()(l))))]

    def exc_post(self, s):
        p = self.found(s)
        n = name_f(p)
        tr = s.tr()
        return [('it is not active', self.active(s) == self.active(s, True)),
                ('nothing was registered, or what was registered is unregistered', Or(tr == s.tr(True), tr == L.snoc(s.tr(True), vt(event('plugin activated'), p)),
                                                                                      And(L.is_snoc(tr), L.last(tr) == vt(event('unregistered'), token(n)))))]

    def folds(self, s):
        return [('registered', L, reg_events())]

    def invariants(self, s, info):
        return [('asked before', lambda P, st: last_asked()(info.ex.ensure(st, 'G:tr')) == last_asked()(info.ex.ensure(info.st0, 'G:tr')))]


class Config(M):
    """what a plugin does to the configuration: not modelled"""
    params = {'self': 'obj:PluginManager', 'plugin': 'obj:PluginObj'}
    ret = 'none'
    touches = ()

    def mods(self, s):
        return []


class Configure(Config):
    key = F + '_configure'
    may_raise = True


class Unconfigure(Config):
    key = F + '_unconfigure'


class Uninstall(Deactivate):
    key = F + 'uninstall'

    def pre(self, s):
        return M.pre(self, s) + [('a reference by name or by the plugin itself', notclass(s.plugin))]

    def mods(self, s):
        return [('S', V.ov(s.f(s.self, '_active', True))), ('G:tr', None)] + [(c, i) for i in self.dicts(s) for c in ('Dv', 'Dk')]

    def gone(self, s):
        n = name_f(self.found(s))
        i = s.f(s.self, '_installed', True)
        return s.dmap(i) == z3.Store(s.dmap(i, True), n, absent)

    def kept(self, s):
        i = s.f(s.self, '_installed', True)
        return s.dmap(i) == s.dmap(i, True)

    def post(self, s):
        n = name_f(self.found(s))
        return self.off(s, self.found(s), True) + [('it is not installed afterwards, the others are', self.gone(s)), ('every plugin is installed under its name', self.inv(s))]

    def exc_post(self, s):
        return [('nothing happened, or it is not active any more', Or(self.nothing(s), And(*[b for a, b in self.off(s, self.found(s), True)]))),
                ('it is still installed', self.kept(s))]


class Install(M):
    key = F + 'install'
    params = {'self': 'obj:PluginManager', 'plugin': 'any', 'activate': 'bool', 'activate_later': 'bool', 'is_internal': 'bool'}
    ret = 'none'
    may_raise = True
    touches = M.touches + ('f:__toggles__',)

    def pre(self, s):
        return M.pre(self, s) + [('a plugin is an object, not a class', Implies(isin(s.plugin, vk('cls PluginInterface')), And(s.oldobj(s.plugin), Not(isclass(s.plugin)))))]

    def mods(self, s):
        return [('S', V.ov(s.f(s.self, '_active', True))), ('S', V.ov(s.f(s.self, '_pending_activation', True))), ('G:tr', None), ('f:__toggles__', V.ov(s.plugin))] + [(c, i) for i in self.dicts(s) for c in ('Dv', 'Dk')]

    def post(self, s):
        n = name_f(s.plugin)
        m = s.f(s.self, '_installed', True)
        e = z3.Select(s.dmap(m), n)
        old = self.inst(s, n, True)
        replaced = And(self.has(s, n, True), old != s.plugin)
        was = And(z3.Select(self.active(s, True), n), Not(replaced))
        return [('it is installed under its name, the others stay as they were', And(s.dmap(m) == z3.Store(s.dmap(m, True), n, e), s.f(e, 'plugin_instance') == s.plugin, s.f(e, 'is_internal') == s.is_internal)),
                ('it is active when asked for or active before, never because of the plugin it replaces', self.active(s) == z3.Store(self.active(s, True), n, Or(V.bv(s.activate), was))),
                ('the callbacks of a plugin it replaces are unregistered', Implies(And(Not(V.bv(s.activate)), replaced, z3.Select(self.active(s, True), n)), s.tr() == L.snoc(L.snoc(s.tr(True), vt(event('unregistered'), token(n))), vt(event('plugin deactivated'), old)))),
                ('every plugin is installed under its name', self.inv(s))]

    def exc_post(self, s):
        n = name_f(s.plugin)
        k = z3.Const('k', V)
        return [('other plugins are as active as before', ForAll([k], Implies(k != n, z3.Select(self.active(s), k) == z3.Select(self.active(s, True), k)))),
                ('it is active only if it was', Implies(z3.Select(self.active(s), n), z3.Select(self.active(s, True), n)))]


CONTRACTS = [ByName(), ByType(), Lookup(), Deactivate(), Activate(), Uninstall(), Install()]
TRUSTED = [Configure(), Unconfigure(), Registrations(), Parallel()]
ASSUMPTIONS = ['the name and the class of a plugin do not change; activate/deactivate of a plugin do not change the registry of plugins themselves',
               'gossip: registering a callback calls it until its token is unregistered; unregistering a token removes everything registered with it (bounded harness: real gossip)',
               'a plugin is not a class object, and str.replace(" ", "-") is idempotent']
BOUNDED = ['_get_plugin_registrations (which hooks, tokens, needs/provides), restoring_state_context, activate_pending_plugins, configuration of plugins, command line: bounded harness only']
