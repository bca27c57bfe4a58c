"""C19: recorded warnings and ignore rules."""
from .common import *
from engine.exec import truthy_f, Ext

W = 'slash/warnings.py::'
IGN = Sym(V.o(z3.Int('IGNORED')), 'list[obj:_IgnoredWarning]')
re_match = z3.Function('re_match', V, V, V)
subclass = z3.Function('issubclass', V, V, Bool)


def registry():
    reg = base_registry()
    reg.globals['slash.warnings._ignored_warnings'] = IGN
    reg.fields.update({('_IgnoredWarning', n): 'any' for n in ('category', 'filename', 'message', 'lineno')})
    reg.fields.update({('RecordedWarning', 'category'): 'any', ('RecordedWarning', 'details'): 'dict[str,any]', ('SessionWarnings', 'warnings'): 'list[any]',
                       ('warning_callback_context', '_callback'): 'any', ('warning_callback_context', '_module'): 'obj:WarningsModule',
                       ('warning_callback_context', '_entered'): 'bool', ('warning_callback_context', '_showwarning'): 'any', ('WarningsModule', 'showwarning'): 'any',
                       ('RecordedWarning', 'key'): 'any', ('RecordedWarning', '_repr'): 'any'})

    def match(ex, st, recv, a, kw, exc):
        yield st, Sym(re_match(ex.to_v(recv), ex.to_v(a.items[0])), ANY)
    reg.ext_methods[('any', 'match')] = match
    install_handling(reg)
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c

    reg.fields[('WarnHandler', 'level')] = 'int'
    reg.fields[('Record', 'level')] = 'int'
    reg.fields.update({('Record', n): 'any' for n in ('channel', 'message', 'filename', 'lineno', 'module')})
    reg.globals['slash.warnings._native_logger'] = Sym(V.o(z3.Int('NATIVE')), 'obj:NativeLogger')
    reg.fields[('NativeLogger', 'name')] = 'any'

    reg.globals['slash.warnings.WarningKey'] = Ext('WarningKey')

    def wkey(ex, st, a, kw, exc):
        yield st, Tup([kw['filename'], kw['lineno']])
    reg.ext_models['WarningKey'] = wkey

    def echo(ex, st, recv, meth, a, kw, exc):
        yield st, NONEV
    reg.ext_methods[('NativeLogger', '*')] = echo

    def warn_explicit(ex, st, a, kw, exc):
        st = st.fork()
        ex.emit(st, event('warn_explicit'), *[ex.to_v(kw[k]) for k in sorted(kw)])
        bad = st.fork()
        e = Sym(fresh('warnexc', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        exc.append((bad, e))
        yield st, NONEV
    reg.ext_models['warnings.warn_explicit'] = warn_explicit

    def recorded(ex, st, a, kw, exc):
        st = st.fork()
        o = ex.new_obj(st, 'RecordedWarning')
        a = [x for x in a if isinstance(x, (Sym, Tup))][-4:]
        ex.emit(st, event('built'), o.term)
        st.assume(of_warning(o.term) == mk(*[ex.to_v(x) for x in a]))
        yield st, o
    reg.fn_models[W + 'RecordedWarning.from_native_warning'] = recorded
    reg.fields[('Context', 'session_id')] = 'any'
    return reg


of_warning = z3.Function('recorded_from', V, L)


def pat(p, s):
    """the pattern is the string itself, or an object with a match method which matches it"""
    return And(p != none, Or(p == s, And(has_attr(p, V.kv(vk('attr match'))), truthy_f(re_match(p, s)))))


def rule(cat, fname, line, msg, wcat, wfname, wline, wmsg):
    return And(Or(Not(truthy_f(cat)), subclass(wcat, cat)), Or(Not(truthy_f(fname)), pat(fname, wfname)),
               Or(Not(truthy_f(line)), wline == line), Or(Not(truthy_f(msg)), pat(msg, wmsg)))


def or_none(t):
    return If(t == absent, none, t)


def detail(s, w, name, pre=True):
    d = s.f(w, 'details', pre)
    return or_none(z3.Select(s.dmap(d, pre), vs(name)))


HA = z3.ArraySort(Int, V)
HM = z3.ArraySort(Int, T_.MapS)


def matches_in(cat, fn, ln, msg, wc, wf, wl, wm, x):
    g = lambda h: z3.Select(h, V.ov(x))
    return rule(g(cat), g(fn), g(ln), g(msg), wc, wf, wl, wm)


def any_rule():
    return any_fold('any_rule_matches', matches_in, (HA, HA, HA, HA, V, V, V, V))


class PatternMatches(Contract):
    key = W + '_IgnoredWarning._pattern_matches'
    params = {'regex_or_str': 'any', 'warning_str': 'any'}
    ret = 'bool'

    def post(self, s):
        return [('equal, or a regular expression matching', V.bv(s.res) == pat(s.regex_or_str, s.warning_str))]


class Matches(Contract):
    key = W + '_IgnoredWarning.matches'
    params = {'self': 'obj:_IgnoredWarning', 'warning': 'obj:RecordedWarning'}
    ret = 'bool'
    touches = ('f:category', 'f:filename', 'f:lineno', 'f:message', 'f:details', 'Dv')

    def post(self, s):
        r, w = s.self, s.warning
        return [('true exactly when every criterion the rule gives matches',
                 V.bv(s.res) == rule(s.f(r, 'category', True), s.f(r, 'filename', True), s.f(r, 'lineno', True), s.f(r, 'message', True),
                                     s.f(w, 'category', True), detail(s, w, 'filename'), detail(s, w, 'lineno'), detail(s, w, 'message')))]


def filtered(s, w, pre=True):
    h = [s._h('f:' + n, pre) for n in ('category', 'filename', 'lineno', 'message')]
    ps = h + [s.f(w, 'category', pre), detail(s, w, 'filename', pre), detail(s, w, 'lineno', pre), detail(s, w, 'message', pre)]
    return any_rule(), ps


class Filtered(Contract):
    key = W + 'SessionWarnings.warning_should_be_filtered'
    params = {'self': 'obj:SessionWarnings', 'warning': 'obj:RecordedWarning'}
    ret = 'bool'
    touches = ('f:category', 'f:filename', 'f:lineno', 'f:message', 'f:details', 'Dv', 'L')

    def folds(self, s):
        f, ps = filtered(s, s.warning)
        return [('any_rule', Bool, lambda l: f(*(ps + [l])))]

    def post(self, s):
        f, ps = filtered(s, s.warning)
        return [('true exactly when a rule in force matches', V.bv(s.res) == f(*(ps + [s.lst(IGN.term, True)])))]


class Add(Contract):
    key = W + 'SessionWarnings.add'
    params = {'self': 'obj:SessionWarnings', 'warning': 'any'}
    ret = 'none'
    may_raise = True
    touches = ('f:warnings', 'L', 'G:tr')

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, 'warnings', True))), ('G:tr', None)]

    def ws(self, s, pre=False):
        return s.lst(s.f(s.self, 'warnings', True), pre)

    def told(self, s):
        return s.tr() == L.snoc(s.tr(True), vt(event('hook warning_added'), s.warning))

    def post(self, s):
        return [('recorded once, after the earlier ones', self.ws(s) == L.snoc(self.ws(s, True), s.warning)), ('announced once', self.told(s))]

    def exc_post(self, s):
        return [('only a subscriber raises', And(self.told(s), self.ws(s) == self.ws(s, True)))]


class Capture(Contract):
    key = W + 'SessionWarnings._capture_native_warning'
    params = {'self': 'obj:SessionWarnings', 'message': 'any', 'category': 'any', 'filename': 'any', 'lineno': 'any', 'file': 'any', 'line': 'any'}
    ret = 'none'
    may_raise = True
    touches = ('f:warnings', 'f:category', 'f:filename', 'f:lineno', 'f:message', 'f:details', 'L', 'Dv', 'G:tr')

    def pre(self, s):
        return [('the rules and the records are different lists', s.f(s.self, 'warnings', True) != IGN.term)]

    def mods(self, s):
        return [('L', V.ov(s.f(s.self, 'warnings', True))), ('G:tr', None)]

    def post(self, s):
        w = s.f(s.self, 'warnings', True)
        l0, l1, tr0, tr1 = s.lst(w, True), s.lst(w), s.tr(True), s.tr()
        kept = L.last(l1)
        dropped = L.last(V.tv(L.last(tr1)))

        def hit(x):
            f, ps = filtered(s, x, False)
            return f(*(ps + [s.lst(IGN.term, True)]))
        want = mk(s.message, s.category, s.filename, s.lineno)
        built = lambda x: L.snoc(tr0, vt(event('built'), x))
        return [('recorded exactly once (and announced) unless a rule in force matches it',
                 Or(And(l1 == L.snoc(l0, kept), tr1 == L.snoc(built(kept), vt(event('hook warning_added'), kept)), of_warning(kept) == want, Not(hit(kept))),
                    And(l1 == l0, tr1 == built(dropped), of_warning(dropped) == want, hit(dropped))))]


class Clear(Contract):
    key = W + 'clear_ignored_warnings'
    ret = 'none'
    touches = ('L',)

    def mods(self, s):
        return [('L', V.ov(IGN.term))]

    def post(self, s):
        return [('no rule is in force', s.lst(IGN.term) == nil)]


class Ignore(Contract):
    key = W + 'ignore_warnings'
    params = {n: 'any' for n in ('category', 'message', 'filename', 'lineno')}
    ret = 'obj:_IgnoredWarning'
    touches = ('L', 'f:category', 'f:filename', 'f:lineno', 'f:message')

    def mods(self, s):
        return [('L', V.ov(IGN.term))]

    def post(self, s):
        return [('one new rule is in force', And(s.newobj(s.res), s.lst(IGN.term) == L.snoc(s.lst(IGN.term, True), s.res))),
                ('with the criteria given', And(*[s.f(s.res, n) == getattr(s, n) for n in ('category', 'message', 'filename', 'lineno')]))]


def kwargs(ex, st):
    d = ex.new_dict(st, STR, ANY)
    ex.hset(st, 'Dv', ex.oid(d), fresh('kwargs', T_.MapS))
    return d


class Block(Contract):
    key = W + 'ignored_warnings'
    params = {'**kwargs': kwargs}
    ret = 'none'
    may_raise = True
    touches = ('L', 'f:category', 'f:filename', 'f:lineno', 'f:message', 'G:tr')

    def mods(self, s):
        return [('L', V.ov(IGN.term)), ('G:tr', None)]

    def pre(self, s):
        x = z3.Const('x', V)
        l0 = s.lst(IGN.term, True)
        return [('the rules in force were made before', ForAll([x], Implies(mem(x, l0), And(V.is_o(x), V.ov(x) < s.alloc())), patterns=[mem(x, l0)]))]

    def cm(self, ex, s, st, v):
        """the block: any code which leaves the rules as they were (well nested), or has cleared them all"""
        l0, l1 = s.lst(IGN.term, True), s.lst(IGN.term)
        ex.oblige('inside the block exactly one more rule is in force', st, And(l1 == L.snoc(l0, L.last(l1)), s.newobj(L.last(l1))))
        outs = []
        for cleared in (False, True):
            for kind in ('next', 'raise'):
                s2 = st.fork()
                if cleared:
                    s2.heap['L'] = z3.Store(s2.heap['L'], V.ov(IGN.term), nil)
                if kind == 'raise':
                    e = Sym(fresh('body_exc', V), EXC)
                    s2.assume(ex.type_facts(e.term, EXC, s2))
                    outs.append((s2, 'raise', e))
                else:
                    outs.append((s2, 'next', NONEV))
        return outs

    def post(self, s):
        l0, l1 = s.lst(IGN.term, True), s.lst(IGN.term)
        return [('after the block the rules of before are in force (none when all were cleared)', Or(l1 == l0, l1 == nil))]

    def exc_post(self, s):
        return self.post(s)


class Handles(Contract):
    key = W + 'WarnHandler.should_handle'
    params = {'self': 'obj:WarnHandler', 'record': 'obj:Record'}
    ret = 'bool'
    touches = ('f:level', 'f:channel', 'f:name')

    def post(self, s):
        native = s.f(s.record, 'channel', True) == s.f(s.ex.reg.globals['slash.warnings._native_logger'].term, 'name', True)
        return [('exactly the warnings of loggers are turned into warnings, except the echo of a warning already recorded',
                 V.bv(s.res) == And(Not(native), s.f(s.record, 'level', True) == s.f(s.self, 'level', True)))]


class Emit(Contract):
    key = W + 'WarnHandler.emit'
    params = {'self': 'obj:WarnHandler', 'record': 'obj:Record'}
    ret = 'none'
    may_raise = True
    touches = ('f:message', 'f:filename', 'f:lineno', 'f:module', 'G:tr')

    def mods(self, s):
        return [('G:tr', None)]

    def post(self, s):
        r = lambda n: s.f(s.record, n, True)
        cls = [c for c in [s.ex.cls_const(s.ex.proj.class_by_name('LogbookWarning'))]][0]
        return [('one warning with the message and place of the record', s.tr() == L.snoc(s.tr(True), vt(event('warn_explicit'), cls, r('filename'), r('lineno'), r('message'), r('module'))))]


class FromNative(Contract):
    key = W + 'RecordedWarning.from_native_warning'
    params = {'cls': lambda ex, st: ex.proj.class_by_name('RecordedWarning'), 'message': 'any', 'category': 'any', 'filename': 'any', 'lineno': 'any'}
    use_at_calls = False
    touches = ('f:session', 'f:test_id', 'f:session_id', 'f:details', 'f:key', 'f:category', 'f:_repr', 'Dv', 'Dk')
    name = W + 'RecordedWarning.from_native_warning'

    def post(self, s):
        d = lambda n: detail(s, s.res, n, False)
        return [('location and category are those of the original', And(d('filename') == s.filename, d('lineno') == s.lineno, s.f(s.res, 'category') == s.category))]


class Enter(Contract):
    key = 'slash/utils/warning_capture.py::warning_callback_context.__enter__'
    params = {'self': 'obj:warning_callback_context'}
    ret = 'none'
    may_raise = True
    touches = ('f:_callback', 'f:_module', 'f:_entered', 'f:_showwarning', 'f:showwarning')

    def mod(self, s):
        return s.f(s.self, '_module', True)

    def mods(self, s):
        return [('f:_entered', V.ov(s.self)), ('f:_showwarning', V.ov(s.self)), ('f:showwarning', V.ov(self.mod(s)))]

    def post(self, s):
        return [('warnings go to the callback', s.f(self.mod(s), 'showwarning') == s.f(s.self, '_callback', True)), ('only when not entered before', Not(V.bv(s.f(s.self, '_entered', True)))),
                ('the way of before is remembered', s.f(s.self, '_showwarning') == s.f(self.mod(s), 'showwarning', True)), ('entered', V.bv(s.f(s.self, '_entered')))]

    def exc_post(self, s):
        return [('entering twice changes nothing', And(V.bv(s.f(s.self, '_entered', True)), s.f(self.mod(s), 'showwarning') == s.f(self.mod(s), 'showwarning', True)))]


class Exit(Enter):
    key = 'slash/utils/warning_capture.py::warning_callback_context.__exit__'
    params = {'self': 'obj:warning_callback_context', '*exc_info': 'any'}

    def post(self, s):
        return [('warnings go where they went before', s.f(self.mod(s), 'showwarning') == s.f(s.self, '_showwarning', True)), ('exceptions pass', s.res == none)]

    def exc_post(self, s):
        return [('leaving without entering changes nothing', And(Not(V.bv(s.f(s.self, '_entered', True))), s.f(self.mod(s), 'showwarning') == s.f(self.mod(s), 'showwarning', True)))]


CONTRACTS = [PatternMatches(), Matches(), Filtered(), Add(), Capture(), Clear(), Ignore(), Block(), Handles(), Emit(), FromNative(), Enter(), Exit()]
ASSUMPTIONS = ['a regular expression object is one with a match method; matching has no effects', 'code in an ignored_warnings block leaves the rules as it found them or clears them all']
BOUNDED = ["the message text of a recorded warning, order across the two sources, test and session ids: bounded harness only"]
