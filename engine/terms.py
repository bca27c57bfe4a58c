"""SMT vocabulary: one universal value datatype V, snoc-lists L, folds over lists.

Every Python value the executor handles is a term of sort V:
  none | b(Bool) | i(Int) | s(Int: interned/abstract string) | o(Int: heap object) | t(L: tuple) | k(Int: static
  function/class constant) | absent (never a Python value: "no entry" marker)
"""
import z3

L = z3.DeclareSort('L')     # lists; not an SMT datatype (the solver would unfold every list term into snoc of snoc of ...)
_V = z3.Datatype('V')
_V.declare('none')
_V.declare('absent')
_V.declare('b', ('bv', z3.BoolSort()))
_V.declare('i', ('iv', z3.IntSort()))
_V.declare('s', ('sv', z3.IntSort()))
_V.declare('o', ('ov', z3.IntSort()))
_V.declare('k', ('kv', z3.IntSort()))
_V.declare('t', ('tv', L))
V = _V.create()
L.nil = z3.Const('nil', L)
L.snoc = z3.Function('snoc', L, V, L)
_init, _last = z3.Function('init', L, L), z3.Function('last', L, V)
_SNOC = L.snoc.get_id()


def _issn(l):
    return z3.is_app(l) and l.decl().get_id() == _SNOC


L.init = lambda l: l.arg(0) if _issn(l) else _init(l)
L.last = lambda l: l.arg(1) if _issn(l) else _last(l)
L.is_snoc = lambda l: l != L.nil
none, absent, nil = V.none, V.absent, L.nil
I, B = z3.IntSort(), z3.BoolSort()
MapS = z3.ArraySort(V, V)
SetS = z3.ArraySort(V, B)

_strings = {}
_consts = {}
_const_names = {}


def vs(text):
    """interned string literal"""
    if text not in _strings:
        _strings[text] = len(_strings)
    return V.s(z3.IntVal(_strings[text]))


def vk(name):
    """static constant (function, class, sentinel)"""
    if name not in _consts:
        _consts[name] = len(_consts)
        _const_names[_consts[name]] = name
    return V.k(z3.IntVal(_consts[name]))


def vi(x):
    return V.i(x if z3.is_expr(x) else z3.IntVal(x))


def vb(x):
    return V.b(x if z3.is_expr(x) else z3.BoolVal(x))


def vo(x):
    return V.o(x)


def mk(*vals):
    r = nil
    for v in vals:
        r = L.snoc(r, v)
    return r


def vt(*vals):
    return V.t(mk(*vals))


_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const('%s!%d' % (name, _fresh[0]), sort)


class Theory(object):
    """A set of axioms with the functions they define, each a structural recursion on L or an inductively proved lemma"""

    def __init__(self):
        self.axioms = []          # (name, formula)
        self.lemmas = []          # (name, [(case, formula to prove)]) proved by induction
        self.funs = {}

    def ax(self, name, f):
        self.axioms.append((name, f))

    def fold(self, name, rng, base, step, params=()):
        """f(params.., nil) = base(params..);  f(params.., snoc(l, x)) = step(params.., f(params.., l), x, l)"""
        if name in self.funs:
            return self.funs[name]
        ps = [z3.Const('p%d' % n, s) for n, s in enumerate(params)]
        l, x = z3.Const('l', L), z3.Const('x', V)
        f = z3.Function(name, *([s for s in params] + [L, rng]))
        b = base(*ps)
        if ps:
            self.ax(name + '.nil', z3.ForAll(ps, f(*(ps + [nil])) == b, patterns=[f(*(ps + [nil]))]))
        else:
            self.ax(name + '.nil', f(nil) == b)
        lhs = f(*(ps + [L.snoc(l, x)]))
        self.ax(name + '.snoc', z3.ForAll(ps + [l, x], lhs == step(*(ps + [f(*(ps + [l])), x, l])), patterns=[lhs]))
        self.funs[name] = f
        return f

    def lemma(self, name, params, stmt, patterns, extra=()):
        """forall params, l. stmt(params.., l), proved by induction on l (IH for all params), then used as an axiom"""
        ps = [z3.Const('p%d' % n, s) for n, s in enumerate(params)]
        l, x = z3.Const('l', L), z3.Const('x', V)
        sk = [fresh('sk', s) for s in params]
        l0, x0 = fresh('sl', L), fresh('sx', V)
        ih_body = stmt(*(ps + [l0]))
        ih = z3.ForAll(ps, ih_body, patterns=[z3.MultiPattern(*patterns(*(ps + [l0])))]) if ps else ih_body
        self.lemmas.append((name, [('base', stmt(*(sk + [nil]))),
                                   ('step', z3.Implies(ih, stmt(*(sk + [L.snoc(l0, x0)]))))],
                            len(self.axioms)))
        self.ax('lemma ' + name, z3.ForAll(ps + [l], stmt(*(ps + [l])),
                                           patterns=[z3.MultiPattern(*patterns(*(ps + [l])))]))


T = Theory()
_l, _v = z3.Const('l', L), z3.Const('x', V)
T.ax('list.snoc', z3.ForAll([_l, _v], z3.And(_init(L.snoc(_l, _v)) == _l, _last(L.snoc(_l, _v)) == _v, L.snoc(_l, _v) != nil,
                                             L.snoc(_l, _v) != _l), patterns=[L.snoc(_l, _v)]))
T.ax('list.cases.init', z3.ForAll([_l], z3.Or(_l == nil, _l == L.snoc(_init(_l), _last(_l))), patterns=[_init(_l)]))
T.ax('list.cases.last', z3.ForAll([_l], z3.Or(_l == nil, _l == L.snoc(_init(_l), _last(_l))), patterns=[_last(_l)]))

# ---- lists -------------------------------------------------------------------------------------------------------
length = T.fold('len', I, lambda: z3.IntVal(0), lambda r, x, l: r + 1)
mem = T.fold('mem', B, lambda v: z3.BoolVal(False), lambda v, r, x, l: z3.Or(r, x == v), (V,))
_a, _b, _x = z3.Const('a', L), z3.Const('b_', L), z3.Const('x', V)
# app(a, b): a ++ b ; recursion on b
app = z3.Function('app', L, L, L)
T.ax('app.nil', z3.ForAll([_a], app(_a, nil) == _a, patterns=[app(_a, nil)]))
T.ax('app.snoc', z3.ForAll([_a, _b, _x], app(_a, L.snoc(_b, _x)) == L.snoc(app(_a, _b), _x),
                           patterns=[app(_a, L.snoc(_b, _x))]))
T.lemma('app.nil_left', (), lambda l: app(nil, l) == l, lambda l: [app(nil, l)])
T.lemma('app.assoc', (L, L), lambda p, q, l: app(app(p, q), l) == app(p, app(q, l)),
        lambda p, q, l: [app(app(p, q), l)])
T.lemma('len.app', (L,), lambda p, l: length(app(p, l)) == length(p) + length(l), lambda p, l: [length(app(p, l))])
T.lemma('len.nonneg', (), lambda l: length(l) >= 0, lambda l: [length(l)])
T.lemma('len.zero', (), lambda l: (length(l) == 0) == (l == nil), lambda l: [length(l)])
T.lemma('mem.app', (V, L), lambda v, p, l: mem(v, app(p, l)) == z3.Or(mem(v, p), mem(v, l)),
        lambda v, p, l: [mem(v, app(p, l))])
# revapp(t, l): t ++ reverse(l)
revapp = z3.Function('revapp', L, L, L)
T.ax('revapp.nil', z3.ForAll([_a], revapp(_a, nil) == _a, patterns=[revapp(_a, nil)]))
T.ax('revapp.snoc', z3.ForAll([_a, _b, _x], revapp(_a, L.snoc(_b, _x)) == revapp(L.snoc(_a, _x), _b),
                              patterns=[revapp(_a, L.snoc(_b, _x))]))
T.lemma('len.revapp', (L,), lambda p, l: length(revapp(p, l)) == length(p) + length(l),
        lambda p, l: [length(revapp(p, l))])
T.lemma('mem.revapp', (V, L), lambda v, p, l: mem(v, revapp(p, l)) == z3.Or(mem(v, p), mem(v, l)),
        lambda v, p, l: [mem(v, revapp(p, l))])
# list.remove(v): drop the first occurrence
remove1 = T.fold('remove1', L, lambda v: nil,
                 lambda v, r, x, l: z3.If(mem(v, l), L.snoc(r, x), z3.If(x == v, l, L.snoc(r, x))), (V,))
T.lemma('remove1.absent', (V,), lambda v, l: z3.Implies(z3.Not(mem(v, l)), remove1(v, l) == l),
        lambda v, l: [remove1(v, l)])
nodup = T.fold('nodup', B, lambda: z3.BoolVal(True), lambda r, x, l: z3.And(r, z3.Not(mem(x, l))))
T.lemma('remove1.mem', (V, V), lambda v, w, l: z3.Implies(nodup(l), mem(w, remove1(v, l)) == z3.And(mem(w, l), w != v)),
        lambda v, w, l: [mem(w, remove1(v, l))])
T.lemma('remove1.nodup', (V,), lambda v, l: z3.Implies(nodup(l), nodup(remove1(v, l))),
        lambda v, l: [nodup(remove1(v, l))])
T.lemma('remove1.len', (V,), lambda v, l: z3.Implies(mem(v, l), length(remove1(v, l)) == length(l) - 1),
        lambda v, l: [length(remove1(v, l))])
# nth from the front
nth = z3.Function('nth', L, I, V)
_n = z3.Const('n', I)
T.ax('nth.snoc', z3.ForAll([_a, _x, _n], nth(L.snoc(_a, _x), _n) == z3.If(_n == length(_a), _x, nth(_a, _n)),
                           patterns=[nth(L.snoc(_a, _x), _n)]))
# prefix p of l: l = p ++ rest, recursion on l
prefix = T.fold('prefix', B, lambda p: p == nil, lambda p, r, x, l: z3.Or(p == L.snoc(l, x), r), (L,))
T.lemma('prefix.refl', (), lambda l: prefix(l, l), lambda l: [prefix(l, l)])
T.lemma('prefix.nil', (), lambda l: prefix(nil, l), lambda l: [prefix(nil, l)])
T.lemma('prefix.len', (L,), lambda p, l: z3.Implies(prefix(p, l), length(p) <= length(l)),
        lambda p, l: [prefix(p, l), length(p), length(l)])
T.lemma('prefix.init', (L, V), lambda p, x, l: z3.Implies(prefix(L.snoc(p, x), l), prefix(p, l)),
        lambda p, x, l: [prefix(L.snoc(p, x), l)])
T.lemma('prefix.mem', (L, V), lambda p, v, l: z3.Implies(z3.And(prefix(p, l), mem(v, p)), mem(v, l)),
        lambda p, v, l: [prefix(p, l), mem(v, p)])
# seq of ints 0..n-1
upto = z3.Function('upto', I, L)
T.ax('upto.0', z3.ForAll([_n], z3.Implies(_n <= 0, upto(_n) == nil), patterns=[upto(_n)]))
T.ax('upto.n', z3.ForAll([_n], z3.Implies(_n > 0, upto(_n) == L.snoc(upto(_n - 1), V.i(_n - 1))),
                         patterns=[z3.MultiPattern(upto(_n), length(upto(_n)))]))

# ---- classes -----------------------------------------------------------------------------------------------------
isinst = z3.Function('isinst', V, I, B)      # isinst(value, class id)
truthy_f = z3.Function('truthy', V, B)
T.ax('truthy.b', z3.ForAll([_x], z3.Implies(V.is_b(_x), truthy_f(_x) == V.bv(_x)), patterns=[truthy_f(_x)]))
T.ax('truthy.none', z3.Not(truthy_f(none)))
T.ax('truthy.i', z3.ForAll([_x], z3.Implies(V.is_i(_x), truthy_f(_x) == (V.iv(_x) != 0)), patterns=[truthy_f(_x)]))
T.ax('truthy.s', z3.ForAll([_x], z3.Implies(V.is_s(_x), truthy_f(_x) == (_x != vs(''))), patterns=[truthy_f(_x)]))
strf = z3.Function('strf', I, L, I)          # uninterpreted string-valued operation
