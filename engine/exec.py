"""Symbolic execution of the extracted Python functions, generating verification conditions.

Forward symbolic execution with one z3 array per heap component; every branch forks, every loop is cut at an inductive
invariant (found by Houdini filtering of candidate invariants), every call to a function under contract uses the
contract, every other repository function is inlined from its current source, every external function needs a model.
"""
import os, ast, z3, builtins, itertools
from . import terms as T_
from .terms import (V, L, none, absent, nil, vk, vs, vi, vb, vo, vt, fresh, mk, mem, length, app, MapS, SetS, T, strf,
                    truthy_f, remove1, prefix, revapp)
from .values import (Unsupported, Ty, ty, ANY, INT, BOOL, STR, NONE, EXC, Sym, Fn, ClsV, Bound, BoundExt, Ext, Tup, Seq,
                     Partial, CMV, CMExt, Super, State)
from .solver import feasible, prove

ALLOC0 = z3.Const("alloc0", z3.IntSort())

NONEV = Sym(none, NONE)
isin = z3.Function('isin', V, V, z3.BoolSort())
_e, _l, _c = z3.Const('e', V), z3.Const('l', L), z3.Const('c', V)
T.ax('isin.nil', z3.ForAll([_e], z3.Not(isin(_e, V.t(nil))), patterns=[isin(_e, V.t(nil))]))
T.ax('isin.snoc', z3.ForAll([_e, _l, _c], isin(_e, V.t(L.snoc(_l, _c))) == z3.Or(isin(_e, V.t(_l)), isin(_e, _c)),
                            patterns=[isin(_e, V.t(L.snoc(_l, _c)))]))
isin_l = T.fold('isin_l', z3.BoolSort(), lambda e: z3.BoolVal(False), lambda e, r, x, l: z3.Or(r, isin(e, x)), (V,))
T.ax('isin.list', z3.ForAll([_e, _l], isin(_e, V.t(_l)) == isin_l(_e, _l), patterns=[isin(_e, V.t(_l))]))
T.lemma('isin_l.app', (V, L), lambda e, p, l: isin_l(e, app(p, l)) == z3.Or(isin_l(e, p), isin_l(e, l)),
        lambda e, p, l: [isin_l(e, app(p, l))])
str_in = z3.Function('str_in', V, V, z3.BoolSort())
lt_f = z3.Function('py_lt', V, V, z3.BoolSort())
has_attr = z3.Function('has_attr', V, z3.IntSort(), z3.BoolSort())
attr_f = z3.Function('attr', V, z3.IntSort(), V)

COMP_SORT = {'L': L, 'Dk': L, 'Dv': MapS, 'S': SetS}


def comp_sort(c):
    if c in COMP_SORT:
        return COMP_SORT[c]
    return V


def is_ghost(c):
    return c.startswith('G:')


def ghost_sort(c):
    return L


class LoopInfo(object):
    pass


DEBUG = os.environ.get('ENGINE_DEBUG')


class Exec(object):
    MAX_DEPTH = 12

    def __init__(self, proj, registry, contract=None):
        self.proj, self.reg, self.contract = proj, registry, contract
        self.obligations = []      # (name, hyps, goal)
        self.recording = 1
        self.axioms = T.axioms
        self.fresh_ids = set()
        self.depth = 0
        self.fcount = 0
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.loop_n = 0
        self.mod_only, self.h_allowed, self.h_seen = False, None, None
        self.cls_seen = {}
        self.npaths = 0
        self.loop_log = []

    # ------------------------------------------------------------------------------------------------- utilities
    def oblige(self, name, st, goal):
        if self.recording > 0:
            self.obligations.append((name, st.pc, goal))

    def feasible(self, st):
        return feasible(st.pc, self.axioms)

    def branch(self, st, cond):
        """-> (state where cond or None, state where not cond or None)"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return st, None
        if z3.is_false(cond):
            return None, st
        a, b = st.fork().assume(cond), st.fork().assume(z3.Not(cond))
        fa, fb = self.feasible(a), self.feasible(b)
        return (a if fa else None), (b if fb else None)

    def new_frame(self, st, parent=None, **extra):
        self.fcount += 1
        st.frames[self.fcount] = dict(extra)
        st.frames[self.fcount]['$parent'] = parent
        return self.fcount

    # ---- heap ----
    def comp(self, st, c):
        if c not in st.heap:
            raise Unsupported('heap component %s not initialised' % c)
        return st.heap[c]

    def ensure(self, st, c):
        """components exist from the entry state on (one symbolic constant per component)"""
        if c not in st.heap:
            if is_ghost(c):
                st.heap[c] = z3.Const('H0:' + c, ghost_sort(c))
            else:
                st.heap[c] = z3.Const('H0:' + c, z3.ArraySort(z3.IntSort(), comp_sort(c)))
        return st.heap[c]

    def hget(self, st, c, oid):
        return z3.simplify(z3.Select(self.ensure(st, c), oid))

    def hset(self, st, c, oid, val):
        st.heap[c] = z3.Store(self.ensure(st, c), oid, val)
        st.writes = st.writes + ((c, oid),)

    def gset(self, st, c, val):
        self.ensure(st, c)
        st.heap[c] = val
        st.writes = st.writes + ((c, None),)

    def emit(self, st, *vals):
        """append an event to the ghost trace"""
        tr = self.ensure(st, 'G:tr')
        self.gset(st, 'G:tr', L.snoc(tr, vt(*vals)))

    def alloc(self, st):
        a = st.heap['alloc']
        oid = z3.simplify(a)
        self.fresh_ids.add(oid.sexpr())
        st.heap['alloc'] = z3.simplify(a + 1)
        st.writes = st.writes + (('alloc', None),)
        return oid

    def new_list(self, st, term, ety=ANY):
        oid = self.alloc(st)
        self.hset(st, 'L', oid, term)
        return Sym(V.o(oid), Ty('list', [ty(ety)]))

    def new_dict(self, st, kt=ANY, vt_=ANY):
        oid = self.alloc(st)
        self.hset(st, 'Dk', oid, nil)
        self.hset(st, 'Dv', oid, z3.K(V, absent))
        return Sym(V.o(oid), Ty('dict', [ty(kt), ty(vt_)]))

    def new_set(self, st, et=ANY):
        oid = self.alloc(st)
        self.hset(st, 'S', oid, z3.K(V, z3.BoolVal(False)))
        return Sym(V.o(oid), Ty('set', [ty(et)]))

    def new_obj(self, st, clsname):
        oid = self.alloc(st)
        return Sym(V.o(oid), ty('obj:' + clsname))

    def oid(self, v):
        t = v.term
        if z3.is_app(t) and t.decl().name() == 'o':
            return t.arg(0)
        return V.ov(t)

    def type_facts(self, term, t, st):
        k = t.kind
        alloc = ALLOC0 if self.entry_term(term) else st.heap['alloc']
        isobj = lambda: z3.And(V.is_o(term), V.ov(term) >= 0, V.ov(term) < alloc)
        if k == 'int':
            return V.is_i(term)
        if k == 'bool':
            return V.is_b(term)
        if k == 'str':
            return V.is_s(term)
        if k == 'none':
            return term == none
        if k in ('obj', 'list', 'dict', 'set', 'exc'):
            return isobj()
        if k in ('tuple', 'tup'):
            return V.is_t(term)
        if k == 'opt':
            return z3.Or(term == none, self.type_facts(term, t.args[0], st))
        if k in ('fn', 'cb'):
            return z3.And(term != none, term != absent)
        return z3.And(term != absent, z3.Implies(V.is_o(term), z3.And(V.ov(term) >= 0, V.ov(term) < alloc)))

    def entry_term(self, term):
        """the term only reads the heap as it was at entry, starting from parameters (so it denotes something allocated at entry)"""
        todo, seen = [term], 0
        while todo:
            x = todo.pop()
            seen += 1
            if seen > 60 or not z3.is_app(x):
                return False
            d = x.decl()
            nm = d.name()
            if x.num_args() == 0:
                if not (nm.startswith('H0:') or nm.startswith('arg_') or nm == 'CTX' or z3.is_string_value(x)):
                    return False
            elif nm not in ('select', 'ov', 'tv', 'last', 'init'):
                return False
            todo.extend(x.children())
        return True

    def load(self, st, term, t):
        """a value of declared type t read from the heap"""
        t = ty(t)
        st.assume(self.type_facts(term, t, st))
        return Sym(term, t)

    # ---- conversion ----
    def to_v(self, v):
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, Tup):
            return vt(*[self.to_v(x) for x in v.items])
        if isinstance(v, Fn):
            if v.frame is None:
                return vk('fn ' + v.key)
            k = vk('closure %s %s' % (v.key, v.node.lineno))
            self.reg.closures[k.sexpr()] = v
            return k
        if isinstance(v, ClsV):
            return vk('cls ' + v.name)
        if isinstance(v, Ext):
            return vk('ext ' + v.name)
        if isinstance(v, Bound):
            return V.t(mk(vk('bound ' + v.fn.key), self.to_v(v.recv)))
        if isinstance(v, BoundExt):
            return V.t(mk(vk('boundext %s.%s' % (v.cls, v.meth)), self.to_v(v.recv)))
        if isinstance(v, Partial):
            return V.t(mk(vk('partial'), self.to_v(v.fn), *[self.to_v(a) for a in v.args]))
        if isinstance(v, Seq):
            return V.t(v.term)
        raise Unsupported('value %r cannot be stored' % (v,))

    def ty_of(self, v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, Tup):
            return Ty('tuple', [self.ty_of(x) for x in v.items])
        if isinstance(v, (Fn, Bound, BoundExt, Ext, Partial)):
            return ty('fn')
        return ANY

    def const(self, x):
        if x is None:
            return NONEV
        if x is True or x is False:
            return Sym(vb(x), BOOL)
        if isinstance(x, int):
            return Sym(vi(x), INT)
        if isinstance(x, str):
            return Sym(vs(x), STR)
        if isinstance(x, (float, bytes)) or x is Ellipsis:
            return Sym(vk('const %r' % (x,)))
        raise Unsupported('constant %r' % (x,))

    def untuple(self, v, n=None):
        """elements of a tuple-valued value with statically known length"""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Sym) and v.ty.kind == 'tuple':
            l = V.tv(v.term)
            out = []
            for k in reversed(range(len(v.ty.args))):
                out.append(Sym(z3.simplify(L.last(l)), v.ty.args[k]))
                l = L.init(l)
            return out[::-1]
        return None

    # ---- truth ----
    def truth(self, v, st, exc):
        """yields (state, z3 Bool)"""
        if isinstance(v, (Fn, ClsV, Bound, BoundExt, Ext, Partial, CMV)):
            yield st, z3.BoolVal(True)
            return
        if isinstance(v, Tup):
            yield st, z3.BoolVal(bool(v.items))
            return
        if isinstance(v, Seq):
            yield st, v.term != nil
            return
        k = v.ty.kind
        t = v.term
        if k == 'bool':
            yield st, z3.simplify(V.bv(t))
        elif k == 'int':
            yield st, V.iv(t) != 0
        elif k == 'str':
            yield st, t != vs('')
        elif k == 'none':
            yield st, z3.BoolVal(False)
        elif k == 'list':
            yield st, self.hget(st, 'L', self.oid(v)) != nil
        elif k == 'dict':
            yield st, self.hget(st, 'Dk', self.oid(v)) != nil
        elif k == 'set':
            yield st, self.hget(st, 'S', self.oid(v)) != z3.K(V, z3.BoolVal(False))
        elif k in ('fn', 'cb', 'exc'):
            yield st, z3.BoolVal(True)
        elif k in ('tuple',):
            yield st, z3.BoolVal(bool(v.ty.args))
        elif k == 'tup':
            yield st, V.tv(t) != nil
        elif k == 'opt':
            a, b = self.branch(st, t == none)
            if a is not None:
                yield a, z3.BoolVal(False)
            if b is not None:
                for r in self.truth(Sym(t, v.ty.args[0]), b, exc):
                    yield r
        elif k == 'obj':
            cls = self.proj.class_by_name(v.ty.name)
            for m in ('__bool__', '__len__'):
                hit = cls and self.proj.lookup(cls, m)
                if hit and isinstance(hit[1], ast.FunctionDef):
                    for st2, r in self.call_method_node(v, hit, [], {}, st, exc):
                        for x in self.truth(r, st2, exc):
                            yield x
                    return
            yield st, z3.BoolVal(True)
        else:
            yield st, truthy_f(t)

    # ---- equality ----
    def eq(self, a, b, st):
        """z3 Bool for a == b"""
        ta, tb = self.untuple(a), self.untuple(b)
        if ta is not None and tb is not None:
            if len(ta) != len(tb):
                return z3.BoolVal(False)
            return z3.And([self.eq(x, y, st) for x, y in zip(ta, tb)]) if ta else z3.BoolVal(True)
        if isinstance(a, Sym) and isinstance(b, Sym):
            ka, kb = a.ty.kind, b.ty.kind
            if ka == 'list' and kb == 'list':
                return self.hget(st, 'L', self.oid(a)) == self.hget(st, 'L', self.oid(b))
            if ka == 'dict' and kb == 'dict':
                return self.hget(st, 'Dv', self.oid(a)) == self.hget(st, 'Dv', self.oid(b))
            if ka == 'obj' and kb == 'obj':
                m = self.reg.eq_models.get(a.ty.name)
                if m:
                    return m(self, a, b, st)
            return a.term == b.term
        return self.to_v(a) == self.to_v(b)

    # ---- classes ----
    def cls_const(self, c):
        """V constant for a class value; known lattice facts become axioms on demand"""
        if isinstance(c, Ext):
            return vk('cls ' + c.name.split('.')[-1])
        k = vk('cls ' + c.name)
        if c.name not in self.cls_seen:
            self.cls_seen[c.name] = c
        return k

    def lattice_facts(self, term, st):
        """subclass facts for one exception/object term over every class mentioned so far"""
        for n, c in list(self.cls_seen.items()):
            for b in self.proj.mro(c)[1:]:
                if isinstance(b, ClsV) and b.name in self.cls_seen:
                    st.assume(z3.Implies(isin(term, vk('cls ' + n)), isin(term, vk('cls ' + b.name))))

    def class_list(self, v):
        """a class, tuple of classes -> V term usable in isin"""
        if isinstance(v, Tup):
            l = nil
            for x in v.items:
                l = L.snoc(l, self.class_list(x))
            return V.t(l)
        if isinstance(v, (ClsV, Ext)):
            return self.cls_const(v)
        if isinstance(v, Sym):
            return v.term
        raise Unsupported('isinstance against %r' % (v,))

    def isinstance_(self, v, c, st):
        if isinstance(c, Tup):
            return z3.Or([self.isinstance_(v, x, st) for x in c.items]) if c.items else z3.BoolVal(False)
        if isinstance(c, ClsV) and c.builtin is not None:
            n = c.name
            table = {'list': ('list',), 'dict': ('dict',), 'tuple': ('tuple', 'tup'), 'str': ('str',), 'int': ('int', 'bool'),
                     'bool': ('bool',), 'set': ('set',)}
            if n in table:
                if isinstance(v, Tup):
                    return z3.BoolVal(n == 'tuple')
                if not isinstance(v, Sym):
                    return z3.BoolVal(False)
                k = v.ty.kind
                if k == 'opt':
                    return z3.And(v.term != none, self.isinstance_(Sym(v.term, v.ty.args[0]), c, st))
                if k not in ('any',):
                    return z3.BoolVal(k in table[n])
                if n == 'str':
                    return V.is_s(v.term)
                if n == 'bool':
                    return V.is_b(v.term)
                if n == 'int':
                    return z3.Or(V.is_i(v.term), V.is_b(v.term))
                if n == 'tuple':
                    return V.is_t(v.term)
                return isin(v.term, vk('cls ' + n))
            if n in ('BaseException',) and isinstance(v, Sym) and v.ty.kind == 'exc':
                return z3.BoolVal(True)
        if isinstance(v, (Fn, ClsV, Bound, Ext, Partial, BoundExt)) and isinstance(c, ClsV) and c.builtin is not None \
                and issubclass(c.builtin, BaseException):
            return z3.BoolVal(False)
        if isinstance(v, Sym) and v.ty.kind == 'opt' and v.ty.args[0].kind in ('obj', 'exc'):
            return z3.And(v.term != none, self.isinstance_(Sym(v.term, v.ty.args[0]), c, st))
        if isinstance(v, Sym) and v.ty.kind in ('str', 'int', 'bool', 'none', 'list', 'dict', 'set', 'tuple') and \
                isinstance(c, ClsV) and c.builtin is None:
            return z3.BoolVal(False)
        cl = self.class_list(c)
        if isinstance(v, Sym) and v.ty.kind == 'obj' and isinstance(c, ClsV):
            mine = self.proj.class_by_name(v.ty.name)
            if mine is not None and any(getattr(b, 'name', None) == c.name for b in self.proj.mro(mine)):
                return z3.BoolVal(True)
        t = self.to_v(v)
        self.lattice_facts(t, st)
        return isin(t, cl)

    def new_exc(self, st, cls):
        """fresh exception object of exactly this class"""
        e = self.new_obj(st, cls.name if isinstance(cls, ClsV) else cls.name.split('.')[-1])
        self.cls_const(cls)
        e = Sym(e.term, EXC)
        mro = {getattr(b, 'name', '').split('.')[-1] for b in self.proj.mro(cls)} if isinstance(cls, ClsV) else {cls.name.split('.')[-1]}
        known_root = isinstance(cls, ClsV) and ('BaseException' in mro)
        for n in ('Exception', 'BaseException', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'StopIteration'):
            self.cls_const(self.proj.builtin(n))
        for n, c in self.cls_seen.items():
            if n in mro:
                st.assume(isin(e.term, vk('cls ' + n)))
            elif known_root:
                st.assume(z3.Not(isin(e.term, vk('cls ' + n))))
        self.hset(st, 'f:$cls', self.oid(e), self.cls_const(cls))
        return e

    def raise_builtin(self, st, name, exc):
        st = st.fork()
        e = self.new_exc(st, self.proj.builtin(name))
        exc.append((st, e))

    # ------------------------------------------------------------------------------------------------- expressions
    def ev(self, n, st, exc):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(n).__name__, getattr(n, 'lineno', '?')))
        return m(n, st, exc)

    def ev_list(self, nodes, st, exc):
        if not nodes:
            yield st, []
            return
        for st1, v in self.ev(nodes[0], st, exc):
            for st2, rest in self.ev_list(nodes[1:], st1, exc):
                yield st2, [v] + rest

    def ev_Constant(self, n, st, exc):
        yield st, self.const(n.value)

    def ev_JoinedStr(self, n, st, exc):
        parts = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        for st1, vals in self.ev_list(parts, st, exc):
            yield st1, self.mkstr('fstr ' + ast.unparse(n), vals)

    def mkstr(self, op, vals):
        l = nil
        for v in vals:
            try:
                l = L.snoc(l, self.to_v(v))
            except Unsupported:
                l = L.snoc(l, none)
        return Sym(V.s(strf(V.kv(vk('str ' + op)), l)), STR)

    def lookup_name(self, name, st):
        fid = st.fid
        while fid is not None:
            fr = st.frames[fid]
            if name in fr:
                return fr[name]
            module = fr.get('$module')
            if name in fr.get('$locals', ()):
                raise Unsupported('local %s possibly unassigned' % name)
            parent = fr.get('$parent')
            if parent is None:
                break
            fid = parent
        g = self.proj.global_name(module, name, self.reg.globals)
        if g is None:
            ov = self.reg.globals.get('builtins.' + name)
            if ov is not None:
                return ov
            if not hasattr(builtins, name):
                raise Unsupported('unknown name %s' % name)
            g = self.proj.builtin(name)
        return self.module_value(g, name, st)

    def module_value(self, g, name, st):
        if isinstance(g, tuple):
            if g[0] == 'const':
                return self.const(g[1])
            # a module-level expression: evaluate in module scope
            f = self.new_frame(st, None)
            st.frames[f]['$module'] = g[2]
            old = st.fid
            st.fid = f
            res = list(self.ev(g[1], st, []))
            if len(res) != 1:
                raise Unsupported('module constant %s' % name)
            res[0][0].fid = old
            st.pc, st.heap = res[0][0].pc, res[0][0].heap
            st.fid = old
            return res[0][1]
        return g

    def ev_Name(self, n, st, exc):
        yield st, self.lookup_name(n.id, st)

    def ev_Tuple(self, n, st, exc):
        for st1, items in self.ev_star(n.elts, st, exc):
            yield st1, items

    def ev_star(self, elts, st, exc):
        """elements possibly starred -> Tup (static) or Seq"""
        if not any(isinstance(e, ast.Starred) for e in elts):
            for st1, vals in self.ev_list(elts, st, exc):
                yield st1, Tup(vals)
            return
        for st1, vals in self.ev_list([e.value if isinstance(e, ast.Starred) else e for e in elts], st, exc):
            term, static, ok = nil, [], True
            for e, v in zip(elts, vals):
                if isinstance(e, ast.Starred):
                    u = self.untuple(v)
                    if u is not None:
                        static.extend(u)
                        for x in u:
                            term = L.snoc(term, self.to_v(x))
                    else:
                        ok = False
                        term = app(term, self.seq(v, st1).term)
                else:
                    static.append(v)
                    term = L.snoc(term, self.to_v(v))
            yield st1, (Tup(static) if ok else Seq(term, ANY))

    def ev_List(self, n, st, exc):
        for st1, t in self.ev_star(n.elts, st, exc):
            if isinstance(t, Tup):
                term = mk(*[self.to_v(x) for x in t.items])
                tys = {self.ty_of(x) for x in t.items}
                ety = tys.pop() if len(tys) == 1 else ANY
            else:
                term, ety = t.term, t.ety
            lst = self.new_list(st1, term, ety)
            if isinstance(t, Tup):
                lst.rec = ('static', t.items, term)
            yield st1, lst

    def ev_Set(self, n, st, exc):
        for st1, vals in self.ev_list(n.elts, st, exc):
            s = self.new_set(st1)
            arr = z3.K(V, z3.BoolVal(False))
            for v in vals:
                arr = z3.Store(arr, self.to_v(v), z3.BoolVal(True))
            self.hset(st1, 'S', self.oid(s), arr)
            yield st1, s

    def ev_Dict(self, n, st, exc):
        if any(k is None for k in n.keys):
            raise Unsupported('dict unpacking')
        for st1, vals in self.ev_list([x for kv in zip(n.keys, n.values) for x in kv], st, exc):
            vtys = {self.ty_of(v) for v in vals[1::2]}
            ktys = {self.ty_of(v) for v in vals[0::2]}
            d = self.new_dict(st1, ktys.pop() if len(ktys) == 1 else ANY, vtys.pop() if len(vtys) == 1 else ANY)
            for k, v in zip(vals[0::2], vals[1::2]):
                self.dict_store(st1, d, k, v)
            yield st1, d

    def dict_store(self, st, d, k, v):
        oid = self.oid(d)
        kt, vt_ = self.to_v(k), self.to_v(v)
        keys, m = self.hget(st, 'Dk', oid), self.hget(st, 'Dv', oid)
        newkeys = z3.If(z3.Select(m, kt) == absent, L.snoc(keys, kt), keys)
        self.hset(st, 'Dk', oid, z3.simplify(newkeys))
        self.hset(st, 'Dv', oid, z3.Store(m, kt, vt_))

    def ev_IfExp(self, n, st, exc):
        for st1, c in self.cond(n.test, st, exc):
            a, b = self.branch(st1, c)
            if a is not None:
                for r in self.ev(n.body, a, exc):
                    yield r
            if b is not None:
                for r in self.ev(n.orelse, b, exc):
                    yield r

    def cond(self, n, st, exc):
        """evaluate an expression for its truth value: yields (state, z3 Bool)"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)

            def go(vals, st):
                for st1, c in self.cond(vals[0], st, exc):
                    if len(vals) == 1:
                        yield st1, c
                        continue
                    a, b = self.branch(st1, c)
                    stop, cont = (b, a) if isand else (a, b)
                    if stop is not None:
                        yield stop, z3.BoolVal(not isand)
                    if cont is not None:
                        for r in go(vals[1:], cont):
                            yield r
            for r in go(n.values, st):
                yield r
            return
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            for st1, c in self.cond(n.operand, st, exc):
                yield st1, z3.Not(c)
            return
        for st1, v in self.ev(n, st, exc):
            for r in self.truth(v, st1, exc):
                yield r

    def ev_BoolOp(self, n, st, exc):
        isand = isinstance(n.op, ast.And)

        def go(vals, st):
            for st1, v in self.ev(vals[0], st, exc):
                if len(vals) == 1:
                    yield st1, v
                    continue
                for st2, c in self.truth(v, st1, exc):
                    a, b = self.branch(st2, c)
                    stop, cont = (b, a) if isand else (a, b)
                    if stop is not None:
                        yield stop, self.narrow(v, not isand)
                    if cont is not None:
                        for r in go(vals[1:], cont):
                            yield r
        return go(n.values, st)

    def narrow(self, v, truth):
        if isinstance(v, Sym) and v.ty.kind == 'opt' and truth:
            return Sym(v.term, v.ty.args[0])
        return v

    def ev_UnaryOp(self, n, st, exc):
        if isinstance(n.op, ast.Not):
            for st1, c in self.cond(n.operand, st, exc):
                yield st1, Sym(V.b(z3.simplify(z3.Not(c))), BOOL)
            return
        for st1, v in self.ev(n.operand, st, exc):
            if isinstance(n.op, ast.USub) and isinstance(v, Sym) and v.ty.kind == 'int':
                yield st1, Sym(V.i(z3.simplify(-V.iv(v.term))), INT)
            elif isinstance(n.op, ast.UAdd) and isinstance(v, Sym) and v.ty.kind == 'int':
                yield st1, v
            else:
                raise Unsupported('unary operator')

    def ev_BinOp(self, n, st, exc):
        for st1, (a, b) in self.ev_list([n.left, n.right], st, exc):
            for r in self.binop(n.op, a, b, st1, exc):
                yield r

    def binop(self, op, a, b, st, exc):
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            yield st, Tup(a.items + b.items)
            return
        ka = a.ty.kind if isinstance(a, Sym) else type(a).__name__
        kb = b.ty.kind if isinstance(b, Sym) else type(b).__name__
        if 'opt' in (ka, kb):
            o = a if ka == 'opt' else b
            x, y = self.branch(st, o.term == none)
            if x is not None:
                self.raise_builtin(x, 'TypeError', exc)
            if y is not None:
                o2 = Sym(o.term, o.ty.args[0])
                for r in self.binop(op, o2 if o is a else a, o2 if o is b and o is not a else b, y, exc):
                    yield r
            return
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            x = V.iv(a.term) if ka == 'int' else z3.If(V.bv(a.term), z3.IntVal(1), z3.IntVal(0))
            y = V.iv(b.term) if kb == 'int' else z3.If(V.bv(b.term), z3.IntVal(1), z3.IntVal(0))
            if isinstance(op, ast.Add):
                r = x + y
            elif isinstance(op, ast.Sub):
                r = x - y
            elif isinstance(op, ast.Mult):
                r = x * y
            else:
                raise Unsupported('int operator %s' % type(op).__name__)
            yield st, Sym(V.i(z3.simplify(r)), INT)
        elif isinstance(op, ast.Add) and ka == 'list' and kb == 'list':
            ety = a.ty.args[0] if a.ty.args[0] == b.ty.args[0] else ANY
            yield st, self.new_list(st, app(self.hget(st, 'L', self.oid(a)), self.hget(st, 'L', self.oid(b))), ety)
        elif isinstance(op, ast.Add) and (ka in ('tup', 'Tup', 'tuple') and kb in ('tup', 'Tup', 'tuple')):
            yield st, Sym(V.t(app(V.tv(self.to_v(a)), V.tv(self.to_v(b)))), ty('tup'))
        elif isinstance(op, ast.Add) and 'str' in (ka, kb):
            yield st, self.mkstr('+', [a, b])
        elif isinstance(op, ast.Mod) and ka == 'str':
            yield st, self.mkstr('%', [a, b])
        elif isinstance(op, (ast.Sub, ast.Add, ast.Mult, ast.FloorDiv)) and ('any' in (ka, kb)):
            yield st, Sym(attr_f(V.t(mk(self.to_v(a), self.to_v(b))), V.kv(vk('op ' + type(op).__name__))))
        elif ka == 'obj':
            meth = {'Add': '__add__', 'Sub': '__sub__'}.get(type(op).__name__)
            for st1, f in self.getattr_(a, meth, st, exc):
                for r in self.call(f, [b], {}, st1, exc):
                    yield r
        else:
            raise Unsupported('operator %s on %s, %s' % (type(op).__name__, ka, kb))

    def ev_Compare(self, n, st, exc):
        if len(n.ops) > 1:
            # a < b < c : desugar (operands are re-evaluated: require simple middle operands)
            vals = []
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                vals.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[right]), n))
                left = right
            for r in self.ev(ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), n), st, exc):
                yield r
            return
        for st1, (a, b) in self.ev_list([n.left, n.comparators[0]], st, exc):
            for st2, c in self.compare(n.ops[0], a, b, st1, exc):
                yield st2, Sym(V.b(z3.simplify(c)), BOOL)

    def compare(self, op, a, b, st, exc):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.to_v(a) == self.to_v(b)
            yield st, (z3.Not(r) if isinstance(op, ast.IsNot) else r)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, st)
            yield st, (z3.Not(r) if isinstance(op, ast.NotEq) else r)
        elif isinstance(op, (ast.In, ast.NotIn)):
            for st1, r in self.contains(b, a, st, exc):
                yield st1, (z3.Not(r) if isinstance(op, ast.NotIn) else r)
        else:
            ka = a.ty.kind if isinstance(a, Sym) else '?'
            kb = b.ty.kind if isinstance(b, Sym) else '?'
            if ka == 'int' and kb == 'int':
                x, y = V.iv(a.term), V.iv(b.term)
                yield st, {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[type(op).__name__]
            else:
                x, y = self.to_v(a), self.to_v(b)
                nm = type(op).__name__
                yield st, {'Lt': lambda: lt_f(x, y), 'Gt': lambda: lt_f(y, x), 'LtE': lambda: z3.Not(lt_f(y, x)),
                           'GtE': lambda: z3.Not(lt_f(x, y))}[nm]()

    def contains(self, cont, x, st, exc):
        if isinstance(cont, Tup):
            yield st, (z3.Or([self.eq(x, i, st) for i in cont.items]) if cont.items else z3.BoolVal(False))
            return
        if isinstance(cont, Seq):
            yield st, mem(self.to_v(x), cont.term)
            return
        if not isinstance(cont, Sym):
            raise Unsupported('in %r' % (cont,))
        k = cont.ty.kind
        if k == 'list':
            yield st, mem(self.to_v(x), self.hget(st, 'L', self.oid(cont)))
        elif k == 'dict':
            yield st, z3.Select(self.hget(st, 'Dv', self.oid(cont)), self.to_v(x)) != absent
        elif k == 'set':
            yield st, z3.Select(self.hget(st, 'S', self.oid(cont)), self.to_v(x))
        elif k in ('tup', 'tuple'):
            yield st, mem(self.to_v(x), V.tv(cont.term))
        elif k == 'str':
            yield st, str_in(self.to_v(x), cont.term)
        elif k == 'obj':
            for st1, f in self.getattr_(cont, '__contains__', st, exc):
                for st2, r in self.call(f, [x], {}, st1, exc):
                    for t in self.truth(r, st2, exc):
                        yield t
        elif k == 'opt' :
            a, b = self.branch(st, cont.term == none)
            if a is not None:
                self.raise_builtin(a, 'TypeError', exc)
            if b is not None:
                for r in self.contains(Sym(cont.term, cont.ty.args[0]), x, b, exc):
                    yield r
        else:
            yield st, str_in(self.to_v(x), cont.term)

    def ev_Lambda(self, n, st, exc):
        fn = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.copy_location(ast.Return(value=n.body), n)],
                             decorator_list=[], lineno=n.lineno)
        yield st, Fn('<lambda>', fn, st.env['$module'], st.fid)

    def ev_Attribute(self, n, st, exc):
        for st1, v in self.ev(n.value, st, exc):
            for r in self.getattr_(v, n.attr, st1, exc):
                yield r

    def getattr_(self, v, attr, st, exc):
        if isinstance(v, Ext):
            full = v.name + '.' + attr
            if full in self.reg.globals:
                yield st, self.reg.globals[full]
            elif v.name.startswith('slash') and self.proj.dotted_module(v.name):
                r = self.proj.resolve_dotted(full, self.reg.globals)
                if isinstance(r, tuple):
                    st = st.fork()
                    r = self.module_value(r, full, st)
                yield st, r
            else:
                yield st, Ext(full)
            return
        if isinstance(v, Super):
            hit = self.proj.lookup(v.recv_cls, attr, after=v.cls)
            if hit is None:
                yield st, Ext('object.' + attr)
            else:
                yield st, Bound(v.recv, Fn(hit[0].name + '.' + attr, hit[1], hit[0].module, None, hit[0]))
            return
        if isinstance(v, ClsV):
            if (v.name, attr) in self.reg.class_attrs:
                yield st, self.reg.class_attrs[(v.name, attr)]
                return
            hit = self.proj.lookup(v, attr) if v.node is not None else None
            if hit is None:
                yield st, Ext(v.name + '.' + attr)
                return
            c, node = hit
            if isinstance(node, ast.FunctionDef):
                yield st, Fn(c.name + '.' + attr, node, c.module, None, c)
            else:
                for r in self.class_attr(c, attr, node, st, exc):
                    yield r
            return
        if isinstance(v, (Fn, Bound, Partial, BoundExt)):
            if attr == '__name__' and isinstance(v, Fn):
                yield st, self.const(v.node.name)
                return
            yield st, self.opaque_attr(self.to_v(v), attr)
            return
        if isinstance(v, Tup):
            yield st, BoundExt(v, 'tuple', attr)
            return
        if isinstance(v, Seq):
            yield st, BoundExt(v, 'seq', attr)
            return
        if not isinstance(v, Sym):
            raise Unsupported('attribute %s of %r' % (attr, v))
        k = v.ty.kind
        if k == 'opt':
            a, b = self.branch(st, v.term == none)
            if a is not None:
                self.raise_builtin(a, 'AttributeError', exc)
            if b is not None:
                for r in self.getattr_(Sym(v.term, v.ty.args[0]), attr, b, exc):
                    yield r
            return
        if k == 'none':
            self.raise_builtin(st, 'AttributeError', exc)
            return
        if k in ('list', 'dict', 'set', 'str', 'tup', 'tuple', 'int', 'bool'):
            yield st, BoundExt(v, k, attr)
            return
        if k == 'exc':
            m = self.reg.ext_attrs.get(('exc', attr))
            if m:
                yield st, m(self, v, st)
                return
            yield st, self.opaque_attr(v.term, attr)
            return
        if k == 'obj':
            for r in self.obj_attr(v, attr, st, exc):
                yield r
            return
        if ('any', attr) in self.reg.ext_methods:
            yield st, BoundExt(v, 'any', attr)
            return
        yield st, self.opaque_attr(v.term, attr)

    def opaque_attr(self, term, attr):
        return Sym(attr_f(term, V.kv(vk('attr ' + attr))), ANY)

    def class_attr(self, c, attr, node, st, exc):
        f = self.new_frame(st, None)
        st.frames[f]['$module'] = c.module
        old, st.fid = st.fid, f
        for st1, r in self.ev(node, st, exc):
            st1.fid = old
            yield st1, r

    def decorators(self, node):
        return [ast.unparse(d) for d in node.decorator_list]

    def obj_attr(self, v, attr, st, exc):
        cn = v.ty.name
        key = self.reg.field_type(cn, attr, self.proj)
        if key is not None:
            if isinstance(key, tuple) and key[0] == 'const':     # a fixed abstract attribute
                yield st, key[1]
                return
            t = self.hget(st, self.reg.field_comp(cn, attr, self.proj), self.oid(v))
            yield st, self.load(st, t, key)
            return
        m = self.reg.ext_method(cn, attr, self.proj)
        if m is not None:
            yield st, BoundExt(v, m[0], attr)
            return
        cls = self.proj.class_by_name(cn)
        hit = cls and self.proj.lookup(cls, attr)
        if hit:
            c, node = hit
            if isinstance(node, ast.FunctionDef):
                decos = self.decorators(node)
                fn = Fn(c.name + '.' + attr, node, c.module, None, c)
                if 'property' in decos:
                    for r in self.call(Bound(v, fn), [], {}, st, exc):
                        yield r
                elif 'staticmethod' in decos:
                    yield st, fn
                elif 'classmethod' in decos:
                    yield st, Bound(c, fn)
                else:
                    yield st, Bound(v, fn)
                return
            for r in self.class_attr(c, attr, node, st, exc):
                yield r
            return
        if cls is not None:
            # an undeclared instance field: untyped heap cell
            t = self.hget(st, self.reg.field_comp(cn, attr, self.proj), self.oid(v))
            yield st, self.load(st, t, ANY)
            return
        raise Unsupported('no model of %s.%s' % (cn, attr))

    def ev_Subscript(self, n, st, exc):
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            for st1, v in self.ev(n.value, st, exc):
                if sl.lower is None and sl.upper is None:
                    if sl.step is None:
                        yield st1, self.slice_copy(v, st1, lambda l: l)
                        continue
                    step = ast.unparse(sl.step)
                    if step == '-1':
                        yield st1, self.slice_copy(v, st1, lambda l: revapp(nil, l))
                        continue
                if sl.step is None and isinstance(v, Sym) and v.ty.kind in ('str',):
                    parts = [b for b in (sl.lower, sl.upper) if b is not None]
                    shape = 'slice %s:%s' % ('x' if sl.lower is not None else '', 'x' if sl.upper is not None else '')
                    for st2, bs in self.ev_list(parts, st1, exc):
                        yield st2, self.mkstr(shape, [v] + list(bs))
                    continue
                raise Unsupported('slice')
            return
        for st1, (v, k) in self.ev_list([n.value, n.slice], st, exc):
            for r in self.getitem(v, k, st1, exc):
                yield r

    def slice_copy(self, v, st, f):
        if isinstance(v, Sym) and v.ty.kind == 'list':
            return self.new_list(st, f(self.hget(st, 'L', self.oid(v))), v.ty.args[0])
        if isinstance(v, Sym) and v.ty.kind in ('tup', 'tuple'):
            return Sym(V.t(f(V.tv(v.term))), ty('tup'))
        if isinstance(v, Sym) and v.ty.kind == 'any':
            return Sym(attr_f(v.term, V.kv(vk('op slice'))))
        raise Unsupported('slice of %r' % (v,))

    def const_int(self, k):
        if isinstance(k, Sym) and k.ty.kind == 'int':
            t = z3.simplify(V.iv(k.term))
            if z3.is_int_value(t):
                return t.as_long()
        return None

    def getitem(self, v, k, st, exc):
        ci = self.const_int(k)
        u = self.untuple(v)
        if u is not None and ci is not None:
            if -len(u) <= ci < len(u):
                yield st, u[ci]
            else:
                self.raise_builtin(st, 'IndexError', exc)
            return
        if isinstance(v, Sym):
            kd = v.ty.kind
            if kd in ('list', 'tup'):
                l = self.hget(st, 'L', self.oid(v)) if kd == 'list' else V.tv(v.term)
                ety = v.ty.args[0] if v.ty.args else ANY
                if ci == -1:
                    a, b = self.branch(st, l == nil)
                    if a is not None:
                        self.raise_builtin(a, 'IndexError', exc)
                    if b is not None:
                        yield b, self.load(b, z3.simplify(L.last(l)), ety)
                    return
                if isinstance(k, Sym) and k.ty.kind == 'int':
                    iv = V.iv(k.term)
                    inb = z3.And(iv >= 0, iv < length(l)) if ci is None or ci >= 0 else z3.BoolVal(False)
                    if ci is not None and ci < -1:
                        raise Unsupported('negative index')
                    a, b = self.branch(st, z3.Not(inb))
                    if a is not None:
                        if ci is None:      # counting from the end is not modelled: an obligation, not an assumption
                            self.oblige('the index is not negative', a, iv >= 0)
                            a.assume(iv >= 0)
                        self.raise_builtin(a, 'IndexError', exc)
                    if b is not None:
                        yield b, self.load(b, T_.nth(l, iv), ety)
                    return
            if kd == 'dict':
                m = self.hget(st, 'Dv', self.oid(v))
                kt = self.to_v(k)
                a, b = self.branch(st, z3.Select(m, kt) == absent)
                if a is not None:
                    self.raise_builtin(a, 'KeyError', exc)
                if b is not None:
                    yield b, self.load(b, z3.simplify(z3.Select(m, kt)), v.ty.args[1])
                return
            if kd == 'obj':
                for st1, f in self.getattr_(v, '__getitem__', st, exc):
                    for r in self.call(f, [k], {}, st1, exc):
                        yield r
                return
            if kd == 'opt':
                a, b = self.branch(st, v.term == none)
                if a is not None:
                    self.raise_builtin(a, 'TypeError', exc)
                if b is not None:
                    for r in self.getitem(Sym(v.term, v.ty.args[0]), k, b, exc):
                        yield r
                return
            if kd == 'str':
                yield st, self.mkstr('getitem', [v, k])
                return
            if kd == 'any':
                yield st, Sym(attr_f(v.term, V.kv(vk('getitem %s' % ci))))
                return
        raise Unsupported('subscript of %r' % (v,))

    # ---- comprehensions: desugared to loops over fresh accumulators ----
    def comp_loop(self, n, inner, st, exc):
        """nested for/if around the statement `inner`; yields states (in a comprehension scope frame)"""
        body = [inner]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), n)]
            body = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=body, orelse=[]), n)]
        ast.fix_missing_locations(ast.Module(body=body, type_ignores=[]))
        return body

    def in_comp_frame(self, st):
        f = self.new_frame(st, st.fid)
        st.frames[f]['$module'] = st.env['$module']
        st.frames[f]['$comp'] = True
        old, st.fid = st.fid, f
        return old

    def run_comp(self, n, st, acc_name, acc, inner, exc):
        st = st.fork()
        old = self.in_comp_frame(st)
        st.env[acc_name] = acc
        body = self.comp_loop(n, inner, st, exc)
        for st1, kind, val in self.block(body, st):
            res = st1.frames[st1.fid].get(acc_name)
            st1.fid = old
            if kind == 'next':
                yield st1, res
            elif kind == 'raise':
                exc.append((st1, val))
            elif kind == 'break':
                yield st1, res
            else:
                raise Unsupported('control flow out of a comprehension')

    def ev_ListComp(self, n, st, exc):
        st = st.fork()
        lst = self.new_list(st, nil, Ty('unk'))
        inner = ast.copy_location(ast.Expr(value=ast.Call(
            func=ast.Attribute(value=ast.Name(id='$acc', ctx=ast.Load()), attr='append', ctx=ast.Load()),
            args=[n.elt], keywords=[])), n)
        ast.fix_missing_locations(inner)
        for st1, r in self.run_comp(n, st, '$acc', lst, inner, exc):
            if r.ty.args[0].kind == 'unk':
                r = Sym(r.term, Ty('list', [self.reg.elem_types.get(r.term.sexpr(), ANY)]))
            yield st1, r

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, st, exc):
        st = st.fork()
        s = self.new_set(st)
        inner = ast.copy_location(ast.Expr(value=ast.Call(
            func=ast.Attribute(value=ast.Name(id='$acc', ctx=ast.Load()), attr='add', ctx=ast.Load()),
            args=[n.elt], keywords=[])), n)
        ast.fix_missing_locations(inner)
        return self.run_comp(n, st, '$acc', s, inner, exc)

    def ev_DictComp(self, n, st, exc):
        st = st.fork()
        d = self.new_dict(st)
        inner = ast.copy_location(ast.Assign(targets=[ast.Subscript(
            value=ast.Name(id='$acc', ctx=ast.Load()), slice=n.key, ctx=ast.Store())], value=n.value), n)
        ast.fix_missing_locations(inner)
        return self.run_comp(n, st, '$acc', d, inner, exc)

    def any_all(self, n, isany, st, exc):
        """any/all over a generator expression: loop with early exit"""
        st = st.fork()
        old = self.in_comp_frame(st)
        st.env['$r'] = Sym(vb(not isany), BOOL)
        test = n.elt if isany else ast.UnaryOp(op=ast.Not(), operand=n.elt)
        inner = ast.If(test=test, body=[
            ast.Assign(targets=[ast.Name(id='$r', ctx=ast.Store())], value=ast.Constant(value=isany)), ast.Break()], orelse=[])
        ast.copy_location(inner, n)
        if len(n.generators) != 1:
            raise Unsupported('nested generator in any/all')
        body = self.comp_loop(n, inner, st, exc)
        ast.fix_missing_locations(body[0])
        for st1, kind, val in self.block(body, st):
            r = st1.env['$r']
            st1.fid = old
            if kind == 'raise':
                exc.append((st1, val))
            else:
                yield st1, r

    # ------------------------------------------------------------------------------------------------- sequences
    def seq(self, v, st):
        """the sequence of elements an iterable yields (without running user code)"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, Tup):
            tys = {self.ty_of(x) for x in v.items}
            return Seq(mk(*[self.to_v(x) for x in v.items]), tys.pop() if len(tys) == 1 else ANY)
        if isinstance(v, Sym):
            k = v.ty.kind
            if k == 'list':
                return Seq(self.hget(st, 'L', self.oid(v)), v.ty.args[0], ('L', self.oid(v)))
            if k == 'dict':
                return Seq(self.hget(st, 'Dk', self.oid(v)), v.ty.args[0], ('Dk', self.oid(v)))
            if k in ('tup',):
                return Seq(V.tv(v.term), v.ty.args[0] if v.ty.args else ANY)
            if k == 'tuple':
                tys = set(v.ty.args)
                return Seq(V.tv(v.term), tys.pop() if len(tys) == 1 else ANY)
            if k == 'set':
                elems = z3.Function('set_elems', SetS, L)
                arr = self.hget(st, 'S', self.oid(v))
                x = z3.Const('x', V)
                st.assume(z3.ForAll([x], mem(x, elems(arr)) == z3.Select(arr, x), patterns=[mem(x, elems(arr))]))
                st.assume(T_.nodup(elems(arr)))
                return Seq(elems(arr), v.ty.args[0], ('S', self.oid(v)))
            if k == 'str':       # its characters: some list of strings
                return Seq(z3.Function('str_chars', V, L)(v.term), STR)
            if k == 'iter':      # an already materialised iterator over a sequence
                return Seq(V.tv(v.term), v.ty.args[0] if v.ty.args else ANY)
        if isinstance(v, Sym) and v.ty == ANY and getattr(self.reg, 'any_seq', None) is not None:
            return Seq(self.reg.any_seq(v.term), ANY)      # the elements of a value of unknown type: some list
        raise Unsupported('iteration over %r' % (v,))

    def iter_seq(self, v, st, exc):
        """like seq but may call __iter__; yields (state, Seq)"""
        if isinstance(v, Sym) and v.ty.kind == 'opt':
            a, b = self.branch(st, v.term == none)
            if a is not None:
                self.raise_builtin(a, 'TypeError', exc)
            if b is not None:
                for r in self.iter_seq(Sym(v.term, v.ty.args[0]), b, exc):
                    yield r
            return
        if isinstance(v, Sym) and v.ty.kind == 'obj':
            for st1, f in self.getattr_(v, '__iter__', st, exc):
                for st2, r in self.call(f, [], {}, st1, exc):
                    for x in self.iter_seq(r, st2, exc):
                        yield x
            return
        yield st, self.seq(v, st)

    # ------------------------------------------------------------------------------------------------- calls
    def ev_Call(self, n, st, exc):
        # super(X, self) / super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            fn = st.env.get('$fn')
            fid = st.fid
            while fn is None and st.frames[fid].get('$parent') is not None:
                fid = st.frames[fid]['$parent']
                fn = st.frames[fid].get('$fn')
            selfname = fn.node.args.args[0].arg
            recv = st.frames[fid][selfname]
            s = Super(fn.cls, recv)
            s.recv_cls = self.proj.class_by_name(recv.ty.name) or fn.cls if isinstance(recv, Sym) and recv.ty.kind == 'obj' else fn.cls
            yield st, s
            return
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and len(n.args) == 1 \
                and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1:
            for r in self.any_all(n.args[0], n.func.id == 'any', st, exc):
                yield r
            return
        for st1, f in self.ev(n.func, st, exc):
            if isinstance(f, Ext) and f.name in self.reg.noargs:
                # effect-free logging call: arguments are not evaluated (listed in the trusted base)
                self.used_models.add(f.name)
                yield st1, NONEV
                continue
            if isinstance(f, Ext) and f.name in ('builtins.any', 'builtins.all') and len(n.args) == 1 \
                    and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1:
                for r in self.any_all(n.args[0], f.name == 'builtins.any', st1, exc):
                    yield r
                continue
            for st2, args in self.ev_star(n.args, st1, exc):
                kwn = [k.arg for k in n.keywords]
                for st3, kwv in self.ev_list([k.value for k in n.keywords], st2, exc):
                    kw = {}
                    starkw = None
                    for a, b in zip(kwn, kwv):
                        if a is None:
                            starkw = b
                        else:
                            kw[a] = b
                    for r in self.call(f, args, kw, st3, exc, starkw):
                        yield r

    def call(self, f, args, kw, st, exc, starkw=None):
        if isinstance(args, list):
            args = Tup(args)
        if isinstance(f, Bound):
            if isinstance(args, Seq):
                raise Unsupported('*args call of a method')
            return self.call_fn(f.fn, [f.recv] + args.items, kw, st, exc, starkw)
        if isinstance(f, Fn):
            if isinstance(args, Seq):
                raise Unsupported('*args call of %s' % f.qual)
            return self.call_fn(f, args.items, kw, st, exc, starkw)
        if isinstance(f, Partial):
            extra = args.items if isinstance(args, Tup) else None
            if extra is None:
                raise Unsupported('*args on partial')
            k2 = dict(f.kwargs)
            k2.update(kw)
            return self.call(f.fn, f.args + extra, k2, st, exc)
        if isinstance(f, ClsV):
            return self.call_cls(f, args, kw, st, exc, starkw)
        if isinstance(f, BoundExt):
            h = self.reg.method_model(f.cls, f.meth)
            if h is None:
                raise Unsupported('no model of %s.%s' % (f.cls, f.meth))
            if f.cls not in ('list', 'dict', 'set', 'str', 'tup', 'tuple', 'seq'):
                self.used_models.add('%s.%s' % (f.cls, f.meth))
            if starkw is not None and (f.cls, f.meth) in getattr(self.reg, 'star_methods', ()):
                kw = dict(kw)
                kw['**'] = starkw
            return h(self, st, f.recv, args, kw, exc)
        if isinstance(f, Ext):
            h = self.reg.ext_model(f.name)
            if h is None:
                raise Unsupported('no model of external %s' % f.name)
            if not f.name.startswith('builtins.'):
                self.used_models.add(f.name)
            return h(self, st, args, kw, exc)
        if isinstance(f, Sym):
            c = self.reg.closures.get(f.term.sexpr())
            if c is not None:
                return self.call(c, args, kw, st, exc, starkw)
            if f.ty.kind == 'cb':
                h = self.reg.callbacks.get(f.ty.name)
                if h:
                    self.used_models.add('callback ' + f.ty.name)
                    if starkw is not None:
                        kw = dict(kw)
                        kw['**'] = starkw
                    return h(self, st, f, args, kw, exc)
            if f.ty.kind == 'obj':
                return self.call_dunder(f, args, kw, st, exc)
            if f.ty.kind == 'opt':
                return self.call_opt(f, args, kw, st, exc)
            h = self.reg.callbacks.get('*')
            if h:
                self.used_models.add('unknown callable')
                if starkw is not None:
                    kw = dict(kw)
                    kw['**'] = starkw
                return h(self, st, f, args, kw, exc)
        raise Unsupported('call of %r' % (f,))

    def call_opt(self, f, args, kw, st, exc):
        a, b = self.branch(st, f.term == none)
        if a is not None:
            self.raise_builtin(a, 'TypeError', exc)
        if b is not None:
            for r in self.call(Sym(f.term, f.ty.args[0]), args, kw, b, exc):
                yield r

    def call_dunder(self, f, args, kw, st, exc):
        for st1, g in self.getattr_(f, '__call__', st, exc):
            for r in self.call(g, args, kw, st1, exc):
                yield r

    def call_method_node(self, recv, hit, args, kw, st, exc):
        c, node = hit
        return self.call_fn(Fn(c.name + '.' + node.name, node, c.module, None, c), [recv] + list(args), kw, st, exc)

    def call_cls(self, c, args, kw, st, exc, starkw=None):
        if c.builtin is not None:
            if issubclass(c.builtin, BaseException):
                st = st.fork()
                yield st, self.new_exc(st, c)
                return
            h = self.reg.ext_model('builtins.' + c.name)
            if h is None:
                raise Unsupported('no model of %s()' % c.name)
            for r in h(self, st, args, kw, exc):
                yield r
            return
        mro = self.proj.mro(c)
        if any(isinstance(b, ClsV) and b.builtin is not None and issubclass(b.builtin, BaseException) for b in mro):
            st = st.fork()
            yield st, self.new_exc(st, c)
            return
        model = self.reg.ctors.get(c.name)
        if model:
            self.used_models.add('constructor ' + c.name)
            for r in model(self, st, args, kw, exc):
                yield r
            return
        st = st.fork()
        o = self.new_obj(st, c.name)
        # class-level defaults are visible on the instance
        for b in reversed([b for b in mro if isinstance(b, ClsV) and b.node is not None]):
            for nd in b.node.body:
                if isinstance(nd, ast.Assign) and len(nd.targets) == 1 and isinstance(nd.targets[0], ast.Name) \
                        and isinstance(nd.value, ast.Constant):
                    fn = nd.targets[0].id
                    if self.reg.field_type(c.name, fn, self.proj) is not None:
                        self.hset(st, self.reg.field_comp(c.name, fn, self.proj), self.oid(o), self.to_v(self.const(nd.value.value)))
        hit = self.proj.lookup(c, '__init__')
        if hit is None:
            yield st, o
            return
        if isinstance(args, Seq):
            raise Unsupported('*args constructor call')
        for st1, _ in self.call_method_node(o, hit, args.items, kw, st, exc):
            yield st1, o

    def is_generator(self, node):
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
                if isinstance(x, (ast.GeneratorExp, ast.ListComp)):
                    continue
                continue
            stack.extend(ast.iter_child_nodes(x))
        return False

    def call_fn(self, fn, args, kw, st, exc, starkw=None, force_inline=False):
        node = fn.node
        c = self.reg.contract_for(fn, self.proj) if not force_inline else None
        if c is not None and (self.contract is None or True):
            self.used_contracts.add(c.key)
            for r in self.apply_contract(c, fn, args, kw, st, exc, starkw):
                yield r
            return
        m = self.reg.fn_models.get(fn.key)
        if m is not None:
            self.used_models.add(fn.key)
            for r in m(self, st, args, kw, exc):
                yield r
            return
        decos = self.decorators(node)
        if any(d in ('contextmanager', 'contextlib.contextmanager') for d in decos):
            yield st, CMV(fn, args, kw)
            return
        other = [d for d in decos if d.split('(')[0] not in self.reg.transparent_decorators]
        if other:
            raise Unsupported('decorated function %s (%s)' % (fn.key, other))
        if self.depth > self.MAX_DEPTH:
            raise Unsupported('inlining too deep at %s' % fn.key)
        gen = self.is_generator(node)
        st = st.fork()
        caller = st.fid
        try:
            fid = self.bind(fn, args, kw, st, starkw, exc)
        except BindError:
            self.raise_builtin(st, 'TypeError', exc)
            return
        self.inlined.add(fn.key)
        st.fid = fid
        if gen:
            # the sequence of yielded values, computed eagerly (interleaving with the consumer is abstracted)
            lst = self.new_list(st, nil, Ty('unk'))
            st.env['$yields'] = lst
        self.depth += 1
        try:
            outs = self.block(node.body, st)
        finally:
            self.depth -= 1
        for st1, kind, val in outs:
            st1.fid = caller
            if kind == 'raise':
                exc.append((st1, val))
            elif gen:
                yl = st1.frames[fid]['$yields']
                ety = self.reg.elem_types.get(yl.term.sexpr(), ANY)
                yield st1, Seq(self.hget(st1, 'L', self.oid(yl)), ety)
            elif kind == 'return':
                yield st1, val
            elif kind == 'next':
                yield st1, NONEV
            else:
                raise Unsupported('loop control outside loop')

    def local_names(self, node):
        names = set()
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                names.add(x.name)
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                names.add(x.name)
            stack.extend(ast.iter_child_nodes(x))
        return names

    def bind(self, fn, args, kw, st, starkw=None, exc=None):
        node = fn.node
        a = node.args
        fid = self.new_frame(st, fn.frame)
        fr = st.frames[fid]
        fr['$fn'], fr['$module'], fr['$locals'] = fn, fn.module, self.local_names(node)
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for p in params:
            if args:
                if p in kw:
                    raise BindError()
                fr[p] = args.pop(0)
            elif p in kw:
                fr[p] = kw.pop(p)
        if args:
            if a.vararg is None:
                raise BindError()
            fr[a.vararg.arg] = Tup(args)
        elif a.vararg is not None:
            fr[a.vararg.arg] = Tup([])
        for p in a.kwonlyargs:
            if p.arg in kw:
                fr[p.arg] = kw.pop(p.arg)
        spread = None
        if starkw is not None and a.kwarg is None and not kw and isinstance(starkw, Sym) and starkw.ty.kind == 'dict' and exc is not None:
            # keywords from a dictionary: each parameter not given otherwise takes its value; an unknown or repeated key is a TypeError
            bad = st.fork()
            self.raise_builtin(bad, 'TypeError', exc)
            spread = self.hget(st, 'Dv', self.oid(starkw))
        elif starkw is not None:
            if a.kwarg is None or kw:
                raise Unsupported('** call')
            fr[a.kwarg.arg] = starkw
        elif a.kwarg is not None:
            d = self.new_dict(st, STR, ANY)
            types = {}
            for k, v in kw.items():
                self.dict_store(st, d, self.const(k), v)
                types[k] = v
            d.rec = ('static', types)
            fr[a.kwarg.arg] = d
        elif kw:
            raise BindError()
        # defaults
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in fr:
                if p not in defaults:
                    if spread is not None:
                        raise Unsupported('** call')
                    raise BindError()
                old = st.fid
                f2 = self.new_frame(st, fn.frame)
                st.frames[f2]['$module'] = fn.module
                st.fid = f2
                r = list(self.ev(defaults[p], st, []))
                if len(r) != 1:
                    raise Unsupported('default argument')
                r[0][0].fid = old
                st.pc, st.heap, st.writes = r[0][0].pc, r[0][0].heap, r[0][0].writes
                st.fid = old
                fr = st.frames[fid]
                fr[p] = r[0][1]
                if spread is not None:
                    given = z3.Select(spread, self.to_v(self.const(p)))
                    fr[p] = Sym(z3.If(given == absent, self.to_v(fr[p]), given), ANY)
        return fid

    # ---- contracts at call sites ----
    def apply_contract(self, c, fn, args, kw, st, exc, starkw=None):
        from .verify import View
        st = st.fork()
        try:
            fid = self.bind(fn, args, kw, st, starkw, exc)
        except BindError:
            self.raise_builtin(st, 'TypeError', exc)
            return
        argv = {k: v for k, v in st.frames[fid].items() if not k.startswith('$')}
        # the contract names parameters by role: matched by position, as when the function is verified
        names = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args]
        byrole = dict(argv)
        for role, given in zip([r for r in c.params if not r.startswith('*') and r not in [p.arg for p in fn.node.args.kwonlyargs]], names):
            byrole[role] = argv[given]
        argv = byrole
        pre_heap = dict(st.heap)
        for comp in c.components():
            self.ensure(st, comp)
        pre_heap = dict(st.heap)
        view = View(self, st, pre_heap, pre_heap, argv, None, None)
        for name, g in c.pre(view):
            self.oblige('call %s: precondition %s' % (c.key.split('::')[1], name), st, g)
            st.assume(g)
        view.take(st)
        st2 = st.fork()
        for comp, oid in c.mods(view):
            self.havoc_cell(st2, comp, oid)
        if c.allocates:
            old = st2.heap['alloc']
            st2.heap['alloc'] = fresh('alloc', z3.IntSort())
            st2.assume(st2.heap['alloc'] >= old)
            st2.writes = st2.writes + (('alloc', None),)
        # normal return
        stn = st2.fork()
        res = Sym(fresh('res', V), c.ret)
        stn.assume(self.type_facts(res.term, res.ty, stn))
        rv = View(self, stn, pre_heap, stn.heap, argv, res, None)
        for name, g in c.post(rv):
            stn.assume(g)
        rv.take(stn)
        if c.ret.kind == 'none':
            res = NONEV
        if c.at_return is not None:      # ghost instrumentation of the call: the callee itself cannot reach this component
            comp, f = c.at_return
            self.gset(stn, comp, L.snoc(self.ensure(stn, comp), f(rv)))
        if self.feasible(stn):
            if c.ret.kind == 'iter':
                yield stn, Seq(V.tv(res.term), c.ret.args[0] if c.ret.args else ANY)
            else:
                yield stn, res
        if c.may_raise:
            ste = st2.fork()
            e = Sym(fresh('exc', V), EXC)
            ste.assume(self.type_facts(e.term, EXC, ste))
            rv = View(self, ste, pre_heap, ste.heap, argv, None, e)
            for name, g in c.exc_post(rv):
                ste.assume(g)
            rv.take(ste)
            if self.feasible(ste):
                exc.append((ste, e))

    def havoc_cell(self, st, comp, oid):
        if is_ghost(comp):
            self.gset(st, comp, fresh('h' + comp, ghost_sort(comp)))
        elif oid is None:
            self.ensure(st, comp)
            st.heap[comp] = fresh('h' + comp, z3.ArraySort(z3.IntSort(), comp_sort(comp)))
            st.writes = st.writes + ((comp, None),)
        else:
            self.hset(st, comp, oid, fresh('h' + comp, comp_sort(comp)))

    # ------------------------------------------------------------------------------------------------- statements
    def block(self, stmts, st):
        outs = [(st, 'next', None)]
        for s in stmts:
            new = []
            for st1, kind, val in outs:
                if kind != 'next':
                    new.append((st1, kind, val))
                else:
                    new.extend(self.stmt(s, st1))
            outs = self.merged(new) if len(new) > 3 and getattr(self.reg, 'merge_paths', False) else new
            if len(outs) > 600:
                raise Unsupported('too many paths')
        return outs

    def merged(self, outs):
        """one state for outcomes which agree on the heap and the variables: its path condition is the disjunction of theirs"""
        def sig(v):
            if isinstance(v, Sym):
                return ('sym', v.term.get_id(), repr(v.ty), id(v.rec) if v.rec else 0)
            if isinstance(v, z3.ExprRef):
                return ('z3', v.get_id())
            return id(v)
        groups, res = {}, []
        for st, kind, val in outs:
            if kind not in ('next', 'raise') or kind == 'raise' and not (isinstance(val, Sym) and val.ty == EXC):
                res.append((st, kind, val))
                continue
            key = (kind, st.fid, tuple(sorted((c, t.get_id()) for c, t in st.heap.items())),
                   tuple(sorted((f, tuple(sorted((k, sig(v)) for k, v in fr.items()))) for f, fr in st.frames.items())))
            if key not in groups:
                groups[key] = []
                res.append(groups[key])
            groups[key].append((st, kind, val))
        out = []
        for g in res:
            if not isinstance(g, list):
                out.append(g)
                continue
            if len(g) == 1:
                out.append(g[0])
                continue
            st, kind, val = g[0]
            m = st.fork()
            n = 0
            while all(len(x[0].pc) > n and x[0].pc[n].eq(st.pc[n]) for x in g):
                n += 1
            base = 0
            while all(len(x[0].writes) > base and x[0].writes[base] is st.writes[base] for x in g):
                base += 1
            m.writes = st.writes[:base] + tuple(w for x in g for w in x[0].writes[base:])
            m.pc = st.pc[:n]
            if kind == 'raise':
                v = Sym(fresh('exc', V), EXC)
                rest = [z3.And(*(list(x[0].pc[n:]) + [v.term == x[2].term])) for x in g]
                m.pc = m.pc + (z3.simplify(z3.Or(*rest)), self.type_facts(v.term, EXC, m))
                out.append((m, kind, v))
            else:
                rest = [z3.And(*x[0].pc[n:]) if len(x[0].pc) > n else z3.BoolVal(True) for x in g]
                if not any(z3.is_true(r) for r in rest):
                    m.pc = m.pc + (z3.Or(*rest),)
                out.append((m, kind, val))
        return out

    def stmt(self, n, st):
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(n).__name__, n.lineno))
        return m(n, st)

    def wrap(self, gen, exc, kind='next'):
        outs = [(st, kind, v) for st, v in gen]
        outs.extend((st, 'raise', e) for st, e in exc)
        return outs

    def st_Pass(self, n, st):
        return [(st, 'next', None)]

    def st_Global(self, n, st):
        raise Unsupported('global statement')

    def st_Nonlocal(self, n, st):
        st = st.fork()
        st.env['$nonlocal'] = tuple(st.env.get('$nonlocal', ())) + tuple(n.names)
        return [(st, 'next', None)]

    def st_Import(self, n, st):
        st = st.fork()
        for a in n.names:
            st.env[a.asname or a.name.split('.')[0]] = Ext(a.name)
        return [(st, 'next', None)]

    def st_ImportFrom(self, n, st):
        st = st.fork()
        mod = st.env['$module']
        pk = mod.dotted.split('.')
        if not mod.is_pkg:
            pk = pk[:-1]
        if n.level > 1:
            pk = pk[:len(pk) - (n.level - 1)]
        base = '.'.join((pk if n.level else []) + ([n.module] if n.module else []))
        for a in n.names:
            v = self.proj.resolve_dotted(base + '.' + a.name, self.reg.globals)
            if isinstance(v, tuple):
                v = self.const(v[1]) if v[0] == 'const' else Ext(base + '.' + a.name)
            st.env[a.asname or a.name] = v
        return [(st, 'next', None)]

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, 'next', None)]
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            return [(s, k, None if k == 'next' else v) for s, k, v in self.do_yield(n.value, st)]
        exc = []
        return [(s, k, None if k == 'next' else v) for s, k, v in self.wrap(self.ev(n.value, st, exc), exc)] if False else \
            self._expr(n, st)

    def _expr(self, n, st):
        exc = []
        outs = [(s, 'next', None) for s, v in self.ev(n.value, st, exc)]
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def do_yield(self, y, st):
        """-> outcomes; 'next' carries the value of the yield expression"""
        exc, outs = [], []
        if isinstance(y, ast.YieldFrom):
            vals = self.ev(y.value, st, exc)
        elif y.value is None:
            vals = [(st, NONEV)]
        else:
            vals = self.ev(y.value, st, exc)
        for st1, v in vals:
            h = st1.env.get('$yield')
            if h is not None:
                if isinstance(y, ast.YieldFrom):
                    raise Unsupported('yield from in a context manager')
                outs.extend(h(st1, v))
            elif '$yields' in st1.env:
                st1 = st1.fork()
                acc = st1.env['$yields']
                cur = self.hget(st1, 'L', self.oid(acc))
                if isinstance(y, ast.YieldFrom):
                    for st2, s in self.iter_seq(v, st1, exc):
                        self.hset(st2, 'L', self.oid(acc), app(self.hget(st2, 'L', self.oid(acc)), s.term))
                        self.note_elem(acc, s.ety)
                        outs.append((st2, 'next', NONEV))
                else:
                    self.hset(st1, 'L', self.oid(acc), L.snoc(cur, self.to_v(v)))
                    self.note_elem(acc, self.ty_of(v))
                    outs.append((st1, 'next', NONEV))
            else:
                raise Unsupported('yield')
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def note_elem(self, lst, t):
        key = lst.term.sexpr()
        old = self.reg.elem_types.get(key)
        self.reg.elem_types[key] = t if old is None or old == t else ANY

    def st_Return(self, n, st):
        if n.value is None:
            return [(st, 'return', NONEV)]
        exc = []
        return self.wrap(self.ev(n.value, st, exc), exc, 'return')

    def wrap(self, gen, exc, kind='next'):
        outs = [(st, kind, v) for st, v in gen]
        outs.extend((st, 'raise', e) for st, e in exc)
        return outs

    def st_Break(self, n, st):
        return [(st, 'break', None)]

    def st_Continue(self, n, st):
        return [(st, 'continue', None)]

    def st_Assert(self, n, st):
        exc, outs = [], []
        for st1, c in self.cond(n.test, st, exc):
            a, b = self.branch(st1, c)
            if a is not None:
                outs.append((a, 'next', None))
            if b is not None:
                self.raise_builtin(b, 'AssertionError', exc)
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def st_If(self, n, st):
        exc, outs = [], []
        for st1, c in self.cond(n.test, st, exc):
            a, b = self.branch(st1, c)
            if a is not None:
                self.refine(n.test, a, True)
                outs.extend(self.block(n.body, a))
            if b is not None:
                self.refine(n.test, b, False)
                outs.extend(self.block(n.orelse, b))
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def refine(self, test, st, truth):
        """type narrowing of locals after None/isinstance/truth tests"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == truth:
            for v in test.values:
                self.refine(v, st, truth)
            return
        name, positive = None, None
        if isinstance(test, ast.Name):
            name, positive = test.id, truth
        elif isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and len(test.ops) == 1 \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                name, positive = test.left.id, truth
            elif isinstance(test.ops[0], (ast.Is, ast.Eq)):
                name, positive = test.left.id, not truth
        elif isinstance(test, ast.Call) and truth and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' \
                and isinstance(test.args[0], ast.Name) and isinstance(test.args[1], ast.Name) \
                and test.args[1].id in ('list', 'str', 'int') + tuple(self.reg.refine_classes):
            v = st.env.get(test.args[0].id)
            if isinstance(v, Sym) and v.ty.kind == 'any':
                t = {'list': ty('list[any]'), 'str': STR, 'int': None}.get(test.args[1].id, ty('obj:' + test.args[1].id))
                if t is not None:
                    st.assume(self.type_facts(v.term, t, st))
                    st.env[test.args[0].id] = Sym(v.term, t, v.rec)
            return
        if name and positive and name in st.env:
            v = st.env[name]
            if isinstance(v, Sym) and v.ty.kind == 'opt':
                st.env[name] = Sym(v.term, v.ty.args[0], v.rec)

    def st_FunctionDef(self, n, st):
        st = st.fork()
        st.env[n.name] = Fn(n.name, n, st.env['$module'], st.fid)
        if n.decorator_list and any(d.split('(')[0] not in ('functools.wraps', 'wraps') for d in self.decorators(n)):
            raise Unsupported('decorated local function')
        return [(st, 'next', None)]

    def st_Raise(self, n, st):
        if n.exc is None:
            cur = None
            fid = st.fid
            while fid is not None and cur is None:
                cur = st.frames[fid].get('$handling')
                fid = st.frames[fid].get('$parent')
            if cur is None:
                raise Unsupported('bare raise outside handler')
            return [(st, 'raise', cur)]
        exc, outs = [], []
        for st1, v in self.ev(n.exc, st, exc):
            if isinstance(v, ClsV):
                for st2, e in self.call_cls(v, Tup([]), {}, st1, exc):
                    outs.append((st2, 'raise', e))
            elif isinstance(v, Sym):
                outs.append((st1, 'raise', Sym(v.term, EXC)))
            elif isinstance(v, Ext):
                st2 = st1.fork()
                outs.append((st2, 'raise', self.new_exc(st2, v)))
            else:
                raise Unsupported('raise of %r' % (v,))
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def assign(self, target, v, st, exc):
        """yields states"""
        if isinstance(target, ast.Name):
            st = st.fork()
            if target.id in st.env.get('$nonlocal', ()):
                fid = st.env['$parent']
                while target.id not in st.frames[fid]:
                    fid = st.frames[fid]['$parent']
                st.frames[fid][target.id] = v
            else:
                st.env[target.id] = v
            yield st
        elif isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, Sym) and v.ty.kind == 'opt':
                p, q = self.branch(st, v.term == none)
                if p is not None:
                    self.raise_builtin(p, 'TypeError', exc)
                if q is not None:
                    for s in self.assign(target, Sym(v.term, v.ty.args[0], v.rec), q, exc):
                        yield s
                return
            u = self.untuple(v)
            if u is None and isinstance(v, Sym) and v.ty.kind in ('any', 'tup'):
                l = V.tv(v.term)
                u = []
                for _ in target.elts:
                    u.append(Sym(z3.simplify(L.last(l)), ANY))
                    l = L.init(l)
                st = st.fork().assume(z3.And(V.is_t(v.term), l == nil)) if v.ty.kind == 'any' else st.fork().assume(l == nil)
                u = u[::-1]
            if u is None and isinstance(v, Sym) and v.ty.kind == 'list':
                l = self.hget(st, 'L', self.oid(v))
                u, whole = [], []
                for _ in target.elts:
                    whole.append(L.is_snoc(l))
                    u.append(z3.simplify(L.last(l)))
                    l = z3.simplify(L.init(l))
                p, q = self.branch(st, z3.And(l == nil, *whole))
                if q is not None:
                    self.raise_builtin(q, 'ValueError', exc)
                if p is None:
                    return
                st = p.fork()
                u = [self.load(st, x, v.ty.args[0]) for x in u[::-1]]
            if u is None or len(u) != len(target.elts):
                raise Unsupported('unpacking')
            sts = [st]
            for t, x in zip(target.elts, u):
                sts = [s2 for s in sts for s2 in self.assign(t, x, s, exc)]
            for s in sts:
                yield s
        elif isinstance(target, ast.Attribute):
            for st1, o in self.ev(target.value, st, exc):
                for s in self.setattr_(o, target.attr, v, st1, exc):
                    yield s
        elif isinstance(target, ast.Subscript):
            for st1, (d, k) in self.ev_list([target.value, target.slice], st, exc):
                st1 = st1.fork()
                if isinstance(d, Sym) and d.ty.kind == 'dict':
                    self.dict_store(st1, d, k, v)
                    if d.rec and d.rec[0] == 'static':
                        d.rec = None
                    yield st1
                elif isinstance(d, Sym) and d.ty.kind == 'obj':
                    for st2, f in self.getattr_(d, '__setitem__', st1, exc):
                        for st3, _ in self.call(f, [k, v], {}, st2, exc):
                            yield st3
                else:
                    raise Unsupported('item assignment on %r' % (d,))
        else:
            raise Unsupported('assignment target')

    def setattr_(self, o, attr, v, st, exc):
        if isinstance(o, Sym) and o.ty.kind == 'opt':
            a, b = self.branch(st, o.term == none)
            if a is not None:
                self.raise_builtin(a, 'AttributeError', exc)
            if b is not None:
                for s in self.setattr_(Sym(o.term, o.ty.args[0]), attr, v, b, exc):
                    yield s
            return
        if isinstance(o, Sym) and o.ty.kind in ('obj', 'exc'):
            if o.ty.kind == 'obj':
                m = self.reg.setattr_models.get((o.ty.name, attr))
                if m:
                    for s in m(self, st, o, v, exc):
                        yield s
                    return
            st = st.fork()
            self.hset(st, self.reg.field_comp(o.ty.name, attr, self.proj) if o.ty.kind == 'obj' else 'f:' + attr, self.oid(o), self.to_v(v))
            if o.ty.kind == 'obj':
                ft = self.reg.field_type(o.ty.name, attr, self.proj)
                if ft is not None and not isinstance(ft, tuple) and not self.compatible(v, ft):
                    raise Unsupported('field %s.%s: %r stored where %r is declared' % (o.ty.name, attr, v, ft))
                if ft is not None and isinstance(v, Sym) and v.ty.kind == 'list' and v.ty.args[0].kind == 'unk':
                    pass
            yield st
            return
        raise Unsupported('attribute assignment on %r' % (o,))

    def compatible(self, v, t):
        if t.kind == 'any':
            return True
        vt_ = self.ty_of(v)
        if vt_.kind in ('any',):
            return True
        if t.kind == 'opt':
            return vt_.kind == 'none' or self.compatible(v, t.args[0]) or \
                (vt_.kind == 'opt' and self.compatible(Sym(none, vt_.args[0]), t.args[0]))
        if t.kind in ('fn', 'cb'):
            return vt_.kind in ('fn', 'cb')
        if t.kind in ('tup', 'tuple', 'iter'):
            return vt_.kind in ('tup', 'tuple', 'iter')
        if vt_.kind == 'opt':
            return self.compatible(Sym(none, vt_.args[0]), t)
        return vt_.kind == t.kind

    def st_Assign(self, n, st):
        if isinstance(n.value, ast.Yield):
            outs = []
            for st1, k, v in self.do_yield(n.value, st):
                if k == 'next':
                    exc = []
                    for s in self.assign(n.targets[0], v, st1, exc):
                        outs.append((s, 'next', None))
                else:
                    outs.append((st1, k, v))
            return outs
        exc, outs = [], []
        for st1, v in self.ev(n.value, st, exc):
            sts = [st1]
            for t in n.targets:
                sts = [s2 for s in sts for s2 in self.assign(t, v, s, exc)]
            outs.extend((s, 'next', None) for s in sts)
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, 'next', None)]
        return self.st_Assign(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n), st)

    def st_AugAssign(self, n, st):
        load = ast.parse(ast.unparse(n.target), mode='eval').body
        ast.copy_location(load, n)
        exc, outs = [], []
        for st1, (a, b) in self.ev_list([load, n.value], st, exc):
            if isinstance(a, Sym) and a.ty.kind == 'list' and isinstance(n.op, ast.Add):
                st1 = st1.fork()
                for st2, s in self.iter_seq(b, st1, exc):
                    self.hset(st2, 'L', self.oid(a), app(self.hget(st2, 'L', self.oid(a)), s.term))
                    for s3 in self.assign(n.target, a, st2, exc):
                        outs.append((s3, 'next', None))
                continue
            if isinstance(a, Sym) and a.ty.kind == 'set' and isinstance(n.op, ast.BitOr) and isinstance(b, Sym) and b.ty.kind == 'set':
                for st2, _ in self.reg.method_model('set', 'update')(self, st1, a, Tup([b]), {}, exc):
                    for s3 in self.assign(n.target, a, st2, exc):
                        outs.append((s3, 'next', None))
                continue
            for st2, r in self.binop(n.op, a, b, st1, exc):
                for s in self.assign(n.target, r, st2, exc):
                    outs.append((s, 'next', None))
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def st_Delete(self, n, st):
        exc, outs = [], []
        if len(n.targets) != 1:
            raise Unsupported('del of several targets')
        t = n.targets[0]
        if isinstance(t, ast.Name):
            st = st.fork()
            st.env.pop(t.id, None)
            return [(st, 'next', None)]
        if not isinstance(t, ast.Subscript):
            raise Unsupported('del')
        if isinstance(t.slice, ast.Slice):
            if t.slice.lower or t.slice.upper or t.slice.step:
                raise Unsupported('del slice')
            for st1, v in self.ev(t.value, st, exc):
                st1 = st1.fork()
                self.hset(st1, 'L', self.oid(v), nil)
                outs.append((st1, 'next', None))
        else:
            for st1, (d, k) in self.ev_list([t.value, t.slice], st, exc):
                if isinstance(d, Sym) and d.ty.kind == 'list' and self.const_int(k) == -1:
                    for st2, _ in self.reg.method_model('list', 'pop')(self, st1, d, Tup([]), {}, exc):
                        outs.append((st2, 'next', None))
                    continue
                if not (isinstance(d, Sym) and d.ty.kind == 'dict'):
                    raise Unsupported('del item of %r' % (d,))
                m = self.hget(st1, 'Dv', self.oid(d))
                kt = self.to_v(k)
                a, b = self.branch(st1, z3.Select(m, kt) == absent)
                if a is not None:
                    self.raise_builtin(a, 'KeyError', exc)
                if b is not None:
                    b = b.fork()
                    self.hset(b, 'Dk', self.oid(d), remove1(kt, self.hget(b, 'Dk', self.oid(d))))
                    self.hset(b, 'Dv', self.oid(d), z3.Store(m, kt, absent))
                    outs.append((b, 'next', None))
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def st_Try(self, n, st):
        outs = []
        for st1, kind, val in self.block(n.body, st):
            if kind == 'next':
                outs.extend(self.block(n.orelse, st1) if n.orelse else [(st1, 'next', None)])
            elif kind == 'raise' and n.handlers:
                outs.extend(self.handle(n.handlers, st1, val))
            else:
                outs.append((st1, kind, val))
        if n.finalbody:
            new = []
            if len(outs) > 1 and getattr(self.reg, 'merge_paths', False):
                outs = self.merged(outs)
            for st1, kind, val in outs:
                for st2, k2, v2 in self.block(n.finalbody, st1):
                    if k2 == 'next':
                        new.append((st2, kind, val))
                    else:
                        new.append((st2, k2, v2))
            outs = new
        return outs

    def handle(self, handlers, st, e):
        outs = []
        cur = st
        for h in handlers:
            if cur is None:
                break
            if h.type is None:
                a, b = cur, None
            else:
                exc = []
                r = list(self.ev(h.type, cur, exc))
                if len(r) != 1:
                    raise Unsupported('except expression')
                cur, c = r[0]
                outs.extend((s, 'raise', x) for s, x in exc)
                a, b = self.branch(cur, self.isinstance_(Sym(e.term, EXC), c, cur))
            if a is not None:
                a = a.fork()
                prev = a.env.get('$handling')
                a.env['$handling'] = e
                if h.name:
                    a.env[h.name] = Sym(e.term, EXC)
                for st1, kind, val in self.block(h.body, a):
                    st1.env['$handling'] = prev
                    outs.append((st1, kind, val))
            cur = b
        if cur is not None:
            outs.append((cur, 'raise', e))
        return outs

    # ---- with ----
    def st_With(self, n, st):
        return self.with_items(n.items, n.body, st)

    def with_items(self, items, body, st):
        if not items:
            return self.block(body, st)
        it = items[0]
        exc, outs = [], []
        for st1, cm in self.ev(it.context_expr, st, exc):
            def run(st2, v, it=it):
                sts = [st2]
                res = []
                if it.optional_vars is not None:
                    e2 = []
                    sts = list(self.assign(it.optional_vars, v, st2, e2))
                    res.extend((s, 'raise', e) for s, e in e2)
                for s in sts:
                    res.extend(self.with_items(items[1:], body, s))
                return res
            outs.extend(self.enter_cm(cm, st1, run))
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def enter_cm(self, cm, st, run):
        """run(st, value) -> outcomes of the with-body"""
        if isinstance(cm, CMV):
            return self.with_gen(cm, st, run)
        if isinstance(cm, CMExt):
            self.used_models.add(getattr(cm.handler, 'model_name', 'context manager'))
            return cm.handler(self, st, cm.args, cm.kwargs, run)
        if isinstance(cm, Sym) and cm.ty.kind == 'obj':
            return self.with_obj(cm, st, run)
        raise Unsupported('with on %r' % (cm,))

    def with_gen(self, cm, st, run):
        st = st.fork()
        caller = st.fid
        fid = self.bind(cm.fn, cm.args, cm.kwargs, st)
        self.inlined.add(cm.fn.key)
        st.fid = fid

        def at_yield(st2, v):
            st2 = st2.fork()
            st2.fid = caller
            res = []
            for st3, kind, val in run(st2, v):
                st3 = st3.fork()
                st3.fid = fid
                if kind in ('next', 'raise'):
                    res.append((st3, kind, val if kind == 'raise' else NONEV))
                else:
                    st3.frames[fid]['$pending'] = (kind, val)
                    res.append((st3, 'next', NONEV))
            return res
        st.env['$yield'] = at_yield
        outs = []
        for st1, kind, val in self.block(cm.fn.node.body, st):
            st1 = st1.fork()
            pend = st1.frames[fid].get('$pending')
            st1.fid = caller
            if kind == 'raise':
                outs.append((st1, 'raise', val))
            elif pend is not None:
                outs.append((st1,) + pend)
            else:
                outs.append((st1, 'next', None))
        return outs

    def with_obj(self, cm, st, run):
        exc, outs = [], []
        for st1, f in self.getattr_(cm, '__enter__', st, exc):
            for st2, v in self.call(f, [], {}, st1, exc):
                for st3, kind, val in run(st2, v):
                    if kind == 'raise':
                        a = [Sym(attr_f(val.term, V.kv(vk('attr __class__')))), Sym(val.term, EXC),
                             Sym(attr_f(val.term, V.kv(vk('attr __traceback__'))))]
                    else:
                        a = [NONEV, NONEV, NONEV]
                    x2 = []
                    for st4, g in self.getattr_(cm, '__exit__', st3, x2):
                        for st5, r in self.call(g, a, {}, st4, x2):
                            if kind != 'raise':
                                outs.append((st5, kind, val))
                                continue
                            for st6, c in self.truth(r, st5, x2):
                                p, q = self.branch(st6, c)
                                if p is not None:
                                    outs.append((p, 'next', None))
                                if q is not None:
                                    outs.append((q, 'raise', val))
                    outs.extend((s, 'raise', e) for s, e in x2)
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    # ------------------------------------------------------------------------------------------------- loops
    def st_For(self, n, st):
        exc, outs = [], []
        for st1, it in self.ev(n.iter, st, exc):
            static = self.untuple(it)
            if static is None and isinstance(it, Sym) and it.rec and it.rec[0] == 'static' and it.ty.kind == 'list' \
                    and self.hget(st1, 'L', self.oid(it)).eq(z3.simplify(it.rec[2])):
                static = it.rec[1]
            if static is not None:
                outs.extend(self.unrolled(n, static, st1))
                continue
            if isinstance(it, Sym) and it.ty.kind == 'obj' and it.ty.name in getattr(self.reg, 'iterator_classes', ()):
                # an iterator of the program itself: `__next__` is called for every round
                for st2, f in self.getattr_(it, '__iter__', st1, exc):
                    for st3, it2 in self.call(f, [], {}, st2, exc):
                        outs.extend(self.loop(n, st3, None, it2))
                continue
            for st2, s in self.iter_seq(it, st1, exc):
                outs.extend(self.loop(n, st2, s))
        outs.extend((s, 'raise', e) for s, e in exc)
        return outs

    def unrolled(self, n, items, st):
        """iteration over a tuple/list display of known length"""
        done = []
        cur = [st]
        for x in items:
            new = []
            for s in cur:
                exc = []
                for s1 in self.assign(n.target, x, s, exc):
                    for s2, kind, val in self.block(n.body, s1):
                        if kind in ('next', 'continue'):
                            new.append(s2)
                        elif kind == 'break':
                            done.append((s2, 'next', None))
                        else:
                            done.append((s2, kind, val))
                done.extend((q, 'raise', e) for q, e in exc)
            cur = new
        for s in cur:
            done.extend(self.block(n.orelse, s) if n.orelse else [(s, 'next', None)])
        return done

    def st_While(self, n, st):
        return self.loop(n, st, None)

    def stable(self, term, mark):
        """does the term only use symbols that existed before the loop?"""
        from .solver import symbols
        for s in symbols(term):
            if '!' in s:
                try:
                    if int(s.rsplit('!', 1)[1]) > mark:
                        return False
                except ValueError:
                    pass
        return True

    def loop(self, n, st0, s, itobj=None):
        self.loop_n += 1
        mark = T_._fresh[0]
        isfor = s is not None
        st0 = st0.fork()
        base_writes = st0.writes

        def one_iteration(head, P):
            """-> (list of states at the loop head again, exits) ; exits: outcomes leaving the loop"""
            outs, again = [], []
            if isfor:
                x = fresh('x', V)
                h = head.fork()
                h.assume(prefix(L.snoc(P, x), s.term))
                h.assume(mem(x, s.term))
                for fname, frange, f in self.cfolds(st0):
                    h.assume(fresh('fold', frange) == f(L.snoc(P, x)))     # mention the fold one step on
                xv = self.load(h, x, s.ety)
                exc = []
                sts = list(self.assign(n.target, xv, h, exc))
                bodies = []
                for h1 in sts:
                    bodies.extend(self.block(n.body, h1))
                bodies.extend((q, 'raise', e) for q, e in exc)
                P2 = L.snoc(P, x)
            elif itobj is not None:
                exc, stops, bodies = [], [], []
                self.cls_const(self.proj.builtin('StopIteration'))
                for h1, f in self.getattr_(itobj, '__next__', head.fork(), exc):
                    for h2, x in self.call(f, [], {}, h1, stops):
                        for h3 in self.assign(n.target, x, h2, exc):
                            bodies.extend(self.block(n.body, h3))
                for q, e in stops:
                    a, b = self.branch(q, isin(e.term, vk('cls StopIteration')))
                    if a is not None:
                        outs.append((a, 'exhausted', None))
                    if b is not None:
                        exc.append((b, e))
                bodies.extend((q, 'raise', e) for q, e in exc)
                P2 = None
            else:
                exc = []
                bodies = []
                for h1, c in self.cond(n.test, head.fork(), exc):
                    a, b = self.branch(h1, c)
                    if b is not None:
                        outs.append((b, 'exhausted', None))
                    if a is not None:
                        self.refine(n.test, a, True)
                        bodies.extend(self.block(n.body, a))
                bodies.extend((q, 'raise', e) for q, e in exc)
                P2 = None
            for b, kind, val in bodies:
                if kind in ('next', 'continue'):
                    again.append((b, P2))
                else:
                    outs.append((b, kind, val))
            return again, outs

        # 1. which variables and heap cells does one iteration modify (fixpoint of dry runs)?
        mod_vars, mod_cells = {}, {'alloc': {}}     # var -> type, comp -> set of (sexpr, idterm) | None
        self.recording -= 1
        try:
            for _ in range(8):
                head, P = self.loop_head(st0, mod_vars, mod_cells, isfor, s)
                nob = len(self.obligations)
                was, self.mod_only = self.mod_only, True
                again, outs = one_iteration(head, P)
                self.mod_only = was
                changed = False
                for b, _p in again:
                    for fid, fr in st0.frames.items():
                        for k, v in b.frames[fid].items():
                            if k.startswith('$') and k not in ('$r', '$acc'):
                                continue
                            hv = head.frames[fid].get(k)
                            if hv is v:
                                continue
                            if isinstance(hv, Sym) and isinstance(v, Sym) and hv.term.eq(v.term) and hv.ty == v.ty:
                                continue
                            key = (fid, k)
                            if hv is None and k not in fr:
                                continue          # first assigned in the body: undefined at the head
                            t = self.join(self.ty_of(hv), self.ty_of(v))
                            if mod_vars.get(key) != t:
                                mod_vars[key] = t
                                changed = True
                    for c, oid in b.writes[len(base_writes):]:
                        cells = mod_cells.setdefault(c, {})
                        if oid is None:
                            if '*' not in cells:
                                cells['*'] = None
                                changed = True
                            continue
                        key = z3.simplify(oid).sexpr()
                        if key in cells:
                            continue
                        if self.stable(oid, mark):
                            cells[key] = oid
                            changed = True
                        elif key in self.fresh_ids or self.is_fresh_id(oid, b, st0):
                            if 'fresh' not in cells:
                                cells['fresh'] = None
                                changed = True
                        elif '*' not in cells:
                            cells['*'] = None
                            changed = True
                if not changed:
                    break
            else:
                raise Unsupported('loop modification analysis did not converge')
        finally:
            self.recording += 1
        if isfor and s.src is not None:
            c, oid = s.src
            cells = mod_cells.get(c, {})
            if '*' in cells:
                if DEBUG:
                    print('   written cells of', c, list(cells))
                raise Unsupported('iterated container may be modified in the loop')
            for k, t in cells.items():
                if t is not None and not prove(st0.pc, t != oid, self.axioms, 3000, False).ok:
                    if DEBUG:
                        print('   iterated', oid, 'written', t)
                    raise Unsupported('iterated container may be modified in the loop')
        # 2. candidate invariants, Houdini
        allowed = self.h_allowed.get(id(n)) if self.h_allowed is not None else None
        cands = [] if self.mod_only else [c for c in self.candidates(n, st0, mod_vars, mod_cells, isfor, s) if allowed is None or c[0] in allowed]
        live = []
        for name, f in cands:
            try:
                g = f(nil if isfor else None, st0)
            except (KeyError, z3.Z3Exception):
                continue
            if g is None:
                continue
            if prove(st0.pc, g, self.axioms, 3000, False, True).ok:
                live.append((name, f))
        def houdini(live):
            for _ in range(30):
                head, P = self.loop_head(st0, mod_vars, mod_cells, isfor, s)
                for name, f in live:
                    head.assume(f(P, head))
                outer, self.h_seen = self.h_seen, {}
                again, outs = one_iteration(head, P)
                # inner loops: what held nowhere in this round will not hold under weaker assumptions
                self.h_allowed, self.h_seen = self.h_seen, outer
                dropped = set()
                for b, P2 in again:
                    for name, f in live:
                        if name in dropped:
                            continue
                        pr = prove(b.pc, f(P2, b), self.axioms, 5000, False, True)
                        if not pr.ok:
                            if DEBUG:
                                print('   houdini drops', name, pr.why, '%.2f' % pr.secs)
                                if DEBUG == name or DEBUG == 'all':
                                    for hh in b.pc:
                                        print('      H', str(hh).replace('\n', ' ')[:600])
                                    print('      G', str(f(P2, b)).replace('\n', ' ')[:1500])
                            dropped.add(name)
                if not dropped:
                    break
                live = [(nm, f) for nm, f in live if nm not in dropped]
            return live
        self.recording -= 1
        try:
            # a cell that does not change needs no candidate in which it grows (together they make the solver loop)
            before = self.h_allowed
            still = houdini([(nm, f) for nm, f in live if nm.endswith(' unchanged')])
            self.h_allowed = before
            same = [nm[:-len(' unchanged')] for nm, _ in still]
            live = [(nm, f) for nm, f in live if not any(nm.startswith(c + ' = ') for c in same)]
            live = houdini(live)
        finally:
            self.recording += 1
        self.loop_log.append((getattr(n, 'lineno', 0), [nm for nm, _ in live]))
        if self.h_seen is not None:
            self.h_seen.setdefault(id(n), set()).update(nm for nm, _ in live)
        # 3. final pass
        head, P = self.loop_head(st0, mod_vars, mod_cells, isfor, s)
        for name, f in live:
            head.assume(f(P, head))
        again, outs = one_iteration(head, P)
        self.h_allowed = before
        result = []
        if isfor:
            done = head.fork()
            done.assume(P == s.term)
            # the loop target keeps its last value: forget it
            for nm in ast.walk(n.target):
                if isinstance(nm, ast.Name) and nm.id in done.env:
                    done.env.pop(nm.id)
            outs = outs + [(done, 'exhausted', None)]
        for b, kind, val in outs:
            if kind == 'exhausted':
                result.extend(self.block(n.orelse, b) if n.orelse else [(b, 'next', None)])
            elif kind == 'break':
                result.append((b, 'next', None))
            else:
                result.append((b, kind, val))
        return result

    def is_fresh_id(self, oid, st, st0):
        return prove(st.pc, oid >= st0.heap['alloc'], self.axioms, 2000, False, True).ok

    def join(self, a, b):
        if a == b:
            return a
        if a.kind == 'unk':
            return b
        if a.kind == 'none':
            return b if b.kind in ('opt', 'any') else Ty('opt', [b])
        if b.kind == 'none':
            return a if a.kind in ('opt', 'any') else Ty('opt', [a])
        if a.kind == 'opt' and a.args[0] == b:
            return a
        if b.kind == 'opt' and b.args[0] == a:
            return b
        return ANY

    def loop_head(self, st0, mod_vars, mod_cells, isfor, s):
        """arbitrary state at the head of the loop: entry state with everything modifiable forgotten"""
        h = st0.fork()
        if 'alloc' in mod_cells:
            h.heap['alloc'] = fresh('alloc', z3.IntSort())
            h.assume(h.heap['alloc'] >= st0.heap['alloc'])
        for c, cells in mod_cells.items():
            if c == 'alloc':
                continue
            if is_ghost(c):
                h.heap[c] = fresh('h' + c, ghost_sort(c))
                continue
            self.ensure(st0, c)
            self.ensure(h, c)
            if '*' in cells:
                h.heap[c] = fresh('h' + c, z3.ArraySort(z3.IntSort(), comp_sort(c)))
                continue
            base = st0.heap[c]
            if 'fresh' in cells:
                new = fresh('h' + c, z3.ArraySort(z3.IntSort(), comp_sort(c)))
                r = z3.Const('r', z3.IntSort())
                h.assume(z3.ForAll([r], z3.Implies(r < st0.heap['alloc'], z3.Select(new, r) == z3.Select(base, r)),
                                   patterns=[z3.Select(new, r)]))
                base = new
            for k, oid in cells.items():
                if k != 'fresh':
                    base = z3.Store(base, oid, fresh('h' + c, comp_sort(c)))
            h.heap[c] = base
        # what the loop forgets counts as written (an enclosing loop and the frame condition must see it)
        for c, cells in mod_cells.items():
            if is_ghost(c) or c == 'alloc':
                h.writes = h.writes + ((c, None),)
                continue
            for k, oid in cells.items():
                if k == 'fresh':
                    oid = fresh('loopnew', z3.IntSort())
                    self.fresh_ids.add(oid.sexpr())
                h.writes = h.writes + ((c, oid),)
        for (fid, k), t in mod_vars.items():
            old = st0.frames[fid].get(k)
            v = Sym(fresh(k.strip('$'), V), t)
            h.assume(self.type_facts(v.term, t, h))
            h.frames[fid][k] = v
        P = None
        if isfor:
            P = fresh('P', L)
            h.assume(prefix(P, s.term))
        return h, P

    def cfolds(self, st0):
        """folds of the contract, and those whose parameters are values the loop starts with"""
        c = self.contract
        if c is None:
            return []
        out = list(c.folds(self.entry_view))
        if hasattr(c, 'loop_folds'):
            try:
                out += list(c.loop_folds(self.entry_view, lambda n: self.to_v(st0.env[n]) if n in st0.env else None))
            except Unsupported:
                pass
        return out

    def candidates(self, n, st0, mod_vars, mod_cells, isfor, s):
        """cells modified by the loop x folds of the contract"""
        cells = []
        for (fid, k), t in mod_vars.items():
            def get(st, fid=fid, k=k):
                return self.to_v(st.frames[fid][k])
            sort = {'int': 'int', 'bool': 'bool'}.get(t.kind, 'V')
            if sort == 'int':
                cells.append(('%s' % k, z3.IntSort(), lambda st, g=get: V.iv(g(st))))
            elif sort == 'bool':
                cells.append(('%s' % k, z3.BoolSort(), lambda st, g=get: V.bv(g(st))))
            cells.append(('%s' % k, V, get))
        for c, ids in mod_cells.items():
            if c == 'alloc':
                continue
            if is_ghost(c):
                cells.append((c, L, lambda st, c=c: self.ensure(st, c)))
                continue
            for key, oid in ids.items():
                if oid is None:
                    continue
                cells.append(('%s@%s' % (c, key[:20]), comp_sort(c), lambda st, c=c, oid=oid: self.hget(st, c, oid)))
        out = []
        for nm, sort, get in cells:
            try:
                entry = get(st0)
            except (KeyError, Unsupported):
                entry = None
            if entry is not None:
                out.append(('%s unchanged' % nm, lambda P, st, g=get, e=entry: g(st) == e))
            for fname, frange, f in (self.cfolds(st0) if isfor else []):
                if frange == sort:
                    out.append(('%s = %s(prefix)' % (nm, fname), lambda P, st, g=get, f=f: g(st) == f(P)))
                    if sort == L and entry is not None:
                        out.append(('%s = entry ++ %s(prefix)' % (nm, fname),
                                    lambda P, st, g=get, f=f, e=entry: g(st) == app(e, f(P))))
                    if sort == z3.IntSort() and entry is not None:
                        out.append(('%s = entry + %s(prefix)' % (nm, fname),
                                    lambda P, st, g=get, f=f, e=entry: g(st) == e + f(P)))
            if isfor and entry is not None and hasattr(self.contract, 'entry_folds'):
                # folds which start from what the cell held when the loop was entered
                for fname, frange, f in self.contract.entry_folds(self.entry_view):
                    if frange == sort:
                        out.append(('%s = %s from entry' % (nm, fname), lambda P, st, g=get, f=f, e=entry: g(st) == f(e, P)))
            if isfor and sort == L:
                out.append(('%s = prefix' % nm, lambda P, st, g=get: g(st) == P))
                if entry is not None:
                    out.append(('%s = entry ++ prefix' % nm, lambda P, st, g=get, e=entry: g(st) == app(e, P)))
        if isfor and self.contract:
            # a fold that cannot have left its starting value (a loop that stops as soon as it does)
            for fname, frange, f in self.cfolds(st0):
                if frange == L:
                    continue
                out.append(('%s(prefix) still initial' % fname, lambda P, st, f=f: f(P) == f(nil)))
        if self.contract:
            info = LoopInfo()
            info.node, info.st0, info.mod_vars, info.mod_cells, info.isfor, info.seq = n, st0, mod_vars, mod_cells, isfor, s
            info.cells = cells
            info.ex = self
            out.extend(self.contract.invariants(self.entry_view, info))
        # unique names
        seen = {}
        res = []
        for nm, f in out:
            seen[nm] = seen.get(nm, 0) + 1
            res.append((nm if seen[nm] == 1 else '%s #%d' % (nm, seen[nm]), f))
        if hasattr(self.contract, 'keep'):       # a contract may name the few candidates worth trying
            res = [(nm, f) for nm, f in res if self.contract.keep(nm)]
        return res


class BindError(Exception):
    pass
