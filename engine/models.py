"""Models of Python builtins (lists, dicts, sets, strings, iteration helpers). Part of the trusted base."""
import ast, z3
from . import terms as T_
from .terms import V, L, none, absent, nil, vk, vs, vi, vb, vt, fresh, mk, mem, length, app, T, remove1, revapp, upto, strf
from .values import (Unsupported, Ty, ty, ANY, INT, BOOL, STR, NONE, EXC, Sym, Fn, ClsV, Bound, BoundExt, Ext, Tup, Seq,
                     Partial, CMV, CMExt)
from .exec import NONEV, isin, str_in, lt_f, attr_f, has_attr

sorted_f = z3.Function('sorted_by', V, L, L)
_k, _l, _x = z3.Const('k', V), z3.Const('l', L), z3.Const('x', V)
T.ax('sorted.mem', z3.ForAll([_k, _l, _x], mem(_x, sorted_f(_k, _l)) == mem(_x, _l), patterns=[mem(_x, sorted_f(_k, _l))]))
T.ax('sorted.len', z3.ForAll([_k, _l], length(sorted_f(_k, _l)) == length(_l), patterns=[length(sorted_f(_k, _l))]))
set_of = T.fold('set_of', z3.ArraySort(V, z3.BoolSort()), lambda: z3.K(V, z3.BoolVal(False)),
                lambda r, x, l: z3.Store(r, x, z3.BoolVal(True)))
T.lemma('set_of.mem', (V,), lambda v, l: z3.Select(set_of(l), v) == mem(v, l), lambda v, l: [z3.Select(set_of(l), v)])


card = z3.Function('card', T_.SetS, z3.IntSort())
_S = z3.Const('S_', T_.SetS)
T.ax('card.zero', z3.ForAll([_S], z3.And(card(_S) >= 0, (card(_S) == 0) == (_S == z3.K(V, z3.BoolVal(False)))), patterns=[card(_S)]))


cls_of_f = z3.Function('class_of', V, V)
traceback_f = z3.Function('traceback_of', V, V)


def install(reg):
    M, X = reg.ext_methods, reg.ext_models

    # ---- list
    def l_get(ex, st, r):
        return ex.hget(st, 'L', ex.oid(r))

    def list_append(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'L', ex.oid(r), L.snoc(l_get(ex, st, r), ex.to_v(a.items[0])))
        if r.ty.args and r.ty.args[0].kind == 'unk':
            ex.note_elem(r, ex.ty_of(a.items[0]))
        yield st, NONEV

    def list_extend(ex, st, r, a, kw, exc):
        for st1, s in ex.iter_seq(a.items[0], st.fork(), exc):
            ex.hset(st1, 'L', ex.oid(r), app(l_get(ex, st1, r), s.term))
            if r.ty.args and r.ty.args[0].kind == 'unk':
                ex.note_elem(r, s.ety)
            yield st1, NONEV

    def list_pop(ex, st, r, a, kw, exc):
        if a.items and ex.const_int(a.items[0]) != -1:
            if ex.const_int(a.items[0]) == 0:
                l = l_get(ex, st, r)
                p, q = ex.branch(st, l == nil)
                if p is not None:
                    ex.raise_builtin(p, 'IndexError', exc)
                if q is not None:
                    q = q.fork()
                    x, rest = fresh('hd', V), fresh('tl', L)
                    q.assume(l == app(L.snoc(nil, x), rest))
                    q.assume(mem(x, l))
                    ex.hset(q, 'L', ex.oid(r), rest)
                    yield q, ex.load(q, x, r.ty.args[0])
                return
            raise Unsupported('list.pop(i)')
        l = l_get(ex, st, r)
        p, q = ex.branch(st, l == nil)
        if p is not None:
            ex.raise_builtin(p, 'IndexError', exc)
        if q is not None:
            q = q.fork()
            ex.hset(q, 'L', ex.oid(r), z3.simplify(L.init(l)))
            q.assume(l == L.snoc(L.init(l), L.last(l)))
            yield q, ex.load(q, z3.simplify(L.last(l)), r.ty.args[0])

    def list_remove(ex, st, r, a, kw, exc):
        l = l_get(ex, st, r)
        x = ex.to_v(a.items[0])
        p, q = ex.branch(st, mem(x, l))
        if q is not None:
            ex.raise_builtin(q, 'ValueError', exc)
        if p is not None:
            p = p.fork()
            ex.hset(p, 'L', ex.oid(r), remove1(x, l))
            yield p, NONEV

    def list_clear(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'L', ex.oid(r), nil)
        yield st, NONEV

    def list_copy(ex, st, r, a, kw, exc):
        st = st.fork()
        yield st, ex.new_list(st, l_get(ex, st, r), r.ty.args[0])

    def list_insert(ex, st, r, a, kw, exc):
        if ex.const_int(a.items[0]) != 0:
            raise Unsupported('list.insert')
        st = st.fork()
        ex.hset(st, 'L', ex.oid(r), app(L.snoc(nil, ex.to_v(a.items[1])), l_get(ex, st, r)))
        yield st, NONEV

    def list_reverse(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'L', ex.oid(r), revapp(nil, l_get(ex, st, r)))
        yield st, NONEV

    def list_sort(ex, st, r, a, kw, exc):
        st = st.fork()
        key = ex.to_v(kw['key']) if 'key' in kw else none
        ex.hset(st, 'L', ex.oid(r), sorted_f(key, l_get(ex, st, r)))
        yield st, NONEV
    for n, h in list(locals().items()):
        if n.startswith('list_'):
            M[('list', n[5:])] = h

    # ---- dict
    def dk(ex, st, r):
        return ex.hget(st, 'Dk', ex.oid(r))

    def dv(ex, st, r):
        return ex.hget(st, 'Dv', ex.oid(r))

    def rec_ty(r, k, default):
        return default

    def dict_get(ex, st, r, a, kw, exc):
        k = ex.to_v(a.items[0])
        d = a.items[1] if len(a.items) > 1 else NONEV
        m = dv(ex, st, r)
        p, q = ex.branch(st, z3.Select(m, k) == absent)
        if p is not None:
            yield p, d
        if q is not None:
            q = q.fork()
            yield q, ex.load(q, z3.simplify(z3.Select(m, k)), r.ty.args[1])

    def mergeable(d, t):
        """a default and a stored value that can be one conditional term instead of two paths"""
        return isinstance(d, Sym) and (d.ty == t and t.kind in ('bool', 'int', 'str', 'any', 'obj', 'list', 'dict') or
                                       t.kind == 'opt' and (d.ty.kind == 'none' or d.ty == t or d.ty == t.args[0]))

    def static_of(r, k, t):
        if r.rec and r.rec[0] == 'keyed':
            for lit, t2 in r.rec[1].items():
                if z3.simplify(vs(lit)).eq(z3.simplify(k)):
                    return ty(t2)
        return None if r.rec and r.rec[0] == 'static' else t

    def dict_pop(ex, st, r, a, kw, exc):
        k = ex.to_v(a.items[0])
        m = dv(ex, st, r)
        if len(a.items) > 1:
            t = static_of(r, k, r.ty.args[1])
            if t is not None and mergeable(a.items[1], t):
                st = st.fork()
                val = z3.Select(m, k)
                gone = val == absent
                keys = dk(ex, st, r)
                ex.hset(st, 'Dk', ex.oid(r), z3.If(gone, keys, remove1(k, keys)))
                ex.hset(st, 'Dv', ex.oid(r), z3.Store(m, k, absent))
                yield st, ex.load(st, z3.simplify(z3.If(gone, a.items[1].term, val)), t)
                return
        p, q = ex.branch(st, z3.Select(m, k) == absent)
        if p is not None:
            if len(a.items) > 1:
                yield p, a.items[1]
            else:
                ex.raise_builtin(p, 'KeyError', exc)
        if q is not None:
            q = q.fork()
            val = z3.simplify(z3.Select(m, k))
            ex.hset(q, 'Dk', ex.oid(r), remove1(k, dk(ex, q, r)))
            ex.hset(q, 'Dv', ex.oid(r), z3.Store(m, k, absent))
            if r.rec and r.rec[0] == 'keyed':
                for lit, t in r.rec[1].items():
                    if z3.simplify(vs(lit)).eq(z3.simplify(k)):
                        yield q, ex.load(q, val, t)
                        return
            if r.rec and r.rec[0] == 'static':
                for lit, v in r.rec[1].items():
                    if z3.simplify(vs(lit)).eq(z3.simplify(k)):
                        yield q, v
                        return
            yield q, ex.load(q, val, r.ty.args[1])

    def dict_setdefault(ex, st, r, a, kw, exc):
        k = ex.to_v(a.items[0])
        m = dv(ex, st, r)
        p, q = ex.branch(st, z3.Select(m, k) == absent)
        d = a.items[1] if len(a.items) > 1 else NONEV
        if p is not None:
            p = p.fork()
            ex.dict_store(p, r, a.items[0], d)
            if isinstance(d, Sym) and d.ty.kind == 'list' and r.ty.args[1].kind == 'list':
                d = Sym(d.term, r.ty.args[1])
            yield p, d
        if q is not None:
            q = q.fork()
            yield q, ex.load(q, z3.simplify(z3.Select(m, k)), r.ty.args[1])

    def dict_keys(ex, st, r, a, kw, exc):
        yield st, Seq(dk(ex, st, r), r.ty.args[0], ('Dk', ex.oid(r)))

    vals_of = T.fold('vals_of', L, lambda m: nil, lambda m, rr, x, l: L.snoc(rr, z3.Select(m, x)), (T_.MapS,))
    items_of = T.fold('items_of', L, lambda m: nil, lambda m, rr, x, l: L.snoc(rr, vt(x, z3.Select(m, x))), (T_.MapS,))
    reg.vals_of, reg.items_of = vals_of, items_of

    def dict_values(ex, st, r, a, kw, exc):
        yield st, Seq(vals_of(dv(ex, st, r), dk(ex, st, r)), r.ty.args[1], ('Dk', ex.oid(r)))

    def dict_items(ex, st, r, a, kw, exc):
        yield st, Seq(items_of(dv(ex, st, r), dk(ex, st, r)), Ty('tuple', r.ty.args), ('Dk', ex.oid(r)))

    def dict_copy(ex, st, r, a, kw, exc):
        st = st.fork()
        d = ex.new_dict(st, *r.ty.args)
        ex.hset(st, 'Dk', ex.oid(d), dk(ex, st, r))
        ex.hset(st, 'Dv', ex.oid(d), dv(ex, st, r))
        yield st, d

    upd_map = z3.Function('upd_map', T_.MapS, T_.MapS, T_.MapS)
    upd_keys = z3.Function('upd_keys', L, T_.MapS, L, L)   # keys1, map1, keys2
    m1, m2, kk = z3.Const('m1', T_.MapS), z3.Const('m2', T_.MapS), z3.Const('kk', V)
    T.ax('upd_map', z3.ForAll([m1, m2, kk], z3.Select(upd_map(m1, m2), kk) ==
                              z3.If(z3.Select(m2, kk) == absent, z3.Select(m1, kk), z3.Select(m2, kk)),
                              patterns=[z3.Select(upd_map(m1, m2), kk)]))
    reg.upd_map = upd_map

    def dict_update(ex, st, r, a, kw, exc):
        o = a.items[0]
        if not (isinstance(o, Sym) and o.ty.kind == 'dict') or kw:
            raise Unsupported('dict.update argument')
        st = st.fork()
        k1, mm1, k2, mm2 = dk(ex, st, r), dv(ex, st, r), dk(ex, st, o), dv(ex, st, o)
        ex.hset(st, 'Dk', ex.oid(r), upd_keys(k1, mm1, k2))
        ex.hset(st, 'Dv', ex.oid(r), upd_map(mm1, mm2))
        yield st, NONEV

    def dict_clear(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'Dk', ex.oid(r), nil)
        ex.hset(st, 'Dv', ex.oid(r), z3.K(V, absent))
        yield st, NONEV
    for n, h in list(locals().items()):
        if n.startswith('dict_'):
            M[('dict', n[5:])] = h

    # ---- set
    def sv(ex, st, r):
        return ex.hget(st, 'S', ex.oid(r))

    def set_add(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'S', ex.oid(r), z3.Store(sv(ex, st, r), ex.to_v(a.items[0]), z3.BoolVal(True)))
        yield st, NONEV

    def set_discard(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'S', ex.oid(r), z3.Store(sv(ex, st, r), ex.to_v(a.items[0]), z3.BoolVal(False)))
        yield st, NONEV

    def set_remove(ex, st, r, a, kw, exc):
        x = ex.to_v(a.items[0])
        p, q = ex.branch(st, z3.Select(sv(ex, st, r), x))
        if q is not None:
            ex.raise_builtin(q, 'KeyError', exc)
        if p is not None:
            p = p.fork()
            ex.hset(p, 'S', ex.oid(r), z3.Store(sv(ex, p, r), x, z3.BoolVal(False)))
            yield p, NONEV

    def set_update(ex, st, r, a, kw, exc):
        for st1, s in ex.iter_seq(a.items[0], st, exc):
            st1 = st1.fork()
            x = z3.Const('x', V)
            old = sv(ex, st1, r)
            new = fresh('set', T_.SetS)
            st1.assume(z3.ForAll([x], z3.Select(new, x) == z3.Or(z3.Select(old, x), mem(x, s.term)),
                                 patterns=[z3.Select(new, x)]))
            ex.hset(st1, 'S', ex.oid(r), new)
            yield st1, NONEV

    def set_copy(ex, st, r, a, kw, exc):
        st = st.fork()
        n = ex.new_set(st, r.ty.args[0])
        ex.hset(st, 'S', ex.oid(n), sv(ex, st, r))
        yield st, n

    def set_clear(ex, st, r, a, kw, exc):
        st = st.fork()
        ex.hset(st, 'S', ex.oid(r), z3.K(V, z3.BoolVal(False)))
        yield st, NONEV
    for n in ('add', 'discard', 'remove', 'update', 'copy', 'clear'):
        M[('set', n)] = locals()['set_' + n]

    # ---- str: results are uninterpreted functions of the arguments
    def str_star(ex, st, r, meth, a, kw, exc):
        if meth in ('format', 'strip', 'lower', 'upper', 'join', 'replace', 'lstrip', 'rstrip', 'title', 'encode'):
            args = list(a.items) if isinstance(a, Tup) else [a]
            args = [x if isinstance(x, (Sym, Tup, Seq)) else NONEV for x in args]
            if meth == 'join':
                for st1, s in ex.iter_seq(args[0], st, exc):
                    yield st1, ex.mkstr('join', [r, Sym(V.t(s.term))])
                return
            yield st, ex.mkstr(meth, [r] + args + [kw[k] for k in sorted(kw) if isinstance(kw[k], Sym)])
        elif meth in ('startswith', 'endswith', 'isidentifier', 'isdigit'):
            yield st, Sym(V.b(truth_op(meth, [r] + a.items, ex)), BOOL)
        elif meth in ('split', 'rsplit', 'splitlines', 'partition'):
            st = st.fork()
            l = z3.Function('str_' + meth, L, L)
            term = l(mk(*[ex.to_v(x) for x in [r] + a.items]))
            yield st, ex.new_list(st, term, STR)
        elif meth in ('count', 'find', 'index'):
            yield st, Sym(V.i(z3.Function('str_' + meth, L, z3.IntSort())(mk(*[ex.to_v(x) for x in [r] + a.items]))), INT)
        else:
            raise Unsupported('str.%s' % meth)

    def truth_op(name, vals, ex):
        return z3.Function('strp_' + name, L, z3.BoolSort())(mk(*[ex.to_v(v) for v in vals]))
    M[('str', '*')] = str_star

    # ---- builtins
    def b(name):
        def deco(h):
            X['builtins.' + name] = h
            return h
        return deco

    @b('len')
    def _len(ex, st, a, kw, exc):
        v = a.items[0]
        u = ex.untuple(v)
        if u is not None:
            yield st, Sym(vi(len(u)), INT)
            return
        if isinstance(v, Seq):
            yield st, Sym(V.i(length(v.term)), INT)
            return
        k = v.ty.kind
        if k == 'list':
            yield st, Sym(V.i(length(l_get(ex, st, v))), INT)
        elif k == 'dict':
            yield st, Sym(V.i(length(dk(ex, st, v))), INT)
        elif k == 'tup':
            yield st, Sym(V.i(length(V.tv(v.term))), INT)
        elif k == 'set':
            yield st, Sym(V.i(card(sv(ex, st, v))), INT)
        elif k == 'str':
            yield st, Sym(V.i(z3.Function('str_len', V, z3.IntSort())(v.term)), INT)
        elif k == 'obj':
            for st1, f in ex.getattr_(v, '__len__', st, exc):
                for r in ex.call(f, [], {}, st1, exc):
                    yield r
        else:
            raise Unsupported('len of %r' % (v,))

    @b('list')
    def _list(ex, st, a, kw, exc):
        if not a.items:
            st = st.fork()
            yield st, ex.new_list(st, nil, Ty('unk'))
            return
        for st1, s in ex.iter_seq(a.items[0], st, exc):
            st1 = st1.fork()
            yield st1, ex.new_list(st1, s.term, s.ety)

    @b('tuple')
    def _tuple(ex, st, a, kw, exc):
        if not a.items:
            yield st, Tup([])
            return
        u = ex.untuple(a.items[0])
        if u is not None:
            yield st, Tup(u)
            return
        v = a.items[0]
        if isinstance(v, Sym) and v.ty.kind == 'any':
            yield st, Sym(attr_f(v.term, V.kv(vk('op tuple'))), ANY)
            return
        for st1, s in ex.iter_seq(v, st, exc):
            yield st1, Sym(V.t(s.term), Ty('tup', [s.ety]))

    @b('iter')
    def _iter(ex, st, a, kw, exc):
        for st1, s in ex.iter_seq(a.items[0], st, exc):
            yield st1, s

    @b('set')
    def _set(ex, st, a, kw, exc):
        st = st.fork()
        if not a.items:
            yield st, ex.new_set(st)
            return
        for st1, s in ex.iter_seq(a.items[0], st, exc):
            st1 = st1.fork()
            n = ex.new_set(st1, s.ety)
            ex.hset(st1, 'S', ex.oid(n), set_of(s.term))
            yield st1, n

    @b('dict')
    def _dict(ex, st, a, kw, exc):
        st = st.fork()
        if not a.items:
            d = ex.new_dict(st, STR if kw else ANY, ANY)
            for k, v in kw.items():
                ex.dict_store(st, d, ex.const(k), v)
            yield st, d
            return
        v = a.items[0]
        if isinstance(v, Sym) and v.ty.kind == 'dict' and not kw:
            for r in dict_copy(ex, st, v, Tup([]), {}, exc):
                yield r
            return
        raise Unsupported('dict() of a sequence')

    @b('range')
    def _range(ex, st, a, kw, exc):
        if len(a.items) != 1:
            raise Unsupported('range with several arguments')
        v = a.items[0]
        if not (isinstance(v, Sym) and v.ty.kind == 'int'):
            raise Unsupported('range of non-int')
        t = upto(V.iv(v.term))
        x = z3.Const('x', V)
        st.assume(z3.ForAll([x], mem(x, t) == z3.And(V.is_i(x), V.iv(x) >= 0, V.iv(x) < V.iv(v.term)), patterns=[mem(x, t)]))
        st.assume(length(t) == z3.If(V.iv(v.term) > 0, V.iv(v.term), z3.IntVal(0)))
        st.assume(T_.nodup(t))
        yield st, Seq(t, INT)

    @b('reversed')
    def _reversed(ex, st, a, kw, exc):
        s = ex.seq(a.items[0], st)
        yield st, Seq(revapp(nil, s.term), s.ety, s.src)

    enum_of = z3.Function('enum_of', z3.IntSort(), L, L)
    n_, l_, x_ = z3.Const('n', z3.IntSort()), z3.Const('l', L), z3.Const('x', V)
    T.ax('enum.nil', z3.ForAll([n_], enum_of(n_, nil) == nil, patterns=[enum_of(n_, nil)]))
    T.ax('enum.snoc', z3.ForAll([n_, l_, x_], enum_of(n_, L.snoc(l_, x_)) ==
                                L.snoc(enum_of(n_, l_), vt(V.i(n_ + length(l_)), x_)),
                                patterns=[enum_of(n_, L.snoc(l_, x_))]))
    reg.enum_of = enum_of

    @b('enumerate')
    def _enumerate(ex, st, a, kw, exc):
        start = a.items[1] if len(a.items) > 1 else kw.get('start', Sym(vi(0), INT))
        for st1, s in ex.iter_seq(a.items[0], st, exc):
            yield st1, Seq(enum_of(V.iv(start.term), s.term), Ty('tuple', [INT, s.ety]), s.src)

    @b('isinstance')
    def _isinstance(ex, st, a, kw, exc):
        yield st, Sym(V.b(z3.simplify(ex.isinstance_(a.items[0], a.items[1], st))), BOOL)

    @b('issubclass')
    def _issubclass(ex, st, a, kw, exc):
        yield st, Sym(V.b(z3.Function('issubclass', V, V, z3.BoolSort())(ex.to_v(a.items[0]), ex.class_list(a.items[1]))), BOOL)

    @b('callable')
    def _callable(ex, st, a, kw, exc):
        v = a.items[0]
        if isinstance(v, (Fn, Bound, Partial, ClsV)) or (isinstance(v, Sym) and v.ty.kind in ('fn', 'cb')):
            yield st, Sym(vb(True), BOOL)
        else:
            yield st, Sym(V.b(z3.Function('callable', V, z3.BoolSort())(ex.to_v(v))), BOOL)

    @b('bool')
    def _bool(ex, st, a, kw, exc):
        if not a.items:
            yield st, Sym(vb(False), BOOL)
            return
        for st1, c in ex.truth(a.items[0], st, exc):
            yield st1, Sym(V.b(z3.simplify(c)), BOOL)

    @b('str')
    def _str(ex, st, a, kw, exc):
        v = a.items[0]
        if isinstance(v, Sym) and v.ty.kind == 'str':
            yield st, v
        else:
            yield st, ex.mkstr('str', [v])

    @b('repr')
    def _repr(ex, st, a, kw, exc):
        yield st, ex.mkstr('repr', [a.items[0]])

    @b('int')
    def _int(ex, st, a, kw, exc):
        v = a.items[0]
        if isinstance(v, Sym) and v.ty.kind == 'int':
            yield st, v
            return
        raise Unsupported('int()')

    @b('id')
    def _id(ex, st, a, kw, exc):
        yield st, Sym(V.i(z3.Function('py_id', V, z3.IntSort())(ex.to_v(a.items[0]))), INT)

    @b('type')
    def _type(ex, st, a, kw, exc):
        yield st, ex.opaque_attr(ex.to_v(a.items[0]), '__class__')

    @b('getattr')
    def _getattr(ex, st, a, kw, exc):
        o, n = a.items[0], a.items[1]
        lit = literal(n)
        if lit is None:
            raise Unsupported('getattr with a computed name')
        if isinstance(o, Sym) and o.ty.kind == 'obj' and (reg.field_type(o.ty.name, lit, ex.proj) is not None):
            t = ex.hget(st, reg.field_comp(o.ty.name, lit, ex.proj), ex.oid(o))
            if len(a.items) > 2:
                p, q = ex.branch(st, t == absent)
                if p is not None:
                    yield p, a.items[2]
                if q is not None:
                    q = q.fork()
                    yield q, ex.load(q, t, reg.field_type(o.ty.name, lit, ex.proj))
                return
            for r in ex.getattr_(o, lit, st, exc):
                yield r
            return
        if len(a.items) > 2:
            ov = ex.to_v(o)
            h = has_attr(ov, V.kv(vk('attr ' + lit)))
            p, q = ex.branch(st, h)
            if p is not None:
                yield p, ex.opaque_attr(ov, lit)
            if q is not None:
                yield q, a.items[2]
            return
        for r in ex.getattr_(o, lit, st, exc):
            yield r

    def literal(n):
        if isinstance(n, Sym) and n.ty.kind == 'str':
            t = z3.simplify(n.term)
            for s, k in T_._strings.items():
                if t.eq(z3.simplify(V.s(z3.IntVal(k)))):
                    return s
        return None
    reg.literal = literal

    @b('setattr')
    def _setattr(ex, st, a, kw, exc):
        lit = literal(a.items[1])
        if lit is None:
            raise Unsupported('setattr with a computed name')
        for s in ex.setattr_(a.items[0], lit, a.items[2], st, exc):
            yield s, NONEV

    @b('hasattr')
    def _hasattr(ex, st, a, kw, exc):
        lit = literal(a.items[1])
        v = a.items[0]
        if isinstance(v, Sym) and v.ty.kind in ('int', 'bool', 'str', 'none', 'list', 'dict', 'set') and lit is not None:
            proto = {'int': int, 'bool': bool, 'str': str, 'none': type(None), 'list': list, 'dict': dict, 'set': set}[v.ty.kind]
            yield st, Sym(vb(hasattr(proto, lit)), BOOL)
            return
        if isinstance(v, Sym) and v.ty.kind == 'obj' and lit is not None and ex.reg.field_type(v.ty.name, lit, ex.proj) is not None:
            yield st, Sym(vb(True), BOOL)
            return
        yield st, Sym(V.b(has_attr(ex.to_v(a.items[0]), V.kv(vk('attr ' + str(lit))))), BOOL)

    @b('filter')
    def _filter(ex, st, a, kw, exc):
        yield from desugar(ex, st, exc, '[x for x in $it if $f(x)]', {'$it': a.items[1], '$f': a.items[0]})

    @b('map')
    def _map(ex, st, a, kw, exc):
        if len(a.items) != 2:
            raise Unsupported('map of several iterables')
        yield from desugar(ex, st, exc, '[$f(x) for x in $it]', {'$it': a.items[1], '$f': a.items[0]})

    @b('sum')
    def _sum(ex, st, a, kw, exc):
        st = st.fork()
        yield from desugar_fold(ex, st, exc, a.items[0], 'int')

    @b('any')
    def _any(ex, st, a, kw, exc):
        yield from desugar(ex, st, exc, 'any(x for x in $it)', {'$it': a.items[0]})

    @b('all')
    def _all(ex, st, a, kw, exc):
        yield from desugar(ex, st, exc, 'all(x for x in $it)', {'$it': a.items[0]})

    def desugar(ex, st, exc, src, binds):
        node = ast.parse(src.replace('$', '_D_'), mode='eval').body
        st = st.fork()
        f = ex.new_frame(st, None)
        st.frames[f]['$module'] = st.env['$module']
        for k, v in binds.items():
            st.frames[f][k.replace('$', '_D_')] = v
        old, st.fid = st.fid, f
        e2 = []
        for st1, v in ex.ev(node, st, e2):
            st1.fid = old
            yield st1, v
        for s, e in e2:
            s.fid = old
            exc.append((s, e))

    def desugar_fold(ex, st, exc, it, kind):
        raise Unsupported('sum')

    @b('sorted')
    def _sorted(ex, st, a, kw, exc):
        key = ex.to_v(kw['key']) if 'key' in kw else none
        if 'reverse' in kw:
            raise Unsupported('sorted(reverse=)')
        for st1, s in ex.iter_seq(a.items[0], st, exc):
            st1 = st1.fork()
            yield st1, ex.new_list(st1, sorted_f(key, s.term), s.ety)

    @b('next')
    def _next(ex, st, a, kw, exc):
        v = a.items[0]
        if isinstance(v, Sym) and v.ty.kind == 'obj':
            h = reg.ext_method(v.ty.name, '__next__', ex.proj)
            for st1, f in ex.getattr_(v, '__next__', st, exc):
                e2 = []
                for r in ex.call(f, [], {}, st1, e2):
                    yield r
                if len(a.items) > 1:
                    ex.cls_const(ex.proj.builtin('StopIteration'))
                    for s, e in e2:
                        p, q = ex.branch(s, isin(e.term, vk('cls StopIteration')))
                        if p is not None:
                            yield p, a.items[1]
                        if q is not None:
                            exc.append((q, e))
                else:
                    exc.extend(e2)
            return
        raise Unsupported('next of %r' % (v,))

    X['object.__init__'] = lambda ex, st, a, kw, exc: iter([(st, NONEV)])
    X['functools.partial'] = lambda ex, st, a, kw, exc: iter([(st, Partial(a.items[0], a.items[1:], kw))])

    def chain(ex, st, a, kw, exc):
        term, e = nil, None
        for v in a.items:
            for st, s in ex.iter_seq(v, st, exc):
                pass
            term = app(term, s.term)
            e = s.ety if e is None or e == s.ety else ANY
        yield st, Seq(term, e or ANY)
    X['itertools.chain'] = chain

    def exc_info(ex, st, a, kw, exc):
        cur, fid = None, st.fid
        while fid is not None and cur is None:
            cur = st.frames[fid].get('$handling')
            fid = st.frames[fid].get('$parent')
        if cur is None:
            yield st, Tup([NONEV, NONEV, NONEV])
        else:
            yield st, Tup([Sym(cls_of_f(cur.term), ANY), cur, Sym(traceback_f(cur.term), ANY)])
    X['sys.exc_info'] = exc_info

    def reraise(ex, st, a, kw, exc):
        exc.append((st.fork(), Sym(ex.to_v(a.items[1]), EXC)))
        return iter(())
    reg.fn_models['slash/utils/python.py::reraise'] = lambda ex, st, a, kw, exc: reraise(ex, st, a if isinstance(a, Tup) else Tup(a), kw, exc)
    for n in ('trace', 'debug', 'info', 'notice', 'warn', 'warning', 'error', 'exception'):
        reg.noargs.add('logger.' + n)
