"""Contracts, the registry of models, and the per-function verification driver."""
import ast, time, z3
from . import terms as T_
from .terms import V, L, none, absent, nil, vk, vs, vi, vb, fresh, mk, T, length, mem, app
from .values import (Unsupported, Ty, ty, ANY, Sym, Fn, ClsV, Bound, BoundExt, Ext, Tup, Seq, Partial, CMV, State, EXC, NONE)
from .exec import Exec, NONEV, isin, comp_sort, is_ghost
from . import solver


class View(object):
    """what a contract sees: pre/post heap, arguments, result, exception"""

    def __init__(self, ex, st, h0, h1, args, res, e):
        self.ex, self.st, self.h0, self.h1, self.args, self._res, self._e = ex, st, h0, h1, args, res, e
        self._pend = []

    def take(self, st):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        a = object.__getattribute__(self, 'args')
        if name in a:
            return self.t(a[name])
        raise AttributeError(name)

    def t(self, v):
        """V term of an executor value"""
        return v if z3.is_expr(v) else self.ex.to_v(v)

    def val(self, name):
        return self.args[name]

    @property
    def res(self):
        return self.t(self._res)

    @property
    def e(self):
        return self._e.term

    def _h(self, c, pre):
        h = self.h0 if pre else self.h1
        if c not in h:
            if is_ghost(c):
                return z3.Const('H0:' + c, L)
            return z3.Const('H0:' + c, z3.ArraySort(z3.IntSort(), comp_sort(c)))
        return h[c]

    def f(self, obj, field, pre=False):
        o = self.t(obj)
        return z3.simplify(z3.Select(self._h('f:' + field, pre), V.ov(o)))

    def lst(self, obj, pre=False):
        return z3.simplify(z3.Select(self._h('L', pre), V.ov(self.t(obj))))

    def dkeys(self, obj, pre=False):
        return z3.simplify(z3.Select(self._h('Dk', pre), V.ov(self.t(obj))))

    def dmap(self, obj, pre=False):
        return z3.simplify(z3.Select(self._h('Dv', pre), V.ov(self.t(obj))))

    def sset(self, obj, pre=False):
        return z3.simplify(z3.Select(self._h('S', pre), V.ov(self.t(obj))))

    def g(self, name, pre=False):
        return self._h('G:' + name, pre)

    def tr(self, pre=False):
        return self._h('G:tr', pre)

    def old(self):
        return View(self.ex, self.st, self.h0, self.h0, self.args, self._res, self._e)

    def alloc(self, pre=True):
        return (self.h0 if pre else self.h1)['alloc']

    def oldobj(self, t):
        """t is an object that existed at entry"""
        return z3.And(V.is_o(t), V.ov(t) < self.h0['alloc'])

    def newobj(self, t):
        return z3.And(V.is_o(t), V.ov(t) >= self.h0['alloc'], V.ov(t) < self.h1['alloc'])


class Contract(object):
    key = None
    params = {}
    ret = 'any'
    may_raise = False
    allocates = True
    yields = None          # element type when the function is a generator verified through its yielded sequence
    use_at_calls = True
    touches = ()
    at_return = None       # (ghost component, f(view)): appended at call sites when the call returns
    cm = None              # for @contextmanager functions: model of the with-body

    def __init__(self):
        self.ret = ty(self.ret)

    name = None

    def label(self):
        return self.name or self.key

    def pre(self, s):
        return []

    def post(self, s):
        return []

    def exc_post(self, s):
        return []

    def mods(self, s):
        return []

    def components(self):
        return self.touches

    def folds(self, s):
        return []

    def invariants(self, s, info):
        return []

    def setup(self, ex, st):
        """extra assumptions about the entry state (reported as assumptions)"""


class Registry(object):
    def __init__(self):
        self.contracts = {}
        self.globals = {}            # dotted name -> value
        self.fields = {}             # (class, attr) -> type | ('const', value)
        self.ext_methods = {}        # (class, method) -> handler(ex, st, recv, args, kw, exc)
        self.ext_models = {}         # dotted -> handler(ex, st, args, kw, exc)
        self.ext_prefixes = []       # (prefix, handler factory)
        self.ext_attrs = {}
        self.noargs = set()
        self.callbacks = {}
        self.ctors = {}
        self.fn_models = {}
        self.closures = {}
        self.eq_models = {}
        self.setattr_models = {}
        self.elem_types = {}
        self.own_fields = set()      # (class, attr): a component of its own (the class has no relation to others with such a field)
        self.class_attrs = {}        # (class, attribute) -> value, for class attributes made by external calls
        self.refine_classes = ()     # classes of /repo whose isinstance test makes an unknown value one of their objects
        self.bases = {}              # abstract class -> parent abstract classes
        self.transparent_decorators = {'property', 'staticmethod', 'classmethod', 'functools.wraps', 'wraps', 'deprecated'}

    def contract_for(self, fn, proj):
        return self.contracts.get(fn.key) if (fn.key in self.contracts and self.contracts[fn.key].use_at_calls) else None

    def _chain(self, cn, proj):
        out = [cn]
        c = proj.class_by_name(cn) if proj else None
        if c is not None:
            out += [b.name for b in proj.mro(c)[1:] if isinstance(b, ClsV)]
        for x in list(out):
            out += [b for b in self.bases.get(x, []) if b not in out]
        return out

    def field_type(self, cn, attr, proj):
        for c in self._chain(cn, proj):
            t = self.fields.get((c, attr))
            if t is not None:
                return t if isinstance(t, tuple) else ty(t)
        return None

    def field_comp(self, cn, attr, proj):
        if self.own_fields:
            for c in self._chain(cn, proj):
                if (c, attr) in self.own_fields:
                    return 'f:%s.%s' % (c, attr)
        return 'f:' + attr

    def ext_method(self, cn, attr, proj):
        for c in self._chain(cn, proj):
            if (c, attr) in self.ext_methods:
                return (c,)
            if (c, '*') in self.ext_methods:
                return (c,)
        return None

    def method_model(self, cls, meth):
        return self.ext_methods.get((cls, meth)) or self.ext_methods.get((cls, '*') if (cls, '*') in self.ext_methods else None) \
            if not (cls, '*') in self.ext_methods else (self.ext_methods.get((cls, meth)) or self._star(cls, meth))

    def _star(self, cls, meth):
        h = self.ext_methods[(cls, '*')]
        return lambda ex, st, recv, args, kw, exc: h(ex, st, recv, meth, args, kw, exc)

    def ext_model(self, name):
        if name in self.ext_models:
            return self.ext_models[name]
        for p, h in self.ext_prefixes:
            if name.startswith(p):
                return lambda ex, st, args, kw, exc: h(ex, st, name, args, kw, exc)
        return None


class FnResult(object):
    def __init__(self, key):
        self.key, self.status, self.obls, self.why, self.secs = key, 'ok', [], '', 0.0
        self.inlined, self.contracts, self.models, self.loops = [], [], [], []
        self.source_hash = ''

    @property
    def discharged(self):
        return sum(1 for o in self.obls if o['ok'])


def verify(proj, reg, c, timeout=10000, max_secs=120):
    """-> FnResult; status ok | failed | unsupported | undecided"""
    t0 = time.time()
    r = FnResult(c.key)
    try:
        fn = proj.find(c.key)
        ex = Exec(proj, reg, c)
        obls, nexits = run_contract(ex, proj, reg, c, fn)
        r.inlined, r.contracts, r.models = sorted(ex.inlined), sorted(ex.used_contracts), sorted(ex.used_models)
        r.loops = ex.loop_log
        import hashlib
        r.source_hash = hashlib.sha256(ast.dump(fn.node).encode()).hexdigest()[:16]
        if not obls:
            r.status, r.why = 'failed', 'no obligation generated'
        names = {}
        failed = False
        undecided = False
        bad_time = 0
        for name, hyps, goal in obls:
            names[name] = names.get(name, 0) + 1
            full = name if names[name] == 1 else '%s [path %d]' % (name, names[name])
            if bad_time > max_secs:
                r.obls.append({'name': full, 'ok': False, 'why': 'skipped (time budget)', 'backend': '-', 'secs': 0})
                undecided = True
                continue
            p = solver.prove(hyps, goal, ex.axioms, timeout)
            d = {'name': full, 'ok': p.ok, 'why': p.why, 'backend': p.backend, 'secs': round(p.secs, 3)}
            if not p.ok:
                bad_time += p.secs
                d['goal'] = str(goal)[:2000]
                if p.model is not None:
                    d['model'] = str(p.model)[:3000]
                if p.why == 'timeout':
                    undecided = True
                else:
                    failed = True
            r.obls.append(d)
        if failed:
            r.status = 'failed'
        elif undecided:
            r.status = 'undecided'
    except Unsupported as e:
        r.status, r.why = 'unsupported', str(e)
    except RecursionError:
        r.status, r.why = 'unsupported', 'recursion limit'
    except Exception as e:     # an engine error must never look like a violation
        import traceback
        r.status, r.why = 'unsupported', 'engine error: %s: %s' % (type(e).__name__, traceback.format_exc()[-1500:])
    r.secs = time.time() - t0
    return r


def run_contract(ex, proj, reg, c, fn):
    st = State()
    st.heap['alloc'] = z3.Const('alloc0', z3.IntSort())
    st.assume(st.heap['alloc'] >= 0)
    node = fn.node
    a = node.args
    args = {}
    allp = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
    roles = list(c.params.items())
    # parameters are matched by position (a renamed parameter keeps its contract)
    argv, kwv = [], {}
    pos = [p.arg for p in a.posonlyargs + a.args]
    for idx, (pname, t) in enumerate(roles):
        if pname.startswith('**'):
            continue
        if isinstance(t, str) or isinstance(t, Ty):
            v = Sym(z3.Const('arg_' + pname, V), t)
            st.assume(ex.type_facts(v.term, v.ty, st))
        else:
            v = t(ex, st) if callable(t) else t
        args[pname] = v
    caller = ex.new_frame(st, None)
    st.frames[caller]['$module'] = fn.module
    st.fid = caller
    for pname, t in roles:
        if pname.startswith('*'):
            continue
        if pname in pos or pname not in allp and len(argv) < len(pos) and not (pname in [k.arg for k in a.kwonlyargs]):
            argv.append(args[pname])
        else:
            kwv[pname] = args[pname]
    star = args.get('**')
    fid = ex.new_frame(st, None)
    fr = st.frames[fid]
    fr['$fn'], fr['$module'], fr['$locals'] = fn, fn.module, ex.local_names(node)
    rest = list(argv)
    if c.params.get('$exact_bind'):
        pass
    for p in pos:
        if rest:
            fr[p] = rest.pop(0)
    for k, v in kwv.items():
        if k in allp:
            fr[k] = v
        elif a.kwarg is None:
            raise Unsupported('parameter %s of the contract is gone' % k)
    if a.vararg is not None:
        fr[a.vararg.arg] = args.get('*' + a.vararg.arg, Tup([]))
        if '*' + a.vararg.arg in args and isinstance(fr[a.vararg.arg], Sym):
            pass
    if a.kwarg is not None:
        kwname = '**' + a.kwarg.arg
        anykw = [k for k in c.params if k.startswith('**')]
        if anykw:
            kw = c.params[anykw[0]](ex, st)
            args[anykw[0][2:]] = kw
            fr[a.kwarg.arg] = kw
        else:
            fr[a.kwarg.arg] = ex.new_dict(st)
    missing = [p for p in allp if p not in fr]
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for p in missing:
        if p not in defaults:
            raise Unsupported('parameter %s has no contract' % p)
        v = list(ex.ev(defaults[p], st, []))
        fr[p] = v[0][1]
    args = {k: v for k, v in args.items()}
    if len(argv) > len(pos):
        raise Unsupported('parameter list changed')
    st.fid = fid
    st.writes = ()
    h0 = dict(st.heap)
    for comp in c.components():
        ex.ensure(st, comp)
    h0 = dict(st.heap)
    c.setup(ex, st)
    for name, t in getattr(c, 'free', {}).items():   # variables of the enclosing function, read only
        if name in st.env:
            raise Unsupported('free variable %s is bound' % name)
        v = ex.load(st, z3.Const('arg_' + name, V), t)
        st.env[name] = args[name] = v
    view = View(ex, st, h0, h0, args, None, None)
    ex.entry_view = view
    for name, g in c.pre(view):
        st.assume(g)
    # vacuity guard: the precondition must be satisfiable as far as the solver can tell
    s0 = solver.prove(st.pc, z3.BoolVal(False), ex.axioms, 2000, False)
    if s0.ok:
        raise Unsupported('vacuous precondition')
    decos = ex.decorators(node)
    gen = ex.is_generator(node)
    iscm = any(d in ('contextmanager', 'contextlib.contextmanager') for d in decos)
    if iscm:
        if c.cm is None:
            raise Unsupported('context manager without a body model')

        def at_yield(st2, v):
            return c.cm(ex, View(ex, st2, h0, st2.heap, args, v, None), st2, v)
        st.env['$yield'] = at_yield
    elif gen:
        lst = ex.new_list(st, nil, Ty('unk'))
        st.env['$yields'] = lst
    # the body, with recursive calls going through the contract
    outs = ex.block(node.body, st)
    nexits = 0
    for st1, kind, val in outs:
        h1 = st1.heap
        if kind == 'raise':
            v = View(ex, st1, h0, h1, args, None, val)
            if not c.may_raise:
                ex.oblige('no exception escapes', st1, z3.BoolVal(False))
            else:
                for name, g in c.exc_post(v):
                    ex.oblige('exceptional postcondition: ' + name, st1, g)
        elif kind in ('return', 'next'):
            res = val if kind == 'return' else NONEV
            if gen and not iscm:
                yl = st1.frames[fid]['$yields']
                res = Sym(V.t(ex.hget(st1, 'L', ex.oid(yl))), 'tup')
            v = View(ex, st1, h0, h1, args, res, None)
            if isinstance(res, Seq):
                v._res = Sym(V.t(res.term), 'tup')
            for name, g in c.post(v):
                ex.oblige('postcondition: ' + name, st1, g)
        else:
            raise Unsupported('loop control at function level')
        nexits += 1
        # frame: nothing that existed at entry changes except what the contract lists
        frame(ex, c, View(ex, st1, h0, h1, args, None, None), st1, h0)
    obls = ex.obligations
    return obls, nexits


def frame(ex, c, view, st, h0):
    mods = c.mods(View(ex, st, h0, h0, view.args, None, None))
    bycomp = {}
    for comp, oid in mods:
        bycomp.setdefault(comp, []).append(oid)
    written = {w[0] for w in st.writes}
    for comp in sorted(written):
        if comp == 'alloc' or comp == 'f:$cls':
            continue
        old = h0.get(comp)
        new = st.heap[comp]
        if is_ghost(comp):
            if comp not in bycomp:
                old = old if old is not None else z3.Const('H0:' + comp, L)
                if not old.eq(new):
                    ex.oblige('frame: %s unchanged' % comp, st, new == old)
            continue
        if old is None:
            old = z3.Const('H0:' + comp, z3.ArraySort(z3.IntSort(), comp_sort(comp)))
        ids = bycomp.get(comp, [])
        if any(i is None for i in ids):
            continue
        # only the ids actually written can differ
        ws = [w[1] for w in st.writes if w[0] == comp]
        cand = None
        if any(w is None for w in ws):
            r = fresh('r', z3.IntSort())
            ex.oblige('frame: %s' % comp, st, z3.Implies(z3.And(r >= 0, r < h0['alloc'], *[r != i for i in ids]),
                                                         z3.Select(new, r) == z3.Select(old, r)))
        else:
            seen = set()
            for w in ws:
                k = w.sexpr()
                if k in seen or k in ex.fresh_ids or any(w.eq(i) for i in ids):
                    continue
                seen.add(k)
                ex.oblige('frame: %s' % comp, st, z3.Implies(z3.And(w >= 0, w < h0['alloc'], *[w != i for i in ids]),
                                                             z3.Select(new, w) == z3.Select(old, w)))
