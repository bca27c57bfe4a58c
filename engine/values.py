"""Executor-level values, static type hints, states."""
import z3
from .terms import V, L, none, absent, nil, vk, vs, vi, vb, fresh, mk


class Unsupported(Exception):
    """construct outside the verified subset: the function is reported, never guessed at"""


class Ty(object):
    __slots__ = ('kind', 'args', 'name')

    def __init__(self, kind, args=(), name=None):
        self.kind, self.args, self.name = kind, tuple(args), name

    def __repr__(self):
        s = self.kind
        if self.name:
            s += ':' + self.name
        if self.args:
            s += '[' + ','.join(map(repr, self.args)) + ']'
        return s

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


_cache = {}


def ty(text):
    if isinstance(text, Ty):
        return text
    if text not in _cache:
        _cache[text] = _parse(text.replace(' ', ''))
    return _cache[text]


def _parse(t):
    if '[' in t:
        head, rest = t.split('[', 1)
        rest = rest[:-1]
        args, depth, cur = [], 0, ''
        for c in rest:
            if c == ',' and depth == 0:
                args.append(cur)
                cur = ''
                continue
            depth += (c == '[') - (c == ']')
            cur += c
        args.append(cur)
        return Ty(head, [_parse(a) for a in args])
    if ':' in t:
        k, n = t.split(':', 1)
        return Ty(k, (), n)
    return Ty(t)


ANY, INT, BOOL, STR, NONE, EXC = map(ty, ('any', 'int', 'bool', 'str', 'none', 'exc'))


class Sym(object):
    __slots__ = ('term', 'ty', 'rec')

    def __init__(self, term, t=ANY, rec=None):
        self.term, self.ty, self.rec = term, ty(t), rec

    def __repr__(self):
        return 'Sym(%s: %r)' % (self.term, self.ty)


class Fn(object):
    def __init__(self, qual, node, module, frame=None, cls=None, decos=()):
        self.qual, self.node, self.module, self.frame, self.cls = qual, node, module, frame, cls
        self.defaults = None

    @property
    def key(self):
        return self.module.path + '::' + self.qual

    def __repr__(self):
        return 'Fn(%s)' % self.key


class ClsV(object):
    def __init__(self, name, node=None, module=None, builtin=None):
        self.name, self.node, self.module, self.builtin = name, node, module, builtin

    def __repr__(self):
        return 'Cls(%s)' % self.name


class Bound(object):
    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn


class BoundExt(object):
    def __init__(self, recv, cls, meth):
        self.recv, self.cls, self.meth = recv, cls, meth


class Ext(object):
    """external function/module/object, identified by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Tup(object):
    def __init__(self, items):
        self.items = list(items)


class Seq(object):
    """an immutable sequence used as an iterable"""

    def __init__(self, term, ety, src=None):
        self.term, self.ety, self.src = term, ty(ety), src


class Partial(object):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class CMV(object):
    """an instance of a @contextmanager generator, not entered yet"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class CMExt(object):
    def __init__(self, handler, args, kwargs):
        self.handler, self.args, self.kwargs = handler, args, kwargs


class Super(object):
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class State(object):
    __slots__ = ('pc', 'heap', 'frames', 'writes', 'fid', 'facts')

    def __init__(self):
        self.pc, self.heap, self.frames, self.writes, self.fid = (), {}, {}, (), 0

    def fork(self):
        s = State()
        s.pc, s.heap, s.writes, s.fid = self.pc, dict(self.heap), self.writes, self.fid
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        return s

    def assume(self, f):
        if z3.is_true(f):
            return self
        self.pc = self.pc + (f,)
        return self

    @property
    def env(self):
        return self.frames[self.fid]
