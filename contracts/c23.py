"""C23: look-ahead iteration, counters."""
from .common import *

F = 'slash/utils/iteration.py::'
NOTHING, END = vk('iteration _NOTHING'), vk('iteration _END')

head = T.fold('head', V, lambda: none, lambda r, x, l: If(l == nil, x, r))
tail = T.fold('tail', L, lambda: nil, lambda r, x, l: If(l == nil, nil, L.snoc(r, x)))
one = lambda x: L.snoc(nil, x)


def theory():
    if 'lemma tail.app' in [n for n, _ in T.axioms]:
        return
    T.lemma('head.app', (V,), lambda v, l: And(app(one(v), l) != nil, head(app(one(v), l)) == v), lambda v, l: [app(one(v), l)])
    T.lemma('tail.app', (V,), lambda v, l: tail(app(one(v), l)) == l, lambda v, l: [app(one(v), l)])


theory()


def registry():
    reg = base_registry()
    reg.fields.update({('PeekableIterator', '_iterator'): 'obj:SourceIterator', ('PeekableIterator', '_peeked'): 'any',
                       ('Iteration', 'element'): 'any', ('Iteration', 'counter0'): 'int', ('Iteration', 'counter1'): 'int',
                       ('Iteration', 'first'): 'bool', ('Iteration', 'last_counter0'): 'opt[int]', ('Iteration', 'last_counter1'): 'opt[int]',
                       ('Iteration', 'total'): 'opt[int]'})
    reg.globals['slash.utils.iteration._NOTHING'] = Sym(NOTHING, ANY)
    reg.globals['slash.utils.iteration._END'] = Sym(END, ANY)

    def nxt(ex, st, recv, a, kw, exc):
        """the wrapped iterator: the remaining items are the list kept for it"""
        l = ex.hget(st, 'L', ex.oid(recv))
        p, q = ex.branch(st, l == nil)
        if p is not None:
            ex.raise_builtin(p, 'StopIteration', exc)
        if q is not None:
            q = q.fork()
            ex.hset(q, 'L', ex.oid(recv), tail(l))
            q.assume(l == app(one(head(l)), tail(l)))
            q.assume(And(head(l) != NOTHING, head(l) != END))
            yield q, ex.load(q, head(l), ANY)
    reg.ext_methods[('SourceIterator', '__next__')] = nxt
    for c in CONTRACTS:
        reg.contracts[c.key] = c
    return reg


class Base(Contract):
    params = {'self': 'obj:PeekableIterator'}
    touches = ('f:_peeked', 'f:_iterator', 'L')

    def items(self, s, pre=False):
        """the items still to come out"""
        p = s.f(s.self, '_peeked', pre)
        rest = s.lst(s.f(s.self, '_iterator', True), pre)
        return If(p == NOTHING, rest, If(p == END, nil, app(one(p), rest)))

    def inv(self, s, pre):
        p = s.f(s.self, '_peeked', pre)
        return Implies(p == END, s.lst(s.f(s.self, '_iterator', True), pre) == nil)

    def pre(self, s):
        return [('nothing is lost behind the end', self.inv(s, True))]

    def mods(self, s):
        return [('f:_peeked', V.ov(s.self)), ('L', V.ov(s.f(s.self, '_iterator', True)))]


class Peek(Base):
    key = F + 'PeekableIterator.peek'
    ret = 'any'
    may_raise = True

    def post(self, s):
        return [('peeking shows the next item', And(self.items(s, True) != nil, s.res == head(self.items(s, True)))),
                ('peeking changes nothing that comes out', self.items(s) == self.items(s, True)), ('nothing is lost behind the end', self.inv(s, False))]

    def exc_post(self, s):
        return [('raises only at the end', self.items(s, True) == nil), ('the end stays the end', self.items(s) == nil), ('nothing is lost behind the end', self.inv(s, False)),
                ('raises StopIteration', isin(s.e, vk('cls StopIteration')))]


class HasNext(Base):
    key = F + 'PeekableIterator.has_next'
    ret = 'bool'

    def post(self, s):
        return [('true iff something comes out', V.bv(s.res) == (self.items(s, True) != nil)),
                ('asking changes nothing that comes out', self.items(s) == self.items(s, True)), ('nothing is lost behind the end', self.inv(s, False))]


class PeekOrNone(Base):
    key = F + 'PeekableIterator.peek_or_none'
    ret = 'any'

    def post(self, s):
        return [('the next item, none at the end', s.res == If(self.items(s, True) == nil, none, head(self.items(s, True)))),
                ('peeking changes nothing that comes out', self.items(s) == self.items(s, True)), ('nothing is lost behind the end', self.inv(s, False))]


class Next(Base):
    key = F + 'PeekableIterator.next'
    ret = 'any'
    may_raise = True

    def post(self, s):
        i0 = self.items(s, True)
        return [('the next item comes out', And(i0 != nil, s.res == head(i0))), ('the others follow in order', self.items(s) == tail(i0)),
                ('nothing is lost behind the end', self.inv(s, False))]

    def exc_post(self, s):
        return [('raises only at the end', self.items(s, True) == nil), ('the end stays the end', self.items(s) == nil), ('nothing is lost behind the end', self.inv(s, False)),
                ('raises StopIteration', isin(s.e, vk('cls StopIteration')))]


class IterationInit(Contract):
    key = F + 'Iteration.__init__'
    params = {'self': 'obj:Iteration', 'element': 'any', 'counter0': 'int', 'counter1': 'int', 'first': 'bool', 'last_counter0': 'opt[int]'}
    ret = 'none'
    touches = ('f:element', 'f:counter0', 'f:counter1', 'f:first', 'f:last_counter0', 'f:last_counter1', 'f:total')

    def mods(self, s):
        return [(c, V.ov(s.self)) for c in self.touches]

    def post(self, s):
        f = lambda n: s.f(s.self, n)
        tot = If(s.last_counter0 == none, none, V.i(V.iv(s.last_counter0) + 1))
        return [('counters are those given', And(f('counter0') == s.counter0, f('counter1') == s.counter1, f('element') == s.element, f('first') == s.first,
                                                 f('last_counter0') == s.last_counter0)),
                ('the total is one more than the last index', And(f('total') == tot, f('last_counter1') == tot))]


class Last(Contract):
    key = F + 'Iteration.last'
    params = {'self': 'obj:Iteration'}
    ret = 'bool'
    may_raise = True
    touches = ('f:counter0', 'f:last_counter0')

    def post(self, s):
        return [('true exactly at the last index', V.bv(s.res) == (s.f(s.self, 'counter0', True) == s.f(s.self, 'last_counter0', True)))]

    def exc_post(self, s):
        return [('refused only when the length is unknown', s.f(s.self, 'last_counter0', True) == none)]


CONTRACTS = [Peek(), HasNext(), PeekOrNone(), Next(), IterationInit(), Last()]
ASSUMPTIONS = ['the wrapped iterator yields a sequence of items and then keeps raising StopIteration; items are not the module-private markers']
BOUNDED = ['iteration() (generator over any iterable), iter_cartesian_dicts, IDSpace (endless generator expression): bounded harness only']
