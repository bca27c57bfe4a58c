"""C15: distribution of test indices to parallel workers."""
from .common import *

F = 'slash/parallel/tests_distributer.py::TestsDistributer.'
W = 'slash/parallel/worker_configuration.py::WorkerConfiguration.'


def registry():
    reg = base_registry()
    reg.fields.update({
        ('TestsDistributer', '_unstarted_tests_indices'): 'list[int]',
        ('TestsDistributer', '_current_tests_index'): 'int',
        ('TestsDistributer', '_workers_excluded_tests'): 'dict[str,set[int]]',
        ('TestsDistributer', '_forced_tests_dict'): 'dict[int,str]',
        ('WorkerConfiguration', '_worker_id'): 'str',
        ('WorkerConfiguration', '_excluded_tests'): 'set[int]',
        ('WorkerConfiguration', '_forced_tests'): 'set[int]',
        ('Session', 'parallel_manager'): 'obj:ParallelManager',
        ('ParallelManager', 'workers'): 'dict[str,obj:WorkerConfiguration]',
    })
    reg.globals['slash.ctx.session'] = Sym(V.o(z3.Int('SESSION')), 'obj:Session')
    reg.fn_models = {}
    for c in CONTRACTS:
        reg.contracts[c.key] = c
    reg.eq_models = {}
    return reg


def can(s, i, client, pre=True):
    """the worker may run test i: forced to it, or not forced and not excluded by it"""
    forced = z3.Select(s.dmap(s.f('self' and s.self, '_forced_tests_dict', pre), pre), i)
    excl = s.sset(z3.Select(s.dmap(s.f(s.self, '_workers_excluded_tests', pre), pre), client), pre)
    return If(forced != absent, forced == client, Not(z3.Select(excl, i)))


first_can = {}


def View_first(s, dist, client):
    return first_fold(s, client, dist)


def first_fold(s, client, dist=None):
    """first element of a list the worker may run (none if there is none), as a fold over the list"""
    x = z3.Const('x', V)
    key = 'first_permitted'
    d = s.self if dist is None else dist
    fm, em, sm = s.dmap(s.f(d, '_forced_tests_dict', True), True), s.dmap(s.f(d, '_workers_excluded_tests', True), True), s._h('S', True)

    def permitted(fm, em, sm, c, x):
        forced = z3.Select(fm, x)
        return If(forced != absent, forced == c, Not(z3.Select(z3.Select(sm, V.ov(z3.Select(em, c))), x)))
    f = T.fold(key, V, lambda fm, em, sm, c: none,
               lambda fm, em, sm, c, r, x, l: If(r != none, r, If(permitted(fm, em, sm, c, x), x, none)),
               (T_.MapS, T_.MapS, z3.ArraySort(Int, T_.SetS), V))
    if key not in first_can:
        first_can[key] = f
        T.lemma('first_permitted.mem', (T_.MapS, T_.MapS, z3.ArraySort(Int, T_.SetS), V),
                lambda fm, em, sm, c, l: Implies(f(fm, em, sm, c, l) != none,
                                                 And(mem(f(fm, em, sm, c, l), l), permitted(fm, em, sm, c, f(fm, em, sm, c, l)))),
                lambda fm, em, sm, c, l: [f(fm, em, sm, c, l)])
        T.lemma('first_permitted.none', (T_.MapS, T_.MapS, z3.ArraySort(Int, T_.SetS), V, V),
                lambda fm, em, sm, c, v, l: Implies(And(f(fm, em, sm, c, l) == none, mem(v, l), v != none),
                                                    Not(permitted(fm, em, sm, c, v))),
                lambda fm, em, sm, c, v, l: [f(fm, em, sm, c, l), mem(v, l)])
        T.lemma('first_permitted.prefix', (T_.MapS, T_.MapS, z3.ArraySort(Int, T_.SetS), V, L),
                lambda fm, em, sm, c, p, l: Implies(And(T_.prefix(p, l), f(fm, em, sm, c, p) != none),
                                                    f(fm, em, sm, c, l) == f(fm, em, sm, c, p)),
                lambda fm, em, sm, c, p, l: [T_.prefix(p, l), f(fm, em, sm, c, l), f(fm, em, sm, c, p)])
    return lambda l: f(fm, em, sm, client, l)


class Base(Contract):
    params = {'self': 'obj:TestsDistributer'}

    def waiting(self, s, pre=False):
        return s.lst(s.f(s.self, '_unstarted_tests_indices', pre), pre)

    def cell(self, s):
        return ('L', V.ov(s.f(s.self, '_unstarted_tests_indices', True)))


class CanExecute(Base):
    key = F + '_can_execute_test'
    params = {'self': 'obj:TestsDistributer', 'test_index': 'int', 'client_id': 'str'}
    ret = 'bool'
    touches = ('f:_forced_tests_dict', 'f:_workers_excluded_tests', 'Dv', 'S')

    def pre(self, s):
        return [('the worker is known', z3.Select(s.dmap(s.f(s.self, '_workers_excluded_tests')), s.client_id) != absent)]

    def post(self, s):
        return [('permitted iff forced to this worker, or neither forced nor excluded',
                 V.bv(s.res) == can(s, s.test_index, s.client_id))]


class GetNext(Base):
    key = F + 'get_next_test_for_client'
    params = {'self': 'obj:TestsDistributer', 'client_id': 'str'}
    ret = 'opt[int]'
    touches = ('f:_forced_tests_dict', 'f:_workers_excluded_tests', 'f:_unstarted_tests_indices', 'Dv', 'S', 'L')

    def pre(self, s):
        return [('the worker is known', z3.Select(s.dmap(s.f(s.self, '_workers_excluded_tests')), s.client_id) != absent),
                ('waiting indices are distinct', T_.nodup(self.waiting(s, True)))]

    def folds(self, s):
        return [('first_permitted', V, first_fold(s, s.client_id))]

    def mods(self, s):
        return [self.cell(s), ('f:_unstarted_tests_indices', V.ov(s.self))]

    def post(self, s):
        w0, w1 = self.waiting(s, True), self.waiting(s)
        first = first_fold(s, s.client_id)(w0)
        v = z3.Const('anyv', V)
        return [('the first waiting test this worker may run is handed out, none if it may run none', s.res == first),
                ('a handed out test was waiting and is permitted',
                 Implies(s.res != none, And(mem(s.res, w0), can(s, s.res, s.client_id)))),
                ('handed out test no longer waits', Implies(s.res != none, Not(mem(s.res, w1)))),
                ('nothing handed out: no waiting test is permitted',
                 Implies(And(s.res == none, mem(v, w0), V.is_i(v)), Not(can(s, v, s.client_id)))),
                ('every other waiting test keeps waiting, in order',
                 w1 == If(s.res == none, w0, remove1(s.res, w0))),
                ('waiting indices stay distinct', T_.nodup(w1))]


class Clear(Base):
    key = F + 'clear_unstarted_tests'
    ret = 'none'
    touches = ('f:_unstarted_tests_indices', 'L')

    def mods(self, s):
        return [('f:_unstarted_tests_indices', V.ov(s.self)), self.cell(s)]

    def post(self, s):
        return [('nothing waits', self.waiting(s) == nil)]


class GetUnstarted(Base):
    key = F + 'get_unstarted_tests'
    ret = 'list[int]'
    touches = ('f:_unstarted_tests_indices', 'L')

    def post(self, s):
        return [('reports exactly the waiting tests', s.lst(s.res) == self.waiting(s, True)),
                ('callers cannot alter the waiting list', s.newobj(s.res))]


class HasUnstarted(Base):
    key = F + 'has_unstarted_tests'
    ret = 'bool'
    touches = ('f:_unstarted_tests_indices', 'L')

    def post(self, s):
        return [('true iff something waits', V.bv(s.res) == (self.waiting(s, True) != nil))]


class WBase(Contract):
    params = {'self': 'obj:WorkerConfiguration', 'test': 'int'}
    ret = 'none'
    may_raise = True
    touches = ('f:_excluded_tests', 'f:_forced_tests', 'S')

    def sets(self, s, pre):
        return s.sset(s.f(s.self, '_excluded_tests', True), pre), s.sset(s.f(s.self, '_forced_tests', True), pre)

    def pre(self, s):
        return [('own sets', distinct_ids(s.f(s.self, '_excluded_tests'), s.f(s.self, '_forced_tests')))]

    def exc_post(self, s):
        return [('a refused request changes nothing', And(self.sets(s, True)[0] == self.sets(s, False)[0],
                                                         self.sets(s, True)[1] == self.sets(s, False)[1])),
                ('refused only on a contradiction', z3.Select(self.sets(s, True)[self.other], s.test))]


class Exclude(WBase):
    key = W + 'exclude_test'
    other = 1

    def mods(self, s):
        return [('S', V.ov(s.f(s.self, '_excluded_tests', True)))]

    def post(self, s):
        e0, f0 = self.sets(s, True)
        e1, f1 = self.sets(s, False)
        return [('exactly this test becomes excluded', e1 == z3.Store(e0, s.test, z3.BoolVal(True))),
                ('forced tests unchanged', f1 == f0), ('not both forced and excluded', Not(z3.Select(f0, s.test)))]


class Force(WBase):
    key = W + 'force_test'
    other = 0

    def mods(self, s):
        return [('S', V.ov(s.f(s.self, '_forced_tests', True)))]

    def post(self, s):
        e0, f0 = self.sets(s, True)
        e1, f1 = self.sets(s, False)
        return [('exactly this test becomes forced', f1 == z3.Store(f0, s.test, z3.BoolVal(True))),
                ('excluded tests unchanged', e1 == e0), ('not both forced and excluded', Not(z3.Select(e0, s.test)))]


CONTRACTS = [CanExecute(), GetNext(), Clear(), GetUnstarted(), HasUnstarted(), Exclude(), Force()]
ASSUMPTIONS = ['worker ids are strings, test indices are integers (declared field types are assumed, stores are checked)']
