"""C22: log files: opening, closing, removal, links."""
from .common import *
from engine.exec import strf, truthy_f

F = 'slash/log.py::'
S = F + 'SessionLogging.'
success, failed, is_global = (z3.Function(n, V, Bool) for n in ('result_success_or_skipped', 'result_error_or_failure', 'result_is_global'))
all_success = z3.Const('session_success_or_skipped', Bool)
formatted, normalized, joined, dirname = (z3.Function('path_' + n, *([V] * k)) for n, k in (('formatted', 2), ('normalized', 2), ('join', 3), ('dirname', 2)))
absolute, fresh_handler_accepts = z3.Function('path_isabs', V, Bool), z3.Function('handler_accepts', V, V, Bool)
log_path_of = z3.Function('log_path_of_result', V, V)
REMOVE, CLOSE, OPEN, LINK, BODY = (event(n) for n in ('remove', 'close', 'open', 'link', 'body'))


# an event is (argument.., kind): the kind comes last so that it can be taken apart
def ev(kind, *args):
    return V.t(mk(*(list(args) + [kind])))


def only_last(name, kind):
    return T.fold(name, L, lambda: nil, lambda r, x, l: If(And(V.is_t(x), L.is_snoc(V.tv(x)), L.last(V.tv(x)) == kind), L.snoc(r, V.t(L.init(V.tv(x)))), r))


removed, closed, opened, links, bodies = (only_last(n, k) for n, k in (('removed_files', REMOVE), ('closed_files', CLOSE), ('opened_files', OPEN), ('links_made', LINK), ('bodies_run', BODY)))
asked = lambda r: Or(Not(V.bv(cfg('log.cleanup.keep_failed'))), And(Not(is_global(r)), success(r)), And(is_global(r), all_success))
taken = T.fold('records_accepted', L, lambda h: nil, lambda h, r, x, l: If(fresh_handler_accepts(h, x), L.snoc(r, x), r), (V,))
emitted = only_last('records_emitted', event('emitted'))


def registry():
    reg = base_registry()
    for p, t in (('log.cleanup.keep_failed', 'bool'), ('log.cleanup.enabled', 'bool'), ('log.root', 'opt[str]'), ('log.subpath', 'any'), ('log.session_subpath', 'any'), ('log.last_test_symlink', 'opt[str]'),
                 ('log.last_session_symlink', 'opt[str]'), ('log.last_session_dir_symlink', 'opt[str]'), ('log.last_failed_symlink', 'opt[str]'), ('log.format', 'any'), ('log.compression.algorithm', 'str'), ('log.compression.enabled', 'bool'),
                 ('parallel.worker_id', 'any'), ('log.localtime', 'bool')):
        config_leaf(reg, p, ty(t))
    reg.fields.update({('SessionLogging', 'session'): 'obj:Session', ('Session', 'results'): 'obj:SessionResults', ('SessionResults', 'global_result'): 'obj:Result', ('SessionLogging', '_log_path_to_handler'): 'dict[str,opt[obj:Handler]]',
                       ('SessionLogging', '_retained_log_paths'): 'set[str]', ('SessionLogging', 'test_log_path'): 'any', ('SessionLogging', 'session_log_path'): 'opt[str]', ('SessionLogging', 'session_log_handler'): 'opt[obj:Handler]', ('Context', 'result'): 'obj:Result',
                       ('Handler', 'file'): 'any', ('RetainedLogHandler', 'records'): 'list[any]'})
    install_handling(reg, quiet=True)

    def pred(f):
        def h(ex, st, recv, a, kw, exc):
            yield st, Sym(V.b(f(ex, recv, kw)), BOOL)
        return h

    def ok(ex, recv, kw):
        if set(kw) != {'allow_skips'} or not z3.is_true(z3.simplify(V.bv(ex.to_v(kw['allow_skips'])))):
            raise Unsupported('success without skips')
        return success(recv.term)

    def all_ok(ex, recv, kw):
        ok(ex, recv, kw)
        return all_success
    errored = z3.Function('result_error', V, Bool)
    reg.ext_methods[('Result', 'is_global_result')] = pred(lambda ex, r, kw: is_global(r.term))
    reg.ext_methods[('Result', 'is_success')] = pred(ok)
    reg.ext_methods[('SessionResults', 'is_success')] = pred(all_ok)
    reg.ext_methods[('Result', 'is_error')] = pred(lambda ex, r, kw: And(errored(r.term), failed(r.term)))
    reg.ext_methods[('Result', 'is_failure')] = pred(lambda ex, r, kw: And(Not(errored(r.term)), failed(r.term)))
    reg.ext_methods[('Result', 'get_log_path')] = lambda ex, st, recv, a, kw, exc: iter([(st, Sym(log_path_of(recv.term), ANY))])

    def emit(ex, st, kind, *args):
        st = st.fork()
        ex.gset(st, 'G:tr', L.snoc(ex.ensure(st, 'G:tr'), ev(kind, *args)))
        return st

    def fails(ex, st, exc, anything=False):
        bad = st.fork()
        e = Sym(fresh('io_error', V), EXC)
        ex.cls_const(ex.proj.builtin('Exception'))
        bad.assume(ex.type_facts(e.term, EXC, bad))
        if not anything:
            bad.assume(isin(e.term, EX))
        exc.append((bad, e))

    def set_path(ex, st, recv, a, kw, exc):
        yield emit(ex, st, event('log path'), recv.term, ex.to_v(a.items[0])), NONEV
    reg.ext_methods[('Result', 'set_log_path')] = set_path

    def path_f(f):
        def h(ex, st, a, kw, exc):
            t = f(*[ex.to_v(x) for x in a.items])
            st = st.fork()
            st.assume(V.is_s(t))
            yield st, Sym(t, STR)
        return h
    reg.ext_models['os.path.join'], reg.ext_models['os.path.dirname'], reg.ext_models['os.path.expanduser'] = path_f(joined), path_f(dirname), path_f(normalized)
    reg.ext_models['os.path.isabs'] = lambda ex, st, a, kw, exc: iter([(st, Sym(V.b(absolute(ex.to_v(a.items[0]))), BOOL))])
    for n in ('exists', 'islink'):
        reg.ext_models['os.path.' + n] = lambda ex, st, a, kw, exc: iter([(st, Sym(V.b(z3.FreshConst(Bool, 'there')), BOOL))])

    def fmt(ex, st, a, kw, exc):
        t = formatted(ex.to_v(a[-1] if isinstance(a, list) else a.items[-1]))
        fails(ex, st, exc)
        st = st.fork()
        st.assume(V.is_s(t))
        yield st, Sym(t, STR)
    reg.fn_models[F + '_format_log_path'] = fmt

    def io(kind=None, n=0):
        def h(ex, st, a, kw, exc):
            items = list(a) if isinstance(a, list) else list(a.items)
            st = emit(ex, st, kind, *[ex.to_v(x) for x in items[:n]]) if kind is not None else st
            fails(ex, st, exc)
            yield st, NONEV
        return h
    reg.ext_models['os.remove'], reg.ext_models['os.rmdir'], reg.ext_models['os.unlink'] = io(REMOVE, 1), io(), io()
    reg.ext_models['os.symlink'] = io(LINK, 2)
    reg.ext_models['os.listdir'] = lambda ex, st, a, kw, exc: [fails(ex, st, exc), (st, Seq(fresh('entries', L), STR))][1:]
    reg.fn_models['slash/utils/path.py::ensure_containing_directory'] = io()

    def close(ex, st, recv, a, kw, exc):
        yield emit(ex, st, CLOSE, ex.hget(st, 'f:file', ex.oid(recv))), NONEV
    reg.ext_methods[('Handler', 'close')] = close

    def create(ex, st, a, kw, exc):
        fails(ex, st, exc)
        path = ex.to_v(a[1])
        st = emit(ex, st, OPEN, path)
        o = ex.new_obj(st, 'Handler')
        ex.hset(st, 'f:file', ex.oid(o), path)
        yield st, o
    reg.fn_models[S + '_create_log_file_handler'] = create
    reg.fn_models[S + '_set_formatting'] = io()

    def other(ex, st, a, kw, exc):
        st = st.fork()
        o = ex.new_obj(st, 'Handler')
        ex.hset(st, 'f:file', ex.oid(o), none)
        yield st, o
    reg.ctors['NoopHandler'] = other
    reg.ext_models['logbook.NullHandler'] = other

    def should_handle(ex, st, recv, a, kw, exc):
        yield st, Sym(V.b(fresh_handler_accepts(recv.term, ex.to_v(a.items[0]))), BOOL)

    def emit_record(ex, st, recv, a, kw, exc):
        fails(ex, st, exc)
        yield emit(ex, st, event('emitted'), ex.to_v(a.items[0])), NONEV
    reg.ext_methods[('Handler', 'should_handle')], reg.ext_methods[('Handler', 'emit')] = should_handle, emit_record

    def context_of(ex, st, args, kw, run):
        self, template, symlink = [ex.to_v(x) for x in args]
        bad = st.fork()
        e = Sym(fresh('logging_error', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        st = emit(ex, st, event('file context'), template, symlink)
        h, p = ex.new_obj(st, 'Handler'), Sym(fresh('path', V), ty('opt[str]'))
        st.assume(ex.type_facts(p.term, p.ty, st))
        return [(bad, 'raise', e)] + list(run(st, Tup([h, p])))
    context_of.model_name = '_get_file_logging_context: opens the log of the template and gives its handler and path'

    def file_context(ex, st, a, kw, exc):
        yield st, CMExt(context_of, a, kw)
    reg.fn_models[S + '_get_file_logging_context'] = file_context
    for c in CONTRACTS:
        if c.use_at_calls:
            reg.contracts[c.key] = c
    return reg


class ShouldDelete(Contract):
    key = S + '_should_delete_log'
    params = {'self': 'obj:SessionLogging', 'result': 'obj:Result'}
    ret = 'bool'
    touches = ('f:session', 'f:results')

    def post(self, s):
        return [('kept iff unsuccessful logs are kept and the run of the log was not successful', V.bv(s.res) == asked(s.result))]


def path_of(subpath, compressed):
    p = normalized(joined(cfg('log.root'), formatted(subpath)))
    alg = cfg('log.compression.algorithm')
    plus = lambda x, t: V.s(strf(V.kv(vk('str +')), mk(x, vs(t))))
    return If(compressed, If(alg == vs('gzip'), plus(p, '.gz'), plus(p, '.br')), p)


class FilePath(Contract):
    key = S + '_get_log_file_path'
    params = {'self': 'obj:SessionLogging', 'subpath': 'any', 'use_compression': 'bool'}
    ret = 'str'
    may_raise = True

    def pre(self, s):
        return [('a root is configured', cfg('log.root') != none)]

    def post(self, s):
        alg = cfg('log.compression.algorithm')
        return [('the formatted path below the root, with the suffix of the compression', s.res == path_of(s.subpath, V.bv(s.use_compression))),
                ('only known compressions', Or(Not(V.bv(s.use_compression)), alg == vs('gzip'), alg == vs('brotli')))]


class FileContext(Contract):
    key = S + '_log_file_handler_context'
    params = {'self': 'obj:SessionLogging', 'subpath': 'any', 'symlink': 'opt[str]', 'bubble': 'bool', 'filter': 'any', 'use_compression': 'bool', 'use_rotation': 'bool'}
    may_raise = True
    use_at_calls = False
    touches = ('Dv', 'Dk', 'L', 'S', 'G:tr', 'G:kept', 'f:_log_path_to_handler', 'f:_retained_log_paths', 'f:file')

    def mods(self, s):
        d = V.ov(s.f(s.self, '_log_path_to_handler', True))
        return [('Dv', d), ('Dk', d), ('S', V.ov(self.retained(s))), ('G:tr', None), ('G:kept', None)]

    def retained(self, s):
        return s.f(s.self, '_retained_log_paths', True)

    def path(self, s):
        return path_of(s.subpath, V.bv(s.use_compression))

    def none_(self, s):
        return Or(s.subpath == none, cfg('log.root') == none)

    def shared(self, s):
        v = z3.Select(s.dmap(s.f(s.self, '_log_path_to_handler', True), True), self.path(s))
        return And(v != absent, v != none)

    def cm(self, ex, s, st, v):
        h = ex.to_v(v)
        d = s.f(s.self, '_log_path_to_handler', True)
        own = And(Not(self.none_(s)), Not(self.shared(s)))
        ex.oblige('without root or path no file is written', st, Implies(self.none_(s), And(s.f(h, 'file') == none, opened(s.tr()) == opened(s.tr(True)))))
        ex.oblige('a log which is open already is used as it is', st, Implies(And(Not(self.none_(s)), self.shared(s)), And(h == z3.Select(s.dmap(d, True), self.path(s)), opened(s.tr()) == opened(s.tr(True)))))
        ex.oblige('otherwise the file is opened, once', st, Implies(own, And(s.f(h, 'file') == self.path(s), opened(s.tr()) == L.snoc(opened(s.tr(True)), vt(self.path(s))))))
        ex.oblige('while it is open others find it', st, Implies(own, z3.Select(s.dmap(d), self.path(s)) == h))
        ex.oblige('nothing is closed or removed before', st, And(closed(s.tr()) == closed(s.tr(True)), removed(s.tr()) == removed(s.tr(True))))
        outs = []
        for kind in ('next', 'raise'):
            s2 = st.fork()
            ex.gset(s2, 'G:tr', L.snoc(ex.ensure(s2, 'G:tr'), ev(BODY)))
            ex.havoc_cell(s2, 'Dv', V.ov(d))
            ex.havoc_cell(s2, 'Dk', V.ov(d))
            ex.havoc_cell(s2, 'S', V.ov(self.retained(s)))
            ex.gset(s2, 'G:kept', mk(V.b(z3.Select(ex.hget(s2, 'S', V.ov(self.retained(s))), self.path(s)))))
            if kind == 'raise':
                e = Sym(fresh('body_exc', V), EXC)
                s2.assume(ex.type_facts(e.term, EXC, s2))
                outs.append((s2, 'raise', e))
            else:
                outs.append((s2, 'next', NONEV))
        return outs

    def rule(self, s):
        r = s.f(s.ex.reg.ctx.term, 'result', True)
        return And(V.bv(cfg('log.cleanup.enabled')), asked(r), Not(If(bodies(s.tr()) == bodies(s.tr(True)), z3.Select(s.sset(self.retained(s), True), self.path(s)), V.bv(L.last(s.g('kept'))))))

    def after(self, s, exact):
        p, t, t0 = self.path(s), s.tr(), s.tr(True)
        own = opened(t) != opened(t0)
        gone = removed(t) == L.snoc(removed(t0), vt(p))
        kept = removed(t) == removed(t0)
        return [('what was opened is closed', Implies(own, closed(t) == L.snoc(closed(t0), vt(p)))), ('what others opened stays open', Implies(Not(own), And(closed(t) == closed(t0), kept))),
                ('removed exactly when that is asked for', Implies(own, If(self.rule(s), gone, kept) if exact else Or(kept, And(self.rule(s), gone))))]

    def post(self, s):
        r = s.f(s.ex.reg.ctx.term, 'result', True)
        return self.after(s, True) + [('the log of an unsuccessful run is never removed later', Implies(And(opened(s.tr()) != opened(s.tr(True)), Not(asked(r))), z3.Select(s.sset(self.retained(s)), self.path(s)))), ('an open log is no longer offered to others', Implies(opened(s.tr()) != opened(s.tr(True)), z3.Select(s.dmap(s.f(s.self, '_log_path_to_handler', True)), self.path(s)) == none))]

    def exc_post(self, s):
        return self.after(s, False)


class Link(Contract):
    key = S + '_try_create_symlink'
    params = {'self': 'obj:SessionLogging', 'path': 'any', 'symlink': 'opt[str]'}
    ret = 'none'
    touches = ('G:tr',)

    def mods(self, s):
        return [('G:tr', None)]

    def post(self, s):
        n = normalized(s.symlink)
        full = If(absolute(n), n, joined(normalized(cfg('log.root')), n))
        off = Or(s.symlink == none, cfg('log.root') == none, cfg('parallel.worker_id') != none)
        t, t0 = s.tr(), s.tr(True)
        return [('no link unless one is configured', Implies(off, t == t0)), ('the link points to the path', Implies(Not(off), Or(links(t) == links(t0), links(t) == L.snoc(links(t0), vt(s.path, full))))),
                ('nothing else happens to logs', And(opened(t) == opened(t0), closed(t) == closed(t0), removed(t) == removed(t0), bodies(t) == bodies(t0)))]


class FailedLink(Contract):
    key = S + '_create_last_failed_symlink_if_needed'
    params = {'self': 'obj:SessionLogging', 'result': 'obj:Result'}
    ret = 'none'
    touches = ('G:tr',)

    def mods(self, s):
        return [('G:tr', None)]

    def post(self, s):
        t, t0 = s.tr(), s.tr(True)
        n = normalized(cfg('log.last_failed_symlink'))
        full = If(absolute(n), n, joined(normalized(cfg('log.root')), n))
        return [('no link for a run without failure', Implies(Not(failed(s.result)), t == t0)), ('the link points to the log of the failed run', Or(links(t) == links(t0), links(t) == L.snoc(links(t0), vt(log_path_of(s.result), full)))),
                ('nothing else happens to logs', And(opened(t) == opened(t0), closed(t) == closed(t0), removed(t) == removed(t0), bodies(t) == bodies(t0)))]


class TestContext(Contract):
    key = S + 'get_test_logging_context'
    params = {'self': 'obj:SessionLogging', 'result': 'obj:Result'}
    may_raise = True
    use_at_calls = False
    touches = ('G:tr', 'f:test_log_path')

    def mods(self, s):
        return [('G:tr', None), ('f:test_log_path', V.ov(s.self))]

    def cm(self, ex, s, st, v):
        p = ex.to_v(v)
        ex.oblige('the log of the test is opened and known to its result', st, And(s.tr() == L.snoc(L.snoc(s.tr(True), ev(event('file context'), cfg('log.subpath'), cfg('log.last_test_symlink'))), ev(event('log path'), s.result, p)), s.f(s.self, 'test_log_path') == p))
        outs = []
        for kind in ('next', 'raise'):
            s2 = st.fork()
            ex.gset(s2, 'G:tr', L.snoc(ex.ensure(s2, 'G:tr'), ev(BODY)))
            if kind == 'raise':
                e = Sym(fresh('body_exc', V), EXC)
                s2.assume(ex.type_facts(e.term, EXC, s2))
                outs.append((s2, 'raise', e))
            else:
                outs.append((s2, 'next', NONEV))
        return outs

    def post(self, s):
        t, t0 = s.tr(), s.tr(True)
        n = normalized(cfg('log.last_failed_symlink'))
        full = If(absolute(n), n, joined(normalized(cfg('log.root')), n))
        return [('the last failed log is linked only for a failed test', Or(links(t) == links(t0), And(failed(s.result), links(t) == L.snoc(links(t0), vt(log_path_of(s.result), full)))))]

    def exc_post(self, s):
        return self.post(s)


class Flush(Contract):
    key = F + 'RetainedLogHandler.flush_to_handler'
    params = {'self': 'obj:RetainedLogHandler', 'handler': 'obj:Handler'}
    ret = 'none'
    may_raise = True
    use_at_calls = False
    touches = ('G:tr', 'L', 'f:records')

    def mods(self, s):
        return [('G:tr', None), ('L', V.ov(s.f(s.self, 'records', True)))]

    def recs(self, s, pre=False):
        return s.lst(s.f(s.self, 'records', True), pre)

    def folds(self, s):
        return []

    def invariants(self, s, info):
        wrap = T.fold('as_emitted', L, lambda h: nil, lambda h, r, x, l: If(fresh_handler_accepts(h, x), L.snoc(r, vt(x)), r), (V,))
        t0 = s.tr(True)
        return [('those accepted were written', lambda P, st: emitted(info.ex.ensure(st, 'G:tr')) == app(emitted(t0), wrap(s.handler, P)))]

    def post(self, s):
        wrap = T.fold('as_emitted', L, lambda h: nil, lambda h, r, x, l: If(fresh_handler_accepts(h, x), L.snoc(r, vt(x)), r), (V,))
        return [('the records the handler accepts are written once, in order', emitted(s.tr()) == app(emitted(s.tr(True)), wrap(s.handler, self.recs(s, True)))), ('none is kept for a second time', self.recs(s) == nil)]


CONTRACTS = [ShouldDelete(), FilePath(), Link(), FailedLink(), FileContext(), TestContext(), Flush()]
ASSUMPTIONS = ['closing a log handler does not raise', 'the outcome of a result does not change between the end of the block and the decision about its log']
BOUNDED = ['which records reach which file (the handler stack, logbook), compression, highlights, links on disk: bounded harness']
