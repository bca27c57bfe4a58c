"""C12: expansion of suite files."""
from .common import *
from engine.exec import truthy_f

F = 'slash/utils/suite_files.py::'
split = z3.Function('str_split', L, L)
matcher_of = z3.Function('compiled_filter', V, V)
both = z3.Function('both_filters', V, V, V)
number = z3.Function('number_written', V, V)
is_dir = z3.Function('is_directory', V, Bool)
entries_of = z3.Function('directory_entries', V, L)
lines_of = z3.Function('lines_of_file', V, L)
extract = z3.Function('suite_files_of', L, L)
expand = z3.Function('entries_of_suite_files', L, L)
abspath, dirname, joined, relpath = (z3.Function('path_' + n, *([V] * k)) for n, k in (('abs', 2), ('dirname', 2), ('join', 3), ('rel', 2)))
isabs = z3.Function('path_isabs', V, Bool)
sp = lambda n: z3.Function('strp_' + n, L, Bool)
strf = z3.Function('strf', Int, L, z3.IntSort())


def strip(x):
    from engine.exec import strf as sf
    return V.s(sf(V.kv(vk('str strip')), L.snoc(nil, x)))


def starts(x, c):
    return sp('startswith')(mk(x, vs(c)))


def ends(x, c):
    return sp('endswith')(mk(x, vs(c)))


def parts(x, sep, n=None):
    return split(mk(x, vs(sep), vi(n)) if n is not None else mk(x, vs(sep)))


def second(l):
    return L.last(l)


def first(l):
    return L.last(L.init(l))


_x, _l = z3.Const('x', V), z3.Const('l', L)
cut = parts(_x, '#', 1)
T.ax('split at #', ForAll([_x], Implies(str_in(vs('#'), _x), And(L.is_snoc(cut), L.is_snoc(L.init(cut)), L.init(L.init(cut)) == nil, V.is_s(L.last(cut)), V.is_s(first(cut)))), patterns=[cut]))

# the modifiers of a line: the last filter and the last repeat given
mod_filter = T.fold('filter_of_modifiers', V, lambda: none, lambda r, x, l: If(starts(strip(x), 'filter:'), matcher_of(T_.nth(parts(strip(x), ':', 1), 1)), r))
mod_repeat = T.fold('repeat_of_modifiers', V, lambda: vi(1), lambda r, x, l: If(starts(strip(x), 'repeat:'), number(T_.nth(parts(strip(x), ':', 1), 1)), r))


def modifiers(line):
    return split(mk(second(parts(line, '#', 1)), vs(',')))


def e_path(line):
    return If(str_in(vs('#'), line), strip(first(parts(line, '#', 1))), line)


def e_filter(line):
    return If(str_in(vs('#'), line), mod_filter(modifiers(line)), none)


def e_repeat(line):
    return If(str_in(vs('#'), line), mod_repeat(modifiers(line)), vi(1))


def and_of(a, b):
    return If(a == none, b, If(b == none, a, both(a, b)))


fold_extract = T.fold('files_of_entities', L, lambda: nil, lambda r, x, l: If(is_dir(x), app(r, extract(entries_of(x))), L.snoc(r, x)))
with_filter = T.fold('entries_with_filter', L, lambda m: nil, lambda m, r, x, l: L.snoc(r, vt(first(V.tv(x)), and_of(m, second(V.tv(x))))), (V,))
times = T.fold('repeated', L, lambda b: nil, lambda b, r, x, l: app(r, b), (L,))


def line_entries(d, raw):
    p = strip(raw)
    path0 = e_path(p)
    path = If(isabs(path0), path0, relpath(joined(d, path0)))
    nested = And(Not(ends(path, '.py')), Not(str_in(vs('.py:'), path)), Not(is_dir(path)))
    m, n = e_filter(p), T_.upto(V.iv(e_repeat(p)))
    block = If(nested, with_filter(m, expand(mk(path))), mk(vt(path, m)))
    return If(Or(Not(truthy_f(p)), starts(p, '#')), nil, times(block, n))


fold_lines = T.fold('entries_of_lines', L, lambda d: nil, lambda d, r, x, l: app(r, line_entries(d, x)), (V,))
fold_files = T.fold('entries_of_files', L, lambda: nil, lambda r, x, l: app(r, fold_lines(abspath(dirname(x)), lines_of(x))))
T.ax('directories of suite files', ForAll([_l], extract(_l) == fold_extract(_l), patterns=[extract(_l)]))
T.ax('suite files', ForAll([_l], expand(_l) == fold_files(extract(_l)), patterns=[expand(_l)]))


def registry():
    reg = base_registry()
    reg.fields.update({('SuiteEntry', 'path'): 'str', ('SuiteEntry', 'matcher'): 'any', ('SuiteEntry', 'repeat'): 'int', ('Path', 'text'): 'any'})
    reg.globals['slash.utils.suite_files.SuiteEntry'] = Ext('SuiteEntry')

    def entry(ex, st, a, kw, exc):
        st = st.fork()
        o = ex.new_obj(st, 'SuiteEntry')
        for n, v in list(zip(('path', 'matcher', 'repeat'), a.items)) + list(kw.items()):
            ex.hset(st, 'f:' + n, ex.oid(o), ex.to_v(v))
        yield st, o
    reg.ext_models['SuiteEntry'] = entry

    def raising(build):
        def h(ex, st, a, kw, exc):
            bad = st.fork()
            e = Sym(fresh('malformed', V), EXC)
            bad.assume(ex.type_facts(e.term, EXC, bad))
            exc.append((bad, e))
            for r in build(ex, st.fork(), a):
                yield r
        return h

    def pure(f, t):
        def h(ex, st, a, kw, exc):
            term = f(*[ex.to_v(x) for x in a.items])
            yield st, Sym(V.b(term) if t == 'bool' else term, ty(t)) if t != 'str' else strval(ex, st, term)
        return h

    def strval(ex, st, term):
        st.assume(V.is_s(term))
        return Sym(term, STR)
    reg.ctors['Matcher'] = raising(lambda ex, st, a: [(st, Sym(matcher_of(ex.to_v(a.items[0])), ANY))])

    def conj(ex, st, a, kw, exc):
        pair = ex.hget(st, 'L', ex.oid(a.items[0]))
        yield st, Sym(both(first(pair), second(pair)), ANY)
    reg.ctors['AndMatching'] = conj

    def to_int(ex, st, a):
        v = number(ex.to_v(a.items[0]))
        st.assume(V.is_i(v))
        return [(st, Sym(v, INT))]
    reg.ext_models['builtins.int'] = raising(to_int)
    reg.ext_models['os.path.abspath'], reg.ext_models['os.path.dirname'] = pure(abspath, 'str'), pure(dirname, 'str')
    reg.ext_models['os.path.join'], reg.ext_models['os.path.relpath'] = pure(joined, 'str'), pure(relpath, 'str')
    reg.ext_models['os.path.isabs'], reg.ext_models['os.path.isdir'] = pure(isabs, 'bool'), pure(is_dir, 'bool')

    def path(ex, st, a, kw, exc):
        st = st.fork()
        o = ex.new_obj(st, 'Path')
        ex.hset(st, 'f:text', ex.oid(o), ex.to_v(a.items[0]))
        yield st, o
    reg.ext_models['pathlib.Path'] = path

    def text(ex, st, o):
        return ex.hget(st, 'f:text', ex.oid(o))

    def p_isdir(ex, st, recv, a, kw, exc):
        yield st, Sym(V.b(is_dir(text(ex, st, recv))), BOOL)

    def p_iterdir(ex, st, recv, a, kw, exc):
        yield st, Seq(entries_of(text(ex, st, recv)), STR)
    reg.ext_methods[('Path', 'is_dir')], reg.ext_methods[('Path', 'iterdir')] = p_isdir, p_iterdir

    def file_cm(ex, st, args, kw, run):
        bad = st.fork()
        e = Sym(fresh('open_error', V), EXC)
        bad.assume(ex.type_facts(e.term, EXC, bad))
        return [(bad, 'raise', e)] + list(run(st, Sym(V.t(lines_of(ex.to_v(args.items[0]))), ty('iter[str]'))))
    file_cm.model_name = 'open (the lines of a file)'

    def open_(ex, st, a, kw, exc):
        yield st, CMExt(file_cm, a, kw)
    reg.ext_models['builtins.open'] = open_
    for c in CONTRACTS:
        reg.contracts[c.key] = c
    return reg


class Parse(Contract):
    key = F + '_parse_path_filter_and_repeat'
    params = {'line': 'str'}
    ret = 'obj:SuiteEntry'
    may_raise = True
    touches = ('f:path', 'f:matcher', 'f:repeat', 'L')

    def folds(self, s):
        return [('filter', V, mod_filter), ('repeat', V, mod_repeat)]

    def post(self, s):
        return [('the path is what precedes the modifiers', s.f(s.res, 'path') == e_path(s.line)), ('the filter is the one given last', s.f(s.res, 'matcher') == e_filter(s.line)),
                ('repeated as the line says', s.f(s.res, 'repeat') == e_repeat(s.line)), ('one object of its own', s.newobj(s.res))]


class AndMatchers(Contract):
    key = F + '_and_matchers'
    params = {'a': 'any', 'b': 'any'}
    touches = ('L',)

    def post(self, s):
        return [('both filters hold; none restricts nothing', s.res == and_of(s.a, s.b))]


class Extract(Contract):
    key = F + '_extract_suite_files'
    params = {'suite_files': lambda ex, st: Seq(z3.Const('suite_files', L), STR)}
    ret = 'iter[str]'
    may_raise = True
    touches = ('f:text', 'L')

    def arg(self, s):
        v = s.args['suite_files']
        return s.ex.seq(v, s.st).term

    def folds(self, s):
        return [('files', L, fold_extract)]

    def post(self, s):
        return [('files given, directories expanded in place, each once', V.tv(s.res) == extract(self.arg(s)))]


class Iter(Extract):
    key = F + 'iter_suite_file_paths'
    ret = 'iter[tuple[str,any]]'
    touches = ('f:text', 'L', 'f:path', 'f:matcher', 'f:repeat')

    def folds(self, s):
        return []

    def keep(self, name):
        return 'entry ++ ' in name and 'prefix)' in name

    def loop_folds(self, s, local):
        d, p, e = local('dirname'), local('path'), local('suite_entry')
        if d is None:
            return [('files', L, fold_files)]
        if e is None or p is None:
            return [('lines', L, lambda l: fold_lines(d, l))]
        if True:
            out, m = [], s.f(e, 'matcher')
            out.append(('repeated leaf', L, lambda l: times(mk(vt(p, m)), l)))
            out.append(('repeated suite', L, lambda l: times(with_filter(m, expand(mk(p))), l)))
            out.append(('filtered', L, lambda l: with_filter(m, l)))
        return out

    def post(self, s):
        return [('the entries of the lines, in order, with their modifiers', V.tv(s.res) == expand(self.arg(s)))]


CONTRACTS = [Parse(), AndMatchers(), Extract(), Iter()]
ASSUMPTIONS = ['file contents, directory listings and path functions are functions of the path (nothing changes on disk while expanding)', 'no suite file includes itself',
               'str.split(sep, 1) of a text containing sep has two parts']
BOUNDED = ['the filter expressions themselves: C11', 'loading the entries: C13; whole runs with suite files, rejection of malformed lines: bounded harness']
