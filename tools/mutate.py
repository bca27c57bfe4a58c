"""python3 tools/mutate.py cXX slash/file.py[:func,func...] ... : which small changes to the source does the harness of cXX not notice?
(development aid; works on copies of /repo under /tmp)"""
SRC = __import__('os').environ.get('MUT_SRC', '/repo')
import ast, sys, os, subprocess, shutil, json, copy, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

prop, targets = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
N = 7


class Site(object):
    pass


def mutants(src, funcs):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def off(n, end=False):
        ln, col = (n.end_lineno, n.end_col_offset) if end else (n.lineno, n.col_offset)
        b = [len(l.encode()) for l in lines[:ln - 1]]
        return sum(b) + col
    bs = src.encode()

    def rep(n, new, what):
        t = bs[:off(n)] + new.encode() + bs[off(n, True):]
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append((n.lineno, what, t.decode()))

    def islog(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and '_logger' in ast.unparse(n.value.func)

    def visit(n, infunc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = n.name
            infunc = infunc or not funcs or q in funcs
        if islog(n):
            return
        if infunc:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is',
                      ast.In: 'not in', ast.NotIn: 'in'}[type(n.ops[0])]
                rep(n, '(%s %s %s)' % (seg(n.left), sw, seg(n.comparators[0])), 'compare -> ' + sw)
            if isinstance(n, ast.BoolOp):
                j = ' or ' if isinstance(n.op, ast.And) else ' and '
                rep(n, '(' + j.join('(%s)' % seg(v) for v in n.values) + ')', 'boolop -> ' + j)
                for i in range(len(n.values)):
                    k = ' and ' if isinstance(n.op, ast.And) else ' or '
                    rep(n, '(' + k.join('(%s)' % seg(v) for j2, v in enumerate(n.values) if j2 != i) + ')', 'drop operand %d' % i)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                rep(n, '(%s)' % seg(n.operand), 'drop not')
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                rep(n.test, '(not (%s))' % seg(n.test), 'negate')
                if isinstance(n, ast.If) and not n.orelse:
                    rep(n.test, 'True', 'if True')
                    rep(n.test, 'False', 'if False')
            if isinstance(n, ast.Constant):
                if n.value is True:
                    rep(n, 'False', 'True->False')
                elif n.value is False:
                    rep(n, 'True', 'False->True')
                elif n.value is None:
                    pass
                elif isinstance(n.value, int):
                    rep(n, str(n.value + 1), '+1')
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, '(%s %s %s)' % (seg(n.left), '-' if isinstance(n.op, ast.Add) else '+', seg(n.right)), '+/-')
            if isinstance(n, ast.Return) and n.value is not None:
                rep(n, 'return None', 'return None')
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete)) and not (
                    isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    pass
                else:
                    rep(n, 'pass', 'delete: ' + (seg(n) or '').split('\n')[0][:60])
            if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('reversed', 'sorted', 'list', 'set', 'tuple'):
                rep(n, seg(n.args[0]) if n.func.id != 'reversed' else 'list(%s)' % seg(n.args[0]), 'drop ' + n.func.id)
            if isinstance(n, ast.Try) and n.finalbody:
                fb = n.finalbody
                pass
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                rep(n.type, 'ZeroDivisionError', 'except nothing')
        for c in ast.iter_child_nodes(n):
            visit(c, infunc)
    visit(tree, False)
    seen, res = set(), []
    for m in out:
        if m[2] not in seen and m[2] != src:
            seen.add(m[2])
            res.append(m)
    return res


jobs = []
for t in targets:
    path, _, fs = t.partition(':')
    src = open(SRC + '/' + path).read()
    for ln, what, text in mutants(src, set(fs.split(',')) if fs else set()):
        jobs.append((path, ln, what, text))
print(len(jobs), 'mutants')
pool = queue.Queue()
for i in range(N):
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    subprocess.check_call(['cp', '-a', SRC, d + '/repo'])
    pool.put(d)


def run(j):
    path, ln, what, text = j
    d = pool.get()
    f = d + SRC + '/' + path
    orig = open(f).read()
    try:
        open(f, 'w').write(text)
        env = dict(os.environ, SLASH_REPO=d + '/repo', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=d + '/pyc',
                   VH_SCRATCH=d, VH_FAST='1')
        o = d + '/out.json'
        if os.path.exists(o):
            os.unlink(o)
        try:
            subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '/verif/harness/main.py', prop, '--tier', 'quick', '--seed', '1', '--out', o],
                           env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
            r = json.load(open(o))
            fails = sum(len(c['failures']) for c in r)
            broken = [c for c in r if c.get('broken')]
            return j, ('killed' if fails else 'broken' if broken else 'SURVIVED')
        except subprocess.TimeoutExpired:
            return j, 'timeout'
        except Exception as e:
            return j, 'error'
    finally:
        open(f, 'w').write(orig)
        pool.put(d)


cnt = {}
srcl = {}
with ThreadPoolExecutor(N) as ex:
    for (path, ln, what, text), r in ex.map(run, jobs):
        cnt[r] = cnt.get(r, 0) + 1
        if r != 'killed':
            ls = srcl.setdefault(path, open(SRC + '/' + path).read().splitlines())
            print('%-9s %s:%d  %-28s | %s' % (r, os.path.basename(path), ln, what, ls[ln - 1].strip()[:100]), flush=True)
print(cnt)
while not pool.empty():
    shutil.rmtree(pool.get(), ignore_errors=True)
