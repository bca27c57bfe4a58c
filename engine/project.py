"""Mechanical extraction of the code under /repo: parse every module on each run, resolve names and imports."""
import ast, os, builtins
from .values import Fn, ClsV, Ext, Unsupported, Sym
from .terms import vk

REPO = os.environ.get('SLASH_REPO', '/repo')


class Module(object):
    def __init__(self, proj, path):
        self.proj, self.path = proj, path
        with open(os.path.join(proj.root, path)) as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.names = {}
        parts = path[:-3].split('/')
        self.is_pkg = parts[-1] == '__init__'
        if self.is_pkg:
            parts = parts[:-1]
        self.dotted = '.'.join(parts)
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.names[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = n.value
                    elif isinstance(t, ast.Tuple) :
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.names[e.id] = n.value
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = self.dotted.split('.')
                    if not self.is_pkg:
                        pk = pk[:-1]
                    if n.level > 1:
                        pk = pk[:len(pk) - (n.level - 1)]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    self.names[a.asname or a.name] = ('import', base + '.' + a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.Try):
                self._collect(n.body)
            elif isinstance(n, ast.If):
                self._collect(n.body)
                self._collect(n.orelse)


def local_statements(node):
    """statements of a class or function body, those in if/for/while/with/try blocks included"""
    out, stack = [], list(reversed(node.body))
    while stack:
        x = stack.pop()
        out.append(x)
        if not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            for f in ('body', 'orelse', 'finalbody', 'handlers'):
                stack.extend(reversed(getattr(x, f, None) or []))
    return [x for x in out if isinstance(x, ast.stmt)]


class Project(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self._classes = None

    def module(self, path):
        if path not in self.modules:
            self.modules[path] = Module(self, path)
        return self.modules[path]

    def dotted_module(self, dotted):
        p = dotted.replace('.', '/')
        for cand in (p + '.py', p + '/__init__.py'):
            if os.path.exists(os.path.join(self.root, cand)):
                return self.module(cand)
        return None

    def find(self, key):
        """'path::Qual.name' -> Fn or ClsV"""
        path, qual = key.split('::')
        m = self.module(path)
        parts = qual.split('.')
        node = m.names.get(parts[0])
        if node is None or not isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            raise Unsupported('no definition of %s in %s' % (qual, path))
        cls = None
        for p in parts[1:]:
            cls = ClsV(node.name, node, m)
            nxt = None
            for c in local_statements(node):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == p:
                    nxt = c
                elif isinstance(c, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in c.targets) \
                        and isinstance(c.value, ast.Name):
                    for d in node.body:
                        if isinstance(d, ast.FunctionDef) and d.name == c.value.id:
                            nxt = d
            if nxt is None:
                raise Unsupported('no definition of %s in %s' % (qual, path))
            node = nxt
        if isinstance(node, ast.ClassDef):
            return ClsV(node.name, node, m)
        return Fn(qual, node, m, None, cls)

    def resolve_dotted(self, dotted, overrides=None):
        """'slash.ctx.context' -> value"""
        if overrides and dotted in overrides:
            return overrides[dotted]
        parts = dotted.split('.')
        for cut in range(len(parts), 0, -1):
            m = self.dotted_module('.'.join(parts[:cut]))
            if m is not None:
                if cut == len(parts):
                    return Ext(dotted)
                rest = parts[cut:]
                if len(rest) == 1:
                    v = self.global_name(m, rest[0], overrides)
                    if v is not None:
                        return v
                return Ext(dotted)
        if len(parts) == 1 and hasattr(builtins, dotted):
            return self.builtin(dotted)
        return Ext(dotted)

    def builtin(self, name):
        o = getattr(builtins, name, None)
        if isinstance(o, type):
            return ClsV(name, builtin=o)
        return Ext('builtins.' + name)

    def global_name(self, m, name, overrides=None, seen=()):
        full = m.dotted + '.' + name
        if overrides and full in overrides:
            return overrides[full]
        if name not in m.names:
            return None
        n = m.names[name]
        if isinstance(n, tuple):
            return self.resolve_dotted(n[1], overrides)
        if isinstance(n, ast.FunctionDef):
            return Fn(n.name, n, m)
        if isinstance(n, ast.ClassDef):
            return ClsV(n.name, n, m)
        if isinstance(n, ast.Constant):
            return ('const', n.value)
        if isinstance(n, ast.Tuple) or isinstance(n, ast.List):
            return ('expr', n, m)
        if isinstance(n, ast.Call):
            # module-level singletons: loggers are effect-free, everything else is one opaque constant
            f = n.func
            fname = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '?')
            if fname == 'Logger':
                return Ext('logger')
            return Sym(vk(full))
        if isinstance(n, (ast.Name, ast.Attribute)):
            return ('expr', n, m)
        return Ext(full)

    # ---- classes -----------------------------------------------------------------------------------------------
    def base_values(self, cls):
        if cls.builtin is not None:
            return [ClsV(b.__name__, builtin=b) for b in cls.builtin.__bases__]
        out = []
        for b in cls.node.bases:
            if isinstance(b, ast.Name):
                v = self.global_name(cls.module, b.id)
                if v is None:
                    v = self.builtin(b.id)
                out.append(v if hasattr(v, 'name') else Ext('unknown base ' + b.id))
            elif isinstance(b, ast.Attribute):
                out.append(Ext(ast.unparse(b)))
        return out

    def mro(self, cls):
        """linearisation good enough for single inheritance and mixins (depth first, no diamonds)"""
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if any(getattr(x, 'name', None) == c.name for x in out):
                continue
            out.append(c)
            if isinstance(c, ClsV):
                todo = [b for b in self.base_values(c)] + todo
        return out

    def lookup(self, cls, name, after=None):
        """find method/class attribute in the mro; returns (cls, node) or None"""
        skip = after is not None
        for c in self.mro(cls):
            if skip:
                if c.name == after.name:
                    skip = False
                continue
            if not isinstance(c, ClsV) or c.node is None:
                continue
            hit = None
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    if hit is None or not any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                        hit = n
                elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    hit = n.value
            if hit is not None:
                if isinstance(hit, ast.Name):
                    for d in c.node.body:
                        if isinstance(d, ast.FunctionDef) and d.name == hit.id:
                            return c, d
                return c, hit
        return None

    def class_by_name(self, name):
        if self._classes is None:
            self._classes = {}
            for dp, dn, fn in os.walk(os.path.join(self.root, 'slash')):
                for f in sorted(fn):
                    if f.endswith('.py'):
                        path = os.path.relpath(os.path.join(dp, f), self.root)
                        try:
                            m = self.module(path)
                        except SyntaxError:
                            continue
                        for k, n in m.names.items():
                            if isinstance(n, ast.ClassDef):
                                self._classes.setdefault(k, []).append(ClsV(k, n, m))
        c = self._classes.get(name)
        if c and len(c) == 1:
            return c[0]
        return None
