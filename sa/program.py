"""The analysed program: modules, their globals, classes and imports, from source."""
import ast, os
from . import frontend

class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.globals = {}        # name -> ('func', node) | ('class', ClassInfo) | ('import', dotted) | ('mod', dotted) | ('assign', [nodes])
        self.pxd = {}            # class name -> {attr: ctype}
        self.toplevel = []

class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods, self.attrs, self.static = {}, {}, set()
        self.bases = []
        self.classvars = {}
        self.cclass = getattr(node, 'cclass', False)
    def __repr__(self):
        return 'class %s.%s' % (self.module.name, self.name)

class Program:
    def __init__(self, root='/repo', package='cosmic_profiles'):
        self.root, self.package = root, package
        self.modules = {}
        self.unparsed = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('for_docs', 'tests', '__pycache__', 'build') and
                             not (x == package))
            for f in sorted(files):
                p = os.path.join(d, f)
                if not f.endswith(('.py', '.pyx')):
                    continue
                rel = os.path.relpath(p, root)
                name = rel[:rel.rindex('.')].replace('/', '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if f.endswith('.py') and os.path.exists(p[:-3] + '.pyx'):
                    continue
                try:
                    tree = frontend.parse_file(p, name)
                except Exception as e:
                    self.unparsed.append((name, '%s: %s' % (type(e).__name__, e)))
                    continue
                self.modules[name] = Module(name, p, tree)
        for m in self.modules.values():
            self._collect(m)
        for m in list(self.modules.values()):
            px = m.path[:-4] + '.pxd' if m.path.endswith('.pyx') else None
            if px and os.path.exists(px):
                self._pxd(m, px)
        for m in self.modules.values():
            for k, v in m.globals.items():
                if v[0] == 'class':
                    self._link(v[1])

    def add(self, path, name):
        """a further module (reference functions) analysed with the program"""
        tree = frontend.parse_file(path, name)
        m = self.modules[name] = Module(name, path, tree)
        self._collect(m)
        for k, v in m.globals.items():
            if v[0] == 'class':
                self._link(v[1])
        return m

    # ------------------------------------------------------------ collection
    def _collect(self, m):
        def block(stmts):
            for s in stmts:
                if isinstance(s, ast.FunctionDef):
                    if getattr(s, 'cdeclonly', False):
                        m.globals.setdefault(s.name, ('extern', s.name))
                    else:
                        m.globals[s.name] = ('func', s)
                    s.module = m
                elif isinstance(s, ast.ClassDef):
                    ci = ClassInfo(s.name, m, s)
                    m.globals[s.name] = ('class', ci)
                    for b in s.body:
                        if isinstance(b, ast.FunctionDef):
                            b.module = m
                            b.owner = ci
                            ci.methods[b.name] = b
                            if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in b.decorator_list):
                                ci.static.add(b.name)
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            ci.attrs[b.target.id] = getattr(b, 'ctype', None)
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name):
                                    ci.classvars[t.id] = b.value
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.globals[a.asname] = ('mod', a.name)
                        else:
                            m.globals[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        pk = m.name if m.path.endswith('__init__.py') else m.name.rpartition('.')[0]
                        for _ in range(s.level - 1):
                            pk = pk.rpartition('.')[0]
                        base = pk + ('.' + base if base else '')
                    for a in s.names:
                        m.globals[a.asname or a.name] = ('import', base, a.name)
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        block(getattr(s, fld, []) or [])
                    for h in getattr(s, 'handlers', []):
                        block(h.body)
                    m.toplevel.append(s)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                m.globals.setdefault(x.id, ('assign', []))
                                if m.globals[x.id][0] == 'assign':
                                    m.globals[x.id][1].append(s)
                    m.toplevel.append(s)
                else:
                    m.toplevel.append(s)
        block(m.tree.body)
        # names declared global inside functions are module variables as well
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.globals.setdefault(x, ('assign', []))

    def _pxd(self, m, path):
        tree = frontend.parse_file(path, m.name)
        for s in tree.body:
            if isinstance(s, ast.ClassDef):
                d = m.pxd.setdefault(s.name, {})
                for b in s.body:
                    if isinstance(b, ast.AnnAssign):
                        d[b.target.id] = getattr(b, 'ctype', None)
                g = m.globals.get(s.name)
                if g and g[0] == 'class':
                    g[1].attrs.update(d)

    def _link(self, ci):
        ci.bases = []
        for b in ci.node.bases:
            r = self.resolve_name(ci.module, b.id) if isinstance(b, ast.Name) else None
            if r and r[0] == 'class':
                ci.bases.append(r[1])

    # ------------------------------------------------------------ lookup
    def resolve_name(self, m, name, seen=()):
        """('func', node) | ('class', ci) | ('mod', dotted) | ('ext', dotted) | ('gvar', module, name) | ('extern', name) | None"""
        g = m.globals.get(name)
        if g is None:
            return None
        k = g[0]
        if k in ('func', 'class', 'extern'):
            return g
        if k == 'mod':
            return ('mod', g[1])
        if k == 'assign':
            return ('gvar', m, name)
        base, nm = g[1], g[2]
        return self.resolve_in(base, nm, seen + ((m.name, name),))

    def resolve_in(self, modname, nm, seen=()):
        if (modname, nm) in seen:
            return None
        if modname in self.modules:
            r = self.resolve_name(self.modules[modname], nm, seen + ((modname, nm),))
            if r is not None:
                return r
            if modname + '.' + nm in self.modules:
                return ('mod', modname + '.' + nm)
            return ('missing', modname, nm)
        if modname + '.' + nm in self.modules:
            return ('mod', modname + '.' + nm)
        if modname == self.package or modname.startswith(self.package + '.'):
            if any(k.startswith(modname + '.') for k in self.modules) and any(k.startswith(modname + '.' + nm) for k in self.modules):
                return ('mod', modname + '.' + nm)
            return ('missing', modname, nm)
        return ('ext', modname + '.' + nm)

    def mro(self, ci):
        out, todo = [], [ci]
        def lin(c):
            if c in out:
                return
            out.append(c)
            for b in c.bases:
                lin(b)
        # C3 is not needed: depth-first with duplicates moved to the end
        def dfs(c, acc):
            acc.append(c)
            for b in c.bases:
                dfs(b, acc)
        acc = []
        dfs(ci, acc)
        res = []
        for i, c in enumerate(acc):
            if c not in acc[i + 1:]:
                res.append(c)
        return res

    def method(self, ci, name):
        for c in self.mro(ci):
            if name in c.methods:
                return c.methods[name], c
        return None, None

    def attr_decl(self, ci, name):
        for c in self.mro(ci):
            if name in c.attrs:
                return c.attrs[name]
        return None

    def all_functions(self):
        """every function and method node with its qualified name"""
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and not getattr(n, 'cdeclonly', False):
                    n.module = m
                    yield m, n

    def find(self, dotted):
        """'pkg.mod.func' or 'pkg.mod.Class.meth' or bare name searched everywhere"""
        if '.' not in dotted:
            hits = []
            for m in self.modules.values():
                g = m.globals.get(dotted)
                if g and g[0] in ('func', 'class'):
                    hits.append(g)
            return hits[0] if len(hits) >= 1 else None
        for i in range(dotted.count('.'), 0, -1):
            parts = dotted.split('.')
            mod, rest = '.'.join(parts[:i]), parts[i:]
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], rest[0])
                if r and len(rest) == 2 and r[0] == 'class':
                    f, c = self.method(r[1], rest[1])
                    return ('func', f) if f else None
                return r
        return None

    def fn(self, name):
        """function node for 'func', 'Class.meth' or a dotted path; None if it does not exist"""
        r = self.find(name)
        if r is None and name.count('.') == 1:
            c = self.find(name.split('.')[0])
            if c and c[0] == 'class':
                f, _ = self.method(c[1], name.split('.')[1])
                return f
        return r[1] if r and r[0] == 'func' else None

    def cls(self, name):
        r = self.find(name)
        return r[1] if r and r[0] == 'class' else None
