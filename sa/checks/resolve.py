"""C20: everything that a public call can reach exists and accepts what it is given.

Worklist from the public functions and from every method of the public classes, with the class of self as context.
For each reached function: names are bound (locally on every way through the function, in the enclosing scope, in the
module or built in); attributes of self, of modules of the package and of instances of its classes exist and are
initialised by the constructor; calls of functions of the package match the parameters; results are unpacked into as
many names as are returned; constant keys exist in constant tables; numpy functions exist in the installed numpy."""
import ast, builtins, glob, os
from ..check import rule
from .. import names as N

PUBLIC = 'cosmic_profiles'
MODELS = ('einasto', 'alpha_beta_gamma', 'nfw', 'hernquist')     # the profiles that checkDensFitMethod admits
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__'}
CYNAMES = {'cython', 'NULL', 'bint', 'double', 'int', 'float', 'long', 'object', 'sizeof', 'unsigned', 'void', 'char', 'complex', 'size_t', 'Py_ssize_t', '__addr__', '__cast__', '__sizeof__', '__deref__', '__pxi__'}

def where(m, n): return '%s:%s' % (m.name, getattr(n, 'lineno', '?'))

class Resolver:
    def __init__(self, c):
        self.c, self.P = c, c.P
        self.done, self.todo = set(), []
        self.flow = {}
        self.tab = {}
        for m, cl, f in N.functions(self.P):
            for x in N.own(f):
                if isinstance(x, ast.FunctionDef): self.tab.setdefault(f, []).append(x)
        self.up = {x: f for f, xs in self.tab.items() for x in xs}
        self.mod = {f: m for m, cl, f in N.functions(self.P)}
        self.loc = {}
        self.bad = {}
        self.counts = {}
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def report(self, kind, m, f, node, text):
        self.bad.setdefault((kind, m.name, f.name, text), (m, node))
    def roots(self):
        P = self.P
        pk = P.modules.get(PUBLIC)
        for n in (pk.globals if pk else ()):
            r = P.resolve_name(pk, n)
            if r is None: continue
            if r[0] == 'missing':
                self.bad[('export', PUBLIC, n, '%s does not define %s' % (r[1], r[2]))] = (pk, None)
            elif r[0] == 'func': self.add(r[1], None)
            elif r[0] == 'class':
                i, _ = P.method(r[1], '__init__')
                if i: self.add(i, r[1])
                for k in P.mro(r[1]):
                    for name in k.methods:
                        if not name.startswith('_') or name == '__init__':
                            x, _ = P.method(r[1], name)
                            self.add(x, r[1])
    def add(self, f, cls):
        if (f, cls) not in self.done:
            self.done.add((f, cls)); self.todo.append((f, cls))
    def run(self):
        self.roots()
        while self.todo:
            f, cls = self.todo.pop()
            self.function(f, cls)
    def locals(self, f):
        if f not in self.loc: self.loc[f] = N.assigned(f)
        return self.loc[f]
    # ------------------------------------------------------ scopes
    def scope_has(self, f, n):
        g = self.up.get(f)
        while g is not None:
            if n in self.locals(g): return True
            g = self.up.get(g)
        return False
    def function(self, f, cls):
        m = self.mod.get(f) or getattr(f, 'module', None)
        if m is None: return
        P = self.P
        self.c.functions.add('%s.%s' % (m.name, f.name))
        loc = self.locals(f)
        fl = self.flow.get(f)
        if fl is None:
            fl = self.flow[f] = self.flow_for(m, f)
            for n, node in fl.unbound.items():
                self.report('variable', m, f, node, 'variable %s is read on a way through the function on which it has no value' % n)
        types = self.types(m, f, cls)
        comp = set()
        for x in N.own(f):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in x.generators:
                    comp |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            elif isinstance(x, ast.Lambda):
                comp |= {a.arg for a in x.args.args}
        for d in f.args.defaults + [d for d in f.args.kw_defaults if d is not None]:
            for x in ast.walk(d):
                if isinstance(x, ast.Name): self.name(m, f, x, set(), set())
        for x in N.own(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): self.name(m, f, x, loc, comp)
            elif isinstance(x, ast.Attribute): self.attribute(m, f, cls, x, types, loc)
            elif isinstance(x, ast.Call): self.call(m, f, cls, x, types, loc)
            elif isinstance(x, ast.Assign): self.unpack(m, f, cls, x, types, loc, fl)
            elif isinstance(x, ast.For) and isinstance(x.target, ast.Tuple): self.unpack_for(m, f, x)
            elif isinstance(x, ast.Subscript): self.key(m, f, x, loc)
            elif isinstance(x, (ast.Import, ast.ImportFrom)): self.imports(m, f, x)
        for x in self.tab.get(f, ()):
            self.add(x, cls)
    def imports(self, m, f, x):
        if isinstance(x, ast.ImportFrom) and x.module and x.module.startswith(PUBLIC):
            for a in x.names:
                r = self.P.resolve_in(x.module, a.name)
                if r and r[0] == 'missing': self.report('import', m, f, x, 'module %s does not define %s' % (x.module, a.name))
    def name(self, m, f, x, loc, comp):
        self.count('names')
        n = x.id
        if n in loc or n in comp or n in BUILTIN or n in CYNAMES: return
        if self.scope_has(f, n): return
        g = m.globals.get(n)
        if g is None:
            self.report('name', m, f, x, 'name %s is not defined' % n)
            return
        r = self.P.resolve_name(m, n)
        if r and r[0] == 'missing': self.report('name', m, f, x, 'module %s does not define %s' % (r[1], r[2]))
        elif r and r[0] == 'gvar' and not self.assigned_global(r[1], r[2]):
            self.report('name', m, f, x, 'module variable %s is never given a value' % n)
    def assigned_global(self, m, n):
        g = m.globals.get(n)
        if g and g[0] == 'assign' and g[1]: return True
        for y in ast.walk(m.tree):
            if isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store): return True
        return False
    # ------------------------------------------------------ types
    def types(self, m, f, cls):
        """local name -> set of classes, when every assignment constructs an instance of a class of the package"""
        t = {}
        if cls is not None and f.args.args and f.args.args[0].arg == 'self': t['self'] = cls
        assigned = {}
        for x in N.own(f):
            if isinstance(x, ast.Assign):
                for y in x.targets:
                    if isinstance(y, ast.Name): assigned.setdefault(y.id, []).append(x.value)
                    else:
                        for z in ast.walk(y):
                            if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store): assigned.setdefault(z.id, []).append(None)
            elif isinstance(x, (ast.For, ast.AugAssign, ast.AnnAssign)):
                for z in ast.walk(x.target):
                    if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store): assigned.setdefault(z.id, []).append(getattr(x, 'value', None) if isinstance(x, ast.AnnAssign) else None)
        params = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for n, vs in assigned.items():
            if n in params or n == 'self': continue
            cs = {self.classof(m, v) for v in vs}
            if len(cs) == 1 and None not in cs: t[n] = cs.pop()
        return t
    def classof(self, m, v):
        if isinstance(v, ast.Call):
            r = self.ref(m, v.func)
            if r and r[0] == 'class': return r[1]
        return None
    def ref(self, m, e, loc=()):
        """what a dotted expression denotes among the package's definitions"""
        if isinstance(e, ast.Name):
            return None if e.id in loc else self.P.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.ref(m, e.value, loc)
            if r and r[0] == 'mod' and r[1] in self.P.modules:
                return self.P.resolve_in(r[1], e.attr)
            if r and r[0] in ('mod', 'ext'):
                full = r[1] + '.' + e.attr
                if full in self.P.modules: return ('mod', full)
                return ('ext', full)
        return None
    # ------------------------------------------------------ attributes
    def attribute(self, m, f, cls, x, types, loc):
        v = x.value
        if isinstance(v, ast.Name) and v.id in types and types[v.id] is not None:
            k = types[v.id]
            self.count('attributes')
            mt, _ = self.P.method(k, x.attr)
            if mt is not None:
                self.add(mt, k)
                return
            if isinstance(x.ctx, ast.Store): return
            if x.attr.startswith('__'): return
            if not self.known_bases(k): return
            if x.attr in ('base', 'shape'): return
            decl = self.P.attr_decl(k, x.attr)
            cv = any(x.attr in b.classvars for b in self.P.mro(k))
            if cv: return
            init = self.initialised(k)
            if x.attr not in init:
                if v.id == 'self' and x.attr in self.stores(f): return
                what = 'is declared but never set by the constructor' if decl is not None or any(x.attr in b.attrs for b in self.P.mro(k)) else 'does not exist'
                self.report('attribute', m, f, x, 'attribute %s of %s %s' % (x.attr, k.name, what))
            return
        r = self.ref(m, v, loc)
        if r and r[0] == 'mod' and r[1] in self.P.modules:
            self.count('attributes')
            t = self.P.resolve_in(r[1], x.attr)
            if t and t[0] == 'missing' and isinstance(x.ctx, ast.Load) and not x.attr.startswith('__'):
                self.report('attribute', m, f, x, 'module %s does not define %s' % (r[1], x.attr))
            elif t and t[0] == 'func': self.add(t[1], None)
        elif r and r[0] in ('mod', 'ext'):
            full = r[1] + '.' + x.attr
            ok = numpy_has(full)
            if ok is not None: self.count('numpy names')
            if ok is False: self.report('attribute', m, f, x, '%s does not exist in the installed numpy' % full)
        elif r and r[0] == 'class':
            self.count('attributes')
            mt, _ = self.P.method(r[1], x.attr)
            if mt: self.add(mt, r[1])
            elif not any(x.attr in b.classvars for b in self.P.mro(r[1])) and self.known_bases(r[1]) and not x.attr.startswith('__'):
                self.report('attribute', m, f, x, 'class %s has no %s' % (r[1].name, x.attr))
    def known_bases(self, k):
        return all(len(b.bases) == len([z for z in b.node.bases if not (isinstance(z, ast.Name) and z.id == 'object')]) for b in self.P.mro(k))
    def stores(self, f):
        return {x.attr for x in N.own(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self'}
    def initialised(self, k):
        if not hasattr(k, '_init'):
            out, seen, todo = set(), set(), []
            i, o = self.P.method(k, '__init__')
            if i: todo.append((i, o))
            while todo:
                g, owner = todo.pop()
                if g in seen: continue
                seen.add(g)
                m = self.mod.get(g)
                out |= self.stores(g)
                for x in N.own(g):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        b = x.func.value
                        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super':
                            mro = self.P.mro(k)
                            for c in mro[mro.index(owner) + 1 if owner in mro else 0:]:
                                if x.func.attr in c.methods:
                                    todo.append((c.methods[x.func.attr], c)); break
                        elif isinstance(b, ast.Name) and b.id == 'self':
                            y, o2 = self.P.method(k, x.func.attr)
                            if y: todo.append((y, o2))
                        else:
                            r = self.ref(m, b)
                            if r and r[0] == 'class':
                                y, o2 = self.P.method(r[1], x.func.attr)
                                if y: todo.append((y, o2))
            k._init = out
        return k._init
    # ------------------------------------------------------ calls
    def target(self, m, f, cls, c, types, loc):
        """[(function, class context, number of leading parameters already bound)] or None when not of this package"""
        P, e = self.P, c.func
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                for x in self.tab.get(g, ()):
                    if x.name == e.id: return (x, cls, 0)
                g = self.up.get(g)
            if e.id in loc: return None
            r = P.resolve_name(m, e.id)
        elif isinstance(e, ast.Attribute):
            b = e.value
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super':
                owner = getattr(f, 'owner', None)
                if cls is None or owner is None: return None
                mro = P.mro(cls)
                for k in mro[mro.index(owner) + 1 if owner in mro else 0:]:
                    if e.attr in k.methods: return (k.methods[e.attr], cls, 1)
                if e.attr == '__init__' or not self.known_bases(cls): return None
                return ('missing', 'no base class of %s has a method %s' % (owner.name, e.attr))
            if isinstance(b, ast.Name) and types.get(b.id) is not None:
                k = types[b.id]
                x, o = P.method(k, e.attr)
                if x: return (x, k, 0 if e.attr in o.static else 1)
                return None
            r = self.ref(m, e, loc)
            if r is None:
                r2 = self.ref(m, b, loc)
                if r2 and r2[0] == 'class':
                    x, o = P.method(r2[1], e.attr)
                    if x: return (x, cls if cls is not None and r2[1] in P.mro(cls) else r2[1], 0)
                return None
        else: return None
        if r and r[0] == 'func': return (r[1], None, 0)
        if r and r[0] == 'class':
            x, o = P.method(r[1], '__init__')
            if x: return (x, r[1], 1)
        return None
    def call(self, m, f, cls, c, types, loc):
        t = self.target(m, f, cls, c, types, loc)
        if t is None: return
        if t[0] == 'missing':
            self.report('call', m, f, c, t[1]); return
        g, k, skip = t
        self.add(g, k)
        self.count('calls')
        a = g.args
        ps = [x.arg for x in a.posonlyargs + a.args][skip:]
        star = any(isinstance(x, ast.Starred) for x in c.args)
        dstar = any(x.arg is None for x in c.keywords)
        npos = len([x for x in c.args if not isinstance(x, ast.Starred)])
        name = g.name if g.name != '__init__' else (k.name if k else '__init__')
        if npos > len(ps) and not a.vararg:
            self.report('call', m, f, c, '%s takes %d arguments, %d are given' % (name, len(ps), npos)); return
        kws = [x.arg for x in c.keywords if x.arg]
        kwonly = [x.arg for x in a.kwonlyargs]
        for n in kws:
            if n not in ps and n not in kwonly and not a.kwarg:
                self.report('call', m, f, c, '%s has no parameter %s' % (name, n)); return
            if n in ps and ps.index(n) < npos:
                self.report('call', m, f, c, '%s gets parameter %s twice' % (name, n)); return
        if not star and not dstar:
            nd = len(a.defaults)
            need = ps[npos:len(ps) - nd] if nd else ps[npos:]
            miss = [n for n in need if n not in kws] + [n.arg for n, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and n.arg not in kws]
            if miss: self.report('call', m, f, c, '%s is called without its argument %s' % (name, miss[0]))
    # ------------------------------------------------------ unpacking
    def flow_for(self, m, g, call=None, skip=0):
        """the ways through g with what a call says about its parameters (defaults and constants)"""
        facts = {}
        if call is not None:
            a = g.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            star = any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords)
            given = dict(zip(ps[skip:], call.args))
            given.update({k.arg: k.value for k in call.keywords if k.arg})
            dflt = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
            dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            if not star:
                for n in ps + [x.arg for x in a.kwonlyargs]:
                    v = given.get(n, dflt.get(n))
                    if v is not None:
                        k = const_fact(n, v)
                        if k: facts[k[0]] = k[1]
        key = (g, tuple(sorted(facts.items())))
        if key not in self.flow: self.flow[key] = Flow(self, self.mod.get(g, m), g, facts)
        return self.flow[key]
    def arity(self, m, g, seen=(), fl=None):
        """set of the numbers of results of function g; None in it when unknown"""
        if g in seen: return set()
        out = set()
        fl = fl or self.flow_for(m, g)
        for x, hs in fl.returns:
            if hs: out |= self.arity_of(self.mod.get(g, m), g, x.value, seen + (g,))
        return out
    def arity_of(self, m, g, v, seen):
        if v is None or isinstance(v, ast.Constant): return {0}
        if isinstance(v, ast.Tuple):
            return {None} if any(isinstance(e, ast.Starred) for e in v.elts) else {len(v.elts)}
        if isinstance(v, ast.IfExp):
            return self.arity_of(m, g, v.body, seen) | self.arity_of(m, g, v.orelse, seen)
        if isinstance(v, ast.Call):
            t = self.target(m, g, getattr(g, 'owner', None), v, self.types(m, g, getattr(g, 'owner', None)), self.locals(g))
            if t and t[0] != 'missing' and t[0].name != '__init__': return self.arity(m, t[0], seen, self.flow_for(m, t[0], v, t[2])) or {None}
        return {None}
    def unpack(self, m, f, cls, x, types, loc, fl):
        if len(x.targets) != 1 or not isinstance(x.targets[0], (ast.Tuple, ast.List)): return
        ts = x.targets[0].elts
        if any(isinstance(e, ast.Starred) for e in ts): return
        if isinstance(x.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.value.elts):
            self.count('unpackings')
            if len(x.value.elts) != len(ts): self.report('unpacking', m, f, x, '%d values are unpacked into %d names' % (len(x.value.elts), len(ts)))
            return
        if not isinstance(x.value, ast.Call): return
        t = self.target(m, f, cls, x.value, types, loc)
        if t is None or t[0] == 'missing' or t[0].name == '__init__': return
        self.count('unpackings')
        g = t[0]
        gf = self.flow_for(m, g, x.value, t[2])
        ns = self.arity(m, g, (), gf)
        wrong = {n for n in ns if n is not None and n != len(ts)}
        if wrong:
            self.report('unpacking', m, f, x, '%s returns %s values, %d are unpacked' % (g.name, sorted(wrong)[0], len(ts)))
            return
        # ways through the callee that return nothing
        if gf.gaveup or fl.gaveup: return
        for facts in gf.fall:
            here = fl.at.get(id(x)) or [{}]
            gl = {k: v for k, v in facts.items() if self.is_global(self.mod.get(g, m), k)}
            for h in here:
                if not any(h.get(k, v) != v for k, v in gl.items()):
                    self.report('unpacking', m, f, x, '%s can return nothing (%s), %d values are unpacked' % (g.name, ', '.join('%s%s' % ('' if v else 'not ', k) for k, v in facts.items()) or 'end of the function', len(ts)))
                    return
    def is_global(self, m, text):
        try: t = ast.parse(text, mode='eval')
        except SyntaxError: return False
        ns = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
        return bool(ns) and all(n in m.globals for n in ns)
    def unpack_for(self, m, f, x):
        it = x.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            n = {'enumerate': 2, 'zip': len(it.args)}.get(it.func.id)
            if n is not None and not any(isinstance(e, ast.Starred) for e in x.target.elts + it.args):
                self.count('unpackings')
                if len(x.target.elts) != n: self.report('unpacking', m, f, x, '%s gives %d values, %d are unpacked' % (it.func.id, n, len(x.target.elts)))
    # ------------------------------------------------------ constant tables
    def key(self, m, f, x, loc):
        if not isinstance(x.ctx, ast.Load): return
        k = x.slice
        if isinstance(k, ast.Constant) and isinstance(k.value, str): want = [k.value]
        elif ast.unparse(k) in ("method['profile']", 'profile'): want = list(MODELS)
        else: return
        if isinstance(x.value, ast.Name):
            n = x.value.id
            defs, other = [], False
            if n in loc:
                if n in {a.arg for a in f.args.args + f.args.kwonlyargs} or (f.args.kwarg and f.args.kwarg.arg == n): return
                for y in N.own(f):
                    if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in y.targets): defs.append(y.value)
                    elif isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store): defs.append(None) if not self.plain(f, y) else None
                    elif isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == n: other = True
                    elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == n and y.func.attr in ('update', 'setdefault'): other = True
            else:
                g = m.globals.get(n)
                if g and g[0] == 'assign': defs = [s.value for s in g[1] if isinstance(s, (ast.Assign, ast.AnnAssign))]
                elif g and g[0] == 'import' and g[1] in self.P.modules:
                    g2 = self.P.modules[g[1]].globals.get(g[2])
                    if g2 and g2[0] == 'assign': defs = [s.value for s in g2[1] if isinstance(s, (ast.Assign, ast.AnnAssign))]
            if defs and not other and all(isinstance(d, ast.Dict) and all(isinstance(k, ast.Constant) for k in d.keys) for d in defs):
                self.count('table keys')
                for d in defs:
                    for w in want:
                        if w not in [k.value for k in d.keys]:
                            self.report('key', m, f, x, 'table %s has no entry %r' % (n, w))
        elif isinstance(x.value, ast.Dict) and all(isinstance(k, ast.Constant) for k in x.value.keys):
            for w in want:
                if w not in [k.value for k in x.value.keys]: self.report('key', m, f, x, 'table has no entry %r' % w)
    def plain(self, f, name):
        for y in N.own(f):
            if isinstance(y, ast.Assign) and any(t is name for t in y.targets): return True
        return False

# ------------------------------------------------------------ definite assignment
SCALAR = ('int', 'double', 'float', 'bint', 'long', 'char', 'size_t', 'complex', 'unsigned', 'Py_ssize_t', 'short')
LIMIT = 160

class Flow:
    """ways through a function: states are (facts about conditions, names that have a value)"""
    def __init__(self, R, m, f, facts=None):
        self.R, self.m, self.f = R, m, f
        self.returns = []
        self.unbound, self.at, self.gaveup = {}, {}, False
        self.loc = R.locals(f)
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        if f.args.vararg: params.add(f.args.vararg.arg)
        if f.args.kwarg: params.add(f.args.kwarg.arg)
        self.brk, self.cnt = [], []
        end = self.block(f.body, [(dict(facts or {}), frozenset(params))])
        self.fall = [h for h, s in end] if any(isinstance(x, ast.Return) and x.value is not None for x in N.own(f)) else []
    def merge(self, ss):
        seen, out = set(), []
        for h, a in ss:
            k = (tuple(sorted(h.items())), a)
            if k not in seen:
                seen.add(k); out.append((h, a))
        if len(out) > LIMIT:
            g = {}
            for h, a in out:
                if a in g: g[a] = {k: v for k, v in g[a].items() if h.get(k) == v}
                else: g[a] = h
            out = [(h, a) for a, h in g.items()]
            if len(out) > LIMIT:
                self.gaveup = True
                return [({}, frozenset().union(*[a for h, a in out]))]
        return out
    def block(self, body, ss):
        for s in body:
            if not ss: break
            ss = self.merge(self.stmt(s, ss))
        return ss
    def uses(self, e, ss):
        if e is None: return
        self.at[id(e)] = [h for h, a in ss]
        skip = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Lambda):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                bound = {y.id for z in ast.walk(x) if isinstance(z, ast.comprehension) for y in ast.walk(z.target) if isinstance(y, ast.Name)}
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id not in bound: self.use(y, ss)
                continue
            if isinstance(x, (ast.BoolOp, ast.IfExp)):
                pass
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): self.use(x, ss)
            if isinstance(x, (ast.IfExp,)):
                stack.append(x.test)
                t, o = self.split(x.test, ss)
                if t: self.uses(x.body, t)
                if o: self.uses(x.orelse, o)
                continue
            if isinstance(x, ast.BoolOp):
                cur = ss
                for v in x.values:
                    if cur: self.uses(v, cur)
                    t, o = self.split(v, cur)
                    cur = t if isinstance(x.op, ast.And) else o
                continue
            stack.extend(ast.iter_child_nodes(x))
    def use(self, x, ss):
        if x.id in self.loc and any(x.id not in a for h, a in ss):
            self.unbound.setdefault(x.id, x)
    def store(self, t, ss):
        ns = {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del))}
        for y in ast.walk(t):
            if isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, ast.Store): self.uses(y.value, ss)
            if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store): self.uses(y.slice, ss)
        if not ns: return ss
        return [({k: v for k, v in h.items() if not (ns & ids(k))}, a | ns) for h, a in ss]
    # conditions
    def val(self, e, h):
        """True, False or None under the facts"""
        if isinstance(e, ast.Constant): return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.val(e.operand, h)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.val(v, h) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in vs else (True if all(v is True for v in vs) else None)
            return True if True in vs else (False if all(v is False for v in vs) else None)
        e, flip = canon(e)
        k = ast.unparse(e)
        if k in h: return h[k] != flip
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            swap = isinstance(l, ast.Constant)
            if swap: l, r = r, l
            if isinstance(l, ast.Name) and isinstance(r, ast.Constant) and isinstance(r.value, int):
                # 0, or 1 and more
                if h.get(l.id + ' == 0') is True: vs = (0,)
                elif h.get(l.id + ' > 0') is True: vs = (1, 2, r.value, r.value + 1, r.value - 1)
                else: vs = ()
                op = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}.get(type(e.ops[0]))
                res = {op(r.value, x) if swap else op(x, r.value) for x in vs if x > 0 or len(vs) == 1} if op else set()
                if len(res) == 1: return res.pop() != flip
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Eq) and isinstance(e.comparators[0], ast.Constant):
            for k2, v in h.items():
                if v and k2.startswith(ast.unparse(e.left) + ' == '):
                    return flip
        return None
    def learn(self, e, want, h):
        h = dict(h)
        def go(e, want):
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): go(e.operand, not want)
            elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) == want:
                for v in e.values: go(v, want)
            elif isinstance(e, ast.BoolOp):
                rest = [v for v in e.values if self.val(v, h) is None]
                if len(rest) == 1: go(rest[0], want)
                h[ast.unparse(e)] = want
            elif not isinstance(e, ast.Constant) and not any(isinstance(y, ast.Call) and not pure(y) for y in ast.walk(e)):
                e, flip = canon(e)
                h[ast.unparse(e)] = want != flip
        go(e, want)
        return h
    def split(self, e, ss):
        t, o = [], []
        for h, a in ss:
            v = self.val(e, h)
            if v is not False: t.append((self.learn(e, True, h), a))
            if v is not True: o.append((self.learn(e, False, h), a))
        return t, o
    def stmt(self, s, ss):
        self.at[id(s)] = [h for h, a in ss]
        if getattr(self, 'tries', None) and not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.FunctionDef)):
            if isinstance(s, ast.Raise) or any(isinstance(x, ast.Call) and not quiet(x) for x in ast.walk(s)): self.tries[-1].extend(ss)
        if isinstance(s, ast.Assign):
            self.uses(s.value, ss)
            for t in s.targets: ss = self.store(t, ss)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                k = const_fact(s.targets[0].id, s.value)
                if k: ss = [({**h, k[0]: k[1]}, a) for h, a in ss]
            return ss
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.uses(s.value, ss)
                return self.store(s.target, ss)
            ct = str(getattr(s, 'ctype', None) or (ast.unparse(s.annotation) if s.annotation is not None else ''))
            if isinstance(s.target, ast.Name) and (any(k in ct for k in SCALAR) and ':' not in ct):
                return [(h, a | {s.target.id}) for h, a in ss]
            return ss
        if isinstance(s, ast.AugAssign):
            self.uses(s.value, ss)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), ss)
            return self.store(s.target, ss)
        if isinstance(s, ast.If):
            self.uses(s.test, ss)
            t, o = self.split(s.test, ss)
            return self.block(s.body, t) + self.block(s.orelse, o)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.uses(s.iter, ss)
                inner = self.store(s.target, ss)
            else:
                self.uses(s.test, ss)
                inner, _ = self.split(s.test, ss)
            # conditions on variables that the loop changes are not known in later rounds
            ch = {y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            inner = self.merge([({k: v for k, v in h.items() if not (ch & ids(k))}, a) for h, a in inner])
            b0, c0 = self.brk, self.cnt
            self.brk, self.cnt = [], []
            v = counter(s)
            if v and v not in {y.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}:
                # the first round, then the others: what the first one binds they find
                first = self.block(s.body, [({**h, v + ' == 0': True, v + ' > 0': False}, a) for h, a in inner]) + self.cnt
                self.cnt = []
                later = self.merge([({k: x for k, x in h.items() if not (ch & ids(k))}, a) for h, a in first])
                out = first + self.block(s.body, [({**h, v + ' == 0': False, v + ' > 0': True}, a) for h, a in later])
            else:
                out = self.block(s.body, inner)
            out = self.merge([({k: x for k, x in h.items() if not v or v not in ids(k)}, a) for h, a in out + self.cnt])
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            res = [] if forever else self.block(s.orelse, out)
            res = res + self.brk
            self.brk, self.cnt = b0, c0
            return res or ([] if forever else ss if not inner else [])
        if isinstance(s, ast.With):
            for it in s.items:
                self.uses(it.context_expr, ss)
                if it.optional_vars is not None: ss = self.store(it.optional_vars, ss)
            return self.block(s.body, ss)
        if isinstance(s, ast.Try):
            raising = []
            self.tries = getattr(self, 'tries', []) + [raising]
            out = self.block(s.body, ss)
            self.tries = self.tries[:-1]
            res = self.block(s.orelse, out)
            for h in s.handlers:
                e = self.merge(raising) or ss
                if h.name: e = [(f, a | {h.name}) for f, a in e]
                res = res + self.block(h.body, e)
            return self.block(s.finalbody, res) if s.finalbody else res
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in (getattr(s, 'value', None), getattr(s, 'exc', None)): self.uses(x, ss)
            if isinstance(s, ast.Return): self.returns.append((s, [h for h, a in ss]))
            return []
        if isinstance(s, ast.Break): self.brk = self.brk + ss; return []
        if isinstance(s, ast.Continue): self.cnt = self.cnt + ss; return []
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return [(h, a | {s.name}) for h, a in ss]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            ns = {(x.asname or x.name).split('.')[0] for x in s.names}
            return [(h, a | ns) for h, a in ss]
        if isinstance(s, ast.Delete):
            ns = {t.id for t in s.targets if isinstance(t, ast.Name)}
            return [(h, a - ns) for h, a in ss]
        if isinstance(s, ast.Assert):
            self.uses(s.test, ss)
            return self.split(s.test, ss)[0]
        if isinstance(s, ast.Expr):
            self.uses(s.value, ss)
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit', 'quit', 'os._exit', 'comm.Abort'): return []
            return ss
        return ss

def counter(s):
    """variable that is 0 in the first round of a loop only"""
    if not isinstance(s, ast.For) or not isinstance(s.iter, ast.Call) or not isinstance(s.iter.func, ast.Name): return None
    n, a = s.iter.func.id, s.iter.args
    if n in ('range', 'prange') and (len(a) == 1 or len(a) == 2 and isinstance(a[0], ast.Constant) and a[0].value == 0): return s.target.id if isinstance(s.target, ast.Name) else None
    if n == 'enumerate' and len(a) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name): return s.target.elts[0].id
    return None

def ids(text):
    return {x.id for x in ast.walk(ast.parse(text, mode='eval')) if isinstance(x, ast.Name)}

def pure(c):
    f = c.func
    return isinstance(f, ast.Name) and f.id in ('len', 'isinstance', 'hasattr', 'int', 'float', 'str', 'abs') or ast.unparse(f) in ('os.path.exists', 'os.path.isfile', 'np.isnan', 'np.isinf')

def const_fact(name, v):
    if isinstance(v, ast.Constant):
        if isinstance(v.value, bool): return (name, v.value)
        if v.value is None: return (name + ' is None', True)
        if isinstance(v.value, (str, int)): return ('%s == %r' % (name, v.value), True)
    if isinstance(v, ast.List) and not v.elts: return (name + ' == []', True)
    return None

def quiet(c):
    """calls that do not raise on the values they get here: array and list constructors, arithmetic of numpy, printing"""
    t = ast.unparse(c.func)
    return t.split('.')[0] in ('np', 'numpy', 'math') or t in ('len', 'range', 'list', 'print', 'print_status', 'str', 'tuple', 'isinstance', 'sorted', 'min', 'max', 'abs', 'sum')

def canon(e):
    """(expression, negated): != as not ==, 'not in' as not in, 'is not' as not is"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
        return ast.copy_location(ast.Compare(e.left, [ast.Is()], e.comparators), e), isinstance(e.ops[0], ast.NotEq)
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and isinstance(e.comparators[0].value, bool) and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        return e.left, e.comparators[0].value == isinstance(e.ops[0], (ast.NotEq, ast.IsNot))
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        d = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        k = d.get(type(e.ops[0]))
        if k: return ast.copy_location(ast.Compare(e.left, [k()], e.comparators), e), True
    return e, False

# ------------------------------------------------------------ numpy's names
_np = {}
def numpy_has(full):
    """True, False, or None when unknown; from the stub files of the installed numpy"""
    if not full.startswith('numpy.'): return None
    mod, _, n = full.rpartition('.')
    if mod not in ('numpy', 'numpy.linalg', 'numpy.random'): return None
    if mod not in _np: _np[mod] = load(mod)
    return None if _np[mod] is None else n in _np[mod]

def load(mod):
    base = None
    for pat in ('/opt/*/lib/python3*/site-packages', '/opt/*/*/lib/python3*/site-packages', '/usr/lib/python3/dist-packages', '/usr/local/lib/python3*/site-packages', '/usr/local/lib/python3*/dist-packages'):
        for d in sorted(glob.glob(pat)):
            if 'veriftools' in d: continue
            p = os.path.join(d, mod.replace('.', '/'), '__init__.pyi')
            if os.path.exists(p):
                base = p; break
        if base: break
    if base is None: return None
    out = set()
    try: t = ast.parse(open(base).read())
    except SyntaxError: return None
    def go(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): out.add(s.name)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names: out.add((a.asname or a.name).split('.')[0])
            elif isinstance(s, ast.Assign):
                for x in s.targets:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name): out.add(y.id)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name): out.add(s.target.id)
            elif isinstance(s, ast.If):
                go(s.body); go(s.orelse)
    go(t.body)
    d = os.path.dirname(base)
    for f in os.listdir(d):
        out.add(f.split('.')[0])
    return out if len(out) > 20 else None

KINDS = {'export': 'C20', 'import': 'C20', 'name': 'C20', 'variable': 'C20', 'attribute': 'C20', 'call': 'C20', 'unpacking': 'C20', 'key': 'C20'}

@rule('reachable', 'C20', timeout=200)
def reachable(c):
    if c.P.unparsed:
        for n, e in c.P.unparsed: c.unknown(n, 'source not understood')
        return
    R = Resolver(c)
    R.run()
    for k in R.flow.values():
        if k.gaveup: c.stats['functions with merged ways'] = c.stats.get('functions with merged ways', 0) + 1
    for f, cls in sorted(R.done, key=lambda x: (x[0].name, x[1].name if x[1] else '')):
        m = R.mod.get(f)
        if m is None: continue
        name = '%s.%s%s' % (m.name, (cls.name + '.') if cls else '', f.name)
        bs = [(k, v) for k, v in R.bad.items() if k[1] == m.name and k[2] == f.name]
        if not bs: c.ok(name, where=where(m, f))
    for (kind, mn, fn, text), (m, node) in R.bad.items():
        c.bad('%s.%s:%s' % (mn, fn, text[:60]), text, where(m, node))
    for k, n in R.counts.items(): c.stats[k] = n
    c.stats['functions'] = len(R.done)
