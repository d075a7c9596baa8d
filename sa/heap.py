"""A small abstract interpreter for the caching module.

Structure (tuples, lists, dictionaries, closures, links) is followed exactly, user values are symbols, and a
condition that depends on them splits the analysis. The linked list of a cache is a ring of named nodes in which
an arbitrary stretch of nodes may be summarised by one segment; at every acquisition of the lock the ring, the
dictionary and the flag are replaced by an arbitrary state that satisfies the invariant, because other threads
may have run."""
import ast
from . import names

class Unsupported(Exception): pass
class Raised(Exception):
    def __init__(self, what, node=None): self.what, self.node = what, node
class Ret(Exception):
    def __init__(self, v): self.v = v
class Skip(Exception): pass
class Brk(Exception): pass
class Cnt(Exception): pass
class Alarm(Exception):
    def __init__(self, msg, node=None): self.msg, self.node = msg, node

class Sym:
    def __init__(self, name, kind='user'): self.name, self.kind = name, kind
    def __repr__(self): return self.name
class App:
    def __init__(self, op, *args): self.op, self.args = op, args
    def __eq__(self, o): return isinstance(o, App) and (self.op, self.args) == (o.op, o.args)
    def __hash__(self): return hash((self.op, self.args))
    def __repr__(self): return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))
class Obj:
    """a unique object"""
    def __init__(self, what='object'): self.what, self.attrs = what, {}
    def __repr__(self): return '<%s>' % self.what
class L:
    def __init__(self, items=(), cls=None):
        self.items, self.cls, self.attrs, self.node, self.gen, self.name = list(items), cls, {}, False, 0, None
    def __repr__(self): return self.name or '[%s]' % ', '.join('...' if isinstance(x, L) else repr(x) for x in self.items)
class D:
    def __init__(self): self.d, self.shared, self.rest, self.delta = {}, False, False, 0
class S:
    def __init__(self, items): self.items = list(items)
class Lock:
    pass
class Lin:
    """size of the cache when the lock was acquired, plus k"""
    def __init__(self, k): self.k = k
class Fn:
    def __init__(self, node, env): self.node, self.env, self.attrs = node, env, {}
class Cls:
    def __init__(self, node, env): self.node, self.env = node, env
        
class Bound:
    def __init__(self, obj, name): self.obj, self.name = obj, name
class Ext:
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Ext) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return self.name
class Native:
    """a function given by the analysis"""
    def __init__(self, f): self.f, self.attrs = f, {}

class Env:
    def __init__(self, up=None, fn=None):
        self.v, self.up, self.fn = {}, up, fn
        self.out = set()
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.up
        return None

def tree(x):
    """hashable structural form of a value used as a key"""
    if isinstance(x, tuple): return ('tuple',) + tuple(tree(i) for i in x)
    if isinstance(x, L):
        return ('seq' if x.cls else 'list',) + tuple(tree(i) for i in x.items)
    return x

class Interp:
    def __init__(self, P, module, script=()):
        self.P, self.m = P, module
        self.script, self.made = list(script), []
        self.g = Env()
        self.lock = 0
        self.on_lock = self.on_unlock = None
        self.guarded = None        # environment and names that only the lock's holder may touch
        self.user = []             # calls of the user function
        self.eqs = []              # equalities assumed
        self.fast = set()
        self.gen = 0
        self.stub = {}
        self.steps = 0
        for n in module.tree.body:
            try:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)): self.stmt(n, self.g)
                elif isinstance(n, ast.Assign): self.stmt(n, self.g)
            except Unsupported: pass
    def choose(self, n, what=''):
        k = self.script[len(self.made)] if len(self.made) < len(self.script) else 0
        self.made.append((k, n))
        return k
    # ---------------------------------------------------------- statements
    def block(self, body, env):
        for s in body: self.stmt(s, env)
    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 20000: raise Unsupported('too many steps')
        t = type(s).__name__
        f = getattr(self, 's_' + t, None)
        if f is None: raise Unsupported('statement %s at line %s' % (t, s.lineno))
        self.at = s
        f(s, env)
    def s_Pass(self, s, env): pass
    s_Import = s_ImportFrom = s_Pass
    def s_Expr(self, s, env): self.ev(s.value, env)
    def s_Nonlocal(self, s, env): env.out |= set(s.names)
    s_Global = s_Nonlocal
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env):
        t = s.target
        load = ast.copy_location({ast.Name: lambda: ast.Name(t.id, ast.Load()), ast.Attribute: lambda: ast.Attribute(t.value, t.attr, ast.Load()),
                                  ast.Subscript: lambda: ast.Subscript(t.value, t.slice, ast.Load())}[type(t)](), t)
        self.assign(t, self.binop(type(s.op).__name__, self.ev(load, env), self.ev(s.value, env)), env)
    def s_Return(self, s, env): raise Ret(self.ev(s.value, env) if s.value is not None else None)
    def s_If(self, s, env): self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise Raised('AssertionError', s)
    def s_Raise(self, s, env): raise Raised('raise', s)
    def s_Break(self, s, env): raise Brk()
    def s_Continue(self, s, env): raise Cnt()
    def s_For(self, s, env):
        for x in self.iter(self.ev(s.iter, env)):
            self.assign(s.target, x, env)
            try: self.block(s.body, env)
            except Brk: break
            except Cnt: continue
        else: self.block(s.orelse, env)
    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 40: raise Unsupported('unbounded loop at line %d' % s.lineno)
            try: self.block(s.body, env)
            except Brk: break
            except Cnt: continue
    def s_FunctionDef(self, s, env):
        f = Fn(s, env)
        f.defaults = [self.ev(d, env) for d in s.args.defaults]
        f.kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {}, d)
        self.bind(s.name, v, env)
    def s_ClassDef(self, s, env): self.bind(s.name, Cls(s, env), env)
    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): (env.find(t.id) or env).v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, D): self.d_del(o, k)
                else: raise Unsupported('del')
            else: raise Unsupported('del')
    def s_With(self, s, env):
        held = []
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if not isinstance(v, Lock): raise Unsupported('with at line %d' % s.lineno)
            self.acquire(); held.append(v)
            if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
        try: self.block(s.body, env)
        finally:
            pend = __import__('sys').exc_info()[0]
            for v in held: self.release(check=pend is None or pend in (Ret, Brk, Cnt))
    def s_Try(self, s, env):
        try:
            try: self.block(s.body, env)
            except Raised as e:
                for h in s.handlers:
                    nm = h.type.id if isinstance(h.type, ast.Name) else None
                    if h.type is None or nm in (e.what, 'Exception', 'BaseException'):
                        if h.name: self.bind(h.name, Obj(), env)
                        self.block(h.body, env)
                        break
                else: raise
            else: self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)
    def acquire(self):
        self.lock += 1
        if self.lock == 1 and self.on_lock: self.on_lock(self)
    def release(self, check=True):
        if self.lock == 0: raise Alarm('the lock is released without being held', self.at)
        if self.lock == 1 and self.on_unlock and check: self.on_unlock(self)
        self.lock -= 1
    # ---------------------------------------------------------- binding
    def bind(self, n, v, env):
        if n in env.out:
            e = env.up.find(n) if env.up else None
            e = e or self.g
            self.touch(e, n, 'written')
            e.v[n] = v
        else: env.v[n] = v
    def touch(self, e, n, how):
        g = self.guarded
        if g and e is g[0] and n in g[1] and self.lock == 0:
            raise Alarm('shared variable %s is %s without the lock' % (n, how), self.at)
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(self.iter(v))
            if len(xs) != len(t.elts): raise Unsupported('unpacking at line %d' % t.lineno)
            for a, b in zip(t.elts, xs): self.assign(a, b, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not hasattr(o, 'attrs'): raise Unsupported('attribute store at line %d' % t.lineno)
            o.attrs[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(o, D):
                self.d_set(o, self.ev(t.slice, env), v)
            elif isinstance(o, L):
                self.look(o, 'written')
                if isinstance(t.slice, ast.Slice):
                    if t.slice.lower or t.slice.upper or t.slice.step: raise Unsupported('slice store')
                    o.items[:] = list(self.iter(v))
                else:
                    k = self.ev(t.slice, env)
                    if not isinstance(k, int): raise Unsupported('index')
                    if not -len(o.items) <= k < len(o.items): raise Raised('IndexError', t)
                    o.items[k] = v
            else: raise Unsupported('item store at line %d' % t.lineno)
        else: raise Unsupported('target')
    def look(self, o, how):
        if not o.node: return
        if o.node == 'segment': raise Unsupported('the list is followed further than the analysis does')
        if self.lock == 0: raise Alarm('a link of the shared list is %s without the lock' % how, self.at)
        if o.gen != self.gen: raise Alarm('a link found under an earlier hold of the lock is %s' % how, self.at)
    # ---------------------------------------------------------- dictionaries
    present = None      # hook: key lookup in the shared dictionary
    def d_chk(self, d, how):
        if d.shared == 'locked' and self.lock == 0:
            raise Alarm('the shared dictionary is %s without the lock' % how, self.at)
    def d_has(self, d, k):
        t = tree(k)
        if t in d.d: return True
        if d.shared and self.present: return self.present(self, d, t)
        if d.rest: raise Unsupported('lookup')
        return False
    def d_get(self, d, k, default):
        self.d_chk(d, 'read')
        if self.d_has(d, k): return d.d[tree(k)][1]
        return default
    def d_set(self, d, k, v):
        self.d_chk(d, 'written')
        if not self.d_has(d, k): d.delta += 1
        d.d[tree(k)] = (k, v)
    def d_del(self, d, k):
        self.d_chk(d, 'written')
        if not self.d_has(d, k):
            raise Alarm('an entry is removed under a key that it is not stored under', self.at)
        del d.d[tree(k)]
        d.delta -= 1
    # ---------------------------------------------------------- expressions
    def iter(self, v):
        if isinstance(v, (tuple, list)): return list(v)
        if isinstance(v, L):
            self.look(v, 'read')
            return list(v.items)
        if isinstance(v, S): return list(v.items)
        if isinstance(v, D): return [k for k, x in v.d.values()]
        if isinstance(v, App) and v.op in ('flat', 'shape'): raise Unsupported('iteration over an array')
        raise Unsupported('iteration over %r' % (v,))
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, str, float)): return bool(v)
        if isinstance(v, (tuple, list)): return bool(v)
        if isinstance(v, L): return bool(v.items)
        if isinstance(v, D):
            if v.shared: raise Unsupported('truth of the cache')
            return bool(v.d)
        if isinstance(v, (Obj, Fn, Cls, Ext, Bound, Lock, Native)): return True
        if isinstance(v, App) and v.op == 'eq':
            r = not self.choose(2)
            if r: self.eqs.append(v.args)
            return r
        if isinstance(v, App) and v.op == 'fast':
            r = not self.choose(2)
            if r: self.fast.add(v.args[0])
            return r
        if isinstance(v, App) and v.op == 'not': return not self.truth(v.args[0])
        if isinstance(v, Sym) and v.kind == 'limit': return True
        return not self.choose(2)
    def ev(self, e, env):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None: raise Unsupported('%s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return f(e, env)
    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env):
        x = env
        while x is not None:
            if e.id in x.v:
                self.touch(x, e.id, 'read')
                return x.v[e.id]
            x = x.up
        if e.id in self.g.v: return self.g.v[e.id]
        d = names.dotted(self.P, self.m, e)
        if d: return Ext(d)
        r = self.P.resolve_name(self.m, e.id)
        if r and r[0] in ('mod', 'ext'): return Ext(r[1])
        raise Unsupported('name %s' % e.id)
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return L(self.elts(e.elts, env))
    def e_Set(self, e, env): return S(self.elts(e.elts, env))
    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred): out += self.iter(self.ev(x.value, env))
            else: out.append(self.ev(x, env))
        return out
    def e_Dict(self, e, env):
        d = D()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for kk, vv in self.ev(v, env).d.values(): self.d_set(d, kk, vv)
            else: self.d_set(d, self.ev(k, env), self.ev(v, env))
        return d
    def e_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr)
    def attr(self, o, a):
        if isinstance(o, Ext):
            n = o.name + '.' + a
            return Sym(n, 'config') if '.config' in o.name else Ext(n)
        if hasattr(o, 'attrs') and a in o.attrs: return o.attrs[a]
        if isinstance(o, Sym) and o.kind == 'array':
            if a in ('shape', 'dtype'): return App(a, o)
            if a == 'size': return App('size', o)
            return Bound(o, a)
        if isinstance(o, (L, D, Lock, S, str, tuple)): return Bound(o, a)
        if isinstance(o, App) and o.op == 'ext': return App('ext', o.args[0] + '.' + a)
        if isinstance(o, App): return Bound(o, a)
        raise Unsupported('attribute %s of %r' % (a, o))
    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            b = [self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if all(x is None or isinstance(x, int) for x in b):
                if isinstance(o, tuple): return o[slice(*b)]
                if isinstance(o, L):
                    self.look(o, 'read')
                    return L(o.items[slice(*b)])
            raise Unsupported('slice')
        k = self.ev(e.slice, env)
        if isinstance(o, D):
            self.d_chk(o, 'read')
            if not self.d_has(o, k): raise Raised('KeyError', e)
            return o.d[tree(k)][1]
        if isinstance(o, (L, tuple)):
            xs = o
            if isinstance(o, L):
                self.look(o, 'read')
                xs = o.items
            if not isinstance(k, int): raise Unsupported('index %r' % (k,))
            if not -len(xs) <= k < len(xs): raise Raised('IndexError', e)
            return xs[k]
        return App('item', o, tree(k))
    def e_IfExp(self, e, env): return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.ev(x, env)
            if self.truth(v) != isinstance(e.op, ast.And): return v if not isinstance(v, App) else (not isinstance(e.op, ast.And))
        return v if not isinstance(v, App) else isinstance(e.op, ast.And)
    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and isinstance(v, (int, float)): return -v
        return App(type(e.op).__name__, v)
    def e_BinOp(self, e, env): return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))
    def binop(self, op, a, b):
        if op == 'Add':
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, L) and isinstance(b, (L, tuple)): return L(a.items + list(self.iter(b)))
            if isinstance(a, Lin) and isinstance(b, int): return Lin(a.k + b)
        if op == 'Sub' and isinstance(a, Lin) and isinstance(b, int): return Lin(a.k - b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Pow': lambda: a ** b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b}.get(op, lambda: App(op, a, b))()
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult': return a * b
        return App(op, tree(a), tree(b))
    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env)
            v = self.compare(type(op).__name__, a, b)
            if len(e.ops) == 1: return v
            if not self.truth(v): return False
            a = b
        return True
    def num(self, x):
        if isinstance(x, Lin): return ('lin', x.k)
        if isinstance(x, Sym) and x.kind == 'limit':
            return ('lin', self.limit) if self.limit is not None else None
        return None
    limit = None
    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(a, App) or isinstance(b, App) or isinstance(a, Sym) or isinstance(b, Sym):
                o = b if isinstance(a, (App, Sym)) else a
                x = a if isinstance(a, (App, Sym)) else b
                if isinstance(o, Obj) or (isinstance(x, Sym) and x.kind in ('limit', 'array')): r = a is b
                elif isinstance(x, App) and x.op == 'call' and o is None:
                    r = not self.choose(2)      # the user function may return None
                else:
                    r = a is b or not self.choose(2)
            else:
                r = a is b or (isinstance(a, (int, str, tuple)) and type(a) is type(b) and a == b)
            return r == (op == 'Is')
        if op in ('In', 'NotIn'):
            if isinstance(b, D):
                self.d_chk(b, 'read')
                r = self.d_has(b, a)
            elif isinstance(b, S) and isinstance(a, App) and a.op == 'type': r = self.truth(App('fast', a.args[0]))
            elif isinstance(b, (S, L, tuple)) and isinstance(a, (int, str)): r = a in list(self.iter(b))
            else: r = not self.choose(2)
            return r == (op == 'In')
        na, nb = self.num(a), self.num(b)
        if isinstance(a, (Lin, Sym)) and isinstance(b, (Lin, Sym)) and na and nb:
            a, b = na[1], nb[1]
        elif isinstance(a, Sym) and a.kind == 'limit' and isinstance(b, int): a = 10 ** 6
        elif isinstance(b, Sym) and b.kind == 'limit' and isinstance(a, int): b = 10 ** 6
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}[op]
        if op in ('Eq', 'NotEq'):
            if a is None or b is None or isinstance(a, str) and isinstance(b, str):
                if not isinstance(a, (Sym, App)) and not isinstance(b, (Sym, App)): return (a == b) == (op == 'Eq')
            ta, tb = tree(a), tree(b)
            if ta == tb: return op == 'Eq'
            x = App('eq', ta, tb)
            return x if op == 'Eq' else App('not', x)
        return App(op, tree(a), tree(b))
    def comp(self, e, env, f):
        out = []
        def go(k, en):
            if k == len(e.generators):
                out.append(f(en)); return
            g = e.generators[k]
            for x in self.iter(self.ev(g.iter, en)):
                n = Env(en)
                self.assign(g.target, x, n)
                if all(self.truth(self.ev(i, n)) for i in g.ifs): go(k + 1, n)
        go(0, env)
        return out
    def e_ListComp(self, e, env): return L(self.comp(e, env, lambda n: self.ev(e.elt, n)))
    def e_GeneratorExp(self, e, env): return self.comp(e, env, lambda n: self.ev(e.elt, n))
    def e_SetComp(self, e, env): return S(self.comp(e, env, lambda n: self.ev(e.elt, n)))
    def e_DictComp(self, e, env):
        d = D()
        for k, v in self.comp(e, env, lambda n: (self.ev(e.key, n), self.ev(e.value, n))): self.d_set(d, k, v)
        return d
    def e_Lambda(self, e, env):
        n = ast.copy_location(ast.FunctionDef('<lambda>', e.args, [ast.copy_location(ast.Return(e.body), e)], [], None), e)
        f = Fn(n, env)
        f.defaults = [self.ev(d, env) for d in e.args.defaults]
        f.kwd = {}
        return f
    def e_JoinedStr(self, e, env):
        return App('str', *[tree(self.ev(v.value, env)) for v in e.values if isinstance(v, ast.FormattedValue)])
    # ---------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred): args += self.iter(self.ev(a.value, env))
            else: args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.ev(k.value, env).d.values(): kw[kk] = vv
            else: kw[k.arg] = self.ev(k.value, env)
        self.at = e
        return self.call(f, args, kw, e)
    def call(self, f, args, kw, e=None):
        if isinstance(f, Native): return f.f(self, args, kw, e)
        if isinstance(f, Fn):
            if f.node.name in self.stub: return self.stub[f.node.name](self, args, kw, e)
            return self.apply(f, args, kw)
        if isinstance(f, Cls): return self.make(f, args, kw)
        if isinstance(f, Bound): return self.method(f.obj, f.name, args, kw)
        if isinstance(f, Sym) and f.kind == 'function':
            if self.lock:
                raise Alarm('the user function is called while the lock is held', e)
            t = App('call', tree(tuple(args)), tuple(sorted((k, tree(v)) for k, v in kw.items())))
            self.user.append((args, kw))
            return t
        if isinstance(f, Ext): return self.ext(f.name, args, kw)
        raise Unsupported('call of %r' % (f,))
    def apply(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.node)
        ps = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if len(args) > len(ps) and not a.vararg: raise Raised('TypeError', f.node)
        for n, v in zip(ps, args): env.v[n] = v
        if a.vararg: env.v[a.vararg.arg] = tuple(args[len(ps):])
        for k, n in enumerate(ps):
            if n in env.v: continue
            if n in kw: env.v[n] = kw.pop(n)
            else:
                j = k - (len(ps) - len(f.defaults))
                if j < 0: raise Raised('TypeError', f.node)
                env.v[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg in kw: env.v[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwd: env.v[x.arg] = f.kwd[x.arg]
            else: raise Raised('TypeError', f.node)
        if a.kwarg:
            d = D()
            for k, v in kw.items(): d.d[k] = (k, v)
            env.v[a.kwarg.arg] = d
        elif kw: raise Raised('TypeError', f.node)
        try: self.block(f.node.body, env)
        except Ret as r: return r.v
        return None
    def member(self, c, n):
        for x in c.node.body:
            if isinstance(x, ast.FunctionDef) and x.name == n:
                f = Fn(x, c.env)
                f.defaults = [self.ev(d, c.env) for d in x.args.defaults]
                f.kwd = {}
                return f
        return None
    def make(self, c, args, kw):
        bases = [ast.unparse(b) for b in c.node.bases]
        if bases != ['list'] and bases != ['tuple']:
            raise Unsupported('class %s' % c.node.name)
        o = L(cls=c)
        i = self.member(c, '__init__')
        if i: self.apply(i, [o] + args, kw)
        elif args: o.items = list(self.iter(args[0]))
        return o
    def method(self, o, n, args, kw):
        if isinstance(o, Lock):
            if n in ('acquire', '__enter__'): self.acquire(); return True
            if n in ('release', '__exit__'): self.release(); return None
        if isinstance(o, D):
            if n == 'get': return self.d_get(o, args[0], args[1] if len(args) > 1 else None)
            if n == 'clear':
                self.d_chk(o, 'written')
                o.d.clear(); o.rest = False; o.cleared = True
                return None
            if n == 'items' and not o.shared: return [(k, v) for k, v in o.d.values()]
            if n == 'keys' and not o.shared: return [k for k, v in o.d.values()]
            if n == 'values' and not o.shared: return [v for k, v in o.d.values()]
            if n == 'pop':
                self.d_chk(o, 'written')
                if self.d_has(o, args[0]):
                    v = o.d.pop(tree(args[0]))[1]
                    o.delta -= 1
                    return v
                if len(args) > 1: return args[1]
                raise Alarm('an entry is removed under a key that it is not stored under', self.at)
            if n == 'setdefault':
                if not self.d_has(o, args[0]): self.d_set(o, args[0], args[1] if len(args) > 1 else None)
                return o.d[tree(args[0])][1]
        if isinstance(o, L):
            self.look(o, 'used')
            if n == 'append': o.items.append(args[0]); return None
            if n == 'extend': o.items += self.iter(args[0]); return None
            if n == 'insert': o.items.insert(*args); return None
            if n == 'copy': return L(o.items)
            if n == 'clear': o.items.clear(); return None
            if n == 'pop': return o.items.pop(*args)
        if isinstance(o, (Sym, App)):
            if isinstance(o, Sym) and o.kind == 'array':
                if n in ('flatten', 'ravel', 'tolist', 'tobytes'):
                    if n in ('flatten', 'ravel') and (args or kw): return App('flat', o, tree(tuple(args)), tuple(sorted(kw.items())))
                    if n == 'tolist': return App('nested', o)
                    return App('flat', o) if n != 'tobytes' else App('bytes', o)
                if n == 'reshape' and len(args) == 1 and args[0] == -1 and not kw: return App('flat', o)
                if n == 'copy': return o
            if n in ('tolist',) and isinstance(o, App) and o.op == 'flat': return o
            if n == 'reshape': return self.reshape(o, args, kw)
            return App('method', n, o, tree(tuple(args)), tuple(sorted((k, tree(v)) for k, v in kw.items())))
        raise Unsupported('method %s' % n)
    def reshape(self, o, args, kw):
        order = tree(kw.get('order', 'C'))
        s = args[0] if len(args) == 1 else tuple(args)
        if isinstance(o, App) and o.op == 'array' and isinstance(o.args[0], App) and o.args[0].op == 'flat':
            f = o.args[0]
            a = f.args[0]
            fo = f.args[1][1] if len(f.args) > 1 and len(f.args[1]) > 1 else (dict(f.args[2]).get('order', 'C') if len(f.args) > 2 else 'C')
            if tree(s) == App('shape', a) and fo == order: return a
        return App('reshape', tree(o), tree(s), order)
    def ext(self, n, args, kw):
        n = n.replace('builtins.', '')
        if n in self.stub: return self.stub[n](self, args, kw, None)
        a = args[0] if args else None
        if n == 'object': return Obj('object at line %s' % getattr(self.at, 'lineno', '?'))
        if n in ('functools.RLock', 'functools.Lock', 'threading.RLock', 'threading.Lock', '_thread.RLock'): return Lock()
        if n in ('functools.update_wrapper', 'functools.wraps'):
            if n.endswith('update_wrapper'): return a
            return Native(lambda I, x, k, e: x[0])
        if n == 'collections.namedtuple' or n == 'functools.namedtuple': return Native(lambda I, x, k, e: tuple(x))
        if n == 'len':
            if isinstance(a, D):
                self.d_chk(a, 'read')
                return Lin(a.delta) if a.shared else len(a.d)
            if isinstance(a, (tuple, L, list, S)): return len(self.iter(a))
            return App('len', tree(a))
        if n in ('tuple', 'list'):
            if not args: return () if n == 'tuple' else L()
            if isinstance(a, App) and a.op in ('flat', 'nested', 'shape'): return a
            if isinstance(a, Sym): return App(n, a)
            xs = self.iter(a)
            return tuple(xs) if n == 'tuple' else L(xs)
        if n == 'sorted':
            xs = list(self.iter(a))
            if kw: raise Unsupported('sorted with a key')
            def k(x): return x if isinstance(x, str) else x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else None
            if any(k(x) is None for x in xs): raise Unsupported('sorted')
            return L(sorted(xs, key=k))
        if n == 'type': return App('type', a) if isinstance(a, (Sym, App)) else App('typeof', type(a).__name__)
        if n == 'hash': return App('hash', tree(a))
        if n in ('isinstance', 'callable', 'hasattr'): return not self.choose(2)
        if n in ('range', 'numpy.arange'):
            if all(isinstance(x, int) for x in args): return list(range(*args))
            raise Unsupported('range')
        if n == 'enumerate': return [(i, x) for i, x in enumerate(self.iter(a))]
        if n == 'zip': return [tuple(x) for x in zip(*[self.iter(x) for x in args])]
        if n == 'reversed': return self.iter(a)[::-1]
        if n == 'map':
            return [self.call(a, [x], {}) for x in self.iter(args[1])]
        if n == 'dict':
            d = D()
            if args:
                for x in (args[0].d.values() if isinstance(args[0], D) else [self.iter(p) for p in self.iter(args[0])]): self.d_set(d, x[0], x[1])
            for k, v in kw.items(): self.d_set(d, k, v)
            return d
        if n in ('set', 'frozenset'): return S(self.iter(a) if args else ())
        if n == 'psutil.virtual_memory': return Obj('memory') if False else App('ext', 'psutil.memory')
        if n in ('numpy.array', 'numpy.asarray'):
            if isinstance(a, Sym) and a.kind == 'array': return a
            if isinstance(a, App) and a.op == 'nested': return a.args[0]
            return App('array', tree(a))
        if n in ('numpy.reshape',): return self.reshape(a, args[1:], kw)
        if n in ('numpy.ravel', 'numpy.shape') and isinstance(a, Sym): return App({'ravel': 'flat', 'shape': 'shape'}[n[6:]], a)
        if n in ('max', 'min', 'abs', 'int') and args and all(isinstance(x, int) for x in args): return {'max': max, 'min': min, 'abs': abs, 'int': int}[n](*args) if len(args) > 1 or n in ('abs', 'int') else a
        if n in ('int', 'float', 'str', 'repr', 'id', 'bool', 'round', 'abs', 'min', 'max', 'sum'): return App(n, *[tree(x) for x in args])
        if n == 'print': return None
        return App('ext', n, tree(tuple(args)))

def paths(P, module, go, limit=60000):
    """go(I) for every sequence of decisions; yields (I, what it returned, or the exception)"""
    script, n = [], 0
    while True:
        I = Interp(P, module, script)
        try: r = go(I)
        except (Unsupported, Raised, Alarm, Skip) as e: r = e
        yield I, r
        n += 1
        if n > limit: raise Unsupported('too many paths')
        m = I.made
        while m and m[-1][0] + 1 >= m[-1][1]: m.pop()
        if not m: return
        script = [k for k, _ in m[:-1]] + [m[-1][0] + 1]

# -------------------------------------------------------------- equality of keys
def rename(t, suffix, memo):
    if isinstance(t, tuple): return tuple(rename(x, suffix, memo) for x in t)
    if isinstance(t, Sym): return memo.setdefault(t, Sym(t.name + suffix, t.kind))
    if isinstance(t, App): return App(t.op, *[rename(x, suffix, memo) for x in t.args])
    return t

def unify(pairs, fast=()):
    """substitution making all pairs equal, or None; 'lossy' terms give no information"""
    sub = {}
    def walk(x):
        while isinstance(x, (Sym, App)) and x in sub: x = sub[x]
        return x
    stack = list(pairs)
    while stack:
        a, b = stack.pop()
        a, b = walk(a), walk(b)
        if a is b or (not isinstance(a, tuple) and not isinstance(b, tuple) and type(a) == type(b) and a == b): continue
        va, vb = isinstance(a, (Sym, App)), isinstance(b, (Sym, App))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.what == b.what: continue
        if isinstance(a, App) and a.op in LOSSY or isinstance(b, App) and b.op in LOSSY: continue
        if va or vb:
            x, y = (a, b) if va else (b, a)
            if isinstance(y, Obj) and isinstance(x, (Sym, App)): return None         # nobody else has this object
            if isinstance(y, tuple) and y and y[0] == 'seq': return None             # nor instances of the private class
            if isinstance(y, tuple) and x in fast: return None
            if isinstance(x, App) and x.op in ('flat', 'bytes') and isinstance(y, (str, int)): return None
            sub[x] = y
            continue
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return None
            stack += list(zip(a, b))
            continue
        return None
    return walk
LOSSY = {'hash', 'id', 'type', 'typeof', 'len', 'size', 'str', 'repr', 'int', 'float', 'method', 'round', 'abs', 'sum', 'min', 'max', 'bool', 'item', 'ext'}
