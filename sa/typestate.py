"""Typestate of resources (native memory, file handles) along every way through a function.

Path-sensitive walk over statements; repository functions that take part are followed at their call sites. A state
holds what the local names stand for (a resource, something read lazily from it, None, a constant, a tuple), the
state of every resource and the outcomes of tests whose operands have not changed since."""
import ast
from . import names as N

OPEN = {'builtins.open', 'io.open', 'h5py.File', 'gzip.open', 'bz2.open', 'codecs.open', 'tables.open_file'}
MEM = {'PyDataMem_NEW', 'PyDataMem_NEW_ZEROED', 'PyMem_Malloc', 'PyMem_RawMalloc', 'PyMem_Calloc', 'PyArray_malloc', 'malloc', 'calloc', 'realloc', 'PyDataMem_RENEW'}
FREE = {'PyDataMem_FREE', 'PyMem_Free', 'PyMem_RawFree', 'PyArray_free', 'free'}
EXIT = {'sys.exit', 'os._exit', 'builtins.exit', 'builtins.quit', 'os.abort'}
LIMIT = 4000

class TooMany(Exception): pass

class State:
    __slots__ = ('env', 'res', 'facts')
    def __init__(s, env=None, res=None, facts=None):
        s.env, s.res, s.facts = env or {}, res or {}, facts or {}
    def copy(s): return State(dict(s.env), dict(s.res), dict(s.facts))
    def key(s):
        return (tuple(sorted(s.env.items(), key=repr)), tuple(sorted(s.res.items(), key=repr)), tuple(sorted(s.facts.items(), key=repr)))

def holds(v):
    return v is not None and (v[0] in ('res', 'der') or (v[0] == 'tuple' and any(holds(x) for x in v[1])))

def ids(v):
    if v is None: return set()
    if v[0] in ('res', 'der'): return {v[1]}
    return set().union(*[ids(x) for x in v[1]]) if v[0] == 'tuple' and v[1] else set()

def prop(s):
    """what has to be told apart: the resources, and which names stand for them"""
    return (tuple(sorted(s.res.items(), key=repr)), tuple(sorted(((k, v) for k, v in s.env.items() if holds(v)), key=repr)))

def join(a, b):
    """what is known in both"""
    if a is b: return a
    return State({k: v for k, v in a.env.items() if b.env.get(k) == v}, dict(a.res), {k: v for k, v in a.facts.items() if b.facts.get(k) == v})

def merge(sts):
    out = {}
    for s in sts:
        if any(v == 'closed' for v in s.res.values()):
            live = {k for v in s.env.values() for k in ids(v)}
            gone = [k for k, v in s.res.items() if v == 'closed' and k not in live]
            if gone:
                s = s.copy()
                for k in gone: del s.res[k]
        k = prop(s)
        out[k] = join(out[k], s) if k in out else s
    if len(out) > LIMIT: raise TooMany
    return list(out.values())

NONE = ('none',)

def returns(rs):
    d = {}
    for s, v in rs: d.setdefault(v, []).append(s)
    return [(s, v) for v, ss in d.items() for s in merge(ss)]

class Walk:
    def __init__(self, P):
        self.P = P
        self.sites = {}          # id -> (kind, module, function, node)
        self.report = {}         # (id, what) -> where
        self.seen = set()
        self.escaped = set()
        self.stack = []
        self.tries = []
        self.tcache = {}
        self.transfer = set()
        self.find()

    # ---------------------------------------------------------------- which functions take part
    def kind(self, m, fe, loc=()):
        if isinstance(fe, ast.Name) and fe.id not in loc:
            g = self.P.resolve_name(m, fe.id)
            if g and g[0] in ('ext', 'extern'):
                b = str(g[1]).split('.')[-1]
                if b in MEM: return 'memory'
                if b in FREE: return 'free'
            elif g is None and fe.id in MEM | FREE: return 'memory' if fe.id in MEM else 'free'
        elif isinstance(fe, ast.Attribute) and fe.attr in MEM | FREE:
            return 'memory' if fe.attr in MEM else 'free'
        d = N.dotted(self.P, m, fe, loc)
        if d in OPEN: return 'file'
        if d in EXIT: return 'exit'
        return None
    def find(self):
        P = self.P
        self.fn = {}
        self.direct, calls = set(), {}
        for m, cl, f in N.functions(P):
            self.fn[f] = m
            loc = N.assigned(f)
            calls[f] = []
            for x in N.own(f):
                if isinstance(x, ast.Call):
                    if self.kind(m, x.func, loc) in ('memory', 'file'): self.direct.add(f)
                    t = self.target(m, f, x.func)
                    if t is not None: calls[f].append(t)
        self.calls = calls
    def run(self):
        """functions that acquire, then those that call one which hands its resource over, and so on"""
        todo, done, failed = sorted(self.direct, key=lambda f: (self.fn[f].name, f.lineno)), set(), {}
        while todo:
            f = todo.pop(0)
            if f in done: continue
            done.add(f)
            self.raised = []
            try: gives = self.root(f)
            except TooMany: failed[f] = 'too many ways through the function'; continue
            except RecursionError: failed[f] = 'recursion'; continue
            if gives and f not in self.transfer:
                self.transfer.add(f)
                todo += [g for g, ts in self.calls.items() if f in ts]
                done -= {g for g, ts in self.calls.items() if f in ts}
        return done, failed
    def target(self, m, f, fe):
        if fe not in self.tcache: self.tcache[fe] = self.target0(m, f, fe)
        return self.tcache[fe]
    def target0(self, m, f, fe):
        P = self.P
        if isinstance(fe, ast.Name):
            for x in N.own(f):
                if isinstance(x, ast.FunctionDef) and x.name == fe.id: return x
            g = P.resolve_name(m, fe.id)
            if g and g[0] == 'func': return g[1]
            if g and g[0] == 'class': return P.method(g[1], '__init__')[0]
        elif isinstance(fe, ast.Attribute):
            if isinstance(fe.value, ast.Name):
                g = P.resolve_name(m, fe.value.id)
                if g and g[0] == 'class': return P.method(g[1], fe.attr)[0]
                if g and g[0] == 'mod' and g[1] in P.modules:
                    g = P.resolve_name(P.modules[g[1]], fe.attr)
                    if g and g[0] == 'func': return g[1]
                    if g and g[0] == 'class': return P.method(g[1], '__init__')[0]
                o = getattr(f, 'owner', None)
                if o is not None and fe.value.id == 'self': return P.method(o, fe.attr)[0]
        return None

    # ---------------------------------------------------------------- roots
    def root(self, f):
        self.stack = [f]
        self.frame = (f.name,)
        self.tries = []
        out = self.block(f.body, [State()])
        gives = False
        for st, val in out['return'] + [(s, NONE) for s in out['next']]:
            own = ids(val)
            if any(st.res.get(k) == 'open' for k in own): gives = True
            if f.name == '__init__' and any(st.res.get(k) == 'open' for n, x in st.env.items() if n[1].startswith('self.') for k in ids(x)): gives = True
            for k, v in st.res.items():
                if v == 'open' and k not in own:
                    if any(k in self.inside(x) for n, x in st.env.items() if n[1].startswith('self.')): self.escaped.add(k)
                    else: self.bad(k, 'is not %s on a way out of %s' % (('freed' if self.sites[k][0] == 'memory' else 'closed'), f.name))
        for st in out['raise']:
            for k, v in st.res.items():
                if v == 'open' and self.sites[k][0] == 'memory': self.bad(k, 'is not freed where %s raises' % f.name)
        return gives
    def inside(self, v):
        if not isinstance(v, tuple): return set()
        if v[0] == 'res': return {v[1]}
        if v[0] == 'tuple': return set().union(*[self.inside(x) for x in v[1]]) if v[1] else set()
        return set()
    def bad(self, k, what): self.report.setdefault((k, what), self.sites[k])

    # ---------------------------------------------------------------- statements
    def block(self, stmts, sts):
        out = {'next': list(sts), 'break': [], 'continue': [], 'return': [], 'raise': []}
        for s in stmts:
            if not out['next']: break
            cur = merge(out['next'])
            for t in self.tries: t.extend(cur)
            r = self.stmt(s, cur)
            out['next'] = r.get('next', [])
            for k in ('break', 'continue', 'return', 'raise'): out[k] += r.get(k, [])
        for t in self.tries: t.extend(out['next'])
        for k in ('next', 'break', 'continue', 'raise'):
            if len(out[k]) > 1: out[k] = merge(out[k])
        if len(out['return']) > 1: out['return'] = returns(out['return'])
        for t in self.tries: t[:] = merge(t)
        return out
    def stmt(self, s, sts):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m: return m(s, sts)
        out = []
        rs = []
        for st in sts:
            for x, v in self.multi([c for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr)], st): out.append(x)
        return self.wrap(out)
    def wrap(self, sts):
        r = {'next': [s for s in sts if s is not None]}
        if self.raised:
            r['raise'] = self.raised; self.raised = []
        return r
    raised = []
    def s_Expr(self, s, sts):
        out = []
        for st in sts:
            for x, v in self.ev(s.value, st, plain=False): out.append(x)
        return self.wrap(out)
    def s_Assign(self, s, sts):
        out = []
        for st in sts:
            for x, v in self.ev(s.value, st, plain=True):
                for t in s.targets: x = self.bind(t, v, x)
                out.append(x)
        return self.wrap(out)
    def s_AnnAssign(self, s, sts):
        if s.value is None: return {'next': sts}
        return self.s_Assign(ast.Assign([s.target], s.value), sts)
    def s_AugAssign(self, s, sts):
        out = []
        for st in sts:
            for x, v in self.multi([s.value] + ([s.target] if not isinstance(s.target, ast.Name) else []), st):
                out.append(self.bind(s.target, None, x))
        return self.wrap(out)
    def s_Delete(self, s, sts):
        out = []
        for st in sts:
            st = st.copy()
            for t in s.targets:
                if isinstance(t, ast.Name): st.env.pop((self.frame, t.id), None)
            out.append(st)
        return {'next': out}
    def s_FunctionDef(self, s, sts): return {'next': sts}
    s_ClassDef = s_Import = s_ImportFrom = s_Pass = s_Global = s_Nonlocal = s_FunctionDef
    def s_Break(self, s, sts): return {'break': sts}
    def s_Continue(self, s, sts): return {'continue': sts}
    def s_Return(self, s, sts):
        out = []
        for st in sts:
            if s.value is None: out.append((st, NONE))
            else:
                for x, v in self.ev(s.value, st, plain=True): out.append((x, v))
        r = self.wrap([])
        r['return'] = out
        return r
    def s_Raise(self, s, sts):
        out = []
        for st in sts:
            for x, v in self.multi([e for e in (s.exc, s.cause) if e is not None], st): out.append(x)
        r = self.wrap([])
        r['raise'] = r.get('raise', []) + out
        return r
    def s_Assert(self, s, sts):
        out, rs = [], []
        for st in sts:
            for x, b in self.test(s.test, st):
                if b is not False: out.append(x)
                if b is not True: rs.append(x)
        r = self.wrap(out)
        r['raise'] = r.get('raise', []) + rs
        return r
    def s_If(self, s, sts):
        yes, no = [], []
        for st in sts:
            for x, b in self.test(s.test, st):
                (yes if b else no).append(x)
        pre = self.wrap([])
        a, b = self.block(s.body, yes) if yes else {}, self.block(s.orelse, no) if no else {}
        out = {k: a.get(k, []) + b.get(k, []) for k in ('next', 'break', 'continue', 'return', 'raise')}
        out['raise'] += pre.get('raise', [])
        return out
    def loop(self, s, entry, step):
        """step(states) -> (states entering the body, states leaving)"""
        out = {'next': [], 'return': [], 'raise': [], 'break': [], 'continue': []}
        known, todo, leave = {}, entry, []
        for _ in range(60):
            new = {}
            for x in todo:
                k = prop(x)
                if k in known:
                    j = join(known[k], x)
                    if j.key() == known[k].key(): continue
                    known[k] = j
                else: known[k] = x
                new[k] = known[k]
            if not new: break
            if len(known) > LIMIT: raise TooMany
            go, lv = step(list(new.values()))
            leave += lv
            r = self.block(s.body, go)
            out['return'] += r['return']; out['raise'] += r['raise']; out['next'] += r['break']
            todo = r['next'] + r['continue']
        else: raise TooMany
        if s.orelse:
            r = self.block(s.orelse, merge(leave))
            for k in out: out[k] += r[k]
        else: out['next'] += leave
        out['next'] = merge(out['next'])
        return out
    def s_While(self, s, sts):
        def step(ts):
            go, lv = [], []
            for st in ts:
                for x, b in self.test(s.test, self.forget(s, st)): (go if b else lv).append(x)
            return go, lv
        return self.loop(s, sts, step)
    def forget(self, s, st):
        """facts about names the loop assigns do not survive an iteration"""
        ns = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        st = st.copy()
        st.facts = {k: v for k, v in st.facts.items() if k[0] != self.frame or not (k[2] & ns)}
        for n in ns:
            v = st.env.get((self.frame, n))
            if v is not None and v[0] == 'c': st.env.pop((self.frame, n))
        return st
    def s_For(self, s, sts):
        entry, fixed = [], []
        for st in sts:
            for x, v in self.ev(s.iter, st, plain=True):
                if v is not None and v[0] == 'tuple': fixed.append((x, v[1]))
                else: entry.append(x)
        pre = self.wrap([])
        out = {'next': [], 'return': [], 'raise': pre.get('raise', []), 'break': [], 'continue': []}
        for x, vs in fixed:
            cur = [x]
            for v in vs:
                r = self.block(s.body, [self.bind(s.target, v, y) for y in cur])
                for k in ('return', 'raise'): out[k] += r[k]
                out['next'] += r['break']
                cur = merge(r['next'] + r['continue'])
            if s.orelse:
                r = self.block(s.orelse, cur)
                for k in out: out[k] += r[k]
            else: out['next'] += cur
        if entry:
            def step(ts):
                return [self.bind(s.target, None, self.forget(s, st)) for st in ts], list(ts)
            r = self.loop(s, entry, step)
            for k in out: out[k] += r[k]
        return out
    s_AsyncFor = s_For
    def s_With(self, s, sts):
        cur, held = sts, None
        for it in s.items:
            nxt = []
            for st in cur:
                for x, v in self.ev(it.context_expr, st, plain=True):
                    x = x.copy()
                    x.env[(self.frame, '\0with%d.%d' % (s.lineno, s.items.index(it)))] = v
                    if it.optional_vars is not None: x = self.bind(it.optional_vars, v, x)
                    nxt.append(x)
            cur = nxt
        pre = self.wrap([])
        r = self.block(s.body, cur)
        def end(st):
            st = st.copy()
            for j in range(len(s.items)):
                v = st.env.pop((self.frame, '\0with%d.%d' % (s.lineno, j)), None)
                for k in self.inside(v): st.res[k] = 'closed'
            return st
        out = {k: [end(x) for x in r[k]] for k in ('next', 'break', 'continue')}
        out['raise'] = [end(x) for x in r['raise']] + pre.get('raise', [])
        out['return'] = [(end(x), v) for x, v in r['return']]
        return out
    def s_Try(self, s, sts):
        box = list(sts)
        if s.handlers: self.tries.append(box)
        r = self.block(s.body, sts)
        if s.handlers: self.tries.pop()
        if s.orelse and r['next']:
            q = self.block(s.orelse, r['next'])
            r['next'] = []
            for k in r: r[k] += q[k]
        if s.handlers:
            start = merge([self.cut(x) for x in box + r['raise']])
            rs = r['raise']
            r['raise'] = []
            for h in s.handlers:
                hs = [self.bind(ast.Name(h.name, ast.Store()), None, x) if h.name else x for x in start]
                q = self.block(h.body, hs)
                for k in r: r[k] += q[k]
            if not any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('BaseException', 'Exception')) for h in s.handlers): r['raise'] += rs
        if s.finalbody:
            out = {'next': [], 'break': [], 'continue': [], 'return': [], 'raise': []}
            for k in r:
                for x in r[k]:
                    q = self.block(s.finalbody, [x[0] if k == 'return' else x])
                    for kk in ('break', 'continue', 'return', 'raise'): out[kk] += q[kk]
                    out[k] += [(y, x[1]) for y in q['next']] if k == 'return' else q['next']
            r = out
        return r
    s_TryStar = s_Try
    def cut(self, st):
        """a state from inside a call, seen from the frame that catches"""
        n = len(self.frame)
        if all(len(k[0]) <= n for k in st.env): return st
        st = st.copy()
        st.env = {k: v for k, v in st.env.items() if len(k[0]) <= n}
        return st

    # ---------------------------------------------------------------- names
    def path(self, t):
        if isinstance(t, ast.Name): return t.id
        if isinstance(t, ast.Attribute):
            b = self.path(t.value)
            return b and b + '.' + t.attr
        return None
    def bind(self, t, v, st):
        st = st.copy()
        if isinstance(t, ast.Starred): t = t.value; v = None
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v is not None and v[0] == 'tuple' and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, vs): st = self.bind(x, y, st)
            return st
        p = self.path(t)
        if p is None:
            for k in self.inside(v): self.escaped.add(k)
            return st
        for k in [k for k in st.facts if k[0] == self.frame and (p in k[2] or any(q.startswith(p + '.') for q in k[2]))]: del st.facts[k]
        if v is None: st.env.pop((self.frame, p), None)
        else: st.env[(self.frame, p)] = v
        return st

    # ---------------------------------------------------------------- tests
    def test(self, e, st):
        """[(state, truth)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.test(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            cur = [(st, isinstance(e.op, ast.And))]
            for v in e.values:
                nxt = []
                for x, b in cur:
                    if b == isinstance(e.op, ast.And): nxt += self.test(v, x)
                    else: nxt.append((x, b))
                cur = nxt
            return cur
        out = []
        for x, v in (self.ev(e, st, plain=True) if not isinstance(e, ast.Compare) else self.multi([e.left] + e.comparators, st, plain=True)):
            vs = v
            b = None
            if isinstance(e, ast.Compare) and len(e.ops) == 1:
                l, r = vs
                op = e.ops[0]
                if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    neg = isinstance(op, (ast.IsNot, ast.NotEq))
                    for p, q, pe in ((l, r, e.left), (r, l, e.comparators[0])):
                        if q == NONE and p is not None:
                            if p == NONE: b = not neg
                            elif p[0] == 'res' and self.sites[p[1]][0] == 'memory' and x.res.get(p[1]) == 'open':
                                # the allocation may have failed
                                y = x.copy()
                                y.res.pop(p[1])
                                out += [(self.bind(pe, NONE, y) if self.path(pe) else y, not neg), (x, neg)]
                                b = 'done'
                            elif p[0] in ('res', 'tuple', 'c'): b = neg
                            break
                    else:
                        if l is not None and r is not None and l[0] == r[0] == 'c': b = (l[1] == r[1]) != neg
                if b == 'done': continue
            elif not isinstance(e, ast.Compare):
                if v == NONE: b = False
                elif v is not None and v[0] == 'res':
                    if self.sites[v[1]][0] == 'memory' and x.res.get(v[1]) == 'open':
                        y = x.copy(); y.res.pop(v[1])
                        out += [(self.bind(e, NONE, y) if self.path(e) else y, False), (x, True)]
                        continue
                    b = True
                elif v is not None and v[0] == 'c': b = bool(v[1])
            if b is not None:
                out.append((x, b)); continue
            if any(isinstance(n, (ast.Call, ast.NamedExpr)) and not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'isinstance')) for n in ast.walk(e)):
                out += [(x, True), (x, False)]
                continue
            k, neg = self.norm(e)
            if k in x.facts: out.append((x, x.facts[k] != neg))
            else:
                for t in (True, False):
                    y = x.copy(); y.facts[k] = t != neg
                    out.append((y, t))
        return out
    def norm(self, e):
        neg = False
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = ast.unparse(e.left), ast.unparse(e.comparators[0]), e.ops[0]
            if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)):
                neg, op = True, {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(op)]()
            elif isinstance(op, ast.Gt): l, r, op = r, l, ast.Lt()
            elif isinstance(op, ast.GtE): neg, op = True, ast.Lt()
            elif isinstance(op, ast.LtE): neg, l, r, op = True, r, l, ast.Lt()
            if isinstance(op, ast.Eq) and l > r: l, r = r, l
            text = '%s %s %s' % (l, type(op).__name__, r)
        else: text = ast.unparse(e)
        ns = frozenset(p for n in ast.walk(e) for p in [self.path(n)] if p)
        return (self.frame, text, ns), neg

    # ---------------------------------------------------------------- expressions
    def multi(self, es, st, plain=False):
        """evaluate in order: [(state, [values])]"""
        cur = [(st, [])]
        for e in es:
            cur = [(y, vs + [v]) for x, vs in cur for y, v in self.ev(e, x, plain=plain)]
            if len(cur) > 1: cur = [(x, list(v)) for x, v in returns([(x, tuple(v)) for x, v in cur])]
        return cur
    def use(self, v, st, e):
        if v is not None and v[0] in ('res', 'der') and st.res.get(v[1]) == 'closed':
            self.bad(v[1], 'is used in %s after it was %s' % (self.stack[-1].name, 'freed' if self.sites[v[1]][0] == 'memory' else 'closed'))
    def ev(self, e, st, plain=False):
        """plain: the value itself is only passed on"""
        if isinstance(e, ast.Constant):
            return [(st, NONE if e.value is None else ('c', e.value) if isinstance(e.value, (str, int, bool)) else None)]
        if isinstance(e, ast.Name):
            if e.id == 'NULL': return [(st, NONE)]
            v = st.env.get((self.frame, e.id))
            if not plain: self.use(v, st, e)
            return [(st, v)]
        if isinstance(e, (ast.Tuple, ast.List)):
            return [(x, ('tuple', tuple(vs))) if len(vs) <= 24 else (x, None) for x, vs in self.multi(e.elts, st, plain=plain)] if not any(isinstance(x, ast.Starred) for x in e.elts) else [(x, None) for x, vs in self.multi([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st)]
        if isinstance(e, ast.IfExp):
            return [r for x, b in self.test(e.test, st) for r in self.ev(e.body if b else e.orelse, x, plain)]
        if isinstance(e, (ast.BoolOp,)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
            return [(x, None) for x in merge([x for x, b in self.test(e, st)])]
        if isinstance(e, ast.Attribute):
            p = self.path(e)
            if p and (self.frame, p) in st.env:
                v = st.env[(self.frame, p)]
                if not plain: self.use(v, st, e)
                return [(st, v)]
            out = []
            for x, v in self.ev(e.value, st, plain=True):
                if v is not None and v[0] == 'res' and e.attr in ('closed', 'name', 'mode'): out.append((x, None)); continue
                self.use(v, x, e)
                if v is not None and v[0] in ('res', 'der') and e.attr in ('attrs', 'parent', 'file'):
                    out.append((x, ('der', v[1], e.attr)))
                else: out.append((x, None))
            return out
        if isinstance(e, ast.Subscript):
            out = []
            for x, (v, i) in self.multi([e.value, e.slice], st, plain=True):
                self.use(v, x, e)
                if v is not None and v[0] == 'tuple' and i is not None and i[0] == 'c' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]): out.append((x, v[1][i[1]])); continue
                if v is not None and v[0] in ('res', 'der') and self.sites[v[1]][0] == 'file' and not (v[0] == 'der' and v[2] == 'attrs'):
                    sl = e.slice
                    whole = isinstance(sl, ast.Slice) or (isinstance(sl, ast.Constant) and sl.value is Ellipsis) or (isinstance(sl, ast.Tuple))
                    out.append((x, None if whole and v[0] == 'der' else ('der', v[1], 'item')))
                else: out.append((x, None))
            return out
        if isinstance(e, ast.NamedExpr):
            return [(self.bind(e.target, v, x), v) for x, v in self.ev(e.value, st, plain=True)]
        if isinstance(e, ast.Call): return self.call(e, st)
        if isinstance(e, (ast.Lambda,)): return [(st, None)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = [st]
            for g in e.generators:
                cur = [x for s in cur for x, v in self.ev(g.iter, s)]
            for s in list(cur):
                for g in e.generators: s = self.bind(g.target, None, s)
                before = set(s.res)
                for x, vs in self.multi([y for g in e.generators for y in g.ifs] + ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]), s, plain=True):
                    for v in vs:
                        for k in self.inside(v): self.escaped.add(k)
            return [(x, None) for x in cur]
        if isinstance(e, ast.Await) or isinstance(e, ast.Starred): return self.ev(e.value, st, plain)
        if isinstance(e, ast.Yield):
            return [(x, None) for x, v in (self.ev(e.value, st, plain=True) if e.value is not None else [(st, None)])]
        return [(x, None) for x, vs in self.multi([c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)], st)]
    def acquire(self, kind, e, st):
        k = (self.stack[-1].name, e.lineno, e.col_offset) + tuple(f.name for f in self.stack[:-1])
        f = self.stack[-1]
        self.sites[k] = (kind, self.fn[f], f, e)
        self.seen.add(e)
        st = st.copy()
        if st.res.get(k) == 'open': self.bad(k, 'is %s again in %s while the one before it is not %s' % (('allocated', f.name, 'freed') if kind == 'memory' else ('opened', f.name, 'closed')))
        # names of an earlier one from the same place go stale
        for n, v in list(st.env.items()):
            if v is not None and v[0] == 'der' and v[1] == k: del st.env[n]
        st.res[k] = 'open'
        return st, ('res', k)
    def release(self, v, st, e):
        if v is None or v == NONE: return st
        if v[0] == 'tuple':
            return st
        if v[0] == 'res':
            if st.res.get(v[1]) == 'closed' and self.sites[v[1]][0] == 'memory':
                self.bad(v[1], 'is freed twice in %s' % self.stack[-1].name)
            st = st.copy()
            st.res[v[1]] = 'closed'
        return st
    def call(self, e, st):
        f = self.stack[-1]
        m = self.fn[f]
        loc = {k[1] for k in st.env if k[0] == self.frame}
        fe = e.func
        if isinstance(fe, ast.Name) and fe.id == '__cast__':
            return [(x, v) for x, v in self.ev(e.args[1], st, plain=True)]
        k = self.kind(m, fe, loc)
        args = list(e.args) + [x.value for x in e.keywords]
        if k in ('file', 'memory'):
            out = []
            for x, vs in self.multi(args, st):
                y, r = self.acquire(k, e, x)
                out.append((y, r))
            return out
        if k == 'free':
            return [(self.release(vs[0] if vs else None, x, e), NONE) for x, vs in self.multi(args, st, plain=True)]
        if k == 'exit':
            for x, vs in self.multi(args, st): self.raised = self.raised + [x]
            return []
        if isinstance(fe, ast.Attribute) and fe.attr in ('close', '__exit__', 'detach') :
            out = []
            for x, v in self.ev(fe.value, st, plain=True):
                for y, vs in self.multi(args, x): out.append((self.release(v, y, e), NONE))
            return out
        if isinstance(fe, ast.Attribute) and fe.attr == 'enter_context':
            out = []
            for x, vs in self.multi(args, st, plain=True):
                x = x.copy()
                for v in vs:
                    for r in self.inside(v): x.res[r] = 'managed'
                out.append((x, vs[0] if vs else None))
            return out
        if isinstance(fe, ast.Attribute) and fe.attr in ('append', 'add', 'register', 'push', 'callback', 'put'):
            for x, vs in self.multi(args, st, plain=True):
                for v in vs:
                    for r in self.inside(v): self.escaped.add(r)
        t = self.target(m, f, fe)
        if t is not None and t in self.fn and t not in self.stack and len(self.stack) < 6:
            if t in self.transfer or any(n[1].startswith('self.') and ids(v) for n, v in st.env.items() if n[0] == self.frame): return self.inline(t, e, fe, st)
            r = self.multi(args, st, plain=True)
            if any(ids(v) for x, vs in r for v in vs): return self.inline(t, e, fe, st)
            return [(x, None) for x, vs in r]
        if isinstance(fe, ast.Name) and fe.id == '__addr__' and isinstance(e.args[0], ast.Name):
            v = st.env.get((self.frame, e.args[0].id))
            return [(st, v) if holds(v) else (self.bind(e.args[0], None, st), None)]
        # contextlib.closing and other callables: what they are given is used
        out = []
        pre = [fe] if isinstance(fe, ast.Attribute) else []
        for x, vs in self.multi(pre, st):
            d = N.dotted(self.P, m, fe, loc)
            pl = d in ('contextlib.closing',)
            for y, ws in self.multi(args, x, plain=pl):
                out.append((y, ws[0] if pl and ws else None))
        return out
    def inline(self, t, e, fe, st):
        out = []
        ps = [a.arg for a in t.args.args]
        static = getattr(t, 'owner', None) is not None and t.name in t.owner.static
        ctor = t.name == '__init__'
        if getattr(t, 'owner', None) is not None and not static and ps: ps = ps[1:]
        for x, vs in self.multi(list(e.args) + [k.value for k in e.keywords], st, plain=True):
            fr = self.frame + ('%s@%d.%d' % (t.name, e.lineno, e.col_offset),)
            y = x.copy()
            vals = {}
            for p, v in zip(ps, vs[:len(e.args)]): vals[p] = v
            for kw, v in zip(e.keywords, vs[len(e.args):]): vals[kw.arg] = v
            defs = dict(zip([a.arg for a in t.args.args][::-1], t.args.defaults[::-1]))
            for p in ps:
                if p not in vals and p in defs and isinstance(defs[p], ast.Constant):
                    d = defs[p].value
                    vals[p] = NONE if d is None else ('c', d) if isinstance(d, (str, int, bool)) else None
            for p, v in vals.items():
                if v is not None: y.env[(fr, p)] = v
            old, self.frame = self.frame, fr
            self.stack.append(t)
            raised, self.raised = self.raised, []
            r = self.block(t.body, [y])
            self.stack.pop()
            self.frame = old
            self.raised = raised + self.raised
            def clean(s):
                s = s.copy()
                s.env = {k: v for k, v in s.env.items() if k[0][:len(fr)] != fr}
                s.facts = {k: v for k, v in s.facts.items() if k[0][:len(fr)] != fr}
                return s
            rets = [(s, v) for s, v in r['return']] + [(s, NONE) for s in r['next']]
            out += returns([(clean(s), None if ctor else v) for s, v in rets])
            self.raised = self.raised + [clean(s) for s in r['raise']]
        return out
