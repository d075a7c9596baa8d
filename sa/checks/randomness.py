"""C12: where randomness, time and process state come from and where they may go.

 * a draw from the global numpy (or Python) generator is preceded, on every path of the same function or of every
   caller, by a seeding with a value that is itself free of such sources;
 * a generator object is made from an explicit seed, in the call that draws from it (not at import time, not kept in an
   attribute, a default argument or on a function);
 * clock, process identity, environment, hash and object identity never reach a result: they flow (through variables,
   attributes, parameters and returns) into printed text only;
 * directory listings are put in order before they are used."""
import ast
from ..check import rule
from .. import names as N

SEED = {'numpy.random.seed', 'random.seed'}
MAKE = {'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator', 'random.Random', 'numpy.random.PCG64', 'numpy.random.SeedSequence'}
KW = {'sklearn.utils.resample': 'random_state', 'sklearn.utils.shuffle': 'random_state', 'scipy.optimize.differential_evolution': 'seed',
      'scipy.optimize.dual_annealing': 'seed', 'scipy.optimize.basinhopping': 'seed'}
STATE = ('time.', 'datetime.', 'os.getpid', 'os.urandom', 'os.environ', 'os.getenv', 'uuid.', 'socket.', 'secrets.', 'getpass.', 'platform.', 'builtins.hash', 'builtins.id',
         'os.getppid', 'os.times', 'threading.get_ident', 'tempfile.')
PRINT = {'builtins.print', 'time.sleep', 'sys.stdout.write', 'logging.info', 'logging.debug', 'logging.warning'}
LIST = {'glob.glob', 'glob.iglob', 'os.listdir', 'os.scandir', 'builtins.set', 'builtins.frozenset'}

def state_source(d):
    return d is not None and any(d == s or s.endswith('.') and d.startswith(s) for s in STATE) and d != 'time.sleep'

class Prog:
    def __init__(self, P):
        self.P = P
        self.cache, self.envs = {}, {}
        self.fns = list(N.functions(P))
        self.of = {f: (m, c) for m, c, f in self.fns}
        self.local = {f: N.assigned(f) for m, c, f in self.fns}
        self.nested = {}
        for m, c, f in self.fns:
            self.nested[f] = [x for x in N.own(f) if isinstance(x, ast.FunctionDef)]
        self.up = {}
        for f, ns in self.nested.items():
            for x in ns: self.up[x] = f
        self.calls = {f: [x for x in N.own(f) if isinstance(x, ast.Call)] for m, c, f in self.fns}
        self.tab = {f: self.scope(f) for m, c, f in self.fns}
        self.callers = {}
        for m, c, f in self.fns:
            for x in self.calls[f]:
                for g in self.to(f, x):
                    self.callers.setdefault(g, []).append((f, x))
    def scope(self, f):
        out = []
        while f is not None:
            out += self.nested[f]
            f = self.up.get(f)
        return out
    def to(self, f, x):
        k = ('to', f, id(x))
        if k not in self.cache:
            self.cache[k] = (x, N.callees(self.P, self.of[f][0], x, self.tab[f]))
        return self.cache[k][1]
    def ext(self, f, e):
        """dotted external name of e in the scope of f"""
        k = (f, id(e))
        if k not in self.cache:
            self.cache[k] = (e, self._ext(f, e))
        return self.cache[k][1]
    def _ext(self, f, e):
        if f not in self.envs:
            loc, imp, g = set(), {}, f
            while g is not None:
                for y in N.own(g):
                    if isinstance(y, (ast.Import, ast.ImportFrom)):
                        for a in y.names:
                            imp[(a.asname or a.name).split('.')[0]] = a.name if isinstance(y, ast.Import) else (y.module or '') + '.' + a.name
                loc |= self.local[g]
                g = self.up.get(g)
            self.envs[f] = loc, imp
        loc, imp = self.envs[f]
        b = e
        parts = []
        while isinstance(b, ast.Attribute): parts.append(b.attr); b = b.value
        if isinstance(b, ast.Name) and b.id in self.local[f] and b.id not in imp:
            vs = [y.value for y in N.own(f) if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.id for t in y.targets)]
            if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)):
                d = N.dotted(self.P, self.of[f][0], vs[0], loc - {b.id} if isinstance(vs[0], ast.Name) and vs[0].id != b.id else loc)
                if d and d.startswith(('numpy.random', 'random', 'time', 'os', 'builtins.hash', 'builtins.id')): return '.'.join([d] + parts[::-1])
        if isinstance(b, ast.Name) and b.id in imp:
            return '.'.join([imp[b.id]] + parts[::-1])
        return N.dotted(self.P, self.of[f][0], e, loc)

def prog(P):
    if not hasattr(P, '_rprog'): P._rprog = Prog(P)
    return P._rprog

def before(fn, node, par):
    """statements that run before node whenever node runs"""
    x = node
    while x is not fn:
        p = par.get(x)
        if p is None: return
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(p, fld, None)
            if isinstance(b, list) and x in b:
                for s in b[:b.index(x)]:
                    yield s
        x = p

def always(stmt):
    """nodes evaluated whenever a statement is"""
    if isinstance(stmt, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)):
        for x in ast.walk(stmt): yield x
    elif isinstance(stmt, ast.With):
        for s in stmt.body:
            yield from always(s)
    elif isinstance(stmt, ast.If):
        for x in ast.walk(stmt.test): yield x
        if stmt.orelse:
            a = [ast.dump(y.func) for s in stmt.body for y in always(s) if isinstance(y, ast.Call)]
            for s in stmt.orelse:
                for y in always(s):
                    if isinstance(y, ast.Call) and ast.dump(y.func) in a: yield y
    elif isinstance(stmt, ast.Try):
        for s in stmt.body[:1]: yield from always(s)

# ------------------------------------------------------------ state taint
class Taint:
    def __init__(self, R):
        self.R, self.names, self.attrs, self.rets, self.why = R, {f: set() for _, _, f in R.fns}, set(), set(), {}
        self.bad = []
        for _ in range(12):
            n = (sum(len(x) for x in self.names.values()), len(self.attrs), len(self.rets))
            self.bad = []
            for m, c, f in R.fns: self.visit(m, f)
            if n == (sum(len(x) for x in self.names.values()), len(self.attrs), len(self.rets)): break

    def src(self, f, e):
        """why expression e depends on process state, or None"""
        R = self.R
        if isinstance(e, (ast.FunctionDef, ast.Lambda)): return None
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in self.names[g]: return e.id
                if e.id in R.local[g]: return None
                g = R.up.get(g)
            return None
        if isinstance(e, ast.Attribute):
            d = R.ext(f, e)
            if state_source(d): return d
            if e.attr in self.attrs: return e.attr
            return self.src(f, e.value)
        if isinstance(e, ast.Call):
            d = R.ext(f, e.func)
            if state_source(d):
                if d == 'builtins.hash' and f.name in ('__init__', '__hash__', '__new__') and self.hashes(f): return None
                return d
            to = R.to(f, e)
            for g in to:
                if g in self.rets: return '%s()' % g.name
            if to: return None
            for x in list(e.args) + [k.value for k in e.keywords] + ([e.func.value] if isinstance(e.func, ast.Attribute) else []):
                w = self.src(f, x)
                if w: return w
            return None
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.comprehension, ast.keyword)):
                w = self.src(f, x)
                if w: return w
        return None

    def hashes(self, f):
        m, c = self.R.of[f]
        g = m.globals.get(c) if c else None
        return g and g[0] == 'class' and '__hash__' in g[1].methods

    def put(self, f, t, w):
        if isinstance(t, ast.Name):
            self.names[f].add(t.id)
            if t.id not in self.R.local[f]:
                g = self.R.up.get(f)
                while g is not None and t.id not in self.R.local[g]: g = self.R.up.get(g)
                if g is None: self.bad.append((f, t, 'module variable %s depends on %s' % (t.id, w)))
                else: self.names[g].add(t.id)
        elif isinstance(t, ast.Attribute): self.attrs.add(t.attr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.put(f, x, w)
        elif isinstance(t, ast.Starred): self.put(f, t.value, w)
        else: self.bad.append((f, t, 'an element of a data structure depends on %s' % w))

    def visit(self, m, f):
        R = self.R
        for x in N.own(f):
            if isinstance(x, ast.Assign):
                w = self.src(f, x.value)
                if w:
                    for t in x.targets: self.put(f, t, w)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and x.value is not None:
                w = self.src(f, x.value)
                if w: self.put(f, x.target, w)
            elif isinstance(x, ast.NamedExpr):
                w = self.src(f, x.value)
                if w: self.put(f, x.target, w)
            elif isinstance(x, ast.For):
                w = self.src(f, x.iter)
                if w: self.put(f, x.target, w)
            elif isinstance(x, (ast.Return, ast.Yield)) and x.value is not None:
                w = self.src(f, x.value)
                if w:
                    self.rets.add(f)
                    if f not in R.callers: self.bad.append((f, x, 'the result of %s depends on %s' % (f.name, w)))
            elif isinstance(x, (ast.If, ast.While)):
                w = self.src(f, x.test)
                if w and any(not self.harmless(f, s) for s in x.body + x.orelse):
                    self.bad.append((f, x, 'a branch depends on %s' % w))
            elif isinstance(x, ast.Call):
                to = R.to(f, x)
                for g in to:
                    ps = [a.arg for a in g.args.args]
                    if ps[:1] == ['self'] and not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id[:1].isupper() and 'self' in [getattr(a, 'id', '') for a in x.args[:1]]):
                        ps = ps[1:]
                    for k, a in enumerate(x.args):
                        if k < len(ps) and not isinstance(a, ast.Starred) and self.src(f, a): self.names[g].add(ps[k])
                    for k in x.keywords:
                        if k.arg and self.src(f, k.value): self.names[g].add(k.arg)
                if not to:
                    d = R.ext(f, x.func)
                    if d in PRINT or state_source(d): continue
                    stmt = isinstance(x.func, ast.Attribute) and d is None
                    for a in list(x.args) + [k.value for k in x.keywords]:
                        w = self.src(f, a)
                        if w and (d and sink(d) or stmt and x.func.attr in ('append', 'add', 'update', 'insert', 'write', 'savefig', 'set_title', 'seed', 'setdefault', 'extend')):
                            self.bad.append((f, x, '%s is given a value that depends on %s' % (d or x.func.attr, w)))

    def harmless(self, f, s):
        if isinstance(s, ast.Pass): return True
        if isinstance(s, ast.Expr):
            return not isinstance(s.value, ast.Call) or self.R.ext(f, s.value.func) in PRINT or any(g.name == 'print_status' for g in self.R.to(f, s.value)) or isinstance(s.value, ast.Constant)
        if isinstance(s, (ast.If,)): return all(self.harmless(f, y) for y in s.body + s.orelse)
        return False

def sink(d):
    return d.startswith(('numpy.save', 'numpy.random', 'random.', 'matplotlib.', 'os.', 'shutil.', 'pickle.', 'h5py.')) or d in ('builtins.open', 'builtins.setattr')

@rule('process_state', 'C12')
def process_state(c):
    R = prog(c.P)
    T = Taint(R)
    bad = {}
    for f, x, d in T.bad:
        bad.setdefault(f, []).append((x, d))
    n = 0
    for m, cl, f in R.fns:
        key = '%s.%s' % (m.name, (cl + '.' if cl else '') + f.name)
        c.functions.add(key)
        if f in bad:
            for x, d in bad[f][:3]: c.bad(key, d, N.where(m, x))
        else: c.ok(key, where=N.where(m, f))
        n += len(R.calls[f])
    for m in c.P.modules.values():
        for s in m.toplevel:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and state_source(N.dotted(c.P, m, x.func)):
                    c.bad(m.name, 'evaluated once at import: %s' % N.dotted(c.P, m, x.func), N.where(m, x))
    c.stats['call sites'] = n

# ------------------------------------------------------------ random draws
def fixed(R, T, f, e):
    """is seed expression e the same whenever the call is repeated: (bool, why)"""
    if isinstance(e, ast.Constant):
        return (e.value is not None, 'seed None')
    if isinstance(e, ast.Name):
        a = f.args
        names = [x.arg for x in a.args]
        if e.id in names:
            k = names.index(e.id) - (len(names) - len(a.defaults))
            if k >= 0 and isinstance(a.defaults[k], ast.Constant) and a.defaults[k].value is None:
                return False, 'seed is None by default'
    w = T.src(f, e)
    if w: return False, 'seed depends on ' + w
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            d = R.ext(f, x.func)
            if d and d.startswith(('numpy.random.', 'random.')): return False, 'seed is itself drawn'
    return True, ''

def seedarg(x):
    for k in x.keywords:
        if k.arg in ('seed', 'random_state', 'a', 'x'): return k.value
    return x.args[0] if x.args else None

@rule('random_draws', 'C12')
def random_draws(c):
    P, R = c.P, prog(c.P)
    T = Taint(R)
    pars = {}
    for m, cl, f in R.fns:
        if m not in pars: pars[m] = N.parents(m.tree)
    seeds = set()       # functions that always seed the global state
    def is_seed(f, x):
        d = R.ext(f, x.func)
        if d in SEED: return fixed(R, T, f, seedarg(x))[0] if seedarg(x) is not None else False
        to = R.to(f, x)
        return bool(to) and all(g in seeds for g in to)
    for _ in range(3):
        for m, cl, f in R.fns:
            if f not in seeds and any(isinstance(x, ast.Call) and is_seed(f, x) for s in f.body for x in always(s)): seeds.add(f)
    def seeded(f, x):
        par = pars[R.of[f][0]]
        return any(isinstance(y, ast.Call) and is_seed(f, y) for s in before(f, x, par) for y in always(s))
    need = {}
    total = 0
    for m, cl, f in R.fns:
        for x in R.calls[f]:
            d = R.ext(f, x.func)
            key = '%s.%s' % (m.name, f.name)
            if d in SEED:
                total += 1
                a = seedarg(x)
                ok, why = fixed(R, T, f, a) if a is not None else (False, 'no seed given')
                (c.ok(key + ':seed', where=N.where(m, x)) if ok else c.bad(key + ':seed', why, N.where(m, x)))
            elif d in MAKE:
                total += 1
                a = seedarg(x)
                ok, why = fixed(R, T, f, a) if a is not None else (False, 'generator without a seed')
                par = pars[m]
                p = par.get(x)
                if ok and isinstance(p, (ast.Assign, ast.AnnAssign)):
                    ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                    for t in ts:
                        if isinstance(t, ast.Attribute): ok, why = False, 'the generator outlives the call in %s' % ast.unparse(t)
                        if isinstance(t, ast.Name) and t.id not in R.local[f]: ok, why = False, 'the generator outlives the call in module variable %s' % t.id
                (c.ok(key + ':generator', where=N.where(m, x)) if ok else c.bad(key + ':generator', why, N.where(m, x)))
            elif d in KW:
                total += 1
                v = [k.value for k in x.keywords if k.arg == KW[d]]
                ok, why = fixed(R, T, f, v[0]) if v else (False, 'no %s given' % KW[d])
                (c.ok(key + ':' + d, where=N.where(m, x)) if ok else c.bad(key + ':' + d, why, N.where(m, x)))
            elif d and d.startswith(('numpy.random.', 'random.', 'secrets.')) and d.count('.') <= 2:
                total += 1
                if seeded(f, x): c.ok(key + ':' + d, where=N.where(m, x))
                else: need.setdefault(f, []).append((x, d))
            elif isinstance(x.func, ast.Attribute) and x.func.attr == 'rvs':
                total += 1
                v = [k.value for k in x.keywords if k.arg == 'random_state']
                ok, why = fixed(R, T, f, v[0]) if v else (False, 'no random_state given')
                (c.ok(key + ':rvs', where=N.where(m, x)) if ok else c.bad(key + ':rvs', why, N.where(m, x)))
    work = list(need)
    done, told = set(), set()
    direct = {f: list(v) for f, v in need.items()}
    origin = {f: {f} for f in need}
    while work:
        f = work.pop()
        if f in done: continue
        done.add(f)
        m = R.of[f][0]
        key = '%s.%s' % (m.name, f.name)
        cs = [(g, y) for g, y in R.callers.get(f, ()) if g is not f]
        if not cs or not f.name.startswith('_') and f.name in P_exports(P):
            for g in origin.get(f, {f}):
                if g in told: continue
                told.add(g)
                mg = R.of[g][0]
                for x, d in direct[g][:3]:
                    c.bad('%s.%s:%s' % (mg.name, g.name, d), 'draw from the global generator that was not seeded in this call' + ('' if g is f else ' (reached unseeded from %s)' % f.name), N.where(mg, x))
            continue
        un = [(g, y) for g, y in cs if not seeded(g, y)]
        if not un: c.ok(key + ':draws', where=N.where(m, f), detail='seeded by every caller')
        for g, y in un:
            o = origin.setdefault(g, set())
            if not origin[f] <= o:
                o |= origin[f]
                done.discard(g)
                if g not in work: work.append(g)
    # generators made at import time or as default arguments
    for m in P.modules.values():
        if m.name.startswith('spec.'): continue
        outside = [x for s in m.toplevel for x in ast.walk(s)]
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                for e in list(n.args.defaults) + [k for k in n.args.kw_defaults if k is not None]: outside += list(ast.walk(e))
            elif isinstance(n, ast.ClassDef):
                for b in n.body:
                    if not isinstance(b, ast.FunctionDef): outside += list(ast.walk(b))
        for x in outside:
            if isinstance(x, ast.Call):
                d = N.dotted(P, m, x.func)
                if d in MAKE or d in SEED or d and d.startswith(('numpy.random.', 'random.')):
                    total += 1
                    c.bad(m.name + ':import time', '%s at import time or as a default: its state carries over from call to call' % d, N.where(m, x))
    c.stats['random call sites'] = total

def P_exports(P):
    if not hasattr(P, '_exports'):
        P._exports = {k for k in P.modules[P.package].globals} if P.package in P.modules else set()
    return P._exports

# ------------------------------------------------------------ order of listings
@rule('listing_order', 'C12')
def listing_order(c):
    R = prog(c.P)
    for m, cl, f in R.fns:
        par = None
        for x in R.calls[f]:
            d = R.ext(f, x.func)
            if d not in LIST: continue
            par = par or N.parents(m.tree)
            key = '%s.%s:%s' % (m.name, f.name, d.split('.')[-1])
            p = par.get(x)
            ok, why = ordered_use(f, x, p, par, R)
            (c.ok(key, where=N.where(m, x)) if ok else c.bad(key, why, N.where(m, x)))

FREE = {'builtins.len', 'builtins.sorted', 'builtins.min', 'builtins.max', 'builtins.any', 'builtins.all', 'builtins.bool', 'builtins.sum', 'numpy.sort', 'numpy.argsort', 'numpy.unique', 'builtins.set', 'builtins.frozenset'}

def ordered_use(f, x, p, par, R):
    """is a listing sorted before its order can matter"""
    e = x
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call) and e is not p.func and R.ext(f, p.func) in FREE: return True, ''
        if isinstance(p, ast.Compare): return True, ''
        if isinstance(p, ast.comprehension) and p.iter is e: return False, 'iterated in no fixed order'
        e, p = p, par.get(p)
    if isinstance(p, ast.For) and e is p.iter: return False, 'iterated in no fixed order'
    if not isinstance(p, ast.Assign) or not isinstance(p.targets[0], ast.Name):
        return False, 'used in no fixed order'
    v = p.targets[0].id
    keys = set()        # index arrays that put v in order
    def scan(stmts):
        """'sorted' | 'bad' | None, in program order"""
        for s in stmts:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                t, val = s.targets[0].id, s.value
                uses = any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(val))
                if uses:
                    fs = [R.ext(f, y.func) for y in ast.walk(val) if isinstance(y, ast.Call)]
                    srt = any(q in ('builtins.sorted', 'numpy.sort') for q in fs)
                    key = any(q == 'numpy.argsort' for q in fs) or any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'argsort' for y in ast.walk(val))
                    idx = any(isinstance(y, ast.Name) and y.id in keys for y in ast.walk(val))
                    if t == v and (srt or idx or key): return 'sorted'
                    if srt or idx: return 'sorted' if not later(stmts, s) else None
                    if key: keys.add(t); continue
                    if fs and all(q in FREE for q in fs if q): continue
                    if t == v: continue
                    return ('bad', s)
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'sort' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == v:
                return 'sorted'
            for y in ast.walk(s):
                if isinstance(y, ast.Name) and y.id == v and isinstance(y.ctx, ast.Load):
                    q = par.get(y)
                    if isinstance(q, ast.Call) and R.ext(f, q.func) in FREE or isinstance(q, (ast.Compare, ast.If, ast.UnaryOp, ast.BoolOp)): continue
                    return ('bad', s)
        return None
    def later(stmts, s):
        return any(isinstance(y, ast.Name) and y.id == v for z in stmts[stmts.index(s) + 1:] for y in ast.walk(z))
    blk = par.get(p)
    for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(blk, fld, None)
        if isinstance(b, list) and p in b:
            r = scan(b[b.index(p) + 1:])
            if isinstance(r, tuple): return False, 'used at line %d before it is put in order' % r[1].lineno
            return True, ''
    return True, ''
