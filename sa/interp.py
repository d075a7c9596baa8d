"""Abstract interpreter over the program: gated value graphs.

Branches are merged with if-then-else terms, counted loops are solved into sums, maps,
compactions or canonical loop terms, calls into the repository are inlined (unless kept
opaque), everything else becomes an uninterpreted term plus a recorded event.  Nothing of
the analysed program is executed."""
import ast
from fractions import Fraction
from . import terms as S
from . import arrays as A
from .terms import T, mk, num, ZERO, ONE, TRUE, FALSE, NONE, NAN, add, sub, mul, div, neg, power, ite, compare, conj, disj, \
    neg_c, truth, implies, call, string, sym, subst, fresh, occurs, subterms
from .arrays import sel, rank, shape, vec

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- values
class View:
    """reference into a heap array; dims over the base axes: ('fix', i) or ('ax', lo, n)"""
    __slots__ = ('arr', 'dims', 'mv')
    def __init__(self, arr, dims=None, mv=False):
        self.arr, self.dims, self.mv = arr, dims, mv

class Arr:
    n = 0
    def __init__(self, name, rank_, shp=None, dtype=None, kind='alloc', node=None, stack=()):
        Arr.n += 1
        self.par = 0
        self.id, self.name, self.rank, self.shape, self.dtype, self.kind, self.node, self.stack = Arr.n, name, rank_, shp, dtype, kind, node, stack

class PyTuple:
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)

class ListRef:
    n = 0
    def __init__(self, name='list', kind='alloc'):
        ListRef.n += 1
        self.id, self.name, self.kind = ListRef.n, name, kind

class DictRef:
    n = 0
    def __init__(self, name='dict', kind='alloc'):
        DictRef.n += 1
        self.id, self.name, self.kind = DictRef.n, name, kind

class Fn:
    def __init__(self, node, module, owner=None, self_=None, closure=None):
        self.node, self.module, self.owner, self.self_, self.closure = node, module, owner, self_, closure

class Ext:
    def __init__(self, name): self.name = name

class Bound:
    """method of a value that is not a repository object"""
    def __init__(self, val, name): self.val, self.name = val, name

class Partial:
    """functools.partial of a repository function"""
    def __init__(self, fn, args, kw): self.fn, self.args, self.kw = fn, args, kw

class Mod:
    def __init__(self, name): self.name = name

class Cls:
    def __init__(self, ci): self.ci = ci

class ObjRef:
    n = 0
    def __init__(self, ci):
        ObjRef.n += 1
        self.id, self.ci = ObjRef.n, ci

class SuperRef:
    def __init__(self, obj, owner): self.obj, self.owner = obj, owner

class Range:
    def __init__(self, lo, hi, step=ONE): self.lo, self.hi, self.step = lo, hi, step

class Ptr:
    """&x of a scalar variable or of an array element"""
    def __init__(self, frame_env, name=None, view=None, idx=None):
        self.env, self.name, self.view, self.idx = frame_env, name, view, idx

class _Undef:
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'pc', 'node', 'stack', 'loops', 'extra', 'seq', 'module', 'par', 'info')
    def __repr__(self):
        return '%s %s(%s)' % (self.kind, self.name, ', '.join(str(a)[:60] for a in self.args))

class State:
    __slots__ = ('env', 'mem', 'pc', 'dead')
    def __init__(self, env=None, mem=None, pc=(), dead=False):
        self.env = {} if env is None else env
        self.mem = {} if mem is None else mem
        self.pc = tuple(pc)
        self.dead = dead
    def copy(self):
        return State(dict(self.env), dict(self.mem), self.pc, self.dead)
    def set(self, o):
        # env dictionary identity is kept: closures and pointers refer to it
        self.env.clear(); self.env.update(o.env)
        self.mem, self.pc, self.dead = dict(o.mem), o.pc, o.dead
    def assume(self, c):
        if c is TRUE:
            return
        for x in (c.args[0] if c.op == 'and' else (c,)):
            if x not in self.pc:
                self.pc = self.pc + (x,)

class Frame:
    def __init__(self, fn, module, name):
        self.fn, self.module, self.name = fn, module, name
        self.returns = []
        self.ctl = []          # per loop: {'cont': [...], 'brk': [...]}
        self.globals = set()
        self.nonlocals = set()
        self.types = {}
        self.base_pc = 0

def element(t, j, n, mu=None):
    """element j of a list of n elements"""
    if t.op == 'ite':
        a, b = element(t.args[1], j, n, mu), element(t.args[2], j, n, mu)
        return None if a is None or b is None else ite(t.args[0], a, b)
    return sel(t, (j,)) if t is mu or t.op in ('alam', 'sym') and shape(t, 0) is n else None

class LoopExit:
    def __init__(self, kind, state, value=None):
        self.kind, self.state, self.value = kind, state, value

MAXDEPTH = 14
BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//', ast.Mod: '%',
         ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMPOP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'isnot',
         ast.In: 'in', ast.NotIn: 'notin'}

def call_name(c):
    """last part of the name of a called function"""
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None

def passed(t, m):
    """t without the branches that hand m on unchanged"""
    while t.op == 'ite' and (t.args[1] is m or t.args[2] is m):
        if occurs(t.args[0], m):
            return t
        t = t.args[2] if t.args[1] is m else t.args[1]
    return ZERO if t is m else t

def expr_src(n):
    try:
        return ast.unparse(n)
    except Exception:
        return type(n).__name__

LISTS = {'.query_ball_point', '.tolist'}

def is_list(t):
    """a Python list (compared as a whole, not element by element)"""
    return t.op == 'call' and t.args[0] in LISTS

def extreme_cmp(op, a, b):
    """comparing the largest or smallest element with a scalar: whether any element compares so"""
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
        if x.op == 'call' and x.args[0] in ('amax', 'amin') and len(x.args[1]) == 1 and rank(x.args[1][0]) == 1 and o in ('<', '>', '<=', '>='):
            some = (x.args[0] == 'amax') == (o in ('>', '>='))
            j = fresh('j')
            c = compare(o, A.sel(x.args[1][0], (j,)), y)
            n = S.summ(j, ZERO, shape(x.args[1][0], 0), S.iverson(c if some else neg_c(c)))
            return compare('!=' if some else '==', n, ZERO)
    return None

class Interp:
    def __init__(self, program, opaque=(), models=None, assume=(), max_unroll=16, opaque_all_ext=True):
        self.P = program
        self.fails = []
        self.opaque = dict(opaque) if isinstance(opaque, dict) else {k: {} for k in opaque}   # repository functions kept as atoms
        ObjRef.n = 0
        cache = lambda I, fn, a, kw, st, nd: Ext('cache.decorator')
        self.models = {'np_cache_factory': cache, 'lru_cache': cache, 'functools.lru_cache': cache}
        self.models.update(models or {})    # name -> python handler(interp, st, args, kw, node)
        self.assumptions = tuple(assume)
        self.events = []
        self.mute = 0
        self.seq = 0
        self.stack = []                     # function names
        self.frames = []
        self.loops = []                     # (var, lo, hi, par, node)
        self.par = 0
        self.parallel_loops = set()
        self.max_unroll = max_unroll
        self.unsupported = []
        self.inlined = set()
        self.stats = {'stmts': 0, 'calls': 0, 'loops': 0, 'stores': 0, 'branches': 0}
        self.gvals = {}
        self.merged = {}
        self.callcount = {}
        self.tid = mk('tid')
        self.loop_records = []
        self.deaths = 0

    # ------------------------------------------------------------ events
    def event(self, kind, name, args=(), kw=None, st=None, node=None, extra=None):
        if self.mute:
            return None
        e = Event()
        self.seq += 1
        e.kind, e.name, e.args, e.kw, e.node, e.extra, e.seq = kind, name, list(args), dict(kw or {}), node, extra, self.seq
        e.pc = tuple(st.pc) if st is not None else ()
        e.stack = tuple(self.stack)
        e.loops = tuple(self.loops)
        e.module = self.frames[-1].module if self.frames else None
        e.par = self.par
        self.events.append(e)
        return e

    def where(self, node=None):
        m = self.frames[-1].module.name if self.frames and self.frames[-1].module else '?'
        return '%s:%s' % (m, getattr(node, 'lineno', '?'))

    def giveup(self, what, node=None, st=None):
        w = '%s at %s' % (what, self.where(node))
        if not self.mute:
            self.unsupported.append(w)
            self.event('unsupported', what, (), None, st, node)
        return fresh_opaque(what)

    # ------------------------------------------------------------ conditions
    def simp(self, c, st):
        if c.op == 'bool':
            return c
        fs = self.assumptions + st.pc
        if c.op in ('and', 'or'):
            parts = [self.simp(x, st) for x in c.args[0]]
            return conj(parts) if c.op == 'and' else disj(parts)
        n = neg_c(c)
        for f in fs:
            if implies(f, c):
                return TRUE
            if implies(f, n):
                return FALSE
        if c.op == 'cmp':
            r = self.linear_decide(c, fs)
            if r is not None:
                return r
        return c

    def linear_decide(self, c, fs):
        """c: p <= 0 ; use pairs of facts"""
        if c.args[0] not in ('<', '<='):
            return None
        p = c.args[1]
        for f in fs:
            if f.op == 'cmp' and f.args[0] in ('<', '<='):
                # p - f.p <= bound
                for k in (1,):
                    d = sub(p, f.args[1])          # p = f.p + d, f.p <= 0
                    hi = S.bounds(d)[1]
                    if hi is not None and (hi < 0 or (hi == 0 and (c.args[0] == '<=' or f.args[0] == '<'))):
                        return TRUE
                    s = add(p, f.args[1])          # p = s - f.p >= s
                    lo = S.bounds(s)[0]
                    if lo is not None and (lo > 0 or (lo == 0 and '<' in (c.args[0], f.args[0]))):
                        return FALSE
        if S.is_int(p):
            les = [f.args[1] for f in fs if f.op == 'cmp' and f.args[0] == '<=' and S.is_int(f.args[1])]
            for a in range(len(les)):
                for b in range(a + 1, len(les)):
                    d = sub(p, add(les[a], les[b]))
                    hi = S.bounds(d)[1]
                    if hi is not None and hi <= 0:
                        return TRUE
                    s = add(p, les[a], les[b])
                    lo = S.bounds(s)[0]
                    if lo is not None and lo >= 1:
                        return FALSE
        return None

    def resolve(self, t, st, depth=0):
        """simplify if-then-else conditions of a freshly read value by the current facts"""
        if depth > 12:
            return t
        if t.op == 'ite':
            c = self.simp(t.args[0], st)
            if c is TRUE:
                return self.resolve(t.args[1], st, depth + 1)
            if c is FALSE:
                return self.resolve(t.args[2], st, depth + 1)
            a, b = self.resolve(t.args[1], st, depth + 1), self.resolve(t.args[2], st, depth + 1)
            return ite(c, a, b)
        if t.op == 'poly':
            ivs = [x for m, _ in t.args[0] for x, e in m if x.op in ('iver', 'ite')]
            if ivs:
                mp = {}
                for x in ivs:
                    if x.op == 'iver':
                        c = self.simp(x.args[0], st)
                        if c is not x.args[0]:
                            mp[x] = S.iverson(c)
                    else:
                        r = self.resolve(x, st, depth + 1)
                        if r is not x:
                            mp[x] = r
                if mp:
                    return subst(t, mp)
        if t.op == 'vec':
            es = [self.resolve(e, st, depth + 1) for e in t.args[0]]
            if any(a is not b for a, b in zip(es, t.args[0])):
                return vec(es)
        if t.op == 'iver':
            return S.iverson(self.simp(t.args[0], st))
        return t

    # ------------------------------------------------------------ arrays
    def new_array(self, content, name='arr', node=None, st=None, dtype=None, kind='alloc', mv=False):
        r = rank(content)
        a = Arr(name, r, None, dtype, kind, node, tuple(self.stack))
        a.par = self.par
        st.mem[('arr', a.id)] = content
        dims = None
        if r is not None:
            dims = tuple(('ax', ZERO, shape(content, k)) for k in range(r))
        return View(a, dims, mv)

    def content(self, v, st):
        t = st.mem.get(('arr', v.arr.id))
        if t is None:
            t = fresh_opaque('lost array ' + v.arr.name)
        return t

    def view_term(self, v, st):
        """snapshot of what a view shows"""
        t = self.content(v, st)
        if v.dims is None:
            return t
        r = rank(t)
        if r is None and all(d[0] == 'ax' and d[1] is ZERO for d in v.dims):
            return t
        if r is not None and all(d[0] == 'ax' and d[1] is ZERO and shape(t, k) is d[2] for k, d in enumerate(v.dims)):
            return t
        vs, idx = [], []
        for d in v.dims:
            if d[0] == 'fix':
                idx.append(d[1])
            else:
                w = fresh('v')
                vs.append((w, d[2], d[1]))
                idx.append(add(d[1], w))
        # drop trailing full axes
        k = len(idx)
        while k and v.dims[k - 1][0] == 'ax' and v.dims[k - 1][1] is ZERO and shape(t, k - 1) is v.dims[k - 1][2]:
            k -= 1
        full = [w for w, n, lo in vs]
        idx = idx[:k]
        vs = [x for x in vs if any(occurs(i, x[0]) for i in idx)]
        b = self.resolve(sel(t, tuple(idx)), st)
        for w, n, lo in reversed(vs):
            b = A.mk_alam(w, n, b)
        return b

    def view_rank(self, v, st):
        if v.dims is None:
            return rank(self.content(v, st))
        return sum(1 for d in v.dims if d[0] == 'ax')

    def view_shape(self, v, k, st):
        if v.dims is None:
            return shape(self.content(v, st), k)
        ax = [d for d in v.dims if d[0] == 'ax']
        if -len(ax) <= k < len(ax):
            return ax[k][2]
        return mk('shape', self.view_term(v, st), k)

    def term(self, v, st):
        """value -> term"""
        if isinstance(v, T):
            return v
        if isinstance(v, View):
            return self.view_term(v, st)
        if isinstance(v, PyTuple):
            return mk('tuple', tuple(self.term(x, st) for x in v.items))
        if isinstance(v, ListRef):
            c = st.mem.get(('list', v.id))
            if isinstance(c, T):
                return c
            if c is None:
                return fresh_opaque('list')
            return vec([self.term(x, st) for x in c])
        if isinstance(v, DictRef):
            c = st.mem.get(('dict', v.id), {})
            if isinstance(c, T):
                return c
            return mk('dict', tuple(sorted(((k.id, k, self.term(x, st)) for k, x in c.items()), key=lambda z: z[0]))[:0] +
                      tuple((k, self.term(x, st)) for k, x in sorted(c.items(), key=lambda kv: kv[0].id)))
        if isinstance(v, Fn):
            return mk('fn', '%s.%s' % (v.module.name if v.module else '?', getattr(v.node, 'name', 'lambda')))
        if isinstance(v, Partial):
            return call('functools.partial', self.term(v.fn, st), *[self.term(x, st) for x in v.args])
        if isinstance(v, Ext):
            return mk('fn', v.name)
        if isinstance(v, Mod):
            return mk('fn', v.name)
        if isinstance(v, Cls):
            return mk('fn', v.ci.name)
        if isinstance(v, Bound):
            return mk('fn', v.name, self.term(v.val, st))
        if isinstance(v, ObjRef):
            return mk('obj', v.id)
        if isinstance(v, Range):
            i = fresh('r')
            if v.step is ONE:
                return A.mk_alam(i, sub(v.hi, v.lo), add(v.lo, i))
            return call('range', v.lo, v.hi, v.step)
        if v is UNDEF:
            return mk('undef')
        if isinstance(v, Ptr):
            return mk('ptr', str(v.name))
        return fresh_opaque(type(v).__name__)

    def box(self, v, st, node=None, name='arr'):
        """array-valued results become references"""
        if isinstance(v, T):
            r = rank(v)
            if r is not None and r > 0:
                return self.new_array(v, name, node, st)
        return v

    def index_list(self, idxs, st, rk, shp):
        """python index values -> normalised list for a container with rk axes"""
        out = []
        if any(x is Ellipsis for x in idxs):
            k = [n for n, x in enumerate(idxs) if x is Ellipsis][0]
            miss = (rk or len(idxs)) - (len(idxs) - 1)
            idxs = idxs[:k] + [slice(None)] * max(miss, 0) + idxs[k + 1:]
        for x in idxs:
            out.append(x)
        return out

    def slice_bounds(self, s, n):
        lo = ZERO if s.start is None else s.start
        hi = n if s.stop is None else s.stop
        if lo.op == 'num' and lo.args[0] < 0:
            lo = add(n, lo)
        if hi.op == 'num' and hi.args[0] < 0:
            hi = add(n, hi)
        if lo.op == 'poly' and hi is not n:
            # pieces of one length, one after the other: the last one may be shorter
            d = sub(hi, lo)
            if d.op != 'num':
                for m, c in lo.args[0]:
                    for x, e in m:
                        if x.id in S._vars and not S.has_var(d, x) and subst(lo, {x: add(x, ONE)}) is hi:
                            return lo, S.tmin(hi, n)
        return lo, hi

    def subview(self, v, idxs, st, node):
        """view[idxs] with basic indices; None if not basic"""
        t = self.content(v, st)
        dims = v.dims
        if dims is None:
            r = rank(t)
            if r is None:
                r = max(len(idxs), 1)
                if any(isinstance(x, (slice,)) for x in idxs) or len(idxs) > 1:
                    pass
                return None
            dims = tuple(('ax', ZERO, shape(t, k)) for k in range(r))
        ax = [k for k, d in enumerate(dims) if d[0] == 'ax']
        if len(idxs) > len(ax):
            return None
        nd = list(dims)
        for pos, x in enumerate(idxs):
            k = ax[pos]
            lo, n = dims[k][1], dims[k][2]
            if isinstance(x, slice):
                if x.step is not None and x.step is not ONE:
                    return None
                a, b = self.slice_bounds(x, n)
                nd[k] = ('ax', add(lo, a), sub(b, a))
            elif isinstance(x, T) and rank(x) == 0 and x.op not in ('str', 'none', 'cmp', 'and', 'or', 'not', 'bool'):
                if x.op == 'num' and x.args[0] < 0:
                    x = add(n, x)
                nd[k] = ('fix', add(lo, x))
            else:
                return None
        return View(v.arr, tuple(nd), v.mv)

    def read_index(self, base, idxs, st, node):
        """base[idxs] for term/view base"""
        if isinstance(base, View):
            sv = self.subview(base, idxs, st, node)
            if sv is not None:
                if all(d[0] == 'fix' for d in sv.dims):
                    t = sel(self.content(sv, st), tuple(d[1] for d in sv.dims))
                    self.note_read(sv, st, node)
                    return self.resolve(t, st)
                return sv
            t = self.view_term(base, st)
        else:
            t = base
        return self.term_index(t, idxs, st, node)

    def note_read(self, v, st, node):
        """reads are recorded inside parallel loops only"""
        if self.par and not self.mute:
            self.event('load', v.arr.name, [], None, st, node, extra=(v.arr, v.dims))

    def term_index(self, t, idxs, st, node):
        if t.op == 'tuple' and len(idxs) == 1 and isinstance(idxs[0], T) and idxs[0].op == 'num':
            k = int(idxs[0].args[0])
            if -len(t.args[0]) <= k < len(t.args[0]):
                return t.args[0][k]
        if t.op == 'dict' and len(idxs) == 1 and isinstance(idxs[0], T):
            for k, v in t.args[0]:
                if k is idxs[0]:
                    return v
        if t.op == 'ite' and (rank(t.args[0]) == 0):
            a = self.term_index(t.args[1], idxs, st, node)
            b = self.term_index(t.args[2], idxs, st, node)
            if isinstance(a, T) and isinstance(b, T):
                return ite(t.args[0], a, b)
        r = rank(t)
        while t.op == 'scatter' and r is None:
            si = t.args[1].args[0] if t.args[1].op == 'tuple' else (t.args[1],)
            xi = tuple(self.idx_term(x, st) for x in idxs)
            if len(si) == len(xi) and all(p is q for p, q in zip(si, xi)):
                if all(x.op in ('slice', 'num') for x in xi):
                    return t.args[2] if rank(t.args[2]) is not None and rank(t.args[2]) == sum(x.op == 'slice' for x in xi) else call('broadcast', t.args[2], *xi)
                break
            if len(si) == len(xi) and any(p.op == q.op == 'num' and p is not q and (p.args[0] >= 0) == (q.args[0] >= 0) for p, q in zip(si, xi)):
                t = t.args[0]
                continue
            break
        basic = all(isinstance(x, slice) or x is None or (isinstance(x, T)) for x in idxs)
        if not basic:
            return call('getitem', t, *[self.idx_term(x, st) for x in idxs])
        if len(idxs) == 1 and isinstance(idxs[0], T) and idxs[0].op == 'str':
            return call('field', t, idxs[0])
        if r is None:
            if all(isinstance(x, T) and rank(x) == 0 for x in idxs):
                return sel(t, tuple(idxs))
            if len(idxs) == 1 and isinstance(idxs[0], T):
                return call('take', t, idxs[0])
            return call('getitem', t, *[self.idx_term(x, st) for x in idxs])
        # advanced or basic on a known-rank term
        return self._known_index(t, list(idxs), st, node)

    def _known_index(self, t, idxs, st, node):
        r = rank(t)
        if not idxs:
            return t
        x = idxs[0]
        if x is None:
            return vec([self._known_index(t, idxs[1:], st, node)])
        if r == 0:
            return call('getitem', t, *[self.idx_term(y, st) for y in idxs])
        if isinstance(x, slice):
            n = shape(t, 0)
            if x.step is not None and x.step is not ONE:
                if x.step.op == 'num' and x.step.args[0] == -1 and x.start is None and x.stop is None:
                    v = fresh('s')
                    return A.mk_alam(v, n, self._known_index(sel(t, (sub(sub(n, ONE), v),)), idxs[1:], st, node))
                return call('getitem', t, *[self.idx_term(y, st) for y in idxs])
            a, b = self.slice_bounds(x, n)
            if t.op == 'call' and t.args[0] == 'concatenate' and a is ZERO and b is n and len(t.args[1]) == 1 and t.args[1][0].op == 'alam' \
                    and all(isinstance(y, T) and rank(y) == 0 for y in idxs[1:]):
                # columns of rows put one after the other
                k, w = fresh('k'), fresh('w')
                ps = t.args[1][0]
                p = sel(ps, (k,))
                return A.ccat(A.mk_alam(k, ps.args[1], A.mk_alam(w, shape(p, 0), sel(p, (w,) + tuple(idxs[1:])))))
            v = fresh('s')
            return A.mk_alam(v, sub(b, a), self._known_index(sel(t, (add(a, v),)), idxs[1:], st, node))
        rx = rank(x)
        if rx == 0:
            return self._known_index(sel(t, (x,)), idxs[1:], st, node)
        if rx is None:
            return call('take', t, x, *[self.idx_term(y, st) for y in idxs[1:]])
        if is_boolt(x):
            if rx == 1:
                i, n = fresh('i'), fresh('n')
                N = shape(x, 0)
                if N.op == 'shape' and shape(t, 0) is not N:
                    N = shape(t, 0)
                nz = A.flagged(truth(sel(x, (i,))), i)
                if nz is not None:
                    return self._known_index(t, (nz,) + tuple(idxs[1:]), st, node)
                P = S.lam(i, truth(sel(x, (i,))))
                cnt = S.summ(i, ZERO, N, S.iverson(truth(sel(x, (i,)))))
                return A.mk_alam(n, cnt, self._known_index(sel(t, (S.cpt(P, N, n),)), idxs[1:], st, node))
            return call('compress', x, t)
        v = fresh('g')
        if rx == 1:
            return A.mk_alam(v, shape(x, 0), self._known_index(sel(t, (sel(x, (v,)),)), idxs[1:], st, node))
        return call('take', t, x, *[self.idx_term(y, st) for y in idxs[1:]])

    def idx_term(self, x, st):
        if isinstance(x, slice):
            return mk('slice', *[y if y is not None else NONE for y in (x.start, x.stop, x.step)])
        if x is None:
            return mk('newaxis')
        if x is Ellipsis:
            return mk('ellipsis')
        return self.term(x, st)

    def write_index(self, base, idxs, val, st, node, aug=False):
        """base[idxs] = val"""
        self.stats['stores'] += 1
        if isinstance(base, View):
            cur = self.content(base, st)
            sv = self.subview(base, idxs, st, node)
            if isinstance(val, View):
                self.note_read(val, st, node)
            vt = self.term(val, st)
            loc = None
            if sv is not None:
                loc = sv.dims
                new = A.store(cur, [d[1] if d[0] == 'fix' else ('slice', d[1], add(d[1], d[2])) for d in sv.dims], vt)
            else:
                new = self.fancy_store(base, cur, idxs, vt, st, node)
            st.mem[('arr', base.arr.id)] = new
            if getattr(base.arr, 'src', None):
                for c, v in base.arr.src:
                    self.write_through(c, v, new, st, node)
            self.event('store', base.arr.name, [vt], None, st, node, extra=(base.arr, loc, idxs, base, aug))
            return
        if isinstance(base, T):
            self.event('store-term', 'item', [base] + [self.idx_term(x, st) for x in idxs] + [self.term(val, st)], None, st, node)
            return
        raise Unsupported('store into ' + type(base).__name__)

    def write_through(self, c, v, new, st, node):
        """the array v also shows what was stored in an array it was merged into"""
        cur = self.content(v, st)
        if v.dims is None:
            st.mem[('arr', v.arr.id)] = ite(c, new, cur)
        else:
            part = ite(c, new, self.view_term(v, st))
            st.mem[('arr', v.arr.id)] = A.store(cur, [d[1] if d[0] == 'fix' else ('slice', d[1], add(d[1], d[2])) for d in v.dims], part)
        self.event('store', v.arr.name, [new], None, st, node, extra=(v.arr, None, (), v, False))

    def fancy_store(self, base, cur, idxs, vt, st, node):
        full = base.dims is None or all(d[0] == 'ax' and d[1] is ZERO for d in base.dims)
        if not full:
            # store into a part of an array: compute the new part, then put it back
            part = self.view_term(base, st)
            whole = View(Arr('part', rank(part)), None)
            new = self.fancy_store(whole, part, idxs, vt, st, node)
            return A.store(cur, [d[1] if d[0] == 'fix' else ('slice', d[1], add(d[1], d[2])) for d in base.dims], new)
        if full and len(idxs) == 1 and isinstance(idxs[0], T):
            x = idxs[0]
            if x.op == 'str':
                return updf(cur, x, vt)
            if is_boolt(x):
                rx, rc, rv = rank(x), rank(cur), rank(vt)
                if rv == 0 or rv is None and rx is None:
                    return ite(x, vt, cur)
                if rx == 1 and rc is not None and rv == rc:
                    # masked assignment of a selected array: x[m] = f(...)[m-th]
                    i = fresh('i')
                    inv = self.uncompress(vt, x, i)
                    if inv is not None:
                        return A.mk_alam(i, shape(cur, 0), ite(truth(sel(x, (i,))), inv, sel(cur, (i,))))
            if rank(x) == 1 and x.op == 'alam' and x.args[2].op == 'cpt' and x.args[2].args[2] is x.args[0] and rank(vt) in (0, 1) \
                    and rank(cur) == 1 and x.args[2].args[1] is shape(cur, 0):
                # stored at the positions where a condition holds, in increasing order
                lam_, n_, _ = x.args[2].args
                i, q = fresh('i'), fresh('q')
                cond = truth(S.apply_lam(lam_, i))
                if x.args[1] is S.summ(q, ZERO, n_, S.iverson(truth(S.apply_lam(lam_, q)))):
                    before = S.summ(q, ZERO, i, S.iverson(truth(S.apply_lam(lam_, q))))
                    return A.mk_alam(i, shape(cur, 0), ite(cond, sel(vt, (before,)) if rank(vt) else vt, sel(cur, (i,))))
            return mk('scatter', cur, x, vt)
        if full and rank(cur) is not None and len(idxs) >= 2:
            # boolean or integer arrays mixed with slices / scalars
            masks = [k for k, x in enumerate(idxs) if isinstance(x, T) and rank(x) == 1 and is_boolt(x)]
            if len(masks) == 1:
                k = masks[0]
                try:
                    vs, sels = [], []
                    conds = []
                    for d, x in enumerate(idxs):
                        v = fresh('u')
                        vs.append(v)
                        if isinstance(x, slice) and x.start is None and x.stop is None:
                            continue
                        if d == k:
                            conds.append(truth(sel(x, (v,))))
                        elif isinstance(x, T) and rank(x) == 0:
                            if x.op == 'num' and x.args[0] < 0:
                                x = add(shape(cur, d), x)
                            conds.append(compare('==', v, x))
                        else:
                            raise KeyError
                    old = sel(cur, tuple(vs))
                    rv = rank(vt)
                    if rv == 0:
                        new = vt
                    elif rv == 1:
                        new = self.uncompress(vt, idxs[k], vs[k])
                    else:
                        new = None
                    if new is None:
                        raise KeyError
                    b = ite(conj(conds), new, old)
                    for d in reversed(range(len(vs))):
                        b = A.mk_alam(vs[d], shape(cur, d), b)
                    return b
                except KeyError:
                    pass
        return mk('scatter', cur, mk('tuple', tuple(self.idx_term(x, st) for x in idxs)), vt)

    def uncompress(self, vt, mask, i):
        """vt is an array over the selected positions of mask; its element belonging to position i"""
        n = fresh('n')
        e = sel(vt, (n,))
        cps = [x for x in subterms(e) if x.op == 'cpt' and x.args[2] is n]
        if not cps:
            return e if not occurs(e, n) else None
        j = fresh('j')
        m = mk('sym', '\0unc')
        for cp in cps:
            if S.apply_lam(cp.args[0], j) is not truth(sel(mask, (j,))):
                return None
        e = subst(e, {cp: i for cp in cps})
        return None if occurs(e, n) else e

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, sa, sb, st):
        if a is b:
            return a
        if a is UNDEF and b is UNDEF:
            return UNDEF
        if isinstance(a, PyTuple) and isinstance(b, PyTuple) and len(a.items) == len(b.items):
            return PyTuple([self.merge_val(c, x, y, sa, sb, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, View) and isinstance(b, View) and a.arr is b.arr and a.dims == b.dims:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):     # list contents
            return tuple(self.merge_val(c, x, y, sa, sb, st) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                out[k] = self.merge_val(c, a.get(k, UNDEF), b.get(k, UNDEF), sa, sb, st)
            return out
        if isinstance(a, tuple):
            a = vec([self.term(x, sa) for x in a])
        if isinstance(b, tuple):
            b = vec([self.term(x, sb) for x in b])
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node and a.self_ is b.self_:
            return a
        if isinstance(a, ObjRef) and isinstance(b, ObjRef) and a.id == b.id:
            return a
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
            return a
        if isinstance(a, (Fn, Bound, Cls, Ext, Mod)) or isinstance(b, (Fn, Bound, Cls, Ext, Mod)):
            return Choice(c, a, b)
        if isinstance(a, dict) or isinstance(b, dict):
            return mk('ite', c, fresh_opaque('dict'), fresh_opaque('dict'))
        ta, tb = self.term(a, sa), self.term(b, sb)
        if ta.op == 'undef':
            return ite_raw(c, ta, tb)
        if tb.op == 'undef':
            return ite_raw(c, ta, tb)
        r = ite(c, ta, tb)
        src = []
        for cc, x in ((c, a), (neg_c(c), b)):
            if isinstance(x, View):
                src.append((cc, x))
            elif isinstance(x, T) and x.id in self.merged:
                src += [(conj([cc, c2]), v) for c2, v in self.merged[x.id]]
        if src:
            self.merged[r.id] = src
        return r

    def merge(self, c, s1, s2, st):
        """state after 'if c': s1 else s2"""
        if s1.dead and s2.dead:
            st.dead = True
            return
        if s1.dead:
            st.set(s2)
            return
        if s2.dead:
            st.set(s1)
            return
        n = len(st.pc)
        x1 = conj([x for x in s1.pc if x not in st.pc and x is not c] or [TRUE])
        x2 = conj([x for x in s2.pc if x not in st.pc] or [TRUE])
        env, mem = {}, {}
        ch = False
        tmp = State({}, {}, st.pc)
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            env[k] = self.merge_val(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF), s1, s2, tmp)
        for k in list(s1.mem) + [k for k in s2.mem if k not in s1.mem]:
            a, b = s1.mem.get(k, UNDEF), s2.mem.get(k, UNDEF)
            if a is b:
                mem[k] = a
            elif a is UNDEF:
                mem[k] = b
            elif b is UNDEF:
                mem[k] = a
            else:
                mem[k] = self.merge_val(c, a, b, s1, s2, tmp)
        pc = st.pc
        st.env.clear(); st.env.update(env)
        st.mem = mem
        alive = disj([conj([c, x1]), x2])
        st.pc = pc
        st.dead = False
        if alive is not TRUE and x1 is not TRUE or (x2 is not TRUE and x2 is not neg_c(c) and alive is not TRUE):
            st.assume(alive)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.stats['stmts'] += 1
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                self.giveup('statement ' + type(s).__name__, s, st)
                continue
            m(s, st)

    def x_Pass(self, s, st): pass
    def x_Global(self, s, st): self.frames[-1].globals.update(s.names)
    def x_Nonlocal(self, s, st): self.frames[-1].nonlocals.update(s.names)

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def x_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0])

    def x_ImportFrom(self, s, st):
        for a in s.names:
            r = self.P.resolve_in(s.module or '', a.name)
            st.env[a.asname or a.name] = self.from_res(r, st, s)

    def x_FunctionDef(self, s, st):
        s.module = self.frames[-1].module
        st.env[s.name] = Fn(s, self.frames[-1].module, closure=[st.env] + list(getattr(self.frames[-1], 'closure', None) or ()))

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def x_AnnAssign(self, s, st):
        if isinstance(s.target, ast.Name) and getattr(s, 'ctype', None):
            self.frames[-1].types[s.target.id] = s.ctype
        if s.value is None:
            if isinstance(s.target, ast.Name):
                if getattr(s, 'cdims', None):
                    dims = [self.term(self.ev(d, st), st) for d in s.cdims]
                    from . import calls
                    st.env[s.target.id] = calls.new_filled(self, st, [vec(dims)], {}, s, None, 'carray')
                    return
                st.env.setdefault(s.target.id, UNDEF)
            return
        self.assign(s.target, self.ev(s.value, st), st, s)

    def x_AugAssign(self, s, st):
        op = BINOP[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.load_name(s.target.id, st, s.target)
            v = self.ev(s.value, st)
            if isinstance(cur, View):
                n = self.view_rank(cur, st)
                t = self.binop(op, self.term(cur, st), self.term(v, st), st, s)
                self.write_index(cur, [slice(None)] * n if n else [], t, st, s, aug=True) if n else self.set_name(s.target.id, t, st)
                return
            if isinstance(cur, ListRef) and op == '+':
                self.list_extend(cur, v, st, s)
                return
            self.assign(s.target, self.binval(op, cur, v, st, s), st, s)
            return
        if isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, st)
            idxs = self.indices(s.target.slice, st)
            cur = self.get_item(base, idxs, st, s)
            v = self.ev(s.value, st)
            t = self.binop(op, self.term(cur, st), self.term(v, st), st, s)
            self.set_item(base, idxs, t, st, s, aug=True)
            return
        cur = self.ev(s.target, st)
        v = self.ev(s.value, st)
        self.assign(s.target, self.binval(op, cur, v, st, s), st, s)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                idx = self.indices(t.slice, st)
                if isinstance(b, DictRef):
                    c = st.mem.get(('dict', b.id))
                    if isinstance(c, dict) and isinstance(idx[0], T):
                        c = dict(c); c.pop(idx[0], None)
                        st.mem[('dict', b.id)] = c
                        self.event('mutate', 'delitem', [self.term(b, st)], None, st, s, extra=b)
                        continue
                self.event('mutate', 'delitem', [self.term(b, st)], None, st, s, extra=b)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        f = self.frames[-1]
        f.returns.append((st.copy(), v))
        st.dead = True

    def x_Raise(self, s, st):
        v = self.term(self.ev(s.exc, st), st) if s.exc is not None else NONE
        self.event('raise', expr_src(s.exc)[:80] if s.exc is not None else '', [v], None, st, s)
        self.fails.append((s, {k: x for k, x in st.mem.items() if k[0] == 'gvar'}))
        self.deaths += 1
        st.dead = True

    def x_Assert(self, s, st):
        c = self.simp(truth(self.term(self.ev(s.test, st), st)), st)
        self.event('assert', expr_src(s.test)[:120], [c], None, st, s)
        if c is not TRUE:
            self.fails.append((s, {k: x for k, x in st.mem.items() if k[0] == 'gvar'}))
        if c is FALSE:
            st.dead = True
            return
        st.assume(c)

    def x_If(self, s, st):
        self.stats['branches'] += 1
        c = self.simp(truth(self.term(self.ev(s.test, st), st)), st)
        if st.dead:
            return
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(neg_c(c))
        env = st.env
        self.block(s.body, s1)
        self.block(s.orelse, s2)
        self.merge(c, s1, s2, st)

    def x_With(self, s, st):
        for it in s.items:
            e = it.context_expr
            if isinstance(e, ast.Name) and e.id in ('nogil', 'gil'):
                continue
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('parallel',):
                continue
            v = self.ev(e, st)
            self.event('enter', 'with', [self.term(v, st)], None, st, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        self.block(s.body, st)
        for it in s.items:
            e = it.context_expr
            if not (isinstance(e, ast.Name) and e.id in ('nogil', 'gil')):
                self.event('exit', 'with', [], None, st, s)

    def x_Try(self, s, st):
        if not s.handlers:
            self.block(s.body, st)
            d = st.dead
            if d and s.finalbody:
                st.dead = False
                self.block(s.finalbody, st)
                st.dead = True
            else:
                self.block(s.finalbody, st)
            return
        self.callcount['\0try'] = self.callcount.get('\0try', 0) + 1
        c = mk('pred', 'exc', str(self.callcount['\0try']))
        s1, s2 = st.copy(), st.copy()
        self.block(s.body, s1)
        if not s1.dead:
            self.block(s.orelse, s1)
        # an error interrupts the body after its first assignments: names that only the body defines keep their values
        for k, v in s1.env.items():
            if k not in s2.env: s2.env[k] = v
        for k, v in s1.mem.items():
            if k not in s2.mem: s2.mem[k] = v
        s2.assume(c)
        for h in s.handlers[:1]:
            if h.name:
                s2.env[h.name] = fresh_opaque('exc')
            self.block(h.body, s2)
        s1.pc = tuple(x for x in s1.pc)
        self.merge(neg_c(c), s1, s2, st)
        self.block(s.finalbody, st)

    def x_Break(self, s, st):
        self.frames[-1].ctl[-1]['brk'].append(st.copy())
        st.dead = True

    def x_Continue(self, s, st):
        self.frames[-1].ctl[-1]['cont'].append(st.copy())
        st.dead = True

    def x_ClassDef(self, s, st):
        self.giveup('nested class', s, st)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            ct = self.frames[-1].types.get(t.id) if self.frames else None
            if isinstance(v, T):
                v = self.box(v, st, node, t.id)
            if ct and '[' in ct and isinstance(v, View) and not v.mv:
                v = View(v.arr, v.dims, True)
            self.set_name(t.id, v, st)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st, node, any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, node)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.set_attr(o, t.attr, v, st, node)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idxs = self.indices(t.slice, st)
            self.set_item(base, idxs, v, st, node)
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        self.giveup('assign target', node, st)

    def set_name(self, name, v, st):
        f = self.frames[-1]
        if name in f.globals:
            self.event('gwrite', f.module.name + '.' + name, [self.term(v, st)], None, st, f.fn)
            st.mem[('gvar', f.module.name, name)] = v
            return
        if name in f.nonlocals:
            st.mem[('nl', name)] = v
        st.env[name] = v

    def set_attr(self, o, name, v, st, node):
        if isinstance(o, ObjRef):
            ct = self.P.attr_decl(o.ci, name)
            v = self.box(v, st, node, name)
            if ct and '[' in ct and isinstance(v, View):
                v = View(v.arr, v.dims, True)
            self.event('setattr', name, [self.term(v, st)], None, st, node, extra=o)
            st.mem[('attr', o.id, name)] = v
            return
        if isinstance(o, Mod):
            self.event('gwrite', o.name + '.' + name, [self.term(v, st)], None, st, node)
            st.mem[('gvar', o.name, name)] = v
            return
        if isinstance(o, Fn):
            self.event('setattr', name, [self.term(v, st)], None, st, node, extra=o)
            st.mem[('fnattr', id(o.node), name)] = v
            return
        if isinstance(o, T) and o.op == 'self':
            st.mem[('attr', o.id, name)] = v
            self.event('setattr', name, [self.term(v, st)], None, st, node, extra=o)
            return
        if name == 'shape' and isinstance(o, View):
            t = self.content(o, st)
            st.mem[('arr', o.arr.id)] = call('reshape', t, self.term(v, st))
            return
        self.event('setattr', name, [self.term(v, st)], None, st, node, extra=o)

    def set_item(self, base, idxs, v, st, node, aug=False):
        if isinstance(base, (View,)):
            vt = v
            return self.write_index(base, idxs, vt, st, node, aug)
        if isinstance(base, ListRef):
            c = st.mem.get(('list', base.id))
            self.event('mutate', 'setitem', [self.term(x, st) if not isinstance(x, slice) else self.idx_term(x, st) for x in idxs] + [self.term(v, st)], None, st, node, extra=base)
            if isinstance(c, tuple) and len(idxs) == 1 and isinstance(idxs[0], T) and idxs[0].op == 'num' and -len(c) <= idxs[0].args[0] < len(c):
                k = int(idxs[0].args[0])
                c = list(c); c[k] = v
                st.mem[('list', base.id)] = tuple(c)
                return
            t = self.term(base, st)
            if len(idxs) == 1 and isinstance(idxs[0], T):
                st.mem[('list', base.id)] = A.store(t, [idxs[0]], self.term(v, st)) if rank(t) is not None else mk('scatter', t, idxs[0], self.term(v, st))
            else:
                st.mem[('list', base.id)] = mk('scatter', t, mk('tuple', tuple(self.idx_term(x, st) for x in idxs)), self.term(v, st))
            return
        if isinstance(base, DictRef):
            c = st.mem.get(('dict', base.id))
            self.event('mutate', 'setitem', [self.term(x, st) for x in idxs] + [self.term(v, st)], None, st, node, extra=base)
            if isinstance(c, dict) and isinstance(idxs[0], T):
                c = dict(c)
                c[idxs[0]] = v
                st.mem[('dict', base.id)] = c
            elif isinstance(c, T) and isinstance(idxs[0], T) and idxs[0].op == 'str':
                st.mem[('dict', base.id)] = updf(c, idxs[0], self.term(v, st))
            else:
                st.mem[('dict', base.id)] = mk('scatter', c, self.idx_term(idxs[0], st), self.term(v, st)) if isinstance(c, T) else fresh_opaque('dict')
            return
        if isinstance(base, T):
            self.event('store-term', 'item', [base] + [self.idx_term(x, st) for x in idxs] + [self.term(v, st)], None, st, node)
            if base.op not in ('num', 'str', 'none', 'bool', 'undef', 'unset'):
                self.write_index(self.promote(base, st), idxs, v, st, node, aug)
            return
        if isinstance(base, Choice):
            for c, b in ((base.c, base.a), (neg_c(base.c), base.b)):
                s1, s2 = st.copy(), st.copy()
                s1.assume(c); s2.assume(neg_c(c))
                self.set_item(b, idxs, v, s1, node, aug)
                self.merge(c, s1, s2, st)
            return
        self.event('mutate', 'setitem', [], None, st, node, extra=base)

    def promote(self, base, st):
        """a value becomes an array of its own: the names bound to it now refer to that array"""
        v = self.new_array(base, 'value', None, st)
        v.arr.src = self.merged.get(base.id)
        for k, x in st.env.items():
            if x is base:
                st.env[k] = v
        for k, x in st.mem.items():
            if x is base and k[0] == 'attr':
                st.mem[k] = v
        return v

    def unpack(self, v, n, st, node, star=False):
        if isinstance(v, PyTuple):
            if len(v.items) != n and not star:
                self.event('unpack-error', '%d values into %d names' % (len(v.items), n), (), None, st, node)
            return list(v.items[:n]) + [fresh_opaque('missing')] * (n - len(v.items))
        if isinstance(v, ListRef):
            c = st.mem.get(('list', v.id))
            if isinstance(c, tuple):
                if len(c) != n and not star:
                    self.event('unpack-error', '%d values into %d names' % (len(c), n), (), None, st, node)
                return list(c[:n]) + [fresh_opaque('missing')] * (n - len(c))
        t = self.some(self.term(v, st), st)
        if t.op == 'tuple':
            if len(t.args[0]) != n and not star:
                self.event('unpack-error', '%d values into %d names' % (len(t.args[0]), n), (), None, st, node)
            return (list(t.args[0]) + [fresh_opaque('missing')] * n)[:n]
        if t.op == 'ite':
            a = self.unpack(t.args[1], n, st, node, star)
            b = self.unpack(t.args[2], n, st, node, star)
            return [ite(t.args[0], self.term(x, st), self.term(y, st)) for x, y in zip(a, b)]
        r = rank(t)
        if r is not None and r > 0:
            return [self.read_index(v if isinstance(v, View) else t, [num(k)], st, node) for k in range(n)]
        if t.op in ('none', 'num', 'bool'):
            self.event('unpack-error', 'scalar into %d names' % n, (), None, st, node)
        if t.op == 'call':
            self.event('unpack', t.args[0], [t, num(n)], None, st, node)
        return [mk('item', t, k) for k in range(n)]

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.giveup('expression ' + type(e).__name__, e, st)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return mk('ellipsis')
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if isinstance(v, bytes):
            return mk('bytes', v)
        if isinstance(v, complex):
            return call('complex', num(v.real), num(v.imag))
        return fresh_opaque('const')

    def e_Name(self, e, st):
        return self.load_name(e.id, st, e)

    def load_name(self, name, st, node):
        f = self.frames[-1] if self.frames else None
        if f is None or name not in f.globals:
            if name in st.env:
                v = st.env[name]
                if v is UNDEF:
                    self.event('undef-use', name, (), None, st, node)
                    return mk('undef')
                if isinstance(v, T) and v.op == 'ite' and (v.args[1].op == 'undef' or v.args[2].op == 'undef'):
                    c = self.simp(v.args[0], st)
                    if c is TRUE:
                        v = v.args[1]
                    elif c is FALSE:
                        v = v.args[2]
                    else:
                        self.event('maybe-undef', name, [v.args[0] if v.args[1].op == 'undef' else neg_c(v.args[0])], None, st, node)
                        v = v.args[2] if v.args[1].op == 'undef' else v.args[1]
                if isinstance(v, T) and v.op == 'ite':
                    v = self.resolve(v, st)
                return v
            cl = getattr(f, 'closure', None) if f else None
            for c in cl or ():
                if name in c:
                    return c[name]
        if f is not None:
            return self.load_global(f.module, name, st, node)
        return fresh_opaque(name)

    BUILTINS = {'range', 'len', 'print', 'abs', 'max', 'min', 'sum', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'type',
                'isinstance', 'enumerate', 'zip', 'sorted', 'round', 'open', 'map', 'filter', 'any', 'all', 'super', 'repr', 'hash', 'object',
                'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'AttributeError',
                'StopIteration', 'complex', 'pow', 'divmod', 'iter', 'next', 'getattr', 'setattr', 'hasattr', 'callable', 'id', 'reversed',
                'slice', 'bytes', 'chr', 'ord', 'frozenset', 'NotImplemented', 'OSError', 'IOError', 'ImportError', 'AssertionError',
                'staticmethod', 'classmethod', 'property', 'vars', 'dir', 'globals', 'locals', '__name__', '__file__', 'prange', 'exit',
                'ZeroDivisionError', 'FileNotFoundError', 'Warning', 'UserWarning', 'FloatingPointError', 'ArithmeticError', 'quit',
                'bytearray', 'memoryview', 'issubclass', 'format', 'input', 'eval', 'exec', 'ascii', 'bin', 'hex', 'oct', '__import__',
                '__addr__', '__cast__', '__sizeof__', '__unsupported__', '__doc__', 'EOFError', 'MemoryError', 'BaseException',
                'GeneratorExit', 'KeyboardInterrupt', 'LookupError', 'OverflowError', 'UnicodeDecodeError', 'ConnectionError', 'PermissionError', 'SystemExit', 'NameError', 'NULL', 'DeprecationWarning', 'RuntimeWarning'}

    def load_global(self, m, name, st, node):
        r = self.P.resolve_name(m, name) if m is not None else None
        if r is None:
            if name == 'NULL':
                return NONE
            if name in self.BUILTINS:
                return Ext('builtins.' + name)
            self.event('unresolved', name, (), None, st, node)
            return fresh_opaque('name ' + name)
        return self.from_res(r, st, node)

    def from_res(self, r, st, node):
        if r is None:
            return fresh_opaque('import')
        k = r[0]
        if k == 'func':
            return Fn(r[1], r[1].module)
        if k == 'class':
            return Cls(r[1])
        if k == 'mod':
            return Mod(r[1])
        if k == 'ext':
            return self.ext_value(r[1], st)
        if k == 'extern':
            return Ext(r[1])
        if k == 'gvar':
            return self.gvar(r[1], r[2], st, node)
        if k == 'missing':
            self.event('unresolved', '%s.%s' % (r[1], r[2]), (), None, st, node)
            return fresh_opaque('missing')
        return fresh_opaque('?')

    def ext_value(self, name, st):
        if name in ('numpy.pi', 'math.pi', 'libc.math.pi', 'numpy.math.pi', 'libc.math.M_PI', 'scipy.constants.pi'):
            return mk('pi')
        if name in ('numpy.nan', 'numpy.NaN', 'numpy.NAN', 'libc.math.NAN', 'math.nan'):
            return NAN
        if name in ('numpy.inf', 'math.inf', 'libc.math.INFINITY', 'numpy.infty'):
            return mk('inf', 1)
        if name == 'numpy.newaxis':
            return NONE
        if name in ('os.SEEK_SET', 'os.SEEK_CUR', 'os.SEEK_END', 'io.SEEK_SET', 'io.SEEK_CUR', 'io.SEEK_END'):
            return num(('SET', 'CUR', 'END').index(name[-3:]))
        return Ext(name)

    def gvar(self, m, name, st, node):
        key = ('gvar', m.name, name)
        if key in st.mem:
            return st.mem[key]
        g = m.globals.get(name)
        ass = g[1] if g and g[0] == 'assign' else []
        mutable = getattr(m, '_gdecl', None)
        if mutable is None:
            mutable = m._gdecl = {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        if name not in mutable and len(ass) == 1 and isinstance(ass[0], (ast.Assign, ast.AnnAssign)):
            if key in self.gvals:
                v = self.gvals[key]
            else:
                self.gvals[key] = sym('gvar', m.name + '.' + name)
                fr = Frame(None, m, '<module>')
                self.frames.append(fr)
                self.mute += 1
                try:
                    s = ass[0]
                    s2 = State({}, st.mem)
                    v = self.ev(s.value, s2)
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Tuple, ast.List)):
                        tn = [x.id for x in s.targets[0].elts]
                        v = self.unpack(v, len(tn), s2, s)[tn.index(name)]
                    for k, x in s2.mem.items():
                        if k not in st.mem:
                            st.mem[k] = x
                finally:
                    self.frames.pop()
                    self.mute -= 1
                if isinstance(v, (ListRef, DictRef)):
                    v.kind = 'global'
                    v.name = m.name + '.' + name
                    return v
                self.gvals[key] = v
            if isinstance(v, (ListRef, DictRef, View)):
                pass
            return v
        t = sym('gvar', m.name + '.' + name)
        if m.name.endswith('.config'):
            A.declare(t, 0)
        return t

    def e_Tuple(self, e, st):
        return PyTuple(self.seq_items(e.elts, st))

    def seq_items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if isinstance(v, PyTuple):
                    out.extend(v.items); continue
                if isinstance(v, ListRef) and isinstance(st.mem.get(('list', v.id)), tuple):
                    out.extend(st.mem[('list', v.id)]); continue
                out.append(mk('star', self.term(v, st)))
            else:
                out.append(self.ev(x, st))
        return out

    def new_list(self, items, st, name='list'):
        l = ListRef(name)
        st.mem[('list', l.id)] = tuple(items) if not isinstance(items, T) else items
        return l

    def e_List(self, e, st):
        return self.new_list(self.seq_items(e.elts, st), st)

    def e_Set(self, e, st):
        return mk('set', tuple(sorted((self.term(self.ev(x, st), st) for x in e.elts), key=lambda t: t.id)))

    def e_Dict(self, e, st):
        d = DictRef()
        c = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st)
                if isinstance(x, DictRef) and isinstance(st.mem.get(('dict', x.id)), dict):
                    c.update(st.mem[('dict', x.id)])
                elif not c:
                    t = self.term(x, st)
                    for k2, v2 in zip(e.keys, e.values):
                        if v2 is not v and k2 is not None:
                            k2, v2 = self.term(self.ev(k2, st), st), self.term(self.ev(v2, st), st)
                            t = updf(t, k2, v2) if k2.op == 'str' else mk('scatter', t, k2, v2)
                    st.mem[('dict', d.id)] = t
                    return d
                continue
            c[self.term(self.ev(k, st), st)] = self.ev(v, st)
        st.mem[('dict', d.id)] = c
        return d

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            elif isinstance(v, ast.FormattedValue):
                parts.append(self.fmt_part(self.term(self.ev(v.value, st), st), self.fmt_spec(v.format_spec, st)))
            else:
                parts.append(self.term(self.ev(v, st), st))
        return strcat(parts)

    def e_FormattedValue(self, e, st):
        return self.fmt_part(self.term(self.ev(e.value, st), st), self.fmt_spec(e.format_spec, st))

    def fmt_spec(self, fs, st):
        if fs is None:
            return ''
        t = self.ev(fs, st)
        return t.args[0] if isinstance(t, T) and t.op == 'str' else '?'

    def fmt_part(self, t, spec):
        if not spec or spec in ('s', 'd'):
            if t.op == 'num' and t.args[0].denominator == 1 and not spec:
                return string(str(int(t.args[0])))
            return t
        return mk('fmt', spec, t)

    def e_Lambda(self, e, st):
        e.name = 'lambda'
        return Fn(e, self.frames[-1].module, closure=[st.env] + list(getattr(self.frames[-1], 'closure', None) or ()))

    def e_IfExp(self, e, st):
        c = self.simp(truth(self.term(self.ev(e.test, st), st)), st)
        if c is TRUE:
            return self.ev(e.body, st)
        if c is FALSE:
            return self.ev(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c); s2.assume(neg_c(c))
        a, b = self.ev(e.body, s1), self.ev(e.orelse, s2)
        s1.env['\0v'], s2.env['\0v'] = a, b
        self.merge(c, s1, s2, st)
        return st.env.pop('\0v', UNDEF)

    def e_BoolOp(self, e, st):
        vals = []
        n = len(st.pc)
        pc0 = st.pc
        for x in e.values:
            t = self.term(self.ev(x, st), st)
            c = self.simp(truth(t), st)
            last = x is e.values[-1]
            if isinstance(e.op, ast.And):
                if c is FALSE:
                    vals.append(c); break
                vals.append((c, t)); st.assume(c)
            else:
                if c is TRUE:
                    vals.append((c, t)); break
                vals.append((c, t)); st.assume(neg_c(c))
        st.pc = pc0
        boolish = [v[0] if isinstance(v, tuple) else v for v in vals]
        if isinstance(e.op, ast.And):
            return conj(boolish)
        if all(is_boolt(v[1]) for v in vals if isinstance(v, tuple)):
            return disj(boolish)
        r = vals[-1][1]
        for c, t in reversed(vals[:-1]):
            r = ite(c, t, r)
        return r

    def invert(self, v):
        if not is_boolt(v):
            return call('invert', v)
        if rank(v) and truth(v).op == 'truth':
            return A.arrmap(lambda x: neg_c(truth(x)), v)
        return neg_c(truth(v))

    def e_UnaryOp(self, e, st):
        v = self.term(self.ev(e.operand, st), st)
        if isinstance(e.op, ast.Not):
            return neg_c(truth(v))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.invert(v)
        return fresh_opaque('unary')

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        return self.binval(BINOP[type(e.op)], a, b, st, e)

    def binval(self, op, a, b, st, node):
        if op == '+' and isinstance(a, Switch) and isinstance(b, (ListRef, PyTuple)):
            return self.over_switch(a, lambda v: self.binval(op, v, b, st, node))
        if op == '+' and isinstance(b, Switch) and isinstance(a, (ListRef, PyTuple)):
            return self.over_switch(b, lambda v: self.binval(op, a, v, st, node))
        if op == '+' and (isinstance(a, ListRef) or isinstance(b, ListRef)):
            ca = st.mem.get(('list', a.id)) if isinstance(a, ListRef) else None
            cb = st.mem.get(('list', b.id)) if isinstance(b, ListRef) else None
            if isinstance(ca, tuple) and isinstance(cb, tuple):
                return self.new_list(ca + cb, st)
            if isinstance(a, ListRef) and isinstance(b, ListRef):
                t = A.concat([self.term(a, st), self.term(b, st)])
                return self.new_list(t if t is not None else call('listcat', self.term(a, st), self.term(b, st)), st)
        if op == '+' and isinstance(a, PyTuple) and isinstance(b, PyTuple):
            return PyTuple(a.items + b.items)
        if op == '*' and isinstance(a, ListRef):
            c = st.mem.get(('list', a.id))
            tb = self.term(b, st)
            if isinstance(c, tuple) and tb.op == 'num' and tb.args[0] <= 32:
                return self.new_list(c * int(tb.args[0]), st)
            if isinstance(c, tuple) and len(c) == 1:
                return self.new_list(A.mk_alam(fresh('l'), tb, self.term(c[0], st)), st)
        if op == '%':
            ta = self.term(a, st)
            if ta.op in ('str', 'strcat') and is_strish(ta):
                args = [self.term(x, st) for x in b.items] if isinstance(b, PyTuple) else [self.term(b, st)]
                return percent_format(ta, args)
        return self.binop(op, self.term(a, st), self.term(b, st), st, node)

    def binop(self, op, a, b, st, node=None):
        if op == '+':
            if is_strish(a) or is_strish(b):
                return strcat([a, b])
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', a.args[0] + b.args[0])
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            if a.op == 'str' or b.op == 'str':
                return call('strmul', a, b)
            return mul(a, b)
        if op == '/':
            return ids_as_float(a) if b is ONE else div(a, b)
        if op == '**':
            if b.op == 'num':
                return power(a, b.args[0])
            return powt(a, b)
        if op == '//':
            if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
                return num(a.args[0] // b.args[0])
            return floordiv(a, b)
        if op == '%':
            if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
                return num(a.args[0] % b.args[0])
            return call('mod', a, b)
        if op in ('&', '|'):
            if is_boolt(a) and is_boolt(b):
                return (conj if op == '&' else disj)([a, b])
            return call('bit' + op, a, b)
        if op == '@':
            return self.np_dot(a, b, True)
        return call('op' + op, a, b)

    def np_dot(self, a, b, batch=False):
        ra, rb = rank(a), rank(b)
        if ra == 1 and rb == 1:
            return A.reduce_sum(mul(a, b))
        if ra == 2 and rb == 1:
            v = fresh('d')
            return A.mk_alam(v, shape(a, 0), A.reduce_sum(mul(sel(a, (v,)), b)))
        if ra == 2 and rb == 2:
            v, w = fresh('d'), fresh('d')
            k = fresh('k')
            body = S.summ(k, ZERO, shape(a, 1), mul(sel(a, (v, k)), sel(b, (k, w))))
            return A.mk_alam(v, shape(a, 0), A.mk_alam(w, shape(b, 1), body))
        if ra == 0 or rb == 0:
            return mul(a, b)
        if ra == 1 and rb == 2:
            w, k = fresh('d'), fresh('k')
            return A.mk_alam(w, shape(b, 1), S.summ(k, ZERO, shape(a, 0), mul(sel(a, (k,)), sel(b, (k, w)))))
        if batch and ra is not None and rb is not None and ra >= 2 and rb >= 2 and max(ra, rb) > 2:
            v = fresh('d')
            n = shape(a, 0) if ra >= rb else shape(b, 0)
            return A.mk_alam(v, n, self.np_dot(sel(a, (v,)) if ra >= rb else a, sel(b, (v,)) if rb >= ra else b, True))
        return call('dot', a, b)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            cs.append(self.cmpval(CMPOP[type(op)], left, right, st, e))
            left = right
        return conj(cs) if len(cs) > 1 else cs[0]

    def cmpval(self, op, a, b, st, node):
        if op in ('in', 'notin'):
            r = self.member(a, b, st)
            return r if op == 'in' else neg_c(r)
        if op in ('is', 'isnot', '==', '!='):
            na, nb = (isinstance(a, T) and a.op == 'none'), (isinstance(b, T) and b.op == 'none')
            other = b if na else a
            if (na or nb) and not (na and nb) and not isinstance(other, T):
                return FALSE if op in ('is', '==') else TRUE
            if isinstance(a, Ext) and isinstance(b, Ext):
                return mk('bool', (a.name == b.name) == (op in ('is', '==')))
            if isinstance(a, ListRef) and isinstance(b, ListRef) and op in ('==', '!='):
                ca, cb = st.mem.get(('list', a.id)), st.mem.get(('list', b.id))
                if isinstance(ca, tuple) and isinstance(cb, tuple) and len(ca) != len(cb):
                    return mk('bool', op == '!=')
            if isinstance(a, ListRef) and isinstance(b, T) and b.op in ('str', 'num', 'bool'):
                return mk('bool', op in ('!=', 'isnot'))
            if isinstance(b, ListRef) and isinstance(a, T) and a.op in ('str', 'num', 'bool'):
                return mk('bool', op in ('!=', 'isnot'))
        ta, tb = self.term(a, st), self.term(b, st)
        if op in ('is', 'isnot', '==', '!=') and (ta.op == 'none' or tb.op == 'none'):
            r = is_none(tb if ta.op == 'none' else ta)
            if r is not None:
                return self.simp(r if op in ('is', '==') else neg_c(r), st)
        ra, rb = rank(ta), rank(tb)
        if ra == 0 and rb == 0:
            return self.simp(extreme_cmp(op, ta, tb) or compare(op, ta, tb), st)
        if op in ('==', '!='):
            for x, y in ((a, tb), (b, ta)):
                if isinstance(x, ListRef) and st.mem.get(('list', x.id)) == () and (is_list(y) or rank(y)):    # an empty list
                    return self.simp(compare(op, shape(y, 0), ZERO), st)
        r = compare(op, ta, tb)
        if op in ('==', '!=') and ra is not None and rb is not None and (r.op == 'eq' or r.op == 'not' and r.args[0].op == 'eq') and not any(x.op in ('str', 'none', 'tuple', 'dict') for x in (ta, tb)):
            return A.arrmap(lambda x, y: compare(op, x, y), ta, tb)
        return r

    def member(self, a, b, st):
        ta = self.term(a, st)
        items = None
        if isinstance(b, T) and b.op == 'call' and (b.args[0] == 'h5' or (b.args[0] == '.keys' and b.args[1][0].op == 'call' and b.args[1][0].args[0] == 'h5')):
            from . import h5
            return mk('truth', h5.has(b if b.args[0] == 'h5' else b.args[1][0], ta))
        if isinstance(b, (PyTuple,)):
            items = [self.term(x, st) for x in b.items]
        elif isinstance(b, ListRef) and isinstance(st.mem.get(('list', b.id)), tuple):
            items = [self.term(x, st) for x in st.mem[('list', b.id)]]
        elif isinstance(b, DictRef) and isinstance(st.mem.get(('dict', b.id)), dict):
            items = list(st.mem[('dict', b.id)])
        elif isinstance(b, T) and b.op == 'str' and ta.op == 'str':
            return mk('bool', ta.args[0] in b.args[0])
        elif isinstance(b, T) and b.op in ('vec', 'tuple', 'set'):
            items = list(b.args[0])
        elif isinstance(b, T) and b.op == 'call' and b.args[0] == '.keys' and b.args[1][0].op == 'dict':
            items = [k for k, v in b.args[1][0].args]
        if items is not None and len(items) <= 24 and not any(x.op == 'star' for x in items):
            return disj([compare('==', ta, x) for x in items] or [FALSE])
        return in_term(ta, self.term(b, st))

    def indices(self, e, st):
        items = e.elts if isinstance(e, ast.Tuple) else [e]
        out = []
        for x in items:
            if isinstance(x, ast.Slice):
                g = lambda y: None if y is None else self.term(self.ev(y, st), st)
                lo, hi, stp = g(x.lower), g(x.upper), g(x.step)
                out.append(slice(None if lo is NONE else lo, None if hi is NONE else hi, None if stp is NONE else stp))
                continue
            v = self.ev(x, st)
            if isinstance(v, PyTuple) and not isinstance(e, ast.Tuple):
                out.extend(self.term(y, st) for y in v.items)
                continue
            if isinstance(v, (PyTuple, ListRef)):
                v = self.term(v, st)
            if isinstance(v, View):
                v = self.term(v, st)
            if isinstance(v, T) and v.op == 'ellipsis':
                out.append(Ellipsis); continue
            if isinstance(v, T) and v is NONE:
                out.append(None); continue
            out.append(v)
        return out

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        return self.get_item(base, self.indices(e.slice, st), st, e)

    def get_item(self, base, idxs, st, node):
        i0 = idxs[0] if idxs else None
        const = isinstance(i0, T) and i0.op == 'num' and len(idxs) == 1
        if isinstance(base, PyTuple):
            if const:
                k = int(i0.args[0])
                if -len(base.items) <= k < len(base.items):
                    return base.items[k]
                self.event('index-error', 'tuple index %d of %d' % (k, len(base.items)), (), None, st, node)
            if isinstance(i0, slice) and all(x is None or x.op == 'num' for x in (i0.start, i0.stop, i0.step)):
                c = lambda x: None if x is None else int(x.args[0])
                return PyTuple(base.items[slice(c(i0.start), c(i0.stop), c(i0.step))])
            return self.term_index(vec([self.term(x, st) for x in base.items]), idxs, st, node)
        if isinstance(base, ListRef):
            c = st.mem.get(('list', base.id))
            if isinstance(c, tuple):
                if const and -len(c) <= i0.args[0] < len(c):
                    return c[int(i0.args[0])]
                if isinstance(i0, slice) and all(x is None or x.op == 'num' for x in (i0.start, i0.stop, i0.step)):
                    g = lambda x: None if x is None else int(x.args[0])
                    return self.new_list(c[slice(g(i0.start), g(i0.stop), g(i0.step))], st)
            r = self.term_index(self.term(base, st), idxs, st, node)
            if isinstance(i0, slice) and isinstance(r, T):
                return self.new_list(r, st)
            return r
        if isinstance(base, DictRef):
            c = st.mem.get(('dict', base.id))
            if isinstance(c, T) and isinstance(i0, T) and i0.op == 'str':
                return self.field(c, i0)
            if isinstance(c, dict) and isinstance(i0, T):
                if i0 in c:
                    return c[i0]
                if i0.op in ('str', 'num'):
                    if all(k.op in ('str', 'num') for k in c):
                        self.event('key-error', str(i0.args[0]), [i0], None, st, node, extra=base)
                        return fresh_opaque('key')
                elif all(k.op in ('str', 'num') for k in c) and c:
                    # choice over the known keys; any other key raises
                    st.assume(disj([compare('==', i0, k) for k in c]))
                    return self.choice_over([(compare('==', i0, k), v) for k, v in c.items()], call('keyerror', i0), st)
                return call('field', self.term(base, st), i0)
            return call('field', self.term(base, st), self.idx_term(i0, st))
        if isinstance(base, View):
            if isinstance(i0, T) and i0.op == 'str':
                return self.field(self.content(base, st), i0)
            return self.read_index(base, self.index_list(idxs, st, self.view_rank(base, st), None), st, node)
        if isinstance(base, T):
            base = self.some(base, st)
            if base.op == 'tuple' and const and -len(base.args[0]) <= i0.args[0] < len(base.args[0]):
                return base.args[0][int(i0.args[0])]
            if base.op == 'call' and base.args[0] in ('h5', 'h5attrs') and isinstance(i0, T) and len(idxs) == 1:
                from . import h5
                r = h5.item(base, i0)
                if r is not None:
                    return r
            if isinstance(i0, T) and i0.op == 'str' and len(idxs) == 1 and base.op != 'dict':
                return self.field(base, i0)
            if isinstance(i0, T) and len(idxs) == 1 and base.op in ('call', 'item', 'sym') and rank(base) is None and i0.op == 'num' and i0.args[0] >= 0 and i0.args[0].denominator == 1 \
                    and base.op == 'call' and base.args[0] in self.tuple_calls:
                return mk('item', base, int(i0.args[0]))
            return self.term_index(base, self.index_list(idxs, st, rank(base), None), st, node)
        if isinstance(base, Choice):
            s1, s2 = st.copy(), st.copy()
            s1.assume(base.c); s2.assume(neg_c(base.c))
            s1.env['\0v'] = self.get_item(base.a, idxs, s1, node)
            s2.env['\0v'] = self.get_item(base.b, idxs, s2, node)
            self.merge(base.c, s1, s2, st)
            return st.env.pop('\0v', UNDEF)
        if isinstance(base, Switch):
            if len(idxs) == 1 and isinstance(idxs[0], slice) and all(isinstance(v, (ListRef, PyTuple)) for _, v in base.pairs):
                return self.over_switch(base, lambda v: self.get_item(v, idxs, st, node))
            acc = self.get_item(base.default, idxs, st, node) if base.default is not None and not isinstance(base.default, T) else base.default
            for c, v in reversed(base.pairs):
                x = self.get_item(v, idxs, st, node)
                if acc is None:
                    acc = x
                    continue
                acc = self.merge_val(c, x, acc, st, st, st)
            return acc
        if isinstance(base, Range):
            if const:
                return add(base.lo, i0)
            return self.term_index(self.term(base, st), idxs, st, node)
        if isinstance(base, Bound) and isinstance(base.val, (T, Ext)):
            return self.field(call('attr', self.term(base.val, st), mk('str', base.name)), self.idx_term(i0, st))
        return self.giveup('index of ' + type(base).__name__, node, st)

    tuple_calls = set()

    def some(self, t, st):
        """the branch of an optional tuple that can be indexed (None cannot: that raises)"""
        while t.op == 'ite' and rank(t.args[0]) in (0, None):
            c, a, b = t.args
            if c in st.pc or b.op == 'none' and holds_tuple(a):
                if c not in st.pc: st.assume(c)
                t = a
            elif neg_c(c) in st.pc or a.op == 'none' and holds_tuple(b):
                if neg_c(c) not in st.pc: st.assume(neg_c(c))
                t = b
            else:
                break
        return t

    def field(self, t, name):
        while t.op == 'updf':
            if t.args[1] is name:
                return t.args[2]
            t = t.args[0]
        if t.op == 'ite' and rank(t.args[0]) == 0 and has_updf(t):
            return ite(t.args[0], self.field(t.args[1], name), self.field(t.args[2], name))
        return call('field', t, name)

    def choice_over(self, pairs, default, st):
        vals = [v for _, v in pairs]
        if all(isinstance(v, (T, View)) for v in vals):
            r = default
            for c, v in reversed(pairs):
                r = ite(c, self.term(v, st), r)
            return r
        return Switch(pairs, default)

    def e_Attribute(self, e, st):
        v = self.ev(e.value, st)
        return self.get_attr(v, e.attr, st, e)

    def get_attr(self, v, name, st, node):
        if isinstance(v, Mod):
            full = v.name + '.' + name
            if v.name in self.P.modules or v.name.split('.')[0] == self.P.package:
                r = self.P.resolve_in(v.name, name)
                if r and r[0] == 'gvar':
                    return self.gvar(r[1], r[2], st, node)
                return self.from_res(r, st, node)
            return self.ext_value(full, st)
        if isinstance(v, Ext):
            return self.ext_value(v.name + '.' + name, st)
        if isinstance(v, ObjRef):
            key = ('attr', v.id, name)
            if key in st.mem:
                return st.mem[key]
            f, c = self.P.method(v.ci, name)
            if f is not None:
                static = name in c.static
                return Fn(f, c.module, owner=c, self_=None if static else v)
            for c in self.P.mro(v.ci):
                if name in c.classvars:
                    return self.ev(c.classvars[name], st)
            if self.P.attr_decl(v.ci, name) is not None:
                self.event('attr-unset', name, (), None, st, node, extra=v)
                return mk('unset', name)
            self.event('attr-missing', name, (), None, st, node, extra=v)
            return fresh_opaque('attr ' + name)
        if isinstance(v, Cls):
            f, c = self.P.method(v.ci, name)
            if f is not None:
                return Fn(f, c.module, owner=c)
            self.event('attr-missing', v.ci.name + '.' + name, (), None, st, node)
            return fresh_opaque('attr')
        if isinstance(v, SuperRef):
            mro = self.P.mro(v.obj.ci)
            k = mro.index(v.owner) if v.owner in mro else -1
            for c in mro[k + 1:]:
                if name in c.methods:
                    return Fn(c.methods[name], c.module, owner=c, self_=v.obj)
            return Ext('object.' + name)
        if isinstance(v, Fn):
            if name == '__name__':
                return string(getattr(v.node, 'name', 'lambda'))
            if ('fnattr', id(v.node), name) in st.mem:
                return st.mem[('fnattr', id(v.node), name)]
            return Bound(v, name)
        if isinstance(v, View):
            if name == 'base':
                if not v.mv and v.arr.kind != 'unknown':
                    self.event('ndarray-base', v.arr.name, (), None, st, node, extra=v.arr)
                if v.dims is None:
                    return View(v.arr, None, False)
                t = self.content(v, st)
                return View(v.arr, tuple(('ax', ZERO, shape(t, k)) for k in range(rank(t))), False) if rank(t) is not None else View(v.arr, None, False)
            if name == 'shape':
                r = self.view_rank(v, st)
                if r is None:
                    return mk('shapeof', self.view_term(v, st))
                return PyTuple([self.view_shape(v, k, st) for k in range(r)])
            if name == 'size':
                r = self.view_rank(v, st)
                if r is not None:
                    return mul(*[self.view_shape(v, k, st) for k in range(r)]) if r else ONE
                return call('size', self.view_term(v, st))
            if name == 'ndim':
                r = self.view_rank(v, st)
                return num(r) if r is not None else call('ndim', self.view_term(v, st))
            if name == 'T':
                t = self.view_term(v, st)
                r = rank(t)
                if r is not None:
                    return A.transpose(t, tuple(reversed(range(r)))) if r > 1 else v
                return call('T', t)
            if name in ('real',):
                return v
            if name == 'dtype':
                if getattr(v.arr, 'elem', None) is not None: return v.arr.elem
                return call('dtype', self.view_term(v, st)) if v.arr.dtype is None else string(v.arr.dtype)
            return Bound(v, name)
        if isinstance(v, T):
            if v.op == 'self':
                key = ('attr', v.id, name)
                if key in st.mem:
                    return st.mem[key]
            if name == 'shape':
                r = rank(v)
                if r is None:
                    return mk('shapeof', v)
                return PyTuple([shape(v, k) for k in range(r)])
            if v.op == 'call' and v.args[0] == 'minimize' and name == 'x':
                x0 = v.args[1][1]
                r = call('minimize.x', v)
                if rank(x0) == 1: A.declare(r, 1, [shape(x0, 0)])
                return self.box(r, st, node)
            if name == 'real' :
                return v
            if name == 'size' and rank(v):
                return mul(*[shape(v, k) for k in range(rank(v))])
            if name == 'T':
                r = rank(v)
                if r is not None:
                    return A.transpose(v, tuple(reversed(range(r)))) if r > 1 else v
                return call('T', v)
            if name == 'ndim' and rank(v) is not None:
                return num(rank(v))
            if name == 'base':
                return v
            if name == 'attrs' and v.op == 'call' and v.args[0] == 'h5':
                from . import h5
                return h5.attrs(v)
            if name == 'itemsize':
                from .dtypes import itemsize
                return itemsize(v)
            return Bound(v, name)
        return Bound(v, name)

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, e, st):
        first = self.ev(e.generators[0].iter, st)
        if isinstance(first, Switch):
            return self.over_switch(first, lambda v: self.new_list(self.comp(e.generators, lambda s: self.ev(e.elt, s), st, e, v), st))
        r = self.comp(e.generators, lambda s: self.ev(e.elt, s), st, e, first)
        return self.new_list(r, st)
    def over_switch(self, v, f):
        return Switch([(c, f(x)) for c, x in v.pairs], v.default if v.default is None or isinstance(v.default, T) else f(v.default))
    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)
    def e_SetComp(self, e, st):
        return call('set', self.term(self.e_ListComp(e, st), st))
    def e_DictComp(self, e, st):
        r = self.comp(e.generators, lambda s: PyTuple([self.ev(e.key, s), self.ev(e.value, s)]), st, e)
        d = DictRef()
        if isinstance(r, tuple):
            st.mem[('dict', d.id)] = {self.term(x.items[0], st): x.items[1] for x in r}
        else:
            st.mem[('dict', d.id)] = call('dictof', r)
        return d

    def comp(self, gens, f, st, node, first=None):
        g = gens[0]
        it = self.iterable(self.ev(g.iter, st) if first is None else first, st, node)
        rest = gens[1:]
        inner = (lambda s: f(s)) if not rest else (lambda s: self.comp(rest, f, s, node))
        saved = dict(st.env)
        try:
            if it[0] == 'const':
                out = []
                symbolic = False
                for x in it[1]:
                    self.assign(g.target, x, st, node)
                    c = conj([truth(self.term(self.ev(q, st), st)) for q in g.ifs] or [TRUE])
                    if c is FALSE:
                        continue
                    v = inner(st)
                    if c is not TRUE:
                        symbolic = True
                        v = mk('ite', c, self.term(v, st), mk('absent'))
                    if rest:
                        if isinstance(v, tuple):
                            out.extend(v); continue
                        return call('flatten', self.term(v, st))
                    out.append(v)
                if symbolic:
                    return call('somelist', *[self.term(x, st) for x in out])
                return tuple(out)
            _, n, elem = it
            i = fresh('q')
            self.loops.append((i, ZERO, n, False, node))
            s = st.copy()
            s.assume(compare('<=', ZERO, i)); s.assume(compare('<', i, n))
            s.env = dict(st.env)
            self.assign(g.target, elem(i, s), s, node)
            c = conj([truth(self.term(self.ev(q, s), s)) for q in g.ifs] or [TRUE])
            if c is not TRUE:
                s.assume(c)
            v = inner(s)
            if rest:
                t = call('flatten', A.mk_alam(i, n, self.term(v, s) if not isinstance(v, tuple) else vec([self.term(x, s) for x in v])))
            else:
                t = self.term(v, s)
                if c is TRUE:
                    t = A.mk_alam(i, n, t)
                else:
                    k = fresh('k')
                    P = S.lam(i, c)
                    cnt = S.summ(i, ZERO, n, S.iverson(c))
                    t = A.mk_alam(k, cnt, subst(t, {i: S.cpt(P, n, k)}))
            self.loops.pop()
            return t
        finally:
            st.env.clear(); st.env.update(saved)

    # ------------------------------------------------------------ iteration
    def iterable(self, v, st, node):
        """('const', [values]) or ('sym', n, elem(i, st))"""
        if isinstance(v, PyTuple):
            return ('const', list(v.items))
        if isinstance(v, ListRef):
            c = st.mem.get(('list', v.id))
            if isinstance(c, tuple):
                return ('const', list(c))
            return self.iterable(self.term(v, st), st, node)
        if isinstance(v, DictRef):
            c = st.mem.get(('dict', v.id))
            if isinstance(c, dict):
                return ('const', list(c))
        if isinstance(v, Range):
            d = sub(v.hi, v.lo)
            if v.step.op == 'num' and d.op == 'num' and v.lo.op == 'num':
                xs = range(int(v.lo.args[0]), int(v.hi.args[0]), int(v.step.args[0]))
                if len(xs) <= self.max_unroll:
                    return ('const', [num(x) for x in xs])
            if v.step is ONE:
                return ('sym', d, lambda i, s: add(v.lo, i))
            n = floordiv(add(d, sub(v.step, ONE)), v.step)
            return ('sym', n, lambda i, s: add(v.lo, mul(v.step, i)))
        if isinstance(v, View):
            r = self.view_rank(v, st)
            n = self.view_shape(v, 0, st)
            if r == 0:
                self.event('iter-scalar', v.arr.name, (), None, st, node)
            if n.op == 'num' and n.args[0] <= self.max_unroll:
                return ('const', [self.read_index(v, [num(k)], st, node) for k in range(int(n.args[0]))])
            return ('sym', n, lambda i, s: self.read_index(v, [i], s, node))
        if isinstance(v, T):
            if v.op in ('tuple', 'vec'):
                return ('const', list(v.args[0]))
            if v.op == 'call' and v.args[0] == 'enumerate':
                inner = self.iterable(v.args[1][0], st, node)
                if inner[0] == 'const':
                    return ('const', [PyTuple([num(k), x]) for k, x in enumerate(inner[1])])
                return ('sym', inner[1], lambda i, s: PyTuple([i, inner[2](i, s)]))
            if v.op == 'str':
                return ('const', [string(c) for c in v.args[0]])
            n = shape(v, 0)
            if n.op == 'num' and n.args[0] <= self.max_unroll:
                return ('const', [sel(v, (num(k),)) for k in range(int(n.args[0]))])
            return ('sym', n, lambda i, s: sel(v, (i,)))
        if isinstance(v, Zip):
            its = [self.iterable(x, st, node) for x in v.parts]
            if all(x[0] == 'const' for x in its):
                return ('const', [PyTuple(list(z)) for z in zip(*[x[1] for x in its])])
            n = next(x[1] for x in its if x[0] == 'sym')
            def el(i, s):
                out = []
                for x in its:
                    out.append(x[2](i, s) if x[0] == 'sym' else sel(vec([self.term(y, s) for y in x[1]]), (i,)))
                return PyTuple(out)
            return ('sym', n, el)
        if isinstance(v, Enum):
            it = self.iterable(v.part, st, node)
            if it[0] == 'const':
                return ('const', [PyTuple([add(v.start, num(k)), x]) for k, x in enumerate(it[1])])
            return ('sym', it[1], lambda i, s: PyTuple([add(v.start, i), it[2](i, s)]))
        n = fresh_opaque('len')
        S.declare_int(n)
        return ('sym', n, lambda i, s: mk('elem', self.term(v, s), i))

    def x_For(self, s, st):
        self.stats['loops'] += 1
        par = False
        if isinstance(s.iter, ast.Call) and call_name(s.iter) == 'prange':
            par = True
            self.parallel_loops.add(s)
            args = [self.term(self.ev(a, st), st) for a in s.iter.args]
            v = Range(ZERO, args[0]) if len(args) == 1 else Range(args[0], args[1], args[2] if len(args) > 2 else ONE)
            it = ('sym', sub(v.hi, v.lo), lambda i, q: add(v.lo, i))
        else:
            v = self.ev(s.iter, st)
            alts = self.alternatives(v)
            if alts is not None:
                return self.for_alternatives(s, st, alts)
            it = self.iterable(v, st, s)
        self.for_over(s, st, v, it, par)

    def alternatives(self, v):
        """[(condition, value)] of a choice between containers (the last one without condition), or None"""
        if isinstance(v, Switch) and v.pairs:
            ps = list(v.pairs)
            if v.default is not None and not isinstance(v.default, T):
                return ps + [(TRUE, v.default)]
            return ps[:-1] + [(TRUE, ps[-1][1])]
        if isinstance(v, Enum):
            a = self.alternatives(v.part)
            return a and [(c, Enum(x, v.start)) for c, x in a]
        if isinstance(v, Zip):
            for k, p in enumerate(v.parts):
                a = self.alternatives(p)
                if a:
                    return [(c, Zip(v.parts[:k] + [x] + v.parts[k + 1:])) for c, x in a]
        return None

    def for_alternatives(self, s, st, alts):
        c, v = alts[0]
        if len(alts) == 1 or c is TRUE:
            more = self.alternatives(v)
            if more is not None:
                return self.for_alternatives(s, st, more)
            return self.for_over(s, st, v, self.iterable(v, st, s), False)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c); s2.assume(neg_c(c))
        self.for_alternatives(s, s1, [(TRUE, v)])
        self.for_alternatives(s, s2, alts[1:])
        self.merge(c, s1, s2, st)

    def guarded(self, v, it, st):
        """the items of a selection from a few places: [(condition, item)]"""
        if not isinstance(v, (View, T)) or it[0] == 'const':
            return None
        t = self.term(v, st)
        if t.op != 'alam':
            return None
        k = fresh('k')
        e = sel(t, (k,))
        cps = [x for x in S.subterms(e) if x.op == 'cpt' and x.args[2] is k and x.args[1].op == 'num' and x.args[1].args[0] <= 8]
        if len(cps) != 1 or S.cpt_count(cps[0]) is not t.args[1]:
            return None
        cp = cps[0]
        r = [(S.apply_lam(cp.args[0], num(j)), subst(e, {cp: num(j)})) for j in range(int(cp.args[1].args[0]))]
        return None if any(occurs(x, k) for c, x in r) else r

    def for_over(self, s, st, v, it, par):
        gs = self.guarded(v, it, st)
        if it[0] == 'const' or gs is not None:
            f = self.frames[-1]
            f.ctl.append({'cont': [], 'brk': []})
            brk_states = []
            for c, x in gs if gs is not None else [(TRUE, x) for x in it[1]]:
                if st.dead:
                    break
                c = self.simp(c, st)
                if c is FALSE:
                    continue
                f.ctl[-1] = {'cont': [], 'brk': f.ctl[-1]['brk']}
                if c is TRUE:
                    self.assign(s.target, x, st, s)
                    self.block(s.body, st)
                    self.join_states(st, f.ctl[-1]['cont'])
                    continue
                s1, s2 = st.copy(), st.copy()
                s1.assume(c); s2.assume(neg_c(c))
                self.assign(s.target, x, s1, s)
                self.block(s.body, s1)
                self.join_states(s1, f.ctl[-1]['cont'])
                self.merge(c, s1, s2, st)
            if s.orelse and not st.dead:
                self.block(s.orelse, st)
            brks = f.ctl.pop()['brk']
            self.join_states(st, brks)
            return
        if v.__class__ is Range and not par and it[1].op == 'num' and it[1].args[0] <= 0:
            return
        self.sym_loop(s, st, it[1], it[2], par)

    def join_states(self, st, states):
        """merge alternative states (with their own path conditions) into st"""
        for o in states:
            if st.dead:
                base = tuple(x for x in o.pc)
                st.set(o)
                st.dead = False
                continue
            common = [x for x in o.pc if x in st.pc]
            c = conj([x for x in o.pc if x not in common] or [TRUE])
            cst = State(dict(st.env), st.mem, common)
            alt = st.copy()
            oo = o.copy()
            base = State(st.env, st.mem, tuple(common))
            self.merge(c, oo, alt, base)
            st.mem, st.pc, st.dead = base.mem, base.pc, False

    # ---- symbolic loops
    def x_While(self, s, st):
        self.stats['loops'] += 1
        cf = self.while_as_for(s, st)
        if cf is not None:
            return self.x_For(cf, st)
        self.gen_loop(s, st, None, None)

    def while_as_for(self, s, st):
        """while v < N: ... v += 1   ->  for loop (v not written elsewhere, N not written)"""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name):
            var, hi = t.left.id, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
            var, hi = t.comparators[0].id, t.left
        else:
            return None
        last = s.body[-1]
        ok = isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == var and isinstance(last.op, ast.Add) \
            and isinstance(last.value, ast.Constant) and last.value.value == 1
        if not ok and isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == var:
            ok = expr_src(last.value).replace(' ', '') in (var + '+1', '1+' + var)
        if not ok:
            return None
        written = set()
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    written.add(n.id)
                if isinstance(n, (ast.Continue, ast.Break, ast.Return)):
                    return None
        if var in written or any(isinstance(n, ast.Name) and n.id in written for n in ast.walk(hi)) or any(isinstance(n, ast.Call) for n in ast.walk(hi)):
            return None
        f = ast.For(target=ast.Name(var, ast.Store()), iter=ast.Call(ast.Name('range', ast.Load()), [ast.Name(var, ast.Load()), hi], []),
                    body=s.body[:-1] or [ast.Pass()], orelse=[])
        ast.copy_location(f, s)
        ast.fix_missing_locations(f)
        f.whilevar = var
        return f

    def snapshot(self, st):
        return dict(st.env), dict(st.mem)

    def changed(self, env0, mem0, s):
        ks = []
        for k, v in s.env.items():
            o = env0.get(k, UNDEF)
            if o is not v and not same_val(o, v):
                ks.append(('env', k))
        for k, v in s.mem.items():
            if k in mem0:
                if mem0[k] is not v and not same_val(mem0[k], v):
                    ks.append(('mem', k))
            elif k[0] in ('gvar', 'attr', 'nl'):
                ks.append(('mem', k))
        return ks

    def getk(self, st, k):
        return (st.env if k[0] == 'env' else st.mem).get(k[1], UNDEF)

    def putk(self, st, k, v):
        (st.env if k[0] == 'env' else st.mem)[k[1]] = v

    def make_mu(self, k, v0, st, isint=False):
        """placeholder for the value of key k at the start of an iteration"""
        tag = str(k[1])
        if isinstance(v0, View):
            t = self.view_term(v0, st)
        elif isinstance(v0, tuple) or isinstance(v0, ListRef):
            t = vec([self.term(x, st) for x in v0]) if isinstance(v0, tuple) else self.term(v0, st)
        elif isinstance(v0, T):
            t = v0
        elif v0 is UNDEF:
            t = ZERO
        elif isinstance(v0, PyTuple):
            return PyTuple([self.make_mu(k, x, st) for x in v0.items])
        elif isinstance(v0, dict):
            return {kk: self.make_mu(k, x, st) for kk, x in v0.items()}
        else:
            return None
        m = fresh('mu_' + tag)
        S._intsyms.discard(m.id)
        r = rank(t)
        if k[0] == 'mem' and k[1][0] == 'list' and isinstance(v0, tuple):
            A.declare(m, None)
            return m
        A.declare(m, r, [shape(t, d) for d in range(r)] if r else None)
        if isint:
            S.declare_int(m)
        return m

    def resized(self, m, v, q):
        """the array held by a variable has another length after the iteration"""
        if not isinstance(m, T) or not rank(m) or not isinstance(v, (T, View)):
            return False
        t = self.term(v, q)
        return rank(t) == rank(m) and shape(t, 0) is not shape(m, 0)

    def grows_inside(self, a, b, k, st):
        """a list of lists of which some get longer in the iteration"""
        if k[0] != 'mem' or k[1][0] != 'list' or not isinstance(a, T) or not isinstance(b, T) or a.op not in ('alam', 'sym'):
            return False
        j = fresh('j')
        x, y = sel(a, (j,)), element(b, j, shape(a, 0))
        if y is None or x is y or x.op == 'vec' and x.args[0] or rank(x) == 0 or rank(y) == 0:
            return False
        return shape(x, 0) is not shape(y, 0)

    def run_body(self, s, st, i, n, elem, par):
        """one symbolic iteration from state st (copied); returns (state, exits)"""
        q = st.copy()
        f = self.frames[-1]
        nret = len(f.returns)
        f.ctl.append({'cont': [], 'brk': []})
        if i is not None:
            q.assume(compare('<=', ZERO, i))
            q.assume(compare('<', i, n))
            self.assign(s.target, elem(i, q), q, s)
        self.block(s.body, q)
        c = f.ctl.pop()
        self.join_states(q, c['cont'])
        rets = f.returns[nret:]
        del f.returns[nret:]
        exits = [LoopExit('break', b) for b in c['brk']] + [LoopExit('return', r[0], r[1]) for r in rets]
        return q, exits

    def sym_loop(self, s, st, n, elem, par):
        if s.orelse:
            self.giveup('for-else', s, st)
        i = fresh('i')
        if par:
            self.par += 1
        self.loops.append((i, ZERO, n, par, s))
        try:
            ok = self._sym_loop(s, st, i, n, elem, par)
        finally:
            self.loops.pop()
            if par:
                self.par -= 1
        if not ok:
            self.gen_loop(s, st, n, elem)

    def carried(self, s, st, mus, nxt):
        """scalars of a parallel loop whose value at the start of an iteration matters"""
        for k, m in mus.items():
            if k[0] != 'env' or not isinstance(m, T):
                continue
            users = sorted(str(x[1]) for x, t in nxt.items() if occurs(passed(t, m) if x == k else t, m))
            if users:
                self.event('carried', k[1], [m], None, st, s, extra=users)

    def _sym_loop(self, s, st, i, n, elem, par):
        env0, mem0 = self.snapshot(st)
        self.mute += 1
        try:
            q, exits = self.run_body(s, st, i, n, elem, par)
            if exits:
                return False
            keys = self.changed(env0, mem0, q)
            grow = set()
            ragged = {k for k in keys if self.grows_inside(self.getk(st, k), self.getk(q, k), k, st)}
            for _ in range(5):
                w = st.copy()
                mus = {}
                for k in keys:
                    v0 = self.getk(st, k)
                    nx = self.getk(q, k)
                    isint = (isinstance(v0, T) and isinstance(nx, T) and S.is_int(v0) and (S.is_int(nx) or nx is mk('num', Fraction(0)))) or \
                        (k[0] == 'env' and self.frames[-1].types.get(k[1]) in ('int', 'long', 'Py_ssize_t', 'size_t'))
                    m = self.make_mu(k, v0, st, isint)
                    if m is None:
                        continue
                    if k in ragged:
                        A.RANK[m.id] = 2
                        A.SHAPE[m.id] = (A.shape(self.term(v0, st), 0),)
                    if k in grow:
                        l = fresh('len')
                        S.declare_nonneg(l)
                        A.declare(m, rank(m), [l] + [shape(m, d) for d in range(1, rank(m))])
                    mus[k] = m
                    if isinstance(v0, tuple) and k[0] == 'mem':
                        self.putk(w, k, m)
                    else:
                        self.putk(w, k, m if v0 is not UNDEF else UNDEF)
                q2, exits = self.run_body(s, w, i, n, elem, par)
                if exits:
                    return False
                e1, m1 = self.snapshot(w)
                more = [k for k in self.changed(e1, m1, q2) if k not in keys]
                longer = [k for k in mus if k not in grow and k[0] == 'env' and self.resized(mus[k], self.getk(q2, k), q2)]
                if longer:
                    grow.update(longer)
                    keys = keys + more
                    continue
                if not more:
                    break
                keys = keys + more
                q = q2
        finally:
            self.mute -= 1
        if q2.dead:
            self.giveup('loop body never completes', s, st)
            return True
        # recurrences
        nxt = {}
        for k in keys:
            if k not in mus or not isinstance(mus[k], T):
                continue
            v = self.getk(q2, k)
            if v is UNDEF:
                continue
            if isinstance(v, tuple):
                v = vec([self.term(x, q2) for x in v])
            elif isinstance(v, dict):
                continue
            nxt[k] = self.term(v, q2)
        if par:
            self.carried(s, st, mus, nxt)
        target = names_of(s.target)
        sol, fin, mid = {}, {}, {}
        todo = dict(nxt)
        progress = True
        while progress and todo:
            progress = False
            for k in list(todo):
                t = todo[k]
                others = [mus[x] for x in todo if x != k]
                if any(occurs(t, m) for m in others):
                    continue
                v0 = self.getk(st, k)
                init = None if v0 is UNDEF else (vec([self.term(x, st) for x in v0]) if isinstance(v0, tuple) else self.term(v0, st))
                r = self.solve(mus[k], init, t, i, n, st, k)
                if r is None:
                    continue
                mid[k], fin[k] = r
                del todo[k]
                progress = True
                if mid[k] is not None:
                    for x in todo:
                        if occurs(todo[x], mus[k]):
                            todo[x] = subst(todo[x], {mus[k]: mid[k]})
                else:
                    # value at the start of an iteration is not expressible: only fine if unused
                    bad = [x for x in todo if occurs(todo[x], mus[k])]
                    if bad:
                        mid[k] = None
        unsolved = list(todo)
        if unsolved:
            # mutually recursive values: canonical loop terms for these, with the solved ones as functions of the counter
            self.fold_solve(unsolved, todo, mus, i, n, st, mid, fin)
        # final pass with events
        w = st.copy()
        for k in keys:
            if k not in mus:
                continue
            v0 = self.getk(st, k)
            if v0 is UNDEF:
                continue
            m = mid.get(k)
            if m is None:
                m = mus[k]
            if isinstance(v0, View):
                self.putk(w, k, m)
            else:
                self.putk(w, k, m)
        q3, _ = self.run_body(s, w, i, n, elem, par)
        last = sub(n, ONE)
        nonempty = self.simp(compare('<', ZERO, n), st)
        for k in keys:
            v0 = self.getk(st, k)
            if k in fin:
                v = fin[k]
                if k[0] == 'env' and isinstance(v, T):
                    v = self.box(v, st, s, k[1])
            else:
                v = self.getk(q3, k)
                if v is UNDEF:
                    continue
                if isinstance(v, (View, PyTuple, ListRef)):
                    t = self.term(v, q3)
                    v = subst(t, {i: last}) if occurs(t, i) else t
                    if isinstance(v, T) and k[0] == 'env':
                        v = self.box(v, st, s, str(k[1]))
                elif isinstance(v, T):
                    v = subst(v, {i: last})
            self.putk(st, k, v)
        for k, v in q3.mem.items():
            if k not in st.mem and k[0] in ('gvar',):
                st.mem[k] = v
        for nm in target:
            if nm in q3.env and ('env', nm) not in fin and ('env', nm) not in keys:
                t = q3.env[nm]
                if isinstance(t, T):
                    st.env[nm] = subst(t, {i: last})
        if hasattr(s, 'whilevar'):
            st.env[s.whilevar] = self.term(self.ev(s.iter.args[1], st), st)
        # facts established by every iteration (assertions) are dropped
        return True

    # ---- solving recurrences
    def solve(self, mu, init, nx, i, n, st, key):
        """returns (value at start of iteration i, value after the loop) or None"""
        nonempty = self.simp(compare('<', ZERO, n), st)
        last = sub(n, ONE)
        if not occurs(nx, mu):
            if init is None:
                return (None, subst(nx, {i: last}))
            fin = ite(nonempty, subst(nx, {i: last}), init)
            md = ite(compare('<', ZERO, i), subst(nx, {i: sub(i, ONE)}), init)
            return (md, fin)
        if init is None:
            return None
        if nx is mu:
            return (init, init)
        # list append
        if key[0] == 'mem' and key[1][0] == 'list':
            r = self.solve_list(mu, init, nx, i, n) or self.solve_bins(mu, init, nx, i, n)
            if r is not None:
                return r
        r = rank(mu)
        if r == 0:
            return self.solve_scalar(mu, init, nx, i, n, st)
        if r is None:
            return None
        if shape(nx, 0) is not shape(mu, 0):
            return self.solve_grow(mu, init, nx, i, n)
        q = self.solve_rows(mu, init, nx, i, n, st) if r > 1 else None
        if q is not None:
            return q
        return self.solve_array(mu, init, nx, i, n, st, (), r)

    def solve_rows(self, mu, init, nx, i, n, st):
        """row i becomes a function of itself, the other rows stay"""
        j = fresh('j')
        row, old = sel(nx, (j,)), sel(mu, (j,))
        if row.op != 'ite' or row.args[0] is not compare('==', i, j) or row.args[2] is not old:
            return None
        own = {t: sel(init, (j,) + t.args[1][1:]) for t in S.subterms(row.args[1]) if t.op == 'sel' and t.args[0] is mu and t.args[1][0] in (i, j)}
        new = subst(subst(row.args[1], own), {i: j})
        if not own or occurs(new, mu):
            return None
        was, N = sel(init, (j,)), shape(mu, 0)
        return A.mk_alam(j, N, ite(compare('<', j, i), new, was)), A.mk_alam(j, N, ite(self.simp(compare('<', j, n), st), new, was))

    def solve_grow(self, mu, init, nx, i, n):
        """x = concatenate(x, piece(i)): the pieces one after the other"""
        l = shape(mu, 0)
        c = TRUE
        if nx.op == 'ite' and mu in nx.args[1:]:
            c, nx = (nx.args[0], nx.args[1]) if nx.args[2] is mu else (neg_c(nx.args[0]), nx.args[2])
            if occurs(c, mu) or occurs(c, l):
                return None
        more = sub(shape(nx, 0), l)
        if occurs(more, l) or occurs(more, mu) or nx.op != 'alam':
            return None
        v = nx.args[0]
        facts = {compare('<', v, l): TRUE}
        w = fresh('w')
        S.declare_int(w); S.declare_nonneg(w)
        head = subst(nx.args[2], facts)
        if head is not sel(mu, (v,)):
            return None
        tail = subst(subst(nx.args[2], {compare('<', v, l): FALSE}), {v: add(l, w)})
        if occurs(tail, l) or occurs(tail, mu):
            return None
        one = more is ONE
        if one:
            tail = subst(tail, {w: ZERO})
        def upto(hi):
            k = fresh('k')
            if one and c is TRUE:
                t = A.mk_alam(k, hi, subst(tail, {i: k}))
            elif one:
                j = fresh('j')
                t = A.mk_alam(k, S.summ(j, ZERO, hi, S.iverson(subst(c, {i: j}))), subst(subst(tail, {c: TRUE}), {i: S.cpt(S.lam(i, c), n, k)}))
            elif c is TRUE:
                t = A.ccat(A.mk_alam(k, hi, subst(A.mk_alam(w, more, tail), {i: k})))
            else:
                piece = A.mk_alam(w, mul(S.iverson(c), more), subst(tail, {c: TRUE}))
                t = A.ccat(A.mk_alam(k, hi, subst(piece, {i: k})))
            return t if shape(init, 0) is ZERO else A.concat([init, t])
        md, fin = upto(i), upto(n)
        return None if md is None or fin is None else (md, fin)

    def solve_list(self, mu, init, nx, i, n):
        def split(t):
            """t == append(mu, v) under conditions -> (cond, v)"""
            if t.op == 'lapp' and t.args[0] is mu:
                return TRUE, t.args[1]
            if t.op == 'ite':
                if t.args[2] is mu:
                    x = split(t.args[1])
                    return (conj([t.args[0], x[0]]), x[1]) if x else None
                if t.args[1] is mu:
                    x = split(t.args[2])
                    return (conj([neg_c(t.args[0]), x[0]]), x[1]) if x else None
                a, b = split(t.args[1]), split(t.args[2])
                if a and b and a[0] is TRUE and b[0] is TRUE:
                    return TRUE, ite(t.args[0], a[1], b[1])
            return None
        x = split(nx)
        if x is None or occurs(x[1], mu) or occurs(x[0], mu):
            return None
        c, v = x
        if c is TRUE:
            fin = A.mk_alam(i, n, v)
            k = fresh('a')
            md = A.mk_alam(k, i, subst(v, {i: k}))
        else:
            k = fresh('a')
            P = S.lam(i, c)
            fin = A.mk_alam(k, S.summ(i, ZERO, n, S.iverson(c)), subst(v, {i: S.cpt(P, n, k)}))
            j = fresh('j')
            md = A.mk_alam(k, S.summ(j, ZERO, i, S.iverson(subst(c, {i: j}))), subst(v, {i: S.cpt(P, n, k)}))
        if init.op == 'vec' and not init.args[0]:
            return md, fin
        f2 = A.concat([init, fin])
        m2 = A.concat([init, md])
        if f2 is None:
            return None
        return m2, f2

    def solve_bins(self, mu, init, nx, i, n):
        """list of lists: each element grows by itself"""
        if rank(mu) != 2:
            return None
        j = fresh('j')
        S.declare_int(j); S.declare_nonneg(j)
        B = element(nx, j, shape(mu, 0), mu)
        if B is None:
            return None
        # only the element itself may be read
        for t in subterms(B):
            if t is not mu and mu in S.kids(t) and not (t.op == 'sel' and t.args[1][0] is j or t is shape(mu, 1)):
                return None
        x = A.declare(fresh('x'), 1)
        S._intsyms.discard(x.id)
        B = subst(subst(B, {shape(mu, 1): shape(x, 0)}), {mu: A.mk_alam(fresh('q'), shape(mu, 0), x)})
        r = self.solve_grow(x, sel(init, (j,)), B, i, n)
        return r and tuple(A.mk_alam(j, shape(mu, 0), t) for t in r)

    def solve_scalar(self, mu, init, nx, i, n, st):
        f = sub(nx, mu)
        if not occurs(f, mu):
            j = fresh('j')
            md = add(init, S.summ(j, ZERO, i, subst(f, {i: j})))
            fin = add(init, S.summ(i, ZERO, n, f))
            return md, fin
        if nx.op == 'max' and mu in nx.args[0]:
            rest = S.tmax(*[x for x in nx.args[0] if x is not mu])
            if not occurs(rest, mu):
                l = S.lam(i, rest)
                return mk('redmax', l, i, init), mk('redmax', l, n, init)
        # multiplicative: mu * f(i)
        if not occurs(div(nx, mu) if nx.op != 'ite' else mu, mu) and nx.op == 'poly':
            f = div(nx, mu)
            l = S.lam(i, f)
            return mul(init, mk('prod', l, i)), mul(init, mk('prod', l, n))
        # flag: ite(c(i), const, mu)
        if nx.op == 'ite' and (nx.args[2] is mu or nx.args[1] is mu):
            c, v = (nx.args[0], nx.args[1]) if nx.args[2] is mu else (neg_c(nx.args[0]), nx.args[2])
            if not occurs(c, mu) and not occurs(v, mu) and not occurs(v, i):
                cnt = lambda hi: S.summ(i, ZERO, hi, S.iverson(c))
                j = fresh('j')
                cm = S.summ(j, ZERO, i, S.iverson(subst(c, {i: j})))
                return ite(compare('<', ZERO, cm), v, init), ite(compare('<', ZERO, cnt(n)), v, init)
        # boolean flags
        if nx.op in ('or', 'and') :
            parts = nx.args[0]
            tm = truth(mu)
            if tm in parts or mu in parts:
                rest = [x for x in parts if x is not tm and x is not mu]
                c = (disj if nx.op == 'or' else conj)(rest)
                if not occurs(c, mu):
                    cc = c if nx.op == 'or' else neg_c(c)
                    j = fresh('j')
                    cm = compare('<', ZERO, S.summ(j, ZERO, i, S.iverson(subst(cc, {i: j}))))
                    cn = compare('<', ZERO, S.summ(i, ZERO, n, S.iverson(cc)))
                    if nx.op == 'or':
                        return disj([truth(init), cm]), disj([truth(init), cn])
                    return conj([truth(init), neg_c(cm)]), conj([truth(init), neg_c(cn)])
        return None

    def solve_array(self, mu, init, nx, i, n, st, idx, r):
        """element-wise; constant-length axes are enumerated"""
        if r == 0:
            x = sel(mu, idx) if idx else mu
            B = sel(nx, idx) if idx else nx
            x0 = sel(init, idx) if idx else init
            if B is x:
                return x0, x0
            return self.solve_cell(mu, idx, x0, B, i, n, st)
        d = len(idx)
        N = shape(mu, d)
        if N.op == 'num' and N.args[0] <= A.UNROLL:
            ms, fs = [], []
            for k in range(int(N.args[0])):
                q = self.solve_array(mu, init, nx, i, n, st, idx + (num(k),), r - 1)
                if q is None:
                    return None
                ms.append(q[0]); fs.append(q[1])
            return (vec(ms), vec(fs))
        # constant-index updates of an array of unknown length
        if nx.op == 'upd' and r == 1 and nx.args[0] is mu:
            ents_m, ents_f = [], []
            for k, v in nx.args[1]:
                x = sel(mu, idx + (k,))
                q = self.solve_elem_at(mu, init, nx, i, n, st, idx + (k,))
                if q is None:
                    return None
                ents_m.append((k, q[0])); ents_f.append((k, q[1]))
            m, f = init, init
            for (k, a), (_, b) in zip(ents_m, ents_f):
                m, f = A.store(m, [k], a), A.store(f, [k], b)
            return m, f
        j = fresh('j')
        q = self.solve_array(mu, init, nx, i, n, st, idx + (j,), r - 1)
        if q is None:
            return None
        return A.mk_alam(j, N, q[0]), A.mk_alam(j, N, q[1])

    def solve_cell(self, mu, idx, x0, B, i, n, st):
        """one element of an array: mu[idx] -> B"""
        x = sel(mu, idx) if idx else mu
        if B is x:
            return x0, x0
        jv = [t for t in idx if t.op == 'sym']
        for eq in equalities(B, jv):
            # where j == e, the element at e is the element at j
            for j in jv:
                e = S.solve_linear(eq.args[1], j)
                if e is not None:
                    xe = sel(mu, tuple(subst(t, {j: e}) for t in idx))
                    if occurs(B, xe):
                        t0, f0 = assume_true(B, eq), assume_false(B, eq)
                        t1 = subst(t0, {xe: x})
                        if f0 is x and t1 is not t0 and t1.op == 'ite' and x in t1.args[1:]:
                            B = ite(eq, t1, f0)
        for eq in equalities(B, jv):
            if assume_false(B, eq) is not x:
                continue
            for j in jv:
                e = S.solve_linear(eq.args[1], j)
                if e is None:
                    continue
                if occurs(e, i):
                    # the element is read and written through the very index that selects it
                    xe = sel(mu, tuple(subst(t, {j: e}) for t in idx))
                    mark = fresh('x')
                    S._intsyms.discard(mark.id); A.declare(mark, 0)
                    Bm = subst(assume_true(B, eq), {xe: mark, x: mark})
                    if occurs(Bm, mu):
                        continue
                    r = self.solve_elem(mark, x0, ite(eq, Bm, mark), i, n, st, jv)
                    if r is not None:
                        return r
                    continue
                r = self.solve_cell(mu, tuple(subst(t, {j: e}) for t in idx), subst(x0, {j: e}), subst(assume_true(B, eq), {j: e}), i, n, st)
                if r is not None:
                    return ite(eq, r[0], x0), ite(eq, r[1], x0)
        # the array may only be read at this very element
        mark = fresh('x')
        S._intsyms.discard(mark.id); A.declare(mark, 0)
        Bm = subst(B, {x: mark})
        if occurs(Bm, mu):
            return None
        return self.solve_elem(mark, x0, Bm, i, n, st, jv)

    def solve_elem_at(self, mu, init, nx, i, n, st, idx):
        x = sel(mu, idx)
        B = sel(nx, idx)
        x0 = sel(init, idx)
        mark = fresh('x')
        S._intsyms.discard(mark.id); A.declare(mark, 0)
        Bm = subst(B, {x: mark})
        if occurs(Bm, mu):
            # reads of other elements that the loop does not change
            return None
        return self.solve_elem(mark, x0, Bm, i, n, st, [])

    def solve_elem(self, x, x0, B, i, n, st, jvars):
        """recurrence x -> B(x, i) for one array element"""
        nonempty = self.simp(compare('<', ZERO, n), st)
        if not occurs(B, x) and not occurs(B, i):
            return ite(compare('<', ZERO, i), B, x0), ite(nonempty, B, x0)
        # element touched only where an equality holds
        for eq in equalities(B, jvars):
            B0 = assume_false(B, eq)
            if B0 is not x:
                continue
            sol = S.solve_linear(eq.args[1], i)
            if sol is not None:
                B1 = assume_true(B, eq)
                val = subst(B1, {x: x0, i: sol})
                rng = [compare('<=', ZERO, sol), compare('<', sol, n)]
                fin = ite(conj([self.simp_rng(c, jvars, st) for c in rng]), val, x0)
                md = ite(conj([self.simp_rng(rng[0], jvars, st), compare('<', sol, i)]), val, x0)
                return md, fin
            # prefix count index
            for j in jvars:
                e = S.solve_linear(eq.args[1], j)
                if e is None:
                    continue
                if not occurs(e, i):
                    r = self.solve_scalar(x, x0, assume_true(B, eq), i, n, st)
                    if r is not None:
                        return ite(eq, r[0], x0), ite(eq, r[1], x0)
                    continue
                got = self.prefix_count(e, i)
                if got is None:
                    continue
                P, off = got                       # e(i) = count_{k<i} P(k) + off
                B1 = assume_true(B, eq)
                v = assume_cond(B1, P, True)
                if assume_cond(B1, P, False) is not x:
                    continue
                v = subst(v, {x: x0})           # each element is touched at most once
                jj = sub(j, off)
                k = fresh('k')
                lamP = S.lam(i, P)
                cp = S.cpt(lamP, n, jj)
                # inside v, the prefix count at the jj-th selected index is jj
                cnt_i = sub(e, off)
                v = subst(v, {cnt_i: jj}) if cnt_i.op not in ('poly', 'num') else v
                v = subst(v, {i: cp})
                cntn = S.summ(i, ZERO, n, S.iverson(P))
                cnti = S.summ(k, ZERO, i, S.iverson(subst(P, {i: k})))
                lowc = compare('<=', ZERO, jj)
                if jj is j:
                    lowc = TRUE
                return ite(conj([lowc, compare('<', jj, cnti)]), v, x0), ite(conj([lowc, compare('<', jj, cntn)]), v, x0)
        r = self.solve_scalar(x, x0, B, i, n, st)
        if r is not None:
            return r
        if not occurs(B, x):
            last = sub(n, ONE)
            return ite(compare('<', ZERO, i), subst(B, {i: sub(i, ONE)}), x0), ite(nonempty, subst(B, {i: last}), x0)
        return None

    def simp_rng(self, c, jvars, st):
        """conditions on an element index that hold for every index of the array"""
        if c.op == 'cmp' and c.args[0] == '<=':
            p = S.to_poly(c.args[1])
            if len(p) == 1:
                (m, k), = p.items()
                if len(m) == 1 and m[0][0] in jvars and m[0][1] == 1 and k < 0:
                    return TRUE
        return self.simp(c, st)

    def prefix_count(self, e, i):
        """e = off + SUM_{k<i} [P(k)] -> (P(i), off)"""
        for m, c in S.to_poly(e).items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
                t = m[0][0]
                nv, lo, hi, b = t.args
                if lo is ZERO and hi is i:
                    off = sub(e, t)
                    if occurs(off, i):
                        continue
                    if b.op == 'iver':
                        return subst(b.args[0], {nv: i}), off
                    c1 = sub(ONE, b)
                    if c1.op == 'iver':
                        return neg_c(subst(c1.args[0], {nv: i})), off
        # i - SUM [Q]  (count of the complement)
        r = sub(i, e)
        for m, c in S.to_poly(r).items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
                t = m[0][0]
                nv, lo, hi, b = t.args
                if lo is ZERO and hi is i and b.op == 'iver':
                    off = sub(r, t)
                    if occurs(off, i):
                        continue
                    return neg_c(subst(b.args[0], {nv: i})), neg(off)
        return None

    def fold_solve(self, unsolved, nxt, mus, i, n, st, mid, fin):
        """general counted loop: canonical loop term for mutually dependent values"""
        cnt = fresh('cnt')
        inits, nexts = {}, {}
        for k in unsolved:
            v0 = self.getk(st, k)
            inits[k] = mk('undef') if v0 is UNDEF else (vec([self.term(x, st) for x in v0]) if isinstance(v0, tuple) else self.term(v0, st))
            nexts[k] = nxt[k]
        L = canon_loop({**{mus[k]: (inits[k], nexts[k]) for k in unsolved}, i: (ZERO, add(i, ONE))}, compare('<=', n, i), i)
        for k in unsolved:
            mid[k] = None
            fin[k] = L(mus[k])
        if not self.mute:
            self.unsupported.append('recurrence %s at %s' % (', '.join(str(k[1]) for k in unsolved), self.where(self.loops[-1][4] if self.loops else None)))

    # ---- general loops (while, loops with exits)
    def gen_loop(self, s, st, n, elem):
        i = None
        if n is not None:
            i = fresh('i')
        env0, mem0 = self.snapshot(st)
        f = self.frames[-1]

        def iteration(w):
            q = w.copy()
            if i is not None:
                c = compare('<', i, n)
                q.assume(compare('<=', ZERO, i))
            else:
                c = self.simp(truth(self.term(self.ev(s.test, q), q)), q)
            stop = q.copy()
            stop.assume(neg_c(c))
            q.assume(c)
            exits = []
            if c is not TRUE:
                exits.append(LoopExit('normal', stop))
            r, ex = self.run_body_general(s, q, i, n, elem)
            return r, exits + ex

        self.loops.append((i if i is not None else mk('sym', '\0while'), ZERO, n if n is not None else mk('inf', 1), False, s))
        self.mute += 1
        lates = set()
        try:
            q, exits = iteration(st)
            keys = self.changed(env0, mem0, q) if not q.dead else []
            # keys changed on continuing paths only matter; exits carry their own state
            mus = {}
            for _ in range(5):
                w = st.copy()
                mus = {}
                for k in keys:
                    v0 = self.getk(st, k)
                    nx = self.getk(q, k)
                    isint = (isinstance(v0, T) and isinstance(nx, T) and S.is_int(v0) and S.is_int(nx) and (k[0] != 'env' or 'int' in (self.frames[-1].types.get(k[1]) or 'int'))) or \
                        (k[0] == 'env' and self.frames[-1].types.get(k[1]) in ('int', 'long', 'Py_ssize_t', 'size_t'))
                    late = v0 is UNDEF and k[0] == 'env' and isinstance(nx, T) and rank(nx) == 0
                    m = self.make_mu(k, v0, st, isint or late and S.is_int(nx))
                    if m is None:
                        continue
                    mus[k] = m
                    if v0 is not UNDEF or late:
                        lates.add(k) if late else None
                        self.putk(w, k, m)
                q2, exits = iteration(w)
                if q2.dead:
                    break
                e1, m1 = self.snapshot(w)
                more = [k for k in self.changed(e1, m1, q2) if k not in keys]
                q = q2
                if not more:
                    break
                keys = keys + more
        finally:
            self.mute -= 1
        # events (arguments may mention the iteration placeholders)
        w = st.copy()
        for k, m in mus.items():
            if self.getk(st, k) is not UNDEF or k in lates:
                self.putk(w, k, m)
        deaths = self.deaths
        q, exits = iteration(w)
        self.loops.pop()
        ways = [conj([x for x in z.pc if x not in st.pc] or [TRUE]) for z in ([] if q.dead else [q]) + [ex.state for ex in exits]]
        lost = S.neg_c(disj(ways)) if self.deaths > deaths else FALSE
        base = len(st.pc)
        sys_ = {}
        for k, m in mus.items():
            if not isinstance(m, T):
                continue
            v0 = self.getk(st, k)
            init = mk('undef') if v0 is UNDEF else (vec([self.term(x, st) for x in v0]) if isinstance(v0, tuple) else self.term(v0, st))
            if q.dead:
                nx = m
            else:
                v = self.getk(q, k)
                nx = vec([self.term(x, q) for x in v]) if isinstance(v, tuple) else self.term(v, q) if v is not UNDEF else mk('undef')
            sys_[m] = (init, nx)
        if i is not None:
            sys_[i] = (ZERO, add(i, ONE))
        guards = []
        for ex in exits:
            guards.append(conj([x for x in ex.state.pc if x not in st.pc] or [TRUE]))
        sys_ = refine_compactions(sys_, self)
        (sys_, backmap) = sys_
        if backmap:
            guards = [subst(g, backmap) for g in guards]
            lost = subst(lost, backmap)
        stop = disj(guards + [lost])
        L = canon_loop(sys_, stop, i)
        inits = {m: iv for m, (iv, nx) in sys_.items()}
        done_states = []
        rec = {'node': s, 'sys': sys_, 'stop': stop, 'exits': [], 'mus': mus, 'stack': tuple(self.stack), 'backmap': backmap,
               'pc': st.pc, 'module': self.frames[-1].module}
        for ex, g in zip(exits, guards):
            # can the loop stop here before the first iteration?
            g0 = self.simp(subst(g, inits), st)
            if g0 is FALSE:
                prev = {m: L.prev(m) for m in sys_}
                smap = {m: subst(nx, prev) for m, (iv, nx) in sys_.items()}
            else:
                smap = {m: L(m) for m in sys_}
            full = dict(smap)
            if backmap:
                for m, t in backmap.items():
                    full[m] = subst(t, smap)
            e = ex.state
            out = st.copy()
            for k, v in list(e.env.items()):
                out.env[k] = self.subst_val(v, full, e, mus)
            for k, v in list(e.mem.items()):
                if isinstance(v, (T, tuple, dict)):
                    out.mem[k] = self.subst_val(v, full, e, mus)
                else:
                    out.mem[k] = v
            out.pc = st.pc
            gg = subst(g, smap)
            rec['exits'].append((ex.kind, g, gg, ex, smap))
            out.assume(gg)
            if ex.kind == 'return':
                val = self.subst_val(ex.value, full, e, mus)
                f.returns.append((out, val))
            else:
                done_states.append(out)
        if not self.mute:
            self.loop_records.append(rec)
        if not done_states:
            st.dead = True
            return
        first = done_states[0]
        st.set(first)
        self.join_states(st, done_states[1:])
        if s.orelse:
            self.block(s.orelse, st)

    def run_body_general(self, s, q, i, n, elem):
        f = self.frames[-1]
        nret = len(f.returns)
        f.ctl.append({'cont': [], 'brk': []})
        if i is not None:
            self.assign(s.target, elem(i, q), q, s)
        self.block(s.body, q)
        c = f.ctl.pop()
        self.join_states(q, c['cont'])
        rets = f.returns[nret:]
        del f.returns[nret:]
        return q, [LoopExit('break', b) for b in c['brk']] + [LoopExit('return', r[0], r[1]) for r in rets]

    def subst_val(self, v, mp, st, mus):
        if isinstance(v, T):
            return subst(v, mp)
        if isinstance(v, PyTuple):
            return PyTuple([self.subst_val(x, mp, st, mus) for x in v.items])
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, mp, st, mus) for x in v)
        if isinstance(v, dict):
            return {k: self.subst_val(x, mp, st, mus) for k, x in v.items()}
        if isinstance(v, View) and v.dims is not None:
            nd = tuple(tuple(subst(y, mp) if isinstance(y, T) else y for y in d) for d in v.dims)
            return View(v.arr, nd, v.mv)
        return v

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        from . import calls
        return calls.eval_call(self, e, st)

    def list_extend(self, l, v, st, node):
        c = st.mem.get(('list', l.id))
        self.event('mutate', 'extend', [self.term(v, st)], None, st, node, extra=l)
        cv = None
        if isinstance(v, ListRef):
            cv = st.mem.get(('list', v.id))
        elif isinstance(v, PyTuple):
            cv = v.items
        if isinstance(c, tuple) and isinstance(cv, tuple):
            st.mem[('list', l.id)] = c + tuple(cv)
            return
        t = A.concat([self.term(l, st), self.term(v, st)])
        st.mem[('list', l.id)] = t if t is not None else call('listcat', self.term(l, st), self.term(v, st))

    def call_fn(self, fn, args, kw, st, node, env_extra=None):
        """inline a repository function; returns its merged value"""
        nd = fn.node
        name = getattr(nd, 'name', 'lambda')
        if len(self.stack) >= MAXDEPTH or sum(1 for f in self.frames if f.fn is nd) >= 2:
            self.giveup('call depth ' + name, node, st)
            return fresh_opaque('call ' + name)
        self.stats['calls'] += 1
        fr = Frame(nd, fn.module, name)
        fr.closure = fn.closure
        env = {}
        if fn.self_ is not None:
            args = [fn.self_] + list(args)
        ok = self.bind_args(nd, args, kw, env, st, node, fr)
        callee = State(env, st.mem, st.pc)
        self.frames.append(fr)
        self.stack.append(name)
        self.inlined.add((fn.module.name if fn.module else '?', name))
        entry = st.pc
        gen = is_generator(nd)
        if gen:
            callee.env['\0gen'] = self.new_list((), callee, 'generator')
        try:
            if isinstance(nd, ast.Lambda):
                v = self.ev(nd.body, callee)
                fr.returns.append((callee.copy(), v))
                callee.dead = True
            else:
                self.block(nd.body, callee)
                if not callee.dead:
                    fr.returns.append((callee.copy(), NONE))
        finally:
            self.frames.pop()
            self.stack.pop()
        rets = fr.returns
        if not rets:
            st.dead = True
            return fresh_opaque('noreturn ' + name)
        # merge the returns, last one as the default
        pcs = [conj([x for x in s1.pc if x not in entry] or [TRUE]) for s1, v1 in rets]
        cur = self.merge_returns(rets, entry)
        st.mem = dict(cur.mem)
        st.pc = entry
        alive = disj(pcs)
        if alive is not TRUE and len(rets) >= 1:
            if not (len(rets) > 1 and alive.op == 'or' and len(alive.args[0]) > 6):
                st.assume(alive)
        v = cur.env['\0r']
        if gen:
            return callee.env['\0gen']
        return v

    def merge_returns(self, rets, entry):
        """the alternative ends of a call as one state; exactly one of them happens"""
        if len(rets) == 1:
            s0, v0 = rets[0]
            return State({'\0r': v0}, s0.mem, entry)
        own = [set(x for x in s1.pc if x not in entry) for s1, v1 in rets]
        for p in [x for x in rets[0][0].pc if x not in entry]:
            q = neg_c(p)
            A = [r for r, o in zip(rets, own) if p in o]
            B = [r for r, o in zip(rets, own) if q in o]
            if B and len(A) + len(B) == len(rets):
                a, b = self.merge_returns(A, entry), self.merge_returns(B, entry)
                res = State({}, {}, entry)
                self.merge(p, a, b, res)
                return res
        s1, v1 = rets[0]
        c = conj([x for x in s1.pc if x not in entry] or [TRUE])
        res = State({}, {}, entry)
        self.merge(c, State({'\0r': v1}, s1.mem, entry), self.merge_returns(rets[1:], entry), res)
        return res

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        from . import calls
        calls.list_method(self, st.env['\0gen'], 'append', [v], {}, st, e)
        return NONE

    def bind_args(self, nd, args, kw, env, st, node, fr):
        a = nd.args
        pos = list(a.posonlyargs) + list(a.args)
        names = [x.arg for x in pos]
        fname = getattr(nd, 'name', 'lambda')
        vals = {}
        extra = []
        for k, v in enumerate(args):
            if k < len(names):
                vals[names[k]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None:
            self.event('arity', '%s takes %d arguments, %d given' % (fname, len(names), len(args)), (), None, st, node)
        kwn = [x.arg for x in a.kwonlyargs]
        kx = {}
        for k, v in kw.items():
            if k in names or k in kwn:
                if k in vals:
                    self.event('arity', '%s got multiple values for %s' % (fname, k), (), None, st, node)
                vals[k] = v
            elif a.kwarg is not None:
                kx[k] = v
            elif k != '**':
                self.event('arity', '%s has no parameter %s' % (fname, k), (), None, st, node)
        ndef = len(a.defaults)
        modst = State({}, st.mem, st.pc)
        for k, nm in enumerate(names):
            if nm not in vals:
                di = k - (len(names) - ndef)
                if di >= 0:
                    self.frames.append(Frame(nd, nd_module(nd, fr), fname))
                    dv = self.ev(a.defaults[di], modst)
                    self.frames.pop()
                    if isinstance(dv, (ListRef, DictRef)):
                        dv.kind = 'default'
                        dv.name = '%s(%s=)' % (fname, nm)
                        st.mem.update({q: x for q, x in modst.mem.items() if q not in st.mem})
                    vals[nm] = dv
                elif '**' not in kw:
                    self.event('arity', '%s missing argument %s' % (fname, nm), (), None, st, node)
                    vals[nm] = fresh_opaque('missing arg')
                else:
                    vals[nm] = call('getkw', string(nm))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals:
                vals[x.arg] = self.ev(d, modst) if d is not None else fresh_opaque('missing kw')
        if a.vararg is not None:
            env[a.vararg.arg] = PyTuple(extra)
        if a.kwarg is not None:
            d = DictRef()
            st.mem[('dict', d.id)] = {string(k): v for k, v in kx.items()}
            env[a.kwarg.arg] = d
        for x in pos + a.kwonlyargs:
            v = vals[x.arg]
            ct = getattr(x, 'ctype', None)
            if ct:
                fr.types[x.arg] = ct
                if '[' in ct:
                    if isinstance(v, T) and (rank(v) or 0) > 0:
                        v = self.new_array(v, x.arg, node, st)
                    if isinstance(v, View):
                        v = View(v.arr, v.dims, True)
            elif isinstance(v, T) and (rank(v) or 0) > 0:
                v = self.new_array(v, x.arg, node, st)
            env[x.arg] = v
        return True

def holds_tuple(t):
    return t.op == 'tuple' or t.op == 'ite' and (holds_tuple(t.args[1]) or holds_tuple(t.args[2]))

def is_none(t):
    """condition of t being None where the alternatives show it, else None"""
    if t.op == 'none':
        return TRUE
    if t.op in ('tuple', 'vec', 'num', 'str', 'bool', 'dict', 'alam', 'poly', 'upd', 'updf'):
        return FALSE
    if t.op == 'ite' and rank(t.args[0]) in (0, None):
        a, b = is_none(t.args[1]), is_none(t.args[2])
        if a is not None and b is not None:
            return disj([conj([t.args[0], a]), conj([neg_c(t.args[0]), b])])
    return None

class Choice:
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
class Switch:
    def __init__(self, pairs, default): self.pairs, self.default = pairs, default
class Zip:
    def __init__(self, parts): self.parts = parts
class Enum:
    def __init__(self, part, start): self.part, self.start = part, start

def nd_module(nd, fr):
    return fr.module

def same_val(a, b):
    if isinstance(a, View) and isinstance(b, View):
        return a.arr is b.arr and a.dims == b.dims
    if isinstance(a, (Fn,)) and isinstance(b, Fn):
        return a.node is b.node
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.name == b.name
    if isinstance(a, Mod) and isinstance(b, Mod):
        return a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(x is y or same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        return all(a[k] is b[k] or same_val(a[k], b[k]) for k in a)
    if isinstance(a, PyTuple) and isinstance(b, PyTuple) and len(a.items) == len(b.items):
        return all(x is y or same_val(x, y) for x, y in zip(a.items, b.items))
    return False

_opq = [0]
def fresh_opaque(what):
    _opq[0] += 1
    t = mk('sym', '\0opaque', what, _opq[0])
    A.declare(t, None)
    return t

def is_boolt(t):
    if t.op in ('cmp', 'and', 'or', 'not', 'bool', 'eq', 'rel', 'pred', 'truth'):
        return True
    if t.op == 'call' and t.args[0] in ('isnan', 'isfinite', 'isinf'):
        return True
    if t.op == 'sel':
        return is_boolt(t.args[0]) or t.args[0].id in BOOLARR
    if t.op == 'alam':
        return is_boolt(t.args[2])
    if t.op == 'vec':
        return bool(t.args[0]) and all(is_boolt(x) for x in t.args[0])
    if t.op == 'ite':
        return is_boolt(t.args[1]) and is_boolt(t.args[2])
    return t.id in BOOLARR
BOOLARR = set()

def is_strish(t):
    return t.op in ('str', 'strcat', 'fmt') or t.id in STRS or (t.op == 'call' and t.args[0] in ('str', '.replace', '.lower', '.upper', '.strip')) \
        or (t.op == 'ite' and (is_strish(t.args[1]) or is_strish(t.args[2])))
STRS = set()
NUMS = S._numbers      # symbols of real numbers given by the caller
def declare_str(t):
    STRS.add(t.id)
    return t

def identifiers(t):
    """the term is made of particle identifiers, which need all digits of an integer"""
    def one(x):
        if x.op != 'call': return False
        if x.args[0] == 'h5': return any(y.op == 'str' and y.args[0].endswith('ParticleIDs') for y in S.subterms(x))
        return str(x.args[0]).endswith(('read_block', 'read_field')) and any(y.op == 'str' and y.args[0] == 'ID  ' for y in S.kids(x))
    return isinstance(t, T) and t.op != 'num' and S.contains(t, one)

def ids_as_float(t):
    """identifiers as floating-point numbers"""
    if not identifiers(t): return t
    def f(x):
        y = call('as_float', x)
        A.declare(y, 0)
        return y
    return A.arrmap(f, t) or f(t)

def strcat(parts):
    out = []
    for p in parts:
        if p.op == 'strcat':
            ps = p.args[0]
        else:
            ps = (p,)
        for x in ps:
            if x.op == 'num' and getattr(x.args[0], 'denominator', 0) == 1:
                x = string(str(int(x.args[0])))
            if x.op == 'str' and x.args[0] == '':
                continue
            if x.op == 'str' and out and out[-1].op == 'str':
                out[-1] = string(out[-1].args[0] + x.args[0])
            else:
                out.append(x)
    if not out:
        return string('')
    # distribute over a conditional string
    if len(out) == 1 and (out[0].op in ('str',)):
        return out[0]
    if len(out) == 1 and is_strish(out[0]):
        return out[0]
    return mk('strcat', tuple(out))
S.REBUILD['strcat'] = lambda a: strcat(a[0])

def percent_format(t, args):
    import re
    if t.op != 'str':
        return call('percent', t, *args)
    parts, k, pos = [], 0, 0
    for m in re.finditer(r'%([-+ #0]*\d*(?:\.\d+)?)([sdifegrxX%])', t.args[0]):
        parts.append(string(t.args[0][pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
            parts.append(string('%'))
            continue
        if k >= len(args):
            return call('percent', t, *args)
        spec = m.group(1)
        a = args[k]
        k += 1
        parts.append(a if not spec and m.group(2) in 'sdi' else mk('fmt', spec + m.group(2), a))
    parts.append(string(t.args[0][pos:]))
    return strcat(parts)

def powt(a, b):
    """a ** b with symbolic exponent: constant multiples move into the base"""
    if a.op == 'num' and a.args[0] == 1:
        return ONE
    if b.op == 'num':
        return power(a, b.args[0])
    # a**(b+k) = a**k * a**b for rational k
    p = S.to_poly(b)
    k = p.pop((), None)
    rest = S.from_poly(p)
    head = power(a, k) if k else ONE
    # canonical sign of the exponent
    first = min(p, key=lambda m: tuple((x.id, e) for x, e in m))
    # (x*y)**b = x**b * y**b for single monomials
    d = S.to_poly(a)
    out = head
    if len(d) == 1:
        (m, c), = d.items()
        fs = [(x, e) for x, e in m]
        if c != 1:
            fs.append((mk('num', c), Fraction(1)))
        if len(fs) > 1 or (fs and fs[0][1] != 1):
            for x, e in fs:
                out = mul(out, powt1(x, mul(num(e), rest)))
            return out
    return mul(head, powt1(a, rest))

def powt1(a, b):
    p = S.to_poly(b)
    if not p:
        return ONE
    # sum exponents split: a**(u+v) = a**u * a**v ; coefficients as outer powers
    r = ONE
    for m, c in p.items():
        base = S.from_poly({m: Fraction(1)})
        r = mul(r, power(call('powt', a, base), c))
    return r
S.REBUILD['call'] = lambda a: _call_rebuild(a)

CALL_REBUILD = {'powt': lambda args: powt(*args)}
def _call_rebuild(a):
    f = CALL_REBUILD.get(a[0])
    if f is not None and not a[2]:
        return f(a[1])
    return mk('call', *a)

def ite_raw(c, a, b):
    return mk('ite', c, a, b)

def names_of(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

def equalities(B, jvars):
    out = []
    for t in subterms(B):
        if t.op == 'cmp' and t.args[0] in ('==', '!=') and any(occurs(t, j) for j in jvars):
            e = t if t.args[0] == '==' else neg_c(t)
            if e not in out:
                out.append(e)
    return out

def is_generator(nd):
    if isinstance(nd, ast.Lambda):
        return False
    g = getattr(nd, '_isgen', None)
    if g is None:
        g, todo = False, list(nd.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                g = True
                break
            todo.extend(ast.iter_child_nodes(x))
        nd._isgen = g
    return g

def assume_false(t, c):
    return subst(t, {c: FALSE, neg_c(c): TRUE}) if c.op != 'bool' else t

def assume_true(t, c):
    return subst(t, {c: TRUE, neg_c(c): FALSE}) if c.op != 'bool' else t

def assume_cond(t, c, val):
    """replace the conjuncts of c (val True) or c itself (val False) inside t"""
    if c is TRUE or c is FALSE:
        return t
    mp = {c: TRUE if val else FALSE, neg_c(c): FALSE if val else TRUE}
    if c.op == 'and':
        if val:
            for x in c.args[0]:
                mp[x] = TRUE
                mp[neg_c(x)] = FALSE
            return subst(t, mp)
        # false: conditions that contain all conjuncts become false
        cs = set(x.id for x in c.args[0])
        for x in subterms(t):
            if x.op == 'and' and cs <= set(y.id for y in x.args[0]):
                mp[x] = FALSE
            if x.op == 'iver' and x.args[0].op == 'and' and cs <= set(y.id for y in x.args[0].args[0]):
                mp[x] = ZERO
        return subst(t, mp)
    if c.op == 'or' and not val:
        for x in c.args[0]:
            mp[x] = FALSE
            mp[neg_c(x)] = TRUE
        return subst(t, mp)
    if c.op == 'or' and val:
        ns = set(neg_c(x).id for x in c.args[0])
        for x in subterms(t):
            if x.op == 'and' and ns <= set(y.id for y in x.args[0]):
                mp[x] = FALSE
        return subst(t, mp)
    return subst(t, mp)

# ---------------------------------------------------------------- canonical loops
class CanonLoop:
    def __init__(self, stop, colours, mus):
        self.stop, self.colours, self.mus = stop, colours, mus
    def __call__(self, m):
        return self._mk('lmu', m)
    def prev(self, m):
        return self._mk('lprev', m)
    def _mk(self, op, m):
        r = rank(m)
        op = op + ('i' if S.is_int(m) else '')
        sh = tuple(shape(m, d) for d in range(r)) if r else ()
        t = mk(op, self.stop, self.colours[m], NONE if r is None else num(r), sh)
        return t

S.INTOPS.update({'lmui', 'lprevi', 'lvi'})

def _lrank(t):
    a = t.args[2]
    return None if a is NONE else int(a.args[0])

_old_rank = A._rank
def _rank2(t):
    if t.op in ('lmu', 'lmui', 'lprev', 'lprevi'):
        return _lrank(t)
    if t.op in ('lv', 'lvi'):
        return None if t.args[1] is NONE else int(t.args[1].args[0])
    if t.op == 'memb':
        return 1
    if t.op in ('redmax', 'prod', 'lcnt'):
        return 0
    if t.op == 'scatter':
        return rank(t.args[0])
    if t.op == 'updf':
        return rank(t.args[0])
    if t.op == 'call':
        f = CALLRANK.get(t.args[0])
        if f is not None:
            return f(t) if callable(f) else f
    if t.op == 'item' and t.args[0].op == 'call':
        f = ITEMRANK.get((t.args[0].args[0], t.args[1]))
        if f is not None:
            return f
    return _old_rank(t)
A._rank = _rank2
CALLRANK, ITEMRANK = {'calcMode': 1, 'calcCoM': 1, 'fitDensProfHelper': 2, 'calcDensProfsSphDirectBinning': 2, 'calcDensProfsEllDirectBinning': 2, 'calcDensProfsKernelBased': 2}, {}

def in_term(x, t):
    if t.op == 'call' and t.args[0] == '.keys' and len(t.args[1]) == 1:
        t = t.args[1][0]
    while t.op == 'updf' and x.op == 'str':
        if t.args[1] is x:
            return TRUE
        t = t.args[0]
    if t.op == 'ite' and rank(t.args[0]) == 0 and has_updf(t):
        return disj([conj([t.args[0], in_term(x, t.args[1])]), conj([neg_c(t.args[0]), in_term(x, t.args[2])])])
    return mk('pred', 'in', x, t)

def has_updf(t):
    return t.op == 'updf' or t.op == 'ite' and (has_updf(t.args[1]) or has_updf(t.args[2]))

def updf(t, name, v):
    """record t with one field replaced; fields in order of their names"""
    if t.op == 'ite' and rank(t.args[0]) == 0:
        return ite(t.args[0], updf(t.args[1], name, v), updf(t.args[2], name, v))
    if t.op == 'updf':
        if t.args[1] is name:
            return updf(t.args[0], name, v)
        if t.args[1].args[0] > name.args[0]:
            return mk('updf', updf(t.args[0], name, v), t.args[1], t.args[2])
    return mk('updf', t, name, v)

def floordiv(a, b):
    """quotient rounded down; quotients rounded up, written in whichever way, get one form"""
    if S.is_int(a) and S.is_int(b) and b.op != 'num':
        if a.op == 'poly':
            n = len(a.args[0])
            if all(c < 0 for m, c in a.args[0]):
                return neg(ceildiv(neg(a), b))
            r = add(sub(a, b), ONE)
            if (len(r.args[0]) if r.op == 'poly' else 1) < n:
                return ceildiv(r, b)
    return call('floordiv', a, b)

def ceildiv(a, b):
    return sub(add(floordiv(a, b), ONE), S.iverson(compare('==', call('mod', a, b), ZERO)))

def quotient(x):
    """(a, b) with x = a/b for integers, or None"""
    if x.op == 'poly':
        for m, c in x.args[0]:
            for z, e in m:
                if e == -1 and S.is_int(z):
                    a = mul(x, z)
                    if S.is_int(a) and not S.occurs(a, power(z, -1)):
                        return a, z
    return None

def _carry(t, r, f):
    if r.id == t.id or r.op != t.op:
        return
    if t.id in A.RANK and r.id not in A.RANK:
        A.RANK[r.id] = A.RANK[t.id]
        if t.id in A.SHAPE:
            A.SHAPE[r.id] = tuple(f(x) for x in A.SHAPE[t.id])
    if t.id in STRS:
        STRS.add(r.id)
    if t.id in BOOLARR:
        BOOLARR.add(r.id)
S.CARRY = _carry

_old_shape = A.shape
def _shape2(t, k):
    if t.op in ('lmu', 'lmui', 'lprev', 'lprevi') and t.args[3]:
        sh = t.args[3]
        if -len(sh) <= k < len(sh):
            return sh[k]
    if t.op in ('lv', 'lvi') and t.args[2]:
        sh = t.args[2]
        if -len(sh) <= k < len(sh):
            return sh[k]
    if t.op in ('scatter', 'updf'):
        return shape(t.args[0], k)
    if t.op == 'call' and t.args[0] in CALLSHAPE:
        r = CALLSHAPE[t.args[0]](t, k)
        if r is not None:
            return r
    return _old_shape(t, k)
CALLSHAPE = {}
def _fitshape(t, k):
    a = t.args[1]
    if k == 0 and a:
        return shape(a[0], 0)
    if k == 1 and len(a) > 3:
        def nm(m):
            while m.op == 'updf' and m.args[1] is not string('profile'):
                m = m.args[0]
            if m.op == 'updf': return m.args[2]
            if m.op == 'ite' and rank(m.args[0]) == 0: return ite(m.args[0], nm(m.args[1]), nm(m.args[2]))
            return call('field', m, string('profile'))
        p = nm(a[3])
        return ite(compare('==', p, string('einasto')), num(3), ite(compare('==', p, string('alpha_beta_gamma')), num(5), num(2)))
CALLSHAPE['fitDensProfHelper'] = _fitshape
CALLSHAPE['calcMode'] = CALLSHAPE['calcCoM'] = lambda t, k: shape(t.args[1][0], 1) if k == 0 and rank(t.args[1][0]) == 2 else None
for _n in ('calcDensProfsSphDirectBinning', 'calcDensProfsEllDirectBinning', 'calcDensProfsKernelBased'):
    CALLSHAPE[_n] = lambda t, k: None
A.shape = _shape2
shape = _shape2

def reach(sys_, roots):
    """placeholders needed to evaluate the root terms"""
    need, todo = set(), list(roots)
    mset = {m.id: m for m in sys_}
    while todo:
        t = todo.pop()
        for x in subterms(t):
            if x.id in mset and x.id not in need:
                need.add(x.id)
                iv, nx = sys_[mset[x.id]]
                todo.append(nx)
    return need

def canon_loop(sys_, stop, counter=None):
    """colour refinement over the loop variables; equal behaviour -> equal terms"""
    def lv(m, colour):
        r = rank(m)
        sh = tuple(shape(m, d) for d in range(r)) if r else ()
        return mk('lvi' if S.is_int(m) else 'lv', colour, NONE if r is None else num(r), sh)
    col = {m: mk('col', iv if not S.contains(iv, lambda x: x is m) else iv) for m, (iv, nx) in sys_.items()}
    need = reach(sys_, [stop])
    for rnd in range(2):
        mp = {m: lv(m, col[m]) for m in sys_}
        new = {}
        for m, (iv, nx) in sys_.items():
            new[m] = mk('col', iv, canon(subst(nx, mp)))
        col = new
    mp = {m: lv(m, col[m]) for m in sys_}
    st = mk('stop', subst(stop, mp))
    return CanonLoop(st, col, sys_)

def canon(t):
    """element-wise form of arrays so that lifted and element-wise definitions coincide"""
    r = rank(t)
    if r and t.op not in ('sym', 'sel', 'vec', 'lv', 'lvi', 'upd'):
        try:
            return A.expand(t)
        except RecursionError:
            return t
    return t

def refine_compactions(sys_, interp):
    """an index list together with its length that always is 'the positions where P holds' is replaced by the predicate"""
    def as_compaction(t):
        # alam(j, L, ite(j < count, cpt(P, N, j), junk))
        if t.op != 'alam':
            return None
        j = fresh('j')
        b = sel(t, (j,))
        if b.op == 'poly':
            # [c]*cpt + rest
            for m, c in b.args[0]:
                d = dict(m)
                cps = [a for a in d if a.op == 'cpt' and a.args[2] is j]
                ivs = [a for a in d if a.op == 'iver']
                if c == 1 and len(m) == 2 and cps and ivs:
                    return cps[0].args[0], cps[0].args[1], ivs[0].args[0], j
            return None
        if b.op == 'ite':
            for x, c in ((b.args[1], b.args[0]), (b.args[2], neg_c(b.args[0]))):
                if x.op == 'cpt' and x.args[2] is j:
                    return x.args[0], x.args[1], c, j
        return None
    def count(P, N):
        j = fresh('j')
        return S.summ(j, ZERO, N, S.iverson(S.apply_lam(P, j)))
    out = dict(sys_)
    back = {}
    for m, (iv, nx) in list(sys_.items()):
        if rank(m) != 1:
            continue
        nxs = split_gated(nx)
        a = as_compaction(iv)
        bs = [(c, as_compaction(x)) for c, x in nxs]
        if a is None or not bs or any(b is None for c, b in bs):
            continue
        N = a[1]
        if any(b[1] is not N for c, b in bs):
            continue
        # the counters
        ca = count(a[0], N)
        cn = None
        for c, b in reversed(bs):
            k = count(b[0], N)
            cn = k if cn is None else ite(c, k, cn)
        counters = [q for q, (qi, qn) in sys_.items() if qi is ca and (qn is cn)]
        M = fresh('memb')
        S._intsyms.discard(M.id)
        A.declare(M, 1, (N,))
        BOOLARR.add(M.id)
        j, k = fresh('j'), fresh('k')
        el = truth(sel(M, (j,)))
        P = S.lam(j, el)
        cnt = S.summ(j, ZERO, N, S.iverson(el))
        L = shape(m, 0)
        arr = A.mk_alam(k, L, ite(compare('<', k, cnt), S.cpt(P, N, k), mk('junk')))
        back[m] = arr
        for q in counters:
            back[q] = cnt
        i0 = fresh('i')
        ini = A.mk_alam(i0, N, S.apply_lam(a[0], i0))
        nb = None
        for c, b in reversed(bs):
            x = S.apply_lam(b[0], i0)
            nb = x if nb is None else disj([conj([c, x]), conj([neg_c(c), nb])])
        out[M] = (ini, A.mk_alam(i0, N, nb))
        del out[m]
        for q in counters:
            out.pop(q, None)
    if back:
        out = {m: (iv, fixsub(nx, back)) for m, (iv, nx) in out.items()}
    return out, back

def split_gated(t):
    """nested conditional -> [(cond, leaf)], the last one is the default"""
    out = []
    while t.op == 'ite' and rank(t.args[0]) == 0:
        out.append((t.args[0], t.args[1]))
        t = t.args[2]
    # an element-wise conditional on a scalar condition
    out.append((TRUE, t))
    return out

def fixsub(t, back):
    return subst(t, back)
