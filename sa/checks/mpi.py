"""C11, C18: group catalogues read by several processes."""
from ..check import rule, lookup
from .. import terms as S, arrays as A, calls as C, unit as U, spmd, evalt
from ..interp import View, ListRef, PyTuple, NONE, string, strcat
from ..dtypes import CANON, SIZES
from .files import FILES, typed
import re

GETFOF = 'cosmic_profiles.gadget.read_fof.getFoFSHData'
D = S.sym('GROUPD')

def base(nm):
    def f(I, name, args, kw, st, node): return C.EXT[nm](I, st, args, kw, node)
    return f

def elems(x, I, st, node):
    if isinstance(x, View): return [spmd.elem(x)]
    if isinstance(x, (ListRef, PyTuple)):
        it = I.iterable(x, st, node)
        if it[0] == 'const': return [e for y in it[1] for e in elems(y, I, st, node)]
    return [None]

def promoted(es):
    if len(es) == 1: return next(iter(es))
    return 'float64' if any(e.startswith('float') for e in es) else 'int64'

def filling(nm):
    def f(I, name, args, kw, st, node):
        r = FILES[nm](I, name, args, kw, st, node)
        if r is NotImplemented: r = C.EXT[nm](I, st, args, kw, node)
        if 'dtype' not in kw and len(args) < 2: typed(r, S.mk('sym', 'dtype', 'float64', 1))
        return r
    return f

def joining(nm):
    def f(I, name, args, kw, st, node):
        r = C.EXT[nm](I, st, args, kw, node)
        es = set(elems(args[0], I, st, node))
        if isinstance(r, S.T) and (A.rank(r) or r.op == 'vec'): r = I.new_array(r, 'joined', node, st)
        if isinstance(r, View) and es and None not in es: r.arr.elem = S.mk('sym', 'dtype', promoted(es), 1)
        return r
    return f

def casting(nm):
    d = CANON.get(nm.split('.')[-1], nm.split('.')[-1])
    def f(I, name, args, kw, st, node):
        r = C.EXT[nm](I, st, args, kw, node)
        if isinstance(r, (ListRef, PyTuple)) or isinstance(r, S.T) and A.rank(r): r = I.new_array(I.term(r, st), 'cast', node, st)
        if isinstance(r, View):
            r = I.new_array(I.term(r, st), 'cast', node, st)
            r.arr.elem = S.mk('sym', 'dtype', d, 1)
        return r
    return f

def listing(numbers):
    """the files of a folder, in an order the file system chooses"""
    def f(I, name, args, kw, st, node):
        return I.new_list(tuple(fname(n) for n in numbers), st)
    return f

def fname(n): return strcat([D, string('/fof_subhalo_tab_035.%d.hdf5' % n)])

def m_split(I, name, args, kw, st, node):
    p, t = I.term(args[0], st), I.term(args[1], st)
    if p.op != 'str': return NotImplemented
    if t.op == 'str': return I.new_list(tuple(string(x) for x in re.split(p.args[0], t.args[0])), st)
    if t.op == 'strcat' and t.args[0][-1].op == 'str':
        # what precedes is only found in the first part; parts counted from the end do not depend on it
        xs = re.split(p.args[0], t.args[0][-1].args[0])
        return I.new_list((string('?'),) * 9 + (strcat(list(t.args[0][:-1]) + [string(xs[0])]),) + tuple(string(x) for x in xs[1:]), st)
    return NotImplemented

def name_of(t):
    """text of a file's name behind the folder, None when it is something else"""
    return t.args[0][1].args[0] if isinstance(t, S.T) and t.op == 'strcat' and len(t.args[0]) == 2 and t.args[0][0] is D and t.args[0][1].op == 'str' else None

def m_sorted(ext):
    def f(I, name, args, kw, st, node):
        it = I.iterable(args[0], st, node)
        if it[0] == 'const' and not kw and all(name_of(x) is not None for x in it[1]): return I.new_list(tuple(sorted(it[1], key=name_of)), st)
        return C.EXT[ext](I, st, args, kw, node)
    return f

def m_open(I, name, args, kw, st, node):
    t = I.term(args[0], st) if args else I.term(kw['name'], st)
    w = I.models.get('@world')
    if w and any(x.op == 'call' and x.args[0] == 'outofrange' for x in S.subterms(t)):
        w.problem('process %d opens a file beyond the end of the list of files' % w.cur, node)
        raise spmd.Wait()
    return FILES['h5py.File'](I, name, args, kw, st, node)

def m_array(ext):
    def f(I, name, args, kw, st, node):
        w = I.models.get('@world')
        if w and args and args[0] is NONE:
            w.problem('process %d uses a value that only the root has received' % w.cur, node)
            raise spmd.Wait()
        return C.EXT[ext](I, st, args, kw, node)
    return f

def models(numbers):
    m = dict(FILES)
    m['glob.glob'] = listing(numbers)
    m['re.split'] = m_split
    m['h5py.File'] = m_open
    for n in ('numpy.empty', 'numpy.zeros', 'numpy.ones'): m[n] = filling(n)
    for n in ('builtins.sorted', 'numpy.sort'):
        if n in C.EXT: m[n] = m_sorted(n)
    for n in ('numpy.array', 'numpy.asarray', 'numpy.sum', 'numpy.cumsum', 'builtins.sum'):
        if n in C.EXT: m[n] = m_array(n)
    for n in ('hstack', 'concatenate', 'append'):
        if 'numpy.' + n in C.EXT and n != 'append': m['numpy.' + n] = joining('numpy.' + n)
    for n in ('int32', 'float32', 'float64', 'int64'):
        m['numpy.' + n] = casting('numpy.' + n)
    return m

class Rows:
    """lengths of the data sets of the group files: one number of groups and one of subhaloes per file"""
    def __init__(self, numbers, fixed=None): self.numbers, self.fixed = numbers, fixed
    def __call__(self, name, path):
        n = S.show(name, 4)
        k = [q for q in self.numbers if '.%d.hdf5' % q in n]
        if len(k) != 1 or path.op != 'str': return None
        return self.of(k[0], 's' if path.args[0].startswith('Subhalo/') else 'g')
    def of(self, k, kind):
        if self.fixed: return S.num(self.fixed[kind][self.numbers.index(k)])
        t = S.sym('n%s_%d' % (kind, k))
        S.declare_int(t); S.declare_nonneg(t); A.declare(t, 0)
        return t

NUMBERS = [10, 2, 9, 33]      # neither sorted as listed nor by their digits

def has(n, path): return S.truth(S.call('h5has', fname(n), string(path)))

def present(numbers, rows, without=()):
    """which files hold groups and subhaloes; few enough for one piece unless the lengths are fixed"""
    out = []
    for k, n in enumerate(numbers):
        for kind, path in (('g', 'Group/GroupLenType'), ('s', 'Subhalo/SubhaloLenType')):
            out.append(S.neg_c(has(n, path)) if (k, kind) in without else has(n, path))
    if not rows.fixed:
        for kind in 'gs':
            ns = [rows.of(n, kind) for k, n in enumerate(numbers) if (k, kind) not in without]
            if ns: out.append(S.compare('<', S.add(*ns), S.num(3 * 10**8)))
    return out

def fails(o):
    return o.st.dead or isinstance(o.ret, S.T) and o.ret.op == 'sym' and str(o.ret.args[1]).startswith('noreturn')

def several(tag, size, files, rv='Rvir', pt=1, without=(), fixed=None):
    @rule('fof_%s_%dx%d_%s%d' % (tag, size, files, rv, pt), 'C11', 'C18', timeout=300)
    def f(c):
        c.functions.add(GETFOF)
        nd, want = lookup(c.P, 'spec.snap.d_fof'), lookup(c.P, 'spec.snap.r_fof')
        where = GETFOF
        if lookup(c.P, GETFOF) is None:
            c.bad('anchor', '%s no longer exists' % GETFOF)
            return
        ns = NUMBERS[:files]
        rows = Rows(ns, fixed)
        from .. import h5
        h5.ROWS[0] = rows
        vals = [('GROUPD', 's'), ('RV', '=%r' % rv), ('PT', '=%d' % pt)]
        given = present(ns, rows, without)
        m = models(ns)
        try:
            w, outs = spmd.run(c.P, nd, vals, size, m, assume=given)
        except spmd.Gap as e:
            c.unknown('processes', 'not modelled: %s' % e, where)
            return
        finally:
            pass
        c.stats['collectives'] = sum(len(l) for l in w.log)
        hard = {k: n for k, n in w.problems.items() if not k.startswith('?')}
        for k, n in hard.items(): c.bad('line %s:%s' % (n, k[:60]), k, '%s:%s' % (where, n))
        for k, n in w.problems.items():
            if k not in hard: c.unknown('line %s' % n, k[1:], '%s:%s' % (where, n))
        waiting = [r for r, x in enumerate(outs) if x is None]
        if waiting:
            if not hard:
                r = waiting[0]
                rec = w.log[r][-1]
                c.bad('deadlock', 'process %d of %d waits in %s (line %s) for a process that %s' % (r, size, rec['op'], getattr(rec['node'], 'lineno', '?'),
                      'has failed' if any(x is not None and fails(x) for x in outs) else 'has ended'), where, prop='C11')
            return
        c.ok('order', prop='C11', where=where, detail='%d collective calls of %d processes' % (c.stats['collectives'], size))
        bad = rv not in ('Rvir', 'R200') or not files
        mw = dict(m)
        for nm, kind in (('files_with_groups', 'g'), ('files_with_subhaloes', 's')):
            mw[nm] = lambda I, fn, args, kw, st, node, kind=kind: I.new_list(tuple(fname(n) for n in sorted(ns) if (ns.index(n), kind) not in without), st)
        ref = None if bad else U.components(U.run(c.P, want, None, vals, models=mw, assume=given))
        for r, o in enumerate(outs):
            if o.I.unsupported:
                c.unknown('result of process %d' % r, 'not modelled: %s' % (o.I.unsupported[:2],), where)
                continue
            if bad:
                (c.ok if fails(o) else lambda k, where='': c.bad(k, 'no failure for a wrong request', where))('failure of process %d' % r, where=where)
                continue
            if fails(o):
                c.bad('result of process %d' % r, 'never returns', where)
                continue
            got = U.components(o)
            for k, v in enumerate(o.ret.items if isinstance(o.ret, PyTuple) else ()):
                e = spmd.elem(v) if isinstance(v, View) else None
                if e is not None and e.startswith('float') != (k == 3):
                    c.bad('type of ret.%d of process %d' % (k, r), 'elements of type %s' % e, where)
            for n in sorted(ref):
                if not n.startswith('ret'): continue
                if n not in got: v, d = ('differs', 'missing') if isinstance(o.ret, PyTuple) else ('unknown', 'no tuple is returned')
                else: v, d = U.compare_terms(got[n], ref[n])
                key = '%s of process %d' % (n, r)
                if v == 'equal': c.ok(key, where=where)
                elif v == 'differs': c.bad(key, d, where)
                else: c.unknown(key, d, where)

for size, files in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 4), (4, 3)):
    several('all', size, files)
several('all', 1, 2, 'R200', 0)
several('all', 3, 3, 'R200', 4)
several('gap', 2, 3, 'Rvir', 4, without=((0, 'g'), (1, 's')))
several('gap', 3, 3, 'R200', 0, without=((2, 'g'), (2, 's')))
several('gap', 3, 2, 'Rvir', 1, without=((0, 'g'), (0, 's'), (1, 'g'), (1, 's')))
several('huge', 2, 3, 'Rvir', 1, fixed={'g': (200000000, 150000001, 300000004), 's': (400000000, 300000002, 600000011)})
several('huge', 3, 2, 'R200', 4, fixed={'g': (300000000, 300000000), 's': (5, 0)})
several('some', 2, 1, 'Rvir', 1, fixed={'g': (3,), 's': (5,)})
several('some', 2, 3, 'Rvir', 1, fixed={'g': (3, 1, 2), 's': (4, 2, 5)})
several('some', 3, 2, 'R200', 0, fixed={'g': (2, 3), 's': (1, 0)})
several('some', 2, 4, 'Rvir', 4, without=((0, 'g'), (3, 's')), fixed={'g': (2, 3, 1, 1), 's': (1, 2, 3, 2)})
several('wrong', 1, 1, 'R500')
several('wrong', 3, 2, 'R500')
several('none', 2, 0)

# ---------------------------------------------------------------- who reaches the collective calls
import ast
from .. import names
from . import gadget as GC
from ..interp import Fn

ARGS = {'sel': ('sel', 'i+[M]'), 'katz': ('katz', 'dict'), 'nb': ('nb', 'i+'), 'frac': ('frac', 'f+'), 'rr': ('rr', 'f+[B]'), 'direct': ('direct', 'b'), 'sph': ('sph', 'b'),
        'dens': ('dens', 'f+[M,B]'), 'method': ('method', 'dict'), 'densf': ('densf', 'f+[M,F]'), 'rrf': ('rrf', 'f+[F]')}
COLLECTIVE = {'Barrier', 'barrier', 'gather', 'allgather', 'bcast', 'Bcast', 'Gatherv', 'Gather', 'Scatter', 'Scatterv', 'scatter', 'reduce', 'Reduce', 'allreduce', 'Allreduce', 'Allgather', 'Allgatherv'}
READ = 'cosmic_profiles.gadget.read_fof'

def is_collective(P, m, x):
    if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in COLLECTIVE): return False
    b = x.func.value
    if isinstance(b, ast.Name):
        g = m.globals.get(b.id)
        for v in g[1] if g and g[0] == 'assign' else ():
            v = getattr(v, 'value', None) or v
            if isinstance(v, ast.Attribute) and v.attr.startswith('COMM_'): return True
    return isinstance(b, ast.Attribute) and b.attr.startswith('COMM_') or isinstance(b, ast.Name) and b.id == 'comm'

def differs(c):
    """the condition is not the same on every process"""
    if not S.occurs(c, C.RANK): return False
    return S.subst(c, {C.RANK: S.ZERO}) is not S.subst(c, {C.RANK: S.ONE})

def explained(c, events):
    """the condition only says that nothing has failed so far"""
    n = S.neg_c(c)
    parts = n.args[0] if n.op == 'and' else (n,)
    for e in events:
        if e.kind == 'assert' and e.args and (c is e.args[0] or all(p in e.pc or p is S.neg_c(e.args[0]) for p in parts)): return True
        if e.kind == 'raise' and all(p in e.pc for p in parts): return True
    return False

def method(name):
    @rule('all_' + name, 'C11', timeout=400)
    def f(c):
        nd = lookup(c.P, 'spec.gmeth.m_' + name)
        args = [a for a in GC.G] + [ARGS[a.arg] for a in nd.args.args[len(GC.G):]]
        try:
            o = U.run(c.P, nd, None, args, opaque=GC.O2, models=GC.VAL)
        except Exception as e:
            c.unknown(name, 'not modelled: %r' % (e,), 'DensShapeProfsGadget.' + name)
            return
        I = o.I
        c.functions |= {'%s.%s' % x for x in I.inlined if not x[0].startswith('spec.')}
        n = 0
        for e in I.events:
            if not (e.kind == 'mpi' or e.kind == 'call' and str(e.name).split('.')[-1] == 'getFoFSHData'): continue
            n += 1
            where = 'DensShapeProfsGadget.%s, line %s' % (name, getattr(e.node, 'lineno', '?'))
            what = 'a collective call' if e.kind == 'mpi' else 'getFoFSHData'
            bad = [x for x in e.pc if differs(x) and not explained(x, I.events)]
            key = '%s:%d' % (name, n)
            if bad: c.bad(key, '%s is reached by some processes only (under %s)' % (what, S.show(bad[0], 5)[:160]), where)
            elif any(S.occurs(t, C.RANK) for l in e.loops for t in l[1:3] if isinstance(t, S.T)): c.bad(key, '%s is repeated differently by the processes' % what, where)
            elif e.kind != 'mpi' and any(isinstance(t, S.T) and differs(t) for t in e.args): c.bad(key, '%s gets other arguments on other processes' % what, where)
            else: c.ok(key, where=where)
        c.stats['collectives'] = n

for _n in ('getShapeCatLocal', 'getShapeCatGlobal', 'dumpShapeCatLocal', 'dumpShapeCatGlobal', 'plotGlobalEpsHist', 'plotLocalEpsHist', 'plotLocalTHist', 'plotGlobalTHist', 'plotShapeProfs', 'vizLocalShapes',
           'vizGlobalShapes', 'getMassesCenters', 'estDensProfs', 'fitDensProfs', 'estConcentrations', 'plotDensProfs', 'getObjInfo', 'getObjInfoGadget', 'getShapeCatVelLocal', 'getShapeCatVelGlobal',
           'dumpShapeVelCatLocal', 'dumpShapeVelCatGlobal', 'getXYZMasses', 'getVelXYZ', 'getR200', 'getIdxCat', 'getHeader'):
    method(_n)

@rule('collective_sites', 'C11')
def sites(c):
    """calls outside the reader: in no branch that depends on the number of the process"""
    P = c.P
    n = 0
    for m, cl, fn in names.functions(P):
        if m.name == READ: continue
        up = None
        for x in names.own(fn):
            if not is_collective(P, m, x): continue
            up = up or names.parents(fn)
            n += 1
            y, bad = x, None
            while y in up and y is not fn:
                z = up[y]
                t = getattr(z, 'test', None)
                if t is not None and y is not t and any(isinstance(q, ast.Name) and q.id == 'rank' or isinstance(q, ast.Attribute) and q.attr in ('Get_rank', 'rank') for q in ast.walk(t)): bad = z
                y = z
            key = '%s.%s:%s' % (m.name, fn.name, x.func.attr)
            if bad is not None: c.bad(key, '%s is reached by some processes only' % x.func.attr, names.where(m, x))
            else: c.ok(key, where=names.where(m, x))
    c.stats['sites'] = n
    if not n: c.ok('sites', where='package')

def limited_by_memory(P, m, call):
    """the cache behind this decorator may drop entries depending on the memory of the machine"""
    from . import caches
    cm = P.modules.get(caches.MOD)
    if cm is None: return None
    k = caches.factory(P, m, call)
    if k is None: return None
    def arg(x, fn):
        ps = [a.arg for a in fn.args.args]
        v = {ps[i]: a for i, a in enumerate(x.args) if i < len(ps)}
        v.update({q.arg: q.value for q in x.keywords})
        v = v.get('use_memory_up_to')
        return v is not None and not (isinstance(v, ast.Constant) and not v.value)
    g = cm.globals.get('lru_cache')
    if not g or g[0] != 'func': return None
    if k[0] == 'lru': return arg(call, g[1])
    f = cm.globals.get('np_cache_factory')
    if not f or f[0] != 'func': return None
    xs = [x for x in ast.walk(f[1]) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'lru_cache']
    return any(arg(x, g[1]) for x in xs)

@rule('collective_caches', 'C11')
def cached(c):
    """a function whose processes meet is run by all of them or by none: what its cache holds does not depend on one machine"""
    from . import caches
    P = c.P
    by = {}
    for m, cl, fn in names.functions(P):
        by[fn] = m
    meets = {fn for fn, m in by.items() if any(is_collective(P, m, x) for x in names.own(fn))}
    while True:
        more = {fn for fn, m in by.items() if fn not in meets and any(isinstance(x, ast.Call) and any(t in meets for t in names.callees(P, m, x)) for x in names.own(fn))}
        if not more: break
        meets |= more
    n = 0
    for m, fn, k, d in caches.cached_functions(c):
        if fn is None or fn not in meets: continue
        n += 1
        call = d.func if isinstance(d, ast.Call) and isinstance(d.func, ast.Call) else d
        v = limited_by_memory(P, m, call)
        key = '%s.%s' % (m.name, fn.name)
        if v is None: c.unknown(key, 'cache not recognised', names.where(m, d))
        elif v: c.bad(key, 'the processes meet in this function, but whether its cache still holds a result depends on the memory left to one process', names.where(m, d))
        else: c.ok(key, where=names.where(m, d))
    if not n: c.ok('none', where='package')
