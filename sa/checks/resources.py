"""C14: native memory and file handles.

typestate: every way through every function that allocates or opens (repository functions followed at their call
sites), see sa/typestate.py.  lapack_sizes: the buffers handed to the eigen solver against the sizes its interface
asks for, from the allocations the abstract interpretation of the shape routines records."""
import ast
from ..check import rule, UNITS
from .. import names as N, typestate as TS, terms as S, arrays as A
from .parallel import outcome, prange_loops

def sites(W):
    """every acquiring call in the source, in order"""
    out = []
    for m, cl, f in N.functions(W.P):
        loc = N.assigned(f)
        for x in N.own(f):
            if isinstance(x, ast.Call):
                k = W.kind(m, x.func, loc)
                if k in ('file', 'memory'): out.append((m, f, x, k))
    return out

def handle(W, m, f, x):
    for s in N.own(f):
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and any(y is x for y in ast.walk(s.value)): return ast.unparse(s.targets[0] if isinstance(s, ast.Assign) else s.target)
        if isinstance(s, ast.With):
            for it in s.items:
                if it.context_expr is x: return ast.unparse(it.optional_vars) if it.optional_vars is not None else '_'
    return ast.unparse(x.func)

@rule('released', 'C14', timeout=300)
def released(c):
    W = TS.Walk(c.P)
    done, failed = W.run()
    c.functions |= {'%s.%s' % (W.fn[f].name, f.name) for f in done}
    c.stats['functions'] = len(done)
    bad = {}
    for (k, what), (kind, m, f, node) in W.report.items():
        bad.setdefault(node, []).append((k, what, m, f))
    esc = {W.sites[k][3] for k in W.escaped}
    seen = {}
    for m, f, x, k in sites(W):
        h = handle(W, m, f, x)
        i = seen[(m.name, f.name, h)] = seen.get((m.name, f.name, h), 0) + 1
        key = '%s:%s:%s%s' % (m.name, f.name, h, '' if i == 1 else '#%d' % i)
        where = '%s:%d' % (m.name, x.lineno)
        if x in bad:
            if x in esc: c.unknown(key, 'kept in an object or container: %s' % bad[x][0][1], where)
            else: c.bad(key, '%s %s %s' % ('memory at' if k == 'memory' else 'file', h, '; '.join(sorted({w for _, w, _, _ in bad[x]}))), where)
        elif x not in W.seen: c.unknown(key, 'call not reached by the walk', where)
        elif f in failed: c.unknown(key, failed[f], where)
        else: c.ok(key, where=where, detail='memory' if k == 'memory' else 'file')
    c.stats['sites'] = sum(seen.values())

SIZEOF = {'int': 4, 'unsigned int': 4, 'double': 8, 'float': 4, 'complex': 16, 'double complex': 16, 'float complex': 8, 'long': 8, 'char': 1, 'size_t': 8}
# argument -> (its minimal extent in terms of n and of the length arguments, element size); extents in elements
LAPACK = {'ISUPPZ': (15, 4, lambda a: 2 * a['N']), 'WORK': (16, 16, lambda a: a['LWORK']), 'RWORK': (18, 8, lambda a: a['LRWORK']), 'IWORK': (20, 4, lambda a: a['LIWORK'])}
LENGTHS = {'LWORK': (17, lambda n: max(1, 2 * n)), 'LRWORK': (19, lambda n: max(1, 24 * n)), 'LIWORK': (21, lambda n: max(1, 10 * n))}

def number(t):
    """value of a term with sizeof symbols, or None"""
    for k, v in SIZEOF.items():
        t = S.subst(t, {S.mk('sym', 'sizeof', k): S.num(v)})
    return int(t.args[0]) if t.op == 'num' else None

@rule('lapack_sizes', 'C14', timeout=300)
def lapack(c):
    from ..calls import Ptr, deref
    n = 0
    for id_ in ('kernel_ell', 'kernel_shell', 'kernel_ell_v', 'kernel_shell_v'):
        u = [x for x in UNITS if x.id == id_][0]
        o = outcome(u, c.P)
        if o is None:
            c.unknown(id_, 'function %s not found' % u.got)
            continue
        I = o.I
        c.functions |= {'%s.%s' % x for x in I.inlined if not x[0].startswith('spec.')}
        mem = {e.extra: e for e in I.events if e.kind == 'malloc'}
        evs = [e for e in I.events if e.kind == 'lapack']
        if not evs:
            c.unknown(id_, 'no eigen solver call reached from %s' % u.got)
            continue
        for e in evs:
            a = e.extra
            key0 = '%s:zheevr' % id_
            if len(a) != 23:
                c.unknown(key0, 'call with %d arguments' % len(a)); continue
            where = '%s:%s' % (e.module.name if e.module else '?', getattr(e.node, 'lineno', '?'))
            V, shapes = e.info
            nn = number(V[3]) if V[3] is not None else None
            if nn is None:
                c.unknown(key0 + ':N', 'order of the matrix is not a known number', where); continue
            L = {'N': nn}
            for k, (i, need) in LENGTHS.items():
                v = number(V[i]) if V[i] is not None else None
                L[k] = v
                if v is None: c.unknown('%s:%s' % (key0, k), 'length not a known number', where)
                elif v < need(nn): c.bad('%s:%s' % (key0, k), '%s of order %d: %s is %d, at least %d is required' % ('zheevr', nn, k, v, need(nn)), where)
                else: c.ok('%s:%s' % (key0, k), where=where, detail='%d >= %d' % (v, need(nn)))
                n += 1
            for k, (i, size, need) in LAPACK.items():
                x = a[i]
                if isinstance(x, Ptr) and x.view is not None:
                    extent(c, shapes[i], '%s:%s' % (key0, k), k, x, (need(L),) if None not in L.values() else None, where)
                    continue
                m = mem.get(x)
                if m is None or None in L.values():
                    c.unknown('%s:%s' % (key0, k), 'buffer of unknown origin', where); continue
                t = m.args[-1]
                if len(m.args) == 2 and 'calloc' in m.name.lower(): t = S.mul(m.args[0], m.args[1])
                got, want = number(t), size * need(L)
                if got is None: c.unknown('%s:%s' % (key0, k), 'size %s' % S.show(t, 4)[:100], where)
                elif got < want: c.bad('%s:%s' % (key0, k), 'buffer %s for zheevr of order %d has %d bytes, %d are used' % (k, nn, got, want), '%s:%s' % (m.module.name if m.module else '?', getattr(m.node, 'lineno', '?')))
                else: c.ok('%s:%s' % (key0, k), where=where, detail='%d >= %d bytes' % (got, want))
                n += 1
            for k, i, dims, ld in (('A', 4, (nn, nn), 5), ('W', 12, (nn,), None), ('Z', 13, (nn, nn), 14)):
                extent(c, shapes[i], '%s:%s' % (key0, k), k, a[i], dims, where)
                n += 1
                if ld is not None:
                    v = number(V[ld]) if V[ld] is not None else None
                    (c.ok if v == nn else (lambda kk, where='', detail='': c.bad(kk, 'leading dimension %s of a %d x %d matrix' % (v, nn, nn), where)) if v is not None else (lambda kk, where='', detail='': c.unknown(kk, 'leading dimension not known', where)))('%s:LD%s' % (key0, k), where=where)
                    n += 1
    c.stats['buffers'] = n

def extent(c, sh, key, name, p, dims, where):
    from ..calls import Ptr
    if not isinstance(p, Ptr) or p.view is None or dims is None:
        c.unknown(key, 'buffer of unknown origin', where); return
    ix = [number(t) if isinstance(t, S.T) else None for t in (p.idx or ())]
    if sh is None:
        c.unknown(key, 'shape not known', where); return
    if len(sh) != len(dims):
        c.unknown(key, 'a view of rank %d where rank %d is used' % (len(sh), len(dims)), where); return
    for k, (s, d) in enumerate(zip(sh, dims)):
        v = number(s) if s is not None else None
        if v is None or (ix and ix[k] is None):
            c.unknown(key, 'extent %s' % (S.show(s, 3)[:60] if s is not None else '?'), where); return
        if v - (ix[k] if ix else 0) < d or (len(dims) == 2 and v != d):
            c.bad(key, 'array handed over as %s of zheevr has extent %d (from index %d) in dimension %d, %d is used' % (name, v, ix[k] if ix else 0, k, d), where)
            return
    c.ok(key, where=where, detail='x'.join(map(str, dims)))

