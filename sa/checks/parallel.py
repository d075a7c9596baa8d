"""C05: every access inside a parallel loop goes to memory owned by the iteration or by the thread.

The accesses are those the abstract interpretation of the routines records inside prange loops, callees
included. A location is a path of indices into an array identity (aliases through slices and arguments are
resolved); the owner is the dimension whose index is the loop variable (up to a shift), the thread number, or a
running count of the earlier iterations that pass the condition under which the access happens."""
import ast
from ..check import rule, UNITS, lookup, argvals, loc
from .. import unit as U, terms as S, arrays as A

RUN = ('obj_cat', 'masses_centers', 'dens_algo_sph', 'dens_algo_ell', 'dens_algo_ker', 'morph_local', 'morph_global', 'morph_local_v', 'morph_global_v')

def prange_loops(P):
    for m in P.modules.values():
        if m.name.startswith('spec.'): continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
                from ..interp import call_name
                if call_name(n.iter) == 'prange':
                    yield m, n

def owner(ix, i, pc, inner, tid):
    """'thread' | 'iteration' | 'count' | None for an index term"""
    if ix is tid:
        return 'thread'
    p = S.to_poly(ix)
    if p.get(((i, 1),)) and all(m == ((i, 1),) or not any(S.occurs(x, i) or any(S.occurs(x, v) for v in inner) or S.occurs(x, tid) for x, e in m) for m in p):
        return 'iteration'
    if ix.op == 'sum':
        try:
            v, lo, hi, body = ix.args[:4]
        except ValueError:
            return None
        if hi is i and body.op == 'iver' and not S.occurs(body, i):
            c = S.subst(body.args[0], {v: i})
            if all(x in pc for x in (c.args[0] if c.op == 'and' else (c,))):
                return 'count'
    return None

def outcome(u, P):
    nd = lookup(P, u.got)
    av = nd and argvals(u, nd)
    if av is None: return None
    if u.pre: u.pre()
    a = u.assume() if callable(u.assume) else (u.assume or ())
    return U.run(P, nd, getattr(nd, 'owner', None), av, opaque=u.opaque, assume=a, globs=u.globs() if callable(u.globs) else u.globs, models=u.models)

def analyse(c, id_):
    u = [x for x in UNITS if x.id == id_][0]
    o = outcome(u, c.P)
    if o is None:
        c.unknown(id_, 'function %s not found' % u.got)
        return
    I = o.I
    c.functions |= {'%s.%s' % x for x in I.inlined if not x[0].startswith('spec.')}
    acc = {}
    for e in I.events:
        ls = [l for l in e.loops if l[3]]
        if e.kind == 'carried' and isinstance(e.node, ast.For) and e.node in I.parallel_loops:
            c.bad('%s:line %d' % (e.name, e.node.lineno), 'the value that variable %s had before this iteration is used in the iteration (for %s)' % (e.name, ', '.join(e.extra)), '%s:%s' % (u.got, e.node.lineno))
        if e.kind not in ('store', 'load') or not ls:
            continue
        arr = e.extra[0]
        if arr.par:
            continue
        for l in ls:
            acc.setdefault((l[4], arr), []).append((e, l))
    n = 0
    for (loop, arr), es in acc.items():
        if not any(e.kind == 'store' for e, l in es):
            n += len(es)
            continue
        dims = None
        bad = None
        for e, l in es:
            i = l[0]
            inner = [x[0] for x in e.loops[e.loops.index(l) + 1:] if x[0] is not None]
            d = e.extra[1]
            if d is None:
                if e.kind == 'store':
                    bad = bad or (e, 'is stored as a whole')
                    continue
                d = ()
            own = {(k, owner(x[1], i, e.pc, inner, I.tid)) for k, x in enumerate(d) if x[0] == 'fix'}
            own = {x for x in own if x[1]}
            if not own:
                bad = bad or (e, '%s at [%s], which belongs neither to the iteration nor to the thread' % ('is written' if e.kind == 'store' else 'is read', path(d)))
            else:
                # a shifted index is another iteration's: all accesses have to agree
                key = {(k, w, d[k][1] if w != 'iteration' else S.sub(d[k][1], i)) for k, w in own}
                if any(w == 'count' for k, w in own):
                    key = {(k, w, None) for k, w, x in key if w == 'count'}
                dims = key if dims is None else dims & key
                if not dims:
                    bad = bad or (e, 'is accessed at [%s], elsewhere in the same loop under another owner' % path(d))
        n += len(es)
        where = '%s:%s' % (u.got, getattr((bad[0] if bad else es[0][0]).node, 'lineno', loop.lineno))
        name = names(arr, es)
        key = '%s:loop at line %d:%s' % (u.got, loop.lineno, name)
        if bad:
            c.bad(key, 'array %s %s' % (name, bad[1]), where)
            continue
        for k, w, x in sorted(dims, key=str):
            if w == 'thread':
                ext = A.shape(o.st.mem.get(('arr', arr.id)) or es[0][0].args[0], k) if ('arr', arr.id) in o.st.mem else None
                if ext is not None and not enough(ext):
                    c.bad(key, 'scratch array %s is indexed by thread number but has %s rows' % (name, S.show(ext, 4)), where)
                    break
        else:
            c.ok(key, where=where, detail=', '.join(sorted({w for k, w, x in dims})))
    c.stats['accesses'] = c.stats.get('accesses', 0) + n

def names(arr, es):
    for e, l in es:
        for x in ast.walk(e.node) if e.node is not None else ():
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                b = x
                while isinstance(b, (ast.Subscript, ast.Attribute)): b = b.value
                if isinstance(b, ast.Name): return b.id
    ln = getattr(arr.node, 'lineno', None)
    return arr.name if ln is None else 'allocated at line %d' % ln

def path(d):
    return ', '.join(S.show(x[1], 4)[:80] if x[0] == 'fix' else ':' for x in d)

def enough(ext):
    from ..calls import NTHREADS
    return S.occurs(ext, NTHREADS) or ext.op == 'shape'

def make(id_):
    @rule('race_' + id_, 'C05', timeout=200)
    def f(c, id_=id_):
        analyse(c, id_)
for i in RUN:
    make(i)

@rule('parallel_loops', 'C05', timeout=300)
def coverage(c):
    seen = set()
    P = c.P
    for id_ in RUN:
        u = [x for x in UNITS if x.id == id_][0]
        o = outcome(u, P)
        if o: seen |= o.I.parallel_loops
    for m, n in prange_loops(P):
        where = '%s:%d' % (m.name, n.lineno)
        (c.ok if n in seen else lambda k, where='': c.unknown(k, 'parallel loop not reached by the analysis', where))('reached:' + where, where=where)
