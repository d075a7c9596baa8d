"""Array-valued terms: rank, shape, element selection, functional stores, numpy lifting."""
from fractions import Fraction
from . import terms as S
from .terms import T, mk, num, ZERO, ONE, add, sub, mul, div, ite, compare, conj, neg_c, subst, kids, TRUE, FALSE

RANK, SHAPE = {}, {}
UNROLL = 12

def declare(t, rank, shape=None):
    RANK[t.id] = rank
    if shape is not None:
        SHAPE[t.id] = tuple(shape)
    return t

POINTWISE = {'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'arctan2', 'isnan', 'isfinite', 'floor',
             'ceil', 'sign', 'gamma', 'gammainc', 'mod', 'floordiv', 'int', 'powt', 'rint', 'fdef', 'hyp2f1', 'beta', 'real', 'imag', 'value_of', 'bswap'}
SCALAR0 = {'num', 'bool', 'str', 'bytes', 'none', 'nan', 'inf', 'pi', 'bv', 'shape', 'tid', 'len', 'strcat', 'fmt', 'cpt', 'tuple',
           'undef', 'obj', 'fn', 'truth', 'eq', 'rel', 'lint'}
LIFT = {'poly', 'cmp', 'and', 'or', 'not', 'ite', 'iver', 'max'}
REDUCE = {'amax', 'amin', 'median', 'std', 'argmin', 'argmax', 'prod', 'nanmax', 'nanmin', 'nanmean', 'nanmedian'}
_rc = {}

def rank(t):
    if t.id in RANK:
        return RANK[t.id]
    r = _rc.get(t.id, -1)
    if r != -1:
        return r
    r = _rank(t)
    _rc[t.id] = r
    return r

def _rank(t):
    op = t.op
    if op in SCALAR0 or (op == 'sym' and t.id in S._intsyms):
        return 0
    if op == 'sum':
        return rank(t.args[3])
    if op == 'alam':
        r = rank(t.args[2])
        return None if r is None else r + 1
    if op == 'vec':
        rs = [rank(x) for x in t.args[0]]
        return None if not rs or None in rs else 1 + max(rs)
    if op == 'upd':
        return rank(t.args[0])
    if op == 'sel':
        r = rank(t.args[0])
        return None if r is None else max(r - len(t.args[1]), 0)
    if op in LIFT or (op == 'call' and t.args[0] in POINTWISE):
        rs = [rank(k) for k in kids(t)]
        if None in rs:
            return None
        return max(rs or [0])
    if op == 'lmu':
        return RANK.get(t.id, 0)
    if op == 'call' and t.args[0] == 'scipy.interpolate.interp1d':
        return 0
    if op == 'call' and t.args[0] in ('quad', 'quad.err'):
        return 0
    if op == 'call' and t.args[0] in REDUCE and len(t.args[1]) == 1 and rank(t.args[1][0]) == 1:
        return 0
    if op == 'call' and t.args[0] == 'concatenate' and len(t.args[1]) == 1 and t.args[1][0].op == 'alam':
        r = rank(t.args[1][0])
        return None if r is None or r < 2 else r - 1
    return None

def shape(t, k):
    """length of axis k"""
    if isinstance(k, T):
        k = int(k.args[0])
    sh = SHAPE.get(t.id)
    if sh is not None and -len(sh) <= k < len(sh):
        return sh[k]
    r = rank(t)
    if k < 0 and r is not None:
        k += r
    op = t.op
    if op == 'alam':
        return t.args[1] if k == 0 else shape(t.args[2], k - 1)
    if op == 'vec':
        return num(len(t.args[0])) if k == 0 else shape(t.args[0][0], k - 1)
    if op == 'upd':
        return shape(t.args[0], k)
    if op == 'sel':
        return shape(t.args[0], k + len(t.args[1]))
    if op == 'ite' and r and rank(t.args[0]) in (0, None):
        a, b = t.args[1:3]
        if rank(a) == r and rank(b) == r:
            x, y = shape(a, k), shape(b, k)
            return x if x is y else S.ite(t.args[0], x, y)
    if (op in LIFT or (op == 'call' and t.args[0] in POINTWISE)) and r is not None:
        for x in kids(t):
            if rank(x) == r:
                s = shape(x, k)
                if s is not ONE:
                    return s
        return ONE if r else mk('shape', t, k)
    if op == 'call' and t.args[0] == 'concatenate' and len(t.args[1]) == 1 and t.args[1][0].op == 'alam' and r is not None:
        v = S.fresh('c')
        piece = sel(t.args[1][0], (v,))
        return S.summ(v, ZERO, t.args[1][0].args[1], shape(piece, 0)) if k == 0 else shape(piece, k)
    return mk('shape', t, k)

def mk_alam(var, n, body):
    """array of length n with element body at var; constant lengths are explicit vectors"""
    if n.op == 'num' and 0 <= n.args[0] <= UNROLL and n.args[0].denominator == 1:
        return vec([subst(body, {var: num(k)}) for k in range(int(n.args[0]))])
    # eta
    if body.op == 'sel' and body.args[1] and body.args[1][-1] is var and not S.occurs(body.args[0], var) \
            and not any(S.occurs(x, var) for x in body.args[1][:-1]):
        base = sel(body.args[0], body.args[1][:-1])
        if rank(base) is not None and shape(base, 0) is n:
            return base
    # columns of rows put one after the other
    if body.op == 'sel' and len(body.args[1]) > 1 and body.args[1][0] is var and body.args[0].op == 'call' and body.args[0].args[0] == 'concatenate' \
            and len(body.args[0].args[1]) == 1 and body.args[0].args[1][0].op == 'alam' and not any(S.occurs(x, var) for x in body.args[1][1:]) \
            and not S.occurs(body.args[0], var) and shape(body.args[0], 0) is n:
        k, w = S.fresh('k'), S.fresh('w')
        ps = body.args[0].args[1][0]
        p = sel(ps, (k,))
        return ccat(mk_alam(k, ps.args[1], mk_alam(w, shape(p, 0), sel(p, (w,) + tuple(body.args[1][1:])))))
    # conditions that every index of the array satisfies
    facts = {}
    for c in (compare('<', var, n), compare('<=', ZERO, var)):
        if c is not S.TRUE and c is not S.FALSE and S.occurs(body, c):
            facts[c] = S.TRUE
    if facts:
        return mk_alam(var, n, S.subst(body, facts))
    nv, (b,) = S.bind(var, [body])
    return mk('alam', nv, n, b)

def vec(elems):
    elems = tuple(elems)
    # eta: [x[0], x[1], x[2]] of an x with exactly that length
    if elems and all(e.op == 'sel' and e.args[1] and e.args[1][-1] is num(k) for k, e in enumerate(elems)):
        b0 = elems[0].args
        if all(e.args[0] is b0[0] and e.args[1][:-1] == b0[1][:-1] for e in elems):
            base = sel(b0[0], b0[1][:-1]) if b0[1][:-1] else b0[0]
            if rank(base) is not None and shape(base, 0) is num(len(elems)):
                return base
    return mk('vec', elems)

def wrapneg(t, i, k):
    """python negative constant index"""
    if i.op == 'num' and i.args[0] < 0:
        n = shape(t, k)
        if n.op != 'shape' or rank(t) is not None:
            return add(n, i)
    return i

_selc = {}
def sel(t, idx):
    idx = tuple(idx)
    if not idx:
        return t
    key = (t.id,) + tuple(i.id for i in idx)
    r = _selc.get(key)
    if r is None:
        r = _selc[key] = _sel(t, idx)
    return r

def _sel(t, idx):
    op = t.op
    i0 = wrapneg(t, idx[0], 0)
    idx = (i0,) + idx[1:]
    if op == 'alam':
        m = {t.args[0]: i0}
        r = subst(t.args[2], m)
        if i0.op == 'cpt' and r is not t.args[2]:
            # what selects the element holds for it
            c = S.apply_lam(i0.args[0], i0)
            f = {}
            for p in (c.args[0] if c.op == 'and' else (c,)):
                if p.op != 'bool':
                    f[p] = S.TRUE
                    n = S.neg_c(p)
                    if n.op != 'bool':
                        f[n] = S.FALSE
            if f:
                r = subst(r, f)
        return sel(r, idx[1:])
    if op == 'vec':
        if i0.op == 'num' and 0 <= i0.args[0] < len(t.args[0]):
            return sel(t.args[0][int(i0.args[0])], idx[1:])
        es = [sel(e, idx[1:]) for e in t.args[0]]
        if not es or i0.op == 'num':
            return S.call('outofrange', i0)
        if all(e is es[0] for e in es):
            return es[0]
        if i0.op == 'poly' or i0.op in ('iver',):
            pass
        return mk('sel', mk('vec', tuple(es)), (i0,))
    if op == 'upd':
        ents = t.args[1]
        if i0.op == 'num':
            for k, v in ents:
                if k is i0:
                    return sel(v, idx[1:])
            return sel(t.args[0], idx)
        r = sel(t.args[0], idx)
        for k, v in ents:
            r = ite(compare('==', i0, k), sel(v, idx[1:]), r)
        return r
    if op == 'sel':
        return sel(t.args[0], t.args[1] + idx) if t.args[0].op not in ('vec',) else mk('sel', t, idx)
    if op == 'ite' and rank(t.args[0]) == 0:
        return ite(t.args[0], sel(t.args[1], idx), sel(t.args[2], idx))
    if op == 'ite':
        rs = [rank(x) for x in t.args]
        if None not in rs and rs[0] == max(rs) and all(r in (0, rs[0]) for r in rs) and len(idx) <= rs[0]:
            return ite(*[sel(x, idx) if r else x for x, r in zip(t.args, rs)])
    if op in LIFT or (op == 'call' and t.args[0] in POINTWISE):
        R = rank(t)
        if R is not None and R > 0:
            m = len(idx)
            mp = {}
            for x in kids(t):
                rk = rank(x)
                if rk == 0:
                    continue
                off = R - rk
                if m <= off:
                    continue
                sub_ = []
                for d in range(off, m):
                    sub_.append(ZERO if (shape(x, d - off) is ONE and shape(t, d) is not ONE) else idx[d])
                mp[x.id] = sel(x, tuple(sub_))
            return S.rebuild(t, mp)
    if op == 'sum':
        nv, lo, hi, b = t.args
        v = S.fresh('s')
        return S.summ(v, lo, hi, sel(subst(b, {nv: v}), idx))
    r = rank(t)
    if r is not None and len(idx) > r:
        return mk('sel', t, idx)
    return mk('sel', t, idx)

def store(t, idx, val, n=None):
    """t with t[idx] = val ; idx: list of T (scalar index) | ('slice', lo, hi) | ('mask', T) """
    if not idx:
        r = rank(t)
        rv = rank(val)
        if r is not None and r > 0 and rv is not None and rv < r:
            # broadcast
            return broadcast(val, t)
        return val
    i0 = idx[0]
    if isinstance(i0, tuple) and i0[0] == 'slice':
        lo, hi = i0[1], i0[2]
        N = shape(t, 0)
        full = lo is ZERO and hi is N
        v = S.fresh('w')
        rv = rank(val)
        nfree = sum(1 for x in idx if isinstance(x, tuple))
        r = rank(t)
        vr = (r - (len(idx) - nfree)) if r is not None else nfree
        # does val have this axis?
        if rv is None:
            vv = mk('sel', val, (sub(v, lo),))
            if vr >= 1 and vv.id not in RANK:
                declare(vv, vr - 1, tuple(shape(t, k) for k in range(r - vr + 1, r)) if r is not None and vr > 1 else None)
        elif rv >= vr:
            vv = sel(val, (sub(v, lo) if shape(val, 0) is not ONE else ZERO,))
        else:
            vv = val
        inner = store(sel(t, (v,)), idx[1:], vv)
        if full:
            return mk_alam(v, N, inner)
        c = conj([compare('<=', lo, v), compare('<', v, hi)])
        return mk_alam(v, N, ite(c, inner, sel(t, (v,))))
    i0 = wrapneg(t, i0, 0)
    if t.op == 'vec':
        if i0.op == 'num' and 0 <= i0.args[0] < len(t.args[0]):
            k = int(i0.args[0])
            es = list(t.args[0])
            es[k] = store(es[k], idx[1:], val)
            return vec(es)
        return vec([ite(compare('==', i0, num(k)), store(e, idx[1:], val), e) for k, e in enumerate(t.args[0])])
    N = shape(t, 0)
    if N.op == 'num' and N.args[0] <= UNROLL and rank(t) is not None:
        return store(mk('vec', tuple(sel(t, (num(k),)) for k in range(int(N.args[0])))), [i0] + list(idx[1:]), val)
    if i0.op == 'num':
        base, ents = (t.args if t.op == 'upd' else (t, ()))
        d = {k.id: (k, v) for k, v in ents}
        old = d[i0.id][1] if i0.id in d else sel(base, (i0,))
        d[i0.id] = (i0, store(old, idx[1:], val))
        return mk('upd', base, tuple(sorted(d.values(), key=lambda kv: kv[0].args[0])))
    v = S.fresh('w')
    old = sel(t, (v,))
    return mk_alam(v, N, ite(compare('==', v, i0), store(old, idx[1:], val), old))

def broadcast(val, like):
    """val repeated over the leading axes of like"""
    r, rv = rank(like), rank(val)
    if rv is None or r is None or rv >= r:
        return val
    v = S.fresh('b')
    return mk_alam(v, shape(like, 0), broadcast(val, sel(like, (v,))))

def fill(shp, val):
    """array of the given shape with constant element"""
    if not shp:
        return val
    v = S.fresh('z')
    return mk_alam(v, shp[0], fill(shp[1:], val))

def expand(t):
    """element-wise explicit form of a known-rank array"""
    r = rank(t)
    if not r:
        return t
    v = S.fresh('e')
    n = shape(t, 0)
    return mk_alam(v, n, expand(sel(t, (v,))))

def arrmap(f, *ts):
    """lift a scalar function to arrays of known rank; None when a rank is unknown"""
    rs = [rank(t) for t in ts]
    if None in rs:
        return None
    R = max(rs)
    if R == 0:
        return f(*ts)
    lead = [t for t, r in zip(ts, rs) if r == R]
    n = next((shape(t, 0) for t in lead if shape(t, 0) is not ONE), ONE)
    v = S.fresh('m')
    args = []
    for t, r in zip(ts, rs):
        if r == R:
            args.append(sel(t, (ZERO if (shape(t, 0) is ONE and n is not ONE) else v,)))
        else:
            args.append(t)
    b = arrmap(f, *args)
    return mk_alam(v, n, b)

def reduce_sum(t, axis=None):
    t = unordered(t)
    r = rank(t)
    if r is None:
        return None
    if r == 0:
        return t
    if axis is None:
        v = S.fresh('k')
        b = reduce_sum(sel(t, (v,)))
        return S.summ(v, ZERO, shape(t, 0), b)
    if axis < 0:
        axis += r
    if axis == 0:
        v = S.fresh('k')
        n = shape(t, 0)
        b = sel(t, (v,))
        if rank(b) == 0:
            return S.summ(v, ZERO, n, b)
        return _lift_sum(v, n, b)
    v = S.fresh('m')
    return mk_alam(v, shape(t, 0), reduce_sum(sel(t, (v,)), axis - 1))

def _lift_sum(v, n, b):
    if rank(b) == 0:
        return S.summ(v, ZERO, n, b)
    w = S.fresh('m')
    return mk_alam(w, shape(b, 0), _lift_sum(v, n, sel(b, (w,))))

def transpose(t, perm):
    r = rank(t)
    vs = [S.fresh('t') for _ in perm]
    src = [None] * r
    for k, p in enumerate(perm):
        src[p] = vs[k]
    b = sel(t, tuple(src))
    dims = [shape(t, p) for p in perm]
    for v, n in reversed(list(zip(vs, dims))):
        b = mk_alam(v, n, b)
    return b

def cumsum(t):
    v, k = S.fresh('c'), S.fresh('k')
    return mk_alam(v, shape(t, 0), S.summ(k, ZERO, add(v, ONE), sel(t, (k,))))

def prefix_sum(t, v):
    """t[k] = sum of g over 0..k inclusive -> sum of g over 0..v"""
    k = S.fresh('k')
    f = sel(t, (k,))
    if f.op != 'poly':
        return None
    p = S.to_poly(f)
    for m, c in p.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
            j, lo, hi, g = m[0][0].args
            if lo is ZERO and hi is k and not S.occurs(g, k) and sub(f, m[0][0]) is subst(g, {j: k}):
                return S.summ(j, ZERO, v, g)
    return None

PARTS = {}       # joined arrays: what they were joined from

def concat(ts):
    """concatenate along axis 0; None when a rank is unknown"""
    some = [t for t in ts if rank(t) == 0 or shape(t, 0) is not ZERO]
    if some:
        ts = some
    if any(rank(t) in (None, 0) for t in ts):
        return None
    if len(ts) == 1:
        return ts[0]
    ts = [x for t in ts for x in PARTS.get(t.id, (t,))]
    ns = [shape(t, 0) for t in ts]
    if all(t.op == 'vec' for t in ts):
        return vec([e for t in ts for e in t.args[0]])
    total = add(*ns)
    v = S.fresh('h')
    off = ZERO
    offs = []
    for n in ns:
        offs.append(off)
        off = add(off, n)
    if len(ts) == 2 and ts[0].op == 'vec' and len(ts[0].args[0]) == 1 and rank(ts[1]) == 1:
        # a leading 0 in front of cumulative sums: sums of the elements before
        c = prefix_sum(ts[1], v)
        if c is not None and subst(c, {v: ZERO}) is ts[0].args[0][0]:
            return mk_alam(v, total, c)
    body = sel(ts[-1], (sub(v, offs[-1]),))
    for t, n, o in reversed(list(zip(ts, ns, offs))[:-1]):
        if t.op == 'vec' and all(subst(body, {v: add(o, num(k))}) is e for k, e in enumerate(t.args[0])):
            continue
        body = ite(compare('<', v, add(o, n)), sel(t, (sub(v, o),)), body)
    r = mk_alam(v, total, body)
    if all(t.op != 'vec' for t in ts):
        PARTS[r.id] = tuple(ts)
    return r

DISTINCT = set()      # arrays whose rows contain every number at most once

def distinct(t):
    if t.op == 'alam':
        b = t.args[2]
        return b.op == 'sel' and b.args[0].id in DISTINCT and b.args[1] and b.args[1][-1] is t.args[0]
    return t.op == 'sel' and t.args[0].id in DISTINCT

def flagged(cond, j):
    """the numbers at which 1 was stored into zeros, in increasing order, when j is flagged there; or None"""
    if cond.op != 'cmp' or cond.args[0] != '!=' or cond.args[1].op != 'sel' or len(cond.args[1].args[1]) != 1 or cond.args[1].args[1][0] is not j:
        return None
    sc = cond.args[1].args[0]
    if sc.op != 'scatter' or sc.args[2] is not ONE or rank(sc.args[1]) != 1 or not distinct(sc.args[1]) or sel(sc.args[0], (j,)) is not ZERO:
        return None
    r = declare(S.call('sort', sc.args[1]), 1, [shape(sc.args[1], 0)])
    S.declare_int(r); S.declare_nonneg(r)
    return r

def unordered(t):
    """elements whose order does not matter: not sorted first"""
    if t.op != 'alam':
        return t
    k = S.fresh('k')
    b = sel(t, (k,))
    ms = {x.id: x for x in S.subterms(b) if x.op == 'sel' and x.args[1] == (k,) and x.args[0].op == 'call' and x.args[0].args[0] == 'sort' and rank(x.args[0]) == 1 and len(x.args[0].args[1]) == 1}
    if len(ms) != 1:
        return t
    x = list(ms.values())[0]
    q = S.fresh('q')
    p = subst(b, {x: q})
    if S.occurs(p, k) or shape(x.args[0], 0) is not t.args[1]:
        return t
    return mk_alam(k, t.args[1], subst(p, {q: sel(x.args[0].args[1][0], (k,))}))

def ccat(t):
    """the elements of a sequence of arrays, one after the other"""
    if t.op != 'alam':
        return S.call('concatenate', t)
    i = S.fresh('k')
    S.declare_int(i); S.declare_nonneg(i)
    body = sel(t, (i,))
    n = t.args[1]
    # zero or one piece
    if n.op == 'iver':
        p = sel(t, (ZERO,))
        r = rank(p)
        if r:
            w = S.fresh('w')
            c = n.args[0]
            return mk_alam(w, S.mul(n, shape(p, 0)), subst(sel(p, (w,)), {c: S.TRUE}))
    # a leading piece without elements
    first = sel(t, (ZERO,))
    rest = S.sub(n, S.ONE)
    if body.op == 'ite' and rank(first) != 0 and shape(first, 0) is ZERO and n.op != 'num' and compare('<=', ZERO, rest) is S.TRUE:
        return ccat(mk_alam(i, rest, subst(body, {i: S.add(i, S.ONE)})))
    # pieces under a condition
    if body.op == 'ite':
        c, a, b = body.args
        if a.op == 'vec' and not a.args[0]:
            c, a, b = S.neg_c(c), b, a
        if b.op == 'vec' and not b.args[0] and rank(a):
            w = S.fresh('w')
            return ccat(mk_alam(i, n, mk_alam(w, S.mul(S.iverson(c), shape(a, 0)), subst(sel(a, (w,)), {c: S.TRUE}))))
    # the pieces chosen by a condition
    cps = set()
    def look(x):
        if x.op == 'cpt' and x.args[2] is i:
            cps.add(x)
            return
        for k in S.kids(x):
            look(k)
    look(body)
    if len(cps) == 1:
        cp = cps.pop()
        if S.cpt_count(cp) is n and rank(body):
            q = S.fresh('q')
            p = subst(body, {cp: q})
            if not S.occurs(p, i):
                c = S.apply_lam(cp.args[0], q)
                w = S.fresh('w')
                return ccat(mk_alam(q, cp.args[1], mk_alam(w, S.mul(S.iverson(c), shape(p, 0)), subst(sel(p, (w,)), {c: S.TRUE}))))
    return S.call('concatenate', t)

def _shape_rebuild(args):
    return shape(args[0], args[1])

S.MKALAM = lambda v, n, b: mk_alam(v, n, b)
S.REBUILD['vec'] = lambda a: vec(a[0])
S.REBUILD['sel'] = lambda a: sel(a[0], a[1])
S.REBUILD['shape'] = _shape_rebuild
S.REBUILD['upd'] = lambda a: _upd_rebuild(a)
S.REBUILD['max'] = lambda a: S.tmax(*a[0])

def _upd_rebuild(a):
    t = a[0]
    for k, v in a[1]:
        t = store(t, [k], v)
    return t
