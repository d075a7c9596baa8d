"""Hash-consed value-graph terms with an algebraic normal form.

Numbers are exact rationals, arithmetic is kept as sums of monomials over atoms with
rational exponents, conditions are normalised comparisons / and / or, bound variables
are canonical (alpha-equivalent terms are the same object)."""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'args', 'id', '_bh', '_fv')
    def __repr__(self):
        return show(self)

_tab = {}
_cnt = [0]

def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _cnt[0] += 1
        t.id = _cnt[0]
        t._bh = None
        t._fv = None
        _tab[k] = t
    return t

def kids(t):
    """direct sub-terms, in order"""
    out = []
    def rec(a):
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for x in a:
                rec(x)
    for a in t.args:
        rec(a)
    return out

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(kids(x))

def contains(t, pred):
    return any(pred(x) for x in subterms(t))

def occurs(t, s):
    if s.id in _vars:
        return s.id in fv(t)
    return any(x is s for x in subterms(t))

# ---------------------------------------------------------------- constructors
def num(x):
    if isinstance(x, bool):
        return mk('bool', x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float('inf'), float('-inf')):
            return mk('inf', 1 if x > 0 else -1)
        x = Fraction(repr(x))
    return mk('num', Fraction(x))

NAN = mk('nan')
NONE = mk('none')
TRUE = mk('bool', True)
FALSE = mk('bool', False)
ZERO = num(0)
ONE = num(1)
PI = mk('pi')

def string(s): return mk('str', s)
def sym(name, *more): return mk('sym', name, *more)
def call(name, *args, **kw):
    return mk('call', name, tuple(args), tuple(sorted((k, v) for k, v in kw.items())))
def is_num(t): return t.op == 'num'
def const_val(t):
    """python value of a constant term or raises KeyError"""
    if t.op in ('num', 'bool', 'str', 'bytes'):
        return t.args[0]
    if t.op == 'none':
        return None
    raise KeyError(t.op)

INTOPS = {'bv', 'shape', 'iver', 'cpt', 'tid', 'len', 'lint'}
_intsyms = set()
def declare_int(t):
    _intsyms.add(t.id)
    _cmpc.clear(); _negc.clear()

def is_int(t):
    if t.op == 'num':
        return t.args[0].denominator == 1
    if t.op in INTOPS or t.id in _intsyms:
        return True
    if t.op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m) for m, c in t.args[0])
    if t.op == 'sum':
        return is_int(t.args[3])
    if t.op == 'call' and t.args[0] in ('int', 'floordiv', 'numpy.sum_int', 'numpy.max_int', 'argsort', 'argmin', 'argmax', 'searchsorted', 'lexsort', 'bincount'):
        return True
    if t.op == 'call' and t.args[0] == '.choice' and len(t.args[1]) > 1:
        return is_int(t.args[1][1]) or t.args[1][1].op == 'alam' and is_int(t.args[1][1].args[2])
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    return t.op == 'sel' and isflag(t)

# ---------------------------------------------------------------- polynomials
# internal dict form: {monomial: coef}, monomial = tuple sorted by atom id of (atom, exp)
LIMIT = 600

def _mkey(m):
    return tuple([(a.id, e.numerator, e.denominator) for a, e in m])
def _mckey(mc):
    return tuple([(a.id, e.numerator, e.denominator) for a, e in mc[0]])
def _aekey(ae):
    return (ae[0].id, ae[1].numerator, ae[1].denominator)

def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, Fraction(1)),): Fraction(1)}

def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(p.items(), key=_mckey)))

def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d

def _mono_norm(d, coef):
    """normalise a monomial dict; returns a poly dict (positive integer powers of sums expanded, iversons idempotent)"""
    out = {}
    expand = None
    ivs = []
    for a, e in list(d.items()):
        if e == 0:
            continue
        if a.op == 'iver':
            if e > 0:
                ivs.append(a)
                continue
        if a.op == 'poly' and e.denominator == 1 and e > 0 and expand is None and len(a.args[0]) ** int(e) <= LIMIT:
            expand = (a, int(e))
            continue
        out[a] = e
    if ivs:
        c = conj([a.args[0] for a in ivs])
        if c is FALSE:
            return {}
        if c is not TRUE:
            out[mk('iver', c)] = Fraction(1)
    base = {tuple(sorted(out.items(), key=_aekey)): coef}
    if expand:
        a, e = expand
        pa = dict(a.args[0])
        for _ in range(e):
            base = pmul(base, pa)
    return base

def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r

def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            for m, c in _mono_norm(_mono_mul(m1, m2), c1 * c2).items():
                r[m] = r.get(m, 0) + c
                if r[m] == 0:
                    del r[m]
    return r

_addc, _mulc, _powc = {}, {}, {}
def add(*ts):
    k = tuple(t.id for t in ts)
    r = _addc.get(k)
    if r is None:
        if any(t is NAN for t in ts):
            r = NAN
        else:
            p = {}
            for t in ts:
                p = padd(p, to_poly(t))
            r = from_poly(p)
        _addc[k] = r
    return r

def sub(a, b): return add(a, neg(b))
def neg(a): return mul(num(-1), a)

def mul(*ts):
    k = tuple(t.id for t in ts)
    r = _mulc.get(k)
    if r is None:
        if any(t is NAN for t in ts):
            r = NAN
        else:
            p = {(): Fraction(1)}
            for t in ts:
                q = to_poly(t)
                if len(p) * len(q) > LIMIT * 4:
                    # too large to expand: keep factors as atoms
                    p = {tuple(sorted(((from_poly(p), Fraction(1)), (t, Fraction(1))), key=_aekey)): Fraction(1)}
                else:
                    p = pmul(p, q)
            r = from_poly(p)
        _mulc[k] = r
    return r

def content(p):
    """split a poly dict into (rational, monomial, primitive poly dict)"""
    from math import gcd
    if not p:
        return Fraction(0), (), {}
    cs = list(p.values())
    g = Fraction(0)
    for c in cs:
        g = Fraction(gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator) if g else abs(c)
    ms = [dict(m) for m in p]
    common = {}
    for a in set().union(*[set(m) for m in ms]):
        es = [m.get(a, Fraction(0)) for m in ms]
        e = min(es)
        if a.op == 'poly' and max(es) != e:
            continue        # sums are only taken out when no product has to be re-expanded
        if all(a in m for m in ms) or e < 0:
            if e != 0 and a.op != 'iver':
                common[a] = e
    q = {}
    for m, c in p.items():
        d = dict(m)
        for a, e in common.items():
            d[a] = d.get(a, Fraction(0)) - e
            if d[a] == 0:
                del d[a]
        q[tuple(sorted(d.items(), key=_aekey))] = c / g
    # sign: make the smallest monomial positive
    first = min(q, key=_mkey)
    if q[first] < 0:
        q = {m: -c for m, c in q.items()}
        g = -g
    return g, tuple(common.items()), q

def power(t, e):
    if not isinstance(e, Fraction):
        e = Fraction(e)
    k = (t.id, e)
    r = _powc.get(k)
    if r is None:
        r = _powc[k] = _power(t, e)
    return r

def _rpow(c, e):
    """rational power if exact"""
    if e.denominator == 1:
        return c ** int(e)
    if c < 0:
        return None
    def root(n, k):
        r = round(n ** (1.0 / k))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** k == n:
                return x
        return None
    a, b = root(c.numerator, e.denominator), root(c.denominator, e.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** int(e.numerator)

def _power(t, e):
    if e == 0:
        return ONE
    if e == 1 or t is NAN:
        return t
    if t.op == 'bool':
        t = num(int(t.args[0]))
    if t.op == 'num':
        if t.args[0] == 0:
            return ZERO if e > 0 else mk('inf', 1)
        v = _rpow(t.args[0], e)
        return mk('num', v) if v is not None else from_poly({((t, e),): Fraction(1)})
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        for a, x in m:
            d[a] = x * e
        v = _rpow(c, e)
        if v is None:
            v = Fraction(1)
            d[mk('num', c)] = d.get(mk('num', c), Fraction(0)) + e
        return from_poly(_mono_norm(d, v))
    if e.denominator == 1 and e > 0 and len(p) ** int(e) <= LIMIT:
        r = {(): Fraction(1)}
        for _ in range(int(e)):
            r = pmul(r, p)
        return from_poly(r)
    g, common, q = content(p)
    d = {}
    for a, x in common:
        d[a] = x * e
    if g < 0 and e.denominator != 1:
        g, q = -g, {m: -c for m, c in q.items()}
    v = _rpow(g, e)
    if v is None:
        d[mk('num', g)] = e
        v = Fraction(1)
    qa = from_poly(q)
    if qa.op == 'num' or qa.op != 'poly':
        return mul(from_poly(_mono_norm(d, v)), power(qa, e))
    d[qa] = d.get(qa, Fraction(0)) + e
    return from_poly(_mono_norm(d, v))

def div(a, b):
    if b.op == 'num' and b.args[0] == 0:
        return call('div0', a)
    return mul(a, power(b, -1))

def sqrt(a): return power(a, Fraction(1, 2))

# ---------------------------------------------------------------- conditions
_cmpc, _negc = {}, {}
def cmp0(op, p):
    k = (op, p.id)
    r = _cmpc.get(k)
    if r is None:
        r = _cmpc[k] = _cmp0(op, p)
    return r

def _cmp0(op, p):
    """op in '<', '<=', '==', '!=' of numeric term p against 0"""
    if p.op == 'num':
        v = p.args[0]
        return mk('bool', {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[op])
    if p is NAN:
        return mk('bool', op == '!=')
    d = to_poly(p)
    # [P]*x + const: two cases
    iv = None
    for m in d:
        if m != ():
            s = {a for a, x in m if a.op == 'iver'}
            iv = s if iv is None else iv & s
    if iv:
        a = min(iv, key=lambda t: t.id)
        one = from_poly({m: c for m, c in ((tuple(q for q in m if q[0] is not a), c) for m, c in d.items() if m != ())}) \
            if len({tuple(q for q in m if q[0] is not a) for m in d if m != ()}) == len([m for m in d if m != ()]) else None
        if one is not None:
            k = num(d.get((), 0))
            return disj([conj([a.args[0], cmp0(op, add(one, k))]), conj([neg_c(a.args[0]), cmp0(op, k)])])
    # a flag, 0 or 1, against a constant
    fl = [(m, c) for m, c in d.items() if m != ()]
    if len(fl) == 1 and len(fl[0][0]) == 1 and fl[0][0][0][1] == 1 and isflag(fl[0][0][0][0], ones=True):
        f, c, k = fl[0][0][0][0], fl[0][1], d.get((), 0)
        yes, no = cmp0(op, num(c + k)), cmp0(op, num(k))
        if yes is no:
            return yes
        return mk('cmp', '!=' if yes is TRUE else '==', f)
    if op in ('<', '<='):
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'max':
                rest = from_poly({k: v for k, v in d.items() if k != m})
                parts = [cmp0(op, add(rest, mul(num(c), x))) for x in m[0][0].args[0]]
                return conj(parts) if c > 0 else disj(parts)
        lo, hi = bounds(p)
        if lo is not None and (lo > 0 or (lo == 0 and op == '<')):
            return FALSE
        if hi is not None and (hi < 0 or (hi == 0 and op == '<=')):
            return TRUE
        if lo == 0 and op == '<=':
            return cmp0('==', p)
        if hi == 0 and op == '<':
            return cmp0('!=', p)
        if hi == 1 and op == '<=' and is_int(p):
            return cmp0('!=', sub(p, ONE))
        # n-th selected index: 0 <= cpt < N
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'cpt':
                N = m[0][0].args[1]
                rest = from_poly({k: v for k, v in d.items() if k != m})
                worst = add(rest, mul(num(c), sub(N, ONE))) if c > 0 else rest
                best = rest if c > 0 else add(rest, mul(num(c), sub(N, ONE)))
                if worst is not p and bounds(worst)[1] is not None and bounds(worst)[1] <= (0 if op == '<=' else -1):
                    return TRUE
                if bounds(best)[0] is not None and bounds(best)[0] >= (1 if op == '<=' else 0):
                    return FALSE
    else:
        lo, hi = bounds(p)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return FALSE if op == '==' else TRUE
    # square root of one monomial against the rest: compare squares (radii and lengths are non-negative)
    if len(d) >= 2:
        roots = [(m, c) for m, c in d.items() if any(x.denominator == 2 and a.op == 'poly' for a, x in m)]
        if len(roots) == 1 and op in ('<', '<=', '==', '!='):
            m, c = roots[0]
            rest = from_poly({k: v for k, v in d.items() if k is not m and k != m})
            A = power(from_poly({m: c}), 2)
            R = power(rest, 2)
            d = to_poly(sub(A, R) if c > 0 else sub(R, A))
    # clear denominators by even powers (positive)
    den = {}
    for m in d:
        for a, x in m:
            if x < 0 and x.denominator == 1 and a.op != 'poly':
                k = -int(x)
                k += k % 2
                den[a] = max(den.get(a, 0), k)
    if den and len(d) > 1 and len(d) <= LIMIT:
        f = ONE
        for a, k in den.items():
            f = mul(f, power(a, k))
        d = to_poly(mul(from_poly(d), f))
    if not d:
        return cmp0(op, ZERO)
    g, common, q = content(d)
    neg_ = g < 0
    # common factors: even powers are positive; drop them, keep odd ones
    keep = {}
    for a, x in common:
        if x.denominator == 1 and x % 2 == 0:
            if op in ('==', '!='):
                keep[a] = Fraction(1)
            continue
        if op in ('==', '!='):
            keep[a] = Fraction(1)
        else:
            keep[a] = x if x > 0 or x.denominator != 1 else Fraction(1)
            if x.denominator == 1:
                keep[a] = Fraction(1)
    body = from_poly(q)
    if keep:
        body = mul(body, from_poly(_mono_norm(keep, Fraction(1))))
    if op in ('==', '!='):
        if len(to_poly(body)) == 1 and body.op == 'iver':
            c = body.args[0]
            return c if op == '!=' else neg_c(c)
        return mk('cmp', op, body)
    b = neg(body) if neg_ else body
    if is_int(b) and op == '<':
        return cmp0i('<=', add(b, ONE))
    return mk('cmp', op, b)

def cmp0i(op, b):
    if b.op == 'num':
        return cmp0(op, b)
    d = to_poly(b)
    # integer: tighten constant by the content of the non-constant part
    from math import gcd
    nc = [int(c) for m, c in d.items() if m != ()]
    g = 0
    for c in nc:
        g = gcd(g, abs(c))
    k = int(d.get((), 0))
    if g > 1:
        # g*X + k <= 0  <=>  X <= floor(-k/g)
        q = {m: Fraction(int(c), g) for m, c in d.items() if m != ()}
        fl = (-k) // g
        if fl:
            q[()] = Fraction(-fl)
        b = from_poly(q)
    return mk('cmp', op, b)

_numbers = set()         # symbols that are real numbers or arrays of them

def isnumber(t):
    return t.id in _numbers or t.op == 'sel' and t.args[0].id in _numbers or t.op == 'poly'

NUMERIC = {'num', 'poly', 'iver', 'bv', 'sum', 'pi', 'shape', 'nan', 'cpt', 'tid', 'inf', 'bool'}
def _strleaf(q, d=6):
    return q.op == 'str' or q.op == 'ite' and d > 0 and (_strleaf(q.args[1], d - 1) or _strleaf(q.args[2], d - 1))

def compare(op, a, b):
    """op python comparison name"""
    if op in ('is', 'isnot', '==', '!='):
        pos = op in ('is', '==')
        if a is b:
            return TRUE if pos else FALSE
        K = ('num', 'bool', 'str', 'bytes', 'none')
        if a.op in K and b.op in K:
            va, vb = const_val(a), const_val(b)
            eq = (va == vb)
            return mk('bool', eq == pos)
        if a.op in ('num',) or b.op in ('num',) or a.op in ('poly', 'iver', 'sum', 'shape') or b.op in ('poly', 'iver', 'sum', 'shape'):
            if a.op not in ('str', 'none', 'bool') and b.op not in ('str', 'none', 'bool'):
                return cmp0('==' if pos else '!=', sub(a, b))
        if a.op not in K and b.op not in K and is_int(a) and is_int(b):
            return cmp0('==' if pos else '!=', sub(a, b))
        for p, q in ((a, b), (b, a)):
            if p.op == 'str' and q.op == 'ite' and _strleaf(q):
                return ite(q.args[0], compare(op, p, q.args[1]), compare(op, p, q.args[2]))
        x, y = (a, b) if a.id < b.id else (b, a)
        if y.op == 'bool':
            x, y = y, x
        if x.op == 'bool' and y.op in ('cmp', 'and', 'or', 'not', 'eq'):
            r = y if x.args[0] else neg_c(y)
            return r if pos else neg_c(r)
        if x.op == 'bool' and op in ('==', '!='):
            t = truth(y)
            r = t if x.args[0] else neg_c(t)
            return r if pos else neg_c(r)
        if x.op == 'none' and isnumber(y) or y.op == 'none' and isnumber(x):
            return FALSE if pos else TRUE
        e = mk('eq', x, y)
        return e if pos else neg_c(e)
    if op == '<':
        return cmp0('<', sub(a, b))
    if op == '>':
        return cmp0('<', sub(b, a))
    if op == '<=':
        return cmp0('<=', sub(a, b))
    if op == '>=':
        return cmp0('<=', sub(b, a))
    return mk('rel', op, a, b)

def truth(t):
    """boolean value of a term used as a condition"""
    if t.op in ('bool', 'cmp', 'and', 'or', 'not', 'eq', 'rel', 'truth', 'pred'):
        return t
    if t.op == 'num':
        return mk('bool', t.args[0] != 0)
    if t.op == 'none':
        return FALSE
    if t.op == 'str':
        return mk('bool', bool(t.args[0]))
    if t.op == 'iver':
        return t.args[0]
    if t.op == 'ite':
        c, a, b = t.args
        return disj([conj([c, truth(a)]), conj([neg_c(c), truth(b)])])
    if t.op in ('poly', 'sum', 'shape') or isflag(t):
        return cmp0('!=', t)
    return mk('truth', t)

def isflag(t, d=8, ones=False):
    """an element of an array into which only integers >= 0 (only 0 and 1) were written"""
    if t.op == 'sel':
        return isflag(t.args[0], d, ones)
    if t.op == 'alam':
        return isflag(t.args[2], d, ones)
    if t.op == 'num':
        return t.args[0] >= 0 and t.args[0].denominator == 1 and (not ones or t.args[0] <= 1)
    return t.op == 'scatter' and d > 0 and isflag(t.args[0], d - 1, ones) and isflag(t.args[2], d - 1, ones)

def neg_c(c):
    r = _negc.get(c.id)
    if r is None:
        r = _negc[c.id] = _neg_c(c)
    return r

def _neg_c(c):
    if c.op == 'bool':
        return mk('bool', not c.args[0])
    if c.op == 'not':
        return c.args[0]
    if c.op == 'cmp':
        op, p = c.args
        if op == '<':
            return cmp0('<=', neg(p))
        if op == '<=':
            return cmp0('<', neg(p))
        return mk('cmp', '!=' if op == '==' else '==', p)
    if c.op == 'and':
        return disj([neg_c(x) for x in c.args[0]])
    if c.op == 'or':
        return conj([neg_c(x) for x in c.args[0]])
    return mk('not', c)

def conj(cs):
    s = {}
    for c in cs:
        c = truth(c)
        for x in (c.args[0] if c.op == 'and' else (c,)):
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            s[x.id] = x
    for x in list(s.values()):
        if neg_c(x).id in s:
            return FALSE
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    changed = True
    while changed:
        changed = False
        for x in list(s.values()):
            if x.op == 'or':
                ds = x.args[0]
                if any(d.id in s for d in ds):
                    del s[x.id]; changed = True; break
                nd = [d for d in ds if neg_c(d).id not in s]
                if len(nd) < len(ds):
                    del s[x.id]
                    r = disj(nd)
                    if r is FALSE:
                        return FALSE
                    for y in (r.args[0] if r.op == 'and' else (r,)):
                        if y is not TRUE:
                            s[y.id] = y
                    changed = True
                    break
    # interval: a <= with both == 0 forms
    for x in list(s.values()):
        if x.op == 'cmp' and x.args[0] in ('<', '<='):
            for y in list(s.values()):
                if y is x or y.op != 'cmp' or y.args[0] not in ('<', '<='):
                    continue
                d = sub(x.args[1], y.args[1])
                if d.op == 'num':        # x.p = y.p + d : larger left side is stronger
                    stronger = x if (d.args[0] > 0 or (d.args[0] == 0 and x.args[0] == '<')) else y
                    weaker = y if stronger is x else x
                    s.pop(weaker.id, None)
                    break
                d = add(x.args[1], y.args[1])
                if d.op == 'num' and (d.args[0] > 0 or (d.args[0] == 0 and '<' in (x.args[0], y.args[0]))):
                    return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk('and', tuple(sorted(s.values(), key=lambda t: t.id)))

def disj(cs):
    s = {}
    for c in cs:
        c = truth(c)
        for x in (c.args[0] if c.op == 'or' else (c,)):
            if x is TRUE:
                return TRUE
            if x is FALSE:
                continue
            s[x.id] = x
    for x in list(s.values()):
        if neg_c(x).id in s:
            return TRUE
    # (a and b) or a = a ; (a and b) or (a and not b) = a
    changed = True
    while changed:
        changed = False
        xs = list(s.values())
        for i, x in enumerate(xs):
            ax = {t.id: t for t in (x.args[0] if x.op == 'and' else (x,))}
            for y in xs:
                if y is x:
                    continue
                ay = {t.id: t for t in (y.args[0] if y.op == 'and' else (y,))}
                if set(ax) <= set(ay):
                    del s[y.id]; changed = True; break
                dx = [t for k, t in ax.items() if k not in ay]
                dy = [t for k, t in ay.items() if k not in ax]
                if len(dx) == 1 and neg_c(dx[0]).op != 'or':
                    n = neg_c(dx[0])
                    if n.id in ay:
                        rest = [t for k, t in ay.items() if k != n.id]
                        # x or y  with y = not dx and rest ; if rest superset of x without dx
                        if set(t.id for t in rest) >= set(k for k in ax if k != dx[0].id):
                            del s[y.id]
                            r = conj(rest)
                            if r is TRUE:
                                return TRUE
                            for z in (r.args[0] if r.op == 'or' else (r,)):
                                if neg_c(z).id in s:
                                    return TRUE
                                if z is not FALSE:
                                    s[z.id] = z
                            changed = True
                            break
            if changed:
                break
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk('or', tuple(sorted(s.values(), key=lambda t: t.id)))

def implies(a, b):
    """conservative: True only if a => b is evident"""
    if b is TRUE or a is FALSE or a is b:
        return True
    if b.op == 'and':
        return all(implies(a, x) for x in b.args[0])
    if a.op == 'or':
        return all(implies(x, b) for x in a.args[0])
    as_ = a.args[0] if a.op == 'and' else (a,)
    if any(x is b for x in as_):
        return True
    if b.op == 'or' and any(implies(a, x) for x in b.args[0]):
        return True
    if b.op == 'cmp':
        for x in as_:
            if x.op == 'cmp' and x.args[0] in ('<', '<=', '=='):
                d = sub(x.args[1], b.args[1])
                if d.op == 'num':
                    v = d.args[0]      # b.p = x.p - v
                    if b.args[0] == '<' and (v > 0 or (v == 0 and x.args[0] == '<')):
                        return True
                    if b.args[0] == '<=' and v >= 0:
                        return True
                    if b.args[0] == '!=' and x.args[0] == '<' and v >= 0:
                        return True
                if b.args[0] == '!=' and x.args[0] in ('<', '<='):
                    d = add(x.args[1], b.args[1])
                    if d.op == 'num' and (d.args[0] > 0 or (d.args[0] == 0 and x.args[0] == '<')):
                        return True
                    d = sub(x.args[1], b.args[1])
                    if d.op == 'num' and (d.args[0] > 0 or (d.args[0] == 0 and x.args[0] == '<')):
                        return True
    return conj([a, neg_c(b)]) is FALSE

# ---------------------------------------------------------------- ite / sums
def hasnan(t):
    return contains(t, lambda x: x.op == 'nan')

NONNUM = {'str', 'none', 'tuple', 'list', 'bytes', 'dict', 'obj'}

def ite(c, a, b):
    c = truth(c)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.op == 'bool' and b.op == 'bool':
        return c if a.args[0] else neg_c(c)
    if a.op in ('cmp', 'and', 'or', 'not', 'eq', 'bool') and b.op in ('cmp', 'and', 'or', 'not', 'eq', 'bool'):
        return disj([conj([c, a]), conj([neg_c(c), b])])
    if a.op == 'ite':
        if a.args[0] is c:
            a = a.args[1]
        elif a.args[2] is b:
            return ite(conj([c, a.args[0]]), a.args[1], b)
        elif a.args[1] is b:
            return ite(conj([c, neg_c(a.args[0])]), a.args[2], b)
    if b.op == 'ite':
        if b.args[0] is c:
            b = b.args[2]
        elif b.args[1] is a:
            return ite(disj([c, b.args[0]]), a, b.args[2])
        elif b.args[2] is a:
            return ite(disj([c, neg_c(b.args[0])]), a, b.args[1])
    if a is b:
        return a
    if a.op not in NONNUM and b.op not in NONNUM and a is not NAN and b is not NAN and a.op != 'ite' and b.op != 'ite' \
            and a.op not in ('content', 'lam') and b.op not in ('content', 'lam'):
        pa, pb = to_poly(a), to_poly(b)
        common = {m: k for m, k in pa.items() if pb.get(m) == k}
        ra, rb = {m: k for m, k in pa.items() if m not in common}, {m: k for m, k in pb.items() if m not in common}
        base = from_poly(common)
        if not rb:
            return add(base, iverson_mul(c, from_poly(ra)))
        if not ra:
            return add(base, iverson_mul(neg_c(c), from_poly(rb)))
        if all(m == () for m in ra) and all(m == () for m in rb):
            return add(base, from_poly(rb), iverson_mul(c, sub(from_poly(ra), from_poly(rb))))
        m = _maxpat(c, a, b)
        if m is not None:
            return m
        if common:
            return add(base, ite(c, from_poly(ra), from_poly(rb)))
    if c.op in ('not',) or (c.op == 'cmp' and c.args[0] in ('!=',)) :
        return mk('ite', neg_c(c), b, a)
    return orient_ite(c, a, b)

def orient_ite(c, a, b):
    n = neg_c(c)
    if n.op == 'cmp' and c.op == 'cmp' and n.id < c.id and c.args[0] != '==':
        return mk('ite', n, b, a)
    return mk('ite', c, a, b)

def _maxpat(c, a, b):
    """ite(a-b <= 0, ...) is a maximum or minimum"""
    if c.op != 'cmp' or c.args[0] not in ('<', '<='):
        return None
    d = sub(a, b)
    if d.op == 'num':
        return None
    p, q = to_poly(c.args[1]), to_poly(d)
    if len(p) != len(q) or set(p) != set(q):
        return None
    r = {q[m] / p[m] for m in p}
    if len(r) != 1:
        return None
    return tmin(a, b) if r.pop() > 0 else tmax(a, b)

def tmax(*ts):
    out = {}
    best = None
    todo = list(ts)
    while todo:
        t = todo.pop()
        if t.op == 'max':
            todo.extend(t.args[0])
        elif t.op == 'num':
            best = t if best is None or t.args[0] > best.args[0] else best
        else:
            out[t.id] = t
    if best is not None:
        if not out:
            return best
        if best is ZERO and all(nonneg(t) for t in out.values()):
            pass
        else:
            out[best.id] = best
    # drop dominated terms
    xs = list(out.values())
    for x in xs:
        for y in xs:
            if y is not x and x.id in out and y.id in out:
                d = sub(x, y)
                if d.op == 'num':
                    del out[(y if d.args[0] >= 0 else x).id]
    xs = sorted(out.values(), key=lambda t: t.id)
    return xs[0] if len(xs) == 1 else mk('max', tuple(xs))

def tmin(*ts):
    return neg(tmax(*[neg(t) for t in ts]))

def tabs(x):
    if nonneg(x):
        return x
    return tmax(x, neg(x))

def nonneg(t):
    lo, _ = bounds(t)
    return lo is not None and lo >= 0

def bounds(t):
    """numeric (lower, upper) bounds of a term, None when unknown"""
    if t.op == 'num':
        return t.args[0], t.args[0]
    if t.op == 'iver':
        return 0, 1
    if t.op in ('shape', 'cpt', 'tid', 'len', 'bv'):
        return 0, None
    if t.op == 'sum':
        lo, hi = bounds(t.args[3])
        return (0 if lo is not None and lo >= 0 else None), (0 if hi is not None and hi <= 0 else None)
    if t.op == 'max':
        los = [bounds(x)[0] for x in t.args[0]]
        if len(t.args[0]) == 2 and add(*t.args[0]) is ZERO:
            return 0, None
        los = [x for x in los if x is not None]
        return (max(los) if los else None), None
    if t.id in _nonneg or t.op == 'sel' and isflag(t):
        return 0, None
    if t.op == 'poly':
        if mul(num(-1), t).id in _nonneg:
            return None, 0
        # a count is at most the number of places counted
        for m, c in t.args[0]:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum' and m[0][0].args[3].op == 'iver' and len(t.args[0]) > 1:
                s = m[0][0]
                o = bounds(add(t, mul(num(-c), sub(s, sub(s.args[2], s.args[1])))))
                if c < 0 and o[0] is not None:
                    return o[0], None
                if c > 0 and o[1] is not None:
                    return None, o[1]
        lo = hi = Fraction(0)
        for m, c in t.args[0]:
            l, h = Fraction(1), Fraction(1)
            pos = True
            up = Fraction(1)
            for a, e in m:
                b = bounds(a) if not (e.denominator == 1 and e % 2 == 0) else (0, None)
                if e.denominator == 2:
                    b = (0, None)
                if b[0] is None or b[0] < 0:
                    pos = False
                    break
                l = l * b[0] if e == 1 else Fraction(0)
                up = None if (up is None or b[1] is None or e != 1) else up * b[1]
            if not pos:
                return None, None
            if c > 0:
                lo = None if lo is None else lo + c * l
                hi = None if hi is None or up is None else hi + c * up
            else:
                hi = None if hi is None else hi + c * l
                lo = None if lo is None or up is None else lo + c * up
        return lo, hi
    return None, None

_nonneg = set()
def declare_nonneg(t):
    _nonneg.add(t.id)
    _cmpc.clear(); _negc.clear()

def iverson(c):
    c = truth(c)
    if c.op == 'bool':
        return num(int(c.args[0]))
    # orient two-way comparisons canonically so that [c] and 1-[not c] coincide
    n = neg_c(c)
    if c.op == 'cmp' and n.op == 'cmp' and n.id < c.id and c.args[0] not in ('==', '!='):
        return sub(ONE, mk('iver', n))
    if c.op == 'or' or c.op == 'not':
        return sub(ONE, iverson(n)) if n.op != 'or' else mk('iver', c)
    if c.op == 'cmp' and c.args[0] == '!=':
        return sub(ONE, mk('iver', n))
    return mk('iver', c)

def iverson_mul(c, t):
    if t is NAN or t.op == 'inf' or hasnan(t):
        return mk('ite', c, t, ZERO)
    # within t, conditions implied by c are true
    return mul(iverson(c), t)

BINDERS = {'sum', 'lam', 'alam'}

def bvheight(t):
    """largest index of a binder inside t (free bound variables do not count)"""
    if t._bh is None:
        h = max([bvheight(k) for k in kids(t)] or [0])
        if t.op in BINDERS:
            h = max(h, t.args[0].args[0])
        t._bh = h
    return t._bh

def bind(var, bodies):
    """canonical bound variable for the symbol var over bodies -> (bv, new bodies)"""
    h = max([bvheight(b) for b in bodies] + [0])
    nv = mk('bv', h + 1)
    return nv, [rename(b, var, nv) for b in bodies]

_renc = {}
def rename(t, a, b):
    """replace the variable a by the variable b; structure is kept, only orders and signs are re-normalised"""
    memo = _renc.get((a.id, b.id))
    if memo is None:
        memo = _renc[(a.id, b.id)] = {}
    return _rename(t, a, b, memo)

def _rename(t, a, b, memo):
    if t is a:
        return b
    r = memo.get(t.id)
    if r is not None:
        return r
    if not fv(t) or not has_var(t, a):
        memo[t.id] = t
        return t
    ks = kids(t)
    mp = {k.id: _rename(k, a, b, memo) for k in ks}
    op = t.op
    def rec(x):
        if isinstance(x, T):
            return mp.get(x.id, x)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    if op == 'poly':
        r = add(*[mul(mk('num', c), *[power(mp.get(x.id, x), e) for x, e in m]) for m, c in t.args[0]])
    elif op == 'cmp' and t.args[0] in ('==', '!='):
        g, common, q = content(to_poly(mp[t.args[1].id]))
        body = from_poly(q)
        if common:
            body = mul(body, from_poly({tuple(sorted(common, key=_aekey)): Fraction(1)}))
        r = mk('cmp', t.args[0], body)
    elif op in ('and', 'or', 'max', 'set'):
        r = mk(op, tuple(sorted(rec(t.args[0]), key=lambda x: x.id)))
    elif op == 'eq':
        x, y = rec(t.args)
        r = mk('eq', *((x, y) if (x.id < y.id or y.op == 'bool') and x.op != 'bool' else (y, x)))
    elif op == 'iver':
        r = iverson(rec(t.args)[0])
    elif op == 'ite':
        r = orient_ite(*rec(t.args))
    else:
        r = mk(op, *rec(t.args))
        if op == 'poly':
            pass
    if r.op == 'call' or r.op == 'item' or r.op == 'sym':
        CARRY(t, r, lambda x: _rename(x, a, b, memo))
    memo[t.id] = r
    return r

CARRY = lambda t, r, f: None

def fv(t):
    """free variables (fresh symbols and bound variables) occurring in t"""
    if t._fv is None:
        s = frozenset()
        if t.op == 'bv' or (t.op == 'sym' and t.id in _vars):
            s = frozenset((t.id,))
        else:
            for k in kids(t):
                f = fv(k)
                if f:
                    s = s | f if s else f
        t._fv = s
    return t._fv

_vars = set()
def has_var(t, a):
    return a.id in fv(t)

_depth = [0]
def open_binder(nv, bodies):
    """bodies of a binder with its variable replaced by a symbol unused by the enclosing openings"""
    d = _depth[0]
    _depth[0] += 1
    v = mk('sym', '\0o%d' % d)
    _vars.add(v.id)
    v._fv = None
    _intsyms.add(v.id)
    return v, [rename(b, nv, v) for b in bodies]

def close_binder():
    _depth[0] -= 1

def summ(var, lo, hi, body):
    """sum of body over lo <= var < hi"""
    if body is ZERO:
        return ZERO
    d = sub(hi, lo)
    if d.op == 'num':
        n = int(d.args[0])
        if n <= 0:
            return ZERO
        if n <= 4:
            return add(*[subst(body, {var: add(lo, num(k))}) for k in range(n)])
    dh = to_poly(hi)
    k = dh.get((), Fraction(0))
    if len(dh) > 1 and k.denominator == 1 and 0 < k <= 4:
        h0 = sub(hi, mk('num', k))
        return add(summ(var, lo, h0, body), *[subst(body, {var: add(h0, num(j))}) for j in range(int(k))])
    # linearity: pull out additive parts and factors without var
    p = to_poly(body)
    parts = []
    rlo, rhi = compare('<=', lo, var), compare('<', var, hi)
    for m, c in p.items():
        ins, outs = [], []
        for a, e in m:
            (ins if occurs(a, var) else outs).append((a, e))
        # conditions implied by the range disappear; an equality that fixes var collapses the sum
        iv = [a for a, e in ins if a.op == 'iver']
        if iv:
            cs = []
            for a in iv:
                cs.extend(a.args[0].args[0] if a.args[0].op == 'and' else (a.args[0],))
            keepc = [x for x in cs if not (implies(rlo, x) or implies(rhi, x))]
            eqs = [x for x in keepc if x.op == 'cmp' and x.args[0] == '==']
            sol = None
            for x in eqs:
                sol = solve_linear(x.args[1], var)
                if sol is not None:
                    eq = x
                    break
            rest = from_poly(_mono_norm(dict([(a, e) for a, e in ins if a.op != 'iver'] + outs), c))
            if sol is not None:
                cc = conj([subst(x, {var: sol}) for x in keepc if x is not eq] + [compare('<=', lo, sol), compare('<', sol, hi)])
                parts.append(iverson_mul(cc, subst(rest, {var: sol})))
                continue
            if any(implies(rlo, neg_c(x)) or implies(rhi, neg_c(x)) for x in keepc):
                continue
            if len(keepc) < len(cs):
                r = mul(rest, iverson(conj(keepc)))
                parts.append(summ(var, lo, hi, r))
                continue
        # iversons: split conjunctions not depending on var
        ins2 = []
        for a, e in ins:
            if a.op == 'iver' and a.args[0].op == 'and':
                dep = [x for x in a.args[0].args[0] if occurs(x, var)]
                ind = [x for x in a.args[0].args[0] if not occurs(x, var)]
                if ind:
                    outs.append((mk('iver', conj(ind)), Fraction(1)))
                ins2.append((mk('iver', conj(dep)), Fraction(1)))
            else:
                ins2.append((a, e))
        f = from_poly(_mono_norm(dict(outs), c))
        if not ins2:
            parts.append(mul(f, d))        # assumes lo <= hi
            continue
        b = from_poly(_mono_norm(dict(ins2), Fraction(1)))
        parts.append(mul(f, _sum1(var, lo, hi, b)))
    return add(*parts) if parts else ZERO

def solve_linear(p, var):
    """value of var solving p == 0 when p is linear in var with coefficient +-1 and var occurs nowhere else"""
    d = to_poly(p)
    m = ((var, Fraction(1)),)
    c = d.get(m)
    if c is None or abs(c) != 1:
        return None
    rest = from_poly({k: v for k, v in d.items() if k != m})
    if occurs(rest, var):
        return None
    return neg(rest) if c == 1 else rest

def _sum1(var, lo, hi, body):
    # compaction: sum over n < count(P) of body(nth index with P) = sum over i < N of [P(i)] body(i)
    if lo is ZERO:
        cps = [x for x in subterms(body) if x.op == 'cpt' and x.args[2] is var]
        if cps:
            cp = cps[0]
            if all(x is cp for x in cps) and cpt_count(cp) is hi:
                m = mk('sym', '\0cpt')
                b = subst(body, {cp: m})
                if not occurs(b, var):
                    j = fresh('j')
                    cond = apply_lam(cp.args[0], j)
                    return summ(j, ZERO, cp.args[1], mul(iverson(cond), subst(b, {m: j})))
    nv, (b,) = bind(var, [body])
    return mk('sum', nv, lo, hi, b)

_fresh = [0]
def fresh(name='v'):
    _fresh[0] += 1
    v = mk('sym', '\0%s%d' % (name, _fresh[0]))
    _vars.add(v.id)
    v._fv = None
    _intsyms.add(v.id)
    return v

def lam(var, body):
    nv, (b,) = bind(var, [body])
    return mk('lam', nv, b)

def apply_lam(l, x):
    return subst(l.args[1], {l.args[0]: x})

def cpt(cond_lam, N, n):
    """n-th index i in [0,N) with cond(i)"""
    return mk('cpt', cond_lam, N, n)

def cpt_count(cp):
    j = fresh('j')
    return summ(j, ZERO, cp.args[1], iverson(apply_lam(cp.args[0], j)))

# ---------------------------------------------------------------- substitution
def subst(t, m):
    """replace terms (keys) by terms, renormalising"""
    ids = {k.id: v for k, v in m.items()}
    memo = {}
    return _subst(t, ids, memo)

def _subst(t, ids, memo):
    r = ids.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    ks = kids(t)
    if not ks:
        memo[t.id] = t
        return t
    if t.op in BINDERS:
        nv = t.args[0]
        rest = [_subst(k, ids, memo) for k in t.args[1:-1]]
        v, (body,) = open_binder(nv, [t.args[-1]])
        try:
            nb = _subst(body, ids, memo)
            if nb is body and all(x is y for x, y in zip(rest, t.args[1:-1])):
                r = t
            elif t.op == 'sum':
                r = summ(v, rest[0], rest[1], nb)
            elif t.op == 'lam':
                r = lam(v, nb)
            else:
                r = MKALAM(v, rest[0], nb)
        finally:
            close_binder()
        memo[t.id] = r
        return r
    new = [_subst(k, ids, memo) for k in ks]
    if all(a is b for a, b in zip(ks, new)):
        r = t
    else:
        r = rebuild(t, dict(zip([k.id for k in ks], new)))
        if r.op == 'call' or r.op == 'item':
            CARRY(t, r, lambda x: _subst(x, ids, memo))
    memo[t.id] = r
    return r

MKALAM = None
REBUILD = {}     # op -> function(newargs) registered by other modules (sel, shape ...)

def rebuild(t, mp):
    def rec(a):
        if isinstance(a, T):
            return mp.get(a.id, a)
        if isinstance(a, tuple):
            return tuple(rec(x) for x in a)
        return a
    op = t.op
    if op == 'poly':
        terms = []
        for m, c in t.args[0]:
            terms.append(mul(mk('num', c), *[power(mp.get(a.id, a), e) for a, e in m]))
        return add(*terms)
    args = tuple(rec(a) for a in t.args)
    if op == 'cmp':
        return cmp0(args[0], args[1])
    if op == 'and':
        return conj(args[0])
    if op == 'or':
        return disj(args[0])
    if op == 'not':
        return neg_c(truth(args[0]))
    if op == 'iver':
        return iverson(args[0])
    if op == 'ite':
        return ite(*args)
    if op == 'truth':
        return truth(args[0])
    if op == 'eq':
        return compare('==', *args)
    f = REBUILD.get(op)
    if f is not None:
        return f(args)
    return mk(op, *args)

# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if depth < 0:
        return '..'
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op in ('str', 'bool', 'bytes'):
        return repr(a[0])
    if op in ('none', 'nan', 'pi', 'tid'):
        return op
    if op == 'sym':
        return str(a[0]).replace('\0', '~') + (''.join('/' + str(x) for x in a[1:]) if len(a) > 1 else '')
    if op == 'bv':
        return 'i%d' % a[0]
    if op == 'poly':
        out = []
        for m, c in a[0]:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for at, e in m:
                x = s(at)
                if at.op == 'poly':
                    x = '(' + x + ')'
                f.append(x if e == 1 else '%s^%s' % (x, e))
            out.append('*'.join(f))
        return ' + '.join(out)
    if op == 'cmp':
        return '%s %s 0' % (s(a[1]), a[0])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a[0]) + ')'
    if op == 'iver':
        return '[' + s(a[0]) + ']'
    if op == 'ite':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'sum':
        return 'SUM(%s=%s..%s: %s)' % (s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    if op == 'call':
        return '%s(%s)' % (a[0], ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if op == 'sel':
        return '%s[%s]' % (s(a[0]), ', '.join(s(x) for x in a[1]))
    def rec(x):
        if isinstance(x, T):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ', '.join(rec(y) for y in x) + ')'
        return str(x)
    return '%s(%s)' % (op, ', '.join(rec(x) for x in a))
