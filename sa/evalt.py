"""Random interpretation of terms: a second opinion when two normal forms differ.

Both terms are interpreted over the same random assignment of their symbols; every external
operation is an uninterpreted function of its interpreted arguments.  Only the extracted
terms are interpreted, never the program.  A difference refutes equality; agreement on all
assignments means the normal forms are not trusted as a mismatch."""
import math, random
from fractions import Fraction
from . import terms as S
from . import arrays as A
from .terms import T

class Skip(Exception): pass          # this assignment cannot decide (tie between inexact numbers, division by zero ...)
class NoEval(Exception): pass        # the term has a construct without an interpretation

NANV = float('nan')
REALS = [Fraction(x) for x in (-3, -2, -1, 0, 1, 2, 3)] + [Fraction(1, 2), Fraction(3, 2), Fraction(-1, 2), Fraction(5, 2)]
POS = [Fraction(x) for x in (0, 1, 2, 3, 4)] + [Fraction(1, 2), Fraction(3, 2), Fraction(5, 2)]

class U:
    """uninterpreted value"""
    __slots__ = ('key', '_n')
    def __init__(self, key): self.key, self._n = key, None
    def __eq__(self, o): return isinstance(o, U) and o.key == self.key
    def __hash__(self): return hash(self.key)
    def __repr__(self): return 'U' + repr(self.key)[:40]

class Arrv:
    __slots__ = ('ext', 'data')
    def __init__(self, data, ext=None): self.data, self.ext = tuple(data), ext

def is_n(x): return isinstance(x, (Fraction, float)) and not isinstance(x, bool)

def key(x):
    if isinstance(x, Arrv):
        return ('A',) + tuple(key(y) for y in x.data)
    if isinstance(x, U):
        return ('U', x.key)
    if isinstance(x, tuple):
        return ('T',) + tuple(key(y) for y in x)
    if isinstance(x, float):
        if x != x:
            return ('n', 'nan')
        if math.isinf(x):
            return ('n', 'inf' if x > 0 else '-inf')
        return ('n', float('%.9g' % x) + 0.0)
    if isinstance(x, bool):
        return ('n', float(x))
    if isinstance(x, Fraction):
        return ('n', float('%.9g' % float(x)) + 0.0)
    return x

def same(a, b):
    if isinstance(a, bool): a = Fraction(int(a))
    if isinstance(b, bool): b = Fraction(int(b))
    if is_n(a) and is_n(b):
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            # exact numbers: nothing is lost to cancellation
            return abs(a - b) <= max(abs(a), abs(b)) / 10**7
        fa, fb = float(a), float(b)
        if fa != fa or fb != fb:
            return fa != fa and fb != fb
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= 1e-7 * max(1.0, abs(fa), abs(fb))
    if isinstance(a, Arrv) and isinstance(b, Arrv):
        return len(a.data) == len(b.data) and all(same(x, y) for x, y in zip(a.data, b.data))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return key(a) == key(b)

class Ev:
    def __init__(self, seed, sizes=(1, 2, 3), budget=400000):
        self.seed, self.sizes, self.memo, self.budget = seed, sizes, {}, budget
        self.noeval_ok = False
        self.over, self.fixed, self.last = {}, {}, None

    def h(self, k):
        return random.Random(repr((self.seed, k)))

    def fix(self, t, v):
        """this value for a term"""
        self.memo[t.id] = self.fixed[t.id] = v

    def bind(self, t, v):
        """this value for an application of an uninterpreted function, however its arguments are written"""
        self.memo.pop(t.id, None)
        self.last = None
        x = self.ev(t)
        k = x.key if isinstance(x, U) else self.last
        if k is None: return False
        self.over[k] = v
        self.memo = dict(self.fixed)
        return True

    def numeric(self, u, isint=False, nonneg=False):
        self.last = u
        if u in self.over and is_n(self.over[u]): return self.over[u]
        r = self.h(('num', u))
        if isint and self.seed % 2 and u and u[-1] == self.ELEM:
            return Fraction(r.choice((0, 1)))           # entries of integer arrays are often indices
        if self.seed % 3 == 2 and not isint:
            return Fraction(r.choice((0, 1, 2) if nonneg else (0, 1)))      # ties
        if isint:
            return Fraction(r.choice(self.sizes) if nonneg else r.choice((0, 1, 2, 3)))
        return r.choice(POS if nonneg else REALS)

    def tonum(self, v):
        if isinstance(v, bool):
            return Fraction(int(v))
        if is_n(v):
            return v
        if isinstance(v, U):
            return self.numeric(v.key)
        raise NoEval('number from %r' % (type(v).__name__,))

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if is_n(v):
            return v != 0
        if isinstance(v, U):
            return self.h(('bool', v.key)).random() < 0.5
        if isinstance(v, str):
            return v != ''
        if isinstance(v, (Arrv,)):
            return len(v.data) > 0
        if v is None:
            return False
        raise NoEval('truth')

    def pick(self, c, x, y):
        """element-wise choice; arrays of equal shape, scalars spread"""
        if not isinstance(c, Arrv):
            return x if self.tobool(c) else y
        out = []
        for k, ck in enumerate(c.data):
            p = []
            for v in (x, y):
                if isinstance(v, Arrv):
                    if len(v.data) != len(c.data): raise NoEval('array ite')
                    p.append(v.data[k])
                elif isinstance(v, U):
                    raise NoEval('array ite')
                else:
                    p.append(v)
            out.append(self.pick(ck, *p))
        return Arrv(out)

    # ------------------------------------------------------------
    def ev(self, t, env=()):
        if not S.fv(t):
            r = self.memo.get(t.id, self)
            if r is not self:
                return r
            r = self._ev(t, {})
            if isinstance(r, U) and r.key in self.over: r = self.over[r.key]
            self.memo[t.id] = r
            return r
        env = dict(env) if not isinstance(env, dict) else env
        k = (t.id,) + tuple((v, key(env.get(v))) for v in sorted(S.fv(t)))
        r = self.memo.get(k, self)
        if r is not self:
            return r
        r = self._ev(t, env)
        if isinstance(r, U) and r.key in self.over: r = self.over[r.key]
        self.memo[k] = r
        return r

    ELEM = 'el'
    def mkarr(self, k, shp, isint=False, nonneg=False):
        if not shp:
            return self.numeric(k + (self.ELEM,), isint, nonneg)
        n = shp[0]
        if n < 0: n = 0
        if n > 40:
            raise Skip()
        return Arrv([self.mkarr(k + ('i', i), shp[1:], isint, nonneg) for i in range(n)], (k, shp, isint, nonneg))

    def size(self, t, env):
        v = self.tonum(self.ev(t, env))
        if isinstance(v, float):
            if v != v or math.isinf(v) or v != int(v):
                raise Skip()
            v = Fraction(int(v))
        if v.denominator != 1:
            raise Skip()
        return int(v)

    def atom(self, t, k, env):
        """value of an uninterpreted term with key k"""
        isint = S.is_int(t)
        nonneg = t.id in S._nonneg
        r = A.rank(t)
        if r == 0:
            if isint or nonneg:
                return self.numeric(k, isint, nonneg)
            return U(k)
        if r is None:
            return U(k)
        def dim(d):
            n = A.shape(t, d)
            if n.op == 'shape' and n.args[0] is t:
                # a length known only as the length of the array itself
                return int(self.numeric(('shape', k, d), True, True))
            return self.size(n, env)
        return self.mkarr(k, [dim(d) for d in range(r)], isint, nonneg)

    def _ev(self, t, env):
        self.budget -= 1
        if self.budget < 0:
            raise Skip()
        op, a = t.op, t.args
        ev = self.ev
        if op == 'num': return a[0]
        if op in ('bool', 'str', 'bytes'): return a[0]
        if op == 'none': return None
        if op == 'nan': return NANV
        if op == 'inf': return float('inf') * a[0]
        if op == 'pi': return math.pi
        if op == 'bv' or (op == 'sym' and t.id in S._vars):
            if t.id in env:
                return env[t.id]
            return self.numeric(('bv', op, a[0] if op == 'bv' else t.id), True, True)
        if op == 'sym':
            return self.atom(t, ('sym',) + a, env)
        if op == 'poly':
            tot = Fraction(0)
            arrs = None
            R = A.rank(t)
            if R is None or R > 0:
                vals = {}
                for m, c in a[0]:
                    for x, e in m:
                        vals[x.id] = ev(x, env)
                if any(isinstance(v, Arrv) for v in vals.values()):
                    for m, c in a[0]:
                        for x, e in m:
                            if isinstance(vals[x.id], U) and A.rank(x) == 0: vals[x.id] = self.tonum(vals[x.id])
                    return self.lift(t, vals)
            for m, c in a[0]:
                f = c
                for x, e in m:
                    f = self.mulv(f, self.powv(self.tonum(ev(x, env)), e))
                tot = self.addv(tot, f)
            return tot
        if op == 'cmp':
            v = ev(a[1], env)
            if isinstance(v, Arrv):
                return self.mapv(lambda x: self.cmp0(a[0], x), v)
            if v == 0 and a[1].id in self.ties: self.hits.add(a[1].id)
            return self.cmp0(a[0], v)
        if op in ('and', 'or'):
            res = op == 'and'
            sk = None
            for x in a[0]:
                try:
                    v = ev(x, env)
                    if isinstance(v, Arrv):
                        raise NoEval('array condition')
                    b = self.tobool(v)
                except Skip as e:
                    sk = e; continue
                if b != res:
                    return not res
            if sk: raise sk
            return res
        if op == 'not':
            v = ev(a[0], env)
            return self.mapv(lambda x: not self.tobool(x), v) if isinstance(v, Arrv) else not self.tobool(v)
        if op == 'truth':
            return self.tobool(ev(a[0], env))
        if op == 'iver':
            v = ev(a[0], env)
            return self.mapv(lambda x: Fraction(int(self.tobool(x))), v) if isinstance(v, Arrv) else Fraction(int(self.tobool(v)))
        if op == 'ite':
            c = ev(a[0], env)
            if isinstance(c, Arrv):
                return self.pick(c, ev(a[1], env), ev(a[2], env))
            return ev(a[1] if self.tobool(c) else a[2], env)
        if op == 'eq':
            x, y = ev(a[0], env), ev(a[1], env)
            return self.eqv(x, y)
        if op == 'max':
            vs = [ev(x, env) for x in a[0]]
            if any(isinstance(v, Arrv) for v in vs): return self.largest(vs)
            vs = [self.tonum(v) for v in vs]
            if any(isinstance(v, float) and v != v for v in vs): return NANV
            return max(vs)
        if op in ('sum', 'alam'):
            lo = 0 if op == 'alam' else self.size(a[1], env)
            hi = self.size(a[1] if op == 'alam' else a[2], env)
            if hi - lo > 40: raise Skip()
            out = []
            for i in range(lo, hi):
                e2 = dict(env); e2[a[0].id] = Fraction(i)
                out.append(ev(a[-1], e2))
            if op == 'alam':
                return Arrv(out)
            tot = Fraction(0)
            for v in out:
                if isinstance(v, Arrv): raise NoEval('array sum')
                tot = self.addv(tot, self.tonum(v))
            return tot
        if op == 'lam':
            rows = []
            for i in range(4):
                e2 = dict(env); e2[a[0].id] = Fraction(i)
                rows.append(key(ev(a[1], e2)))
            return U(('lam',) + tuple(rows))
        if op == 'prod' or op == 'redmax':
            l = a[0]
            n = self.size(a[1], env)
            vals = []
            for i in range(n):
                e2 = dict(env); e2[l.args[0].id] = Fraction(i)
                vals.append(self.tonum(ev(l.args[1], e2)))
            if op == 'prod':
                r = Fraction(1)
                for v in vals: r = self.mulv(r, v)
                return r
            return max(vals + [self.tonum(ev(a[2], env))])
        if op == 'vec':
            return Arrv([ev(x, env) for x in a[0]])
        if op == 'upd':
            b = ev(a[0], env)
            if not isinstance(b, Arrv): raise NoEval('upd')
            d = list(b.data)
            for k, v in a[1]:
                i = self.size(k, env)
                if i >= len(d): raise Skip()
                d[i] = ev(v, env)
            return Arrv(d)
        if op == 'sel':
            v = ev(a[0], env)
            for x in a[1]:
                i = ev(x, env)
                v = self.index(v, i)
            return v
        if op == 'shape':
            v = ev(a[0], env)
            for _ in range(a[1] if isinstance(a[1], int) else int(a[1].args[0]) if a[1].op == 'num' else 0):
                if isinstance(v, Arrv):
                    if not v.data: raise Skip()
                    v = v.data[0]
            if isinstance(v, Arrv):
                return Fraction(len(v.data))
            if isinstance(v, U):
                return self.numeric(('shape', v.key, key(ev(a[1], env)) if isinstance(a[1], T) else a[1]), True, True)
            raise Skip()
        if op == 'len':
            v = ev(a[0], env)
            if isinstance(v, Arrv): return Fraction(len(v.data))
            if isinstance(v, U): return self.numeric(('shape', v.key, 0), True, True)
            raise NoEval('len')
        if op == 'cpt':
            N = self.size(a[1], env)
            n = self.size(a[2], env)
            l = a[0]
            hits = []
            for i in range(N):
                e2 = dict(env); e2[l.args[0].id] = Fraction(i)
                if self.tobool(ev(l.args[1], e2)): hits.append(i)
            if not 0 <= n < len(hits): raise Skip()
            return Fraction(hits[n])
        if op == 'call':
            return self.call(t, a, env)
        if op == 'item':
            v = ev(a[0], env)
            k = a[1] if not isinstance(a[1], T) else key(ev(a[1], env))
            if isinstance(v, Arrv) and isinstance(k, int):
                if k < len(v.data): return v.data[k]
                raise Skip()
            if isinstance(v, tuple) and isinstance(k, int) and k < len(v): return v[k]
            return self.atom(t, ('item', key(v), k), env)
        if op == 'tuple':
            return tuple(ev(x, env) for x in a[0]) if a and isinstance(a[0], tuple) else tuple(ev(x, env) for x in a if isinstance(x, T))
        if op == 'strcat':
            parts = [ev(x, env) for x in (a[0] if isinstance(a[0], tuple) else a)]
            if all(isinstance(x, str) for x in parts): return ''.join(parts)
            return U(('strcat',) + tuple(key(x) for x in parts))
        if op == 'junk': return Fraction(-1)
        if op in ('lmu', 'undef', 'lapp', 'col', 'lvi', 'lprev', 'stop', 'unset'):
            raise NoEval(op)
        # any other operator is uninterpreted
        def rec(x):
            if isinstance(x, T): return key(ev(x, env))
            if isinstance(x, tuple): return tuple(rec(y) for y in x)
            return x
        k = (op,) + tuple(rec(x) for x in a)
        if op == 'pred':
            return self.h(('bool', k)).random() < 0.5
        return self.atom(t, k, env)

    def call(self, t, a, env):
        name = a[0]
        vals = [self.ev(x, env) for x in a[1]]
        kws = tuple((k, key(self.ev(v, env))) for k, v in a[2])
        if not kws and len(vals) == 1 and is_n(vals[0]):
            x = vals[0]
            if name == 'isnan':
                return bool(x != x) or self.seed % 2 == 1 and self.marked(a[1][0], env)
            if isinstance(x, float) and x != x: return NANV
            f = {'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'floor': math.floor, 'ceil': math.ceil,
                 'log': math.log, 'log10': math.log10, 'int': math.trunc}.get(name)
            if f:
                try:
                    r = f(x)
                    return Fraction(r) if isinstance(r, int) else r
                except (ValueError, OverflowError):
                    raise Skip()
        if name in ('mod', 'floordiv') and len(vals) == 2 and all(isinstance(v, Fraction) for v in vals):
            if vals[1] == 0: raise Skip()
            return vals[0] % vals[1] if name == 'mod' else Fraction(vals[0] // vals[1])
        if name in ('opaque', 'unknown'):
            raise NoEval(name)
        if name in ('searchsorted', 'searchsorted_right') and len(vals) == 2 and not kws and isinstance(vals[0], Arrv) and is_n(vals[1]) and all(is_n(v) for v in vals[0].data):
            xs = vals[0].data
            if any(not p <= q for p, q in zip(xs, xs[1:])) or vals[1] != vals[1]: raise Skip()
            return Fraction(sum(x < vals[1] or name != 'searchsorted' and x == vals[1] for x in xs))
        if name in ('searchsorted', 'searchsorted_right'): raise NoEval(name)
        if name in ('argmin', 'argmax') and len(vals) == 1 and not kws and isinstance(vals[0], Arrv) and not any(isinstance(v, Arrv) for v in vals[0].data):
            xs = [self.tonum(v) for v in vals[0].data]
            if not xs: raise Skip()
            for i, x in enumerate(xs):
                if isinstance(x, float) and x != x: return Fraction(i)
            return Fraction(xs.index((min if name == 'argmin' else max)(xs)))
        if name == 'reshape' and not kws and len(vals) > 1 and all(isinstance(v, Fraction) for v in vals[1:]):
            return self.reshape(vals[0], [int(v) for v in vals[1:]])
        k = ('call', name) + tuple(key(v) for v in vals) + kws
        return self.atom(t, k, env)

    def marked(self, t, env):
        """some entries of the arrays given count as not a number wherever that is asked"""
        if t.op == 'sel' and t.args[0].op == 'sym':
            return self.h(('nan', t.args[0].args) + tuple(key(self.ev(i, env)) for i in t.args[1])).random() < 0.35
        return t.op == 'poly' and any(self.marked(x, env) for m, c in t.args[0] for x, e in m)

    def reshape(self, v, shp):
        flat = []
        def walk(x):
            if isinstance(x, Arrv):
                for y in x.data: walk(y)
            else: flat.append(x)
        if isinstance(v, U):
            n = self.h(('flat', v.key)).choice((6, 6, 12))
            flat = [U(v.key + ('flat', i)) for i in range(n)]
        else:
            walk(v)
        n = 1
        for x in shp:
            if x >= 0: n *= x
        if shp.count(-1) > 1 or n == 0 or len(flat) % n: raise Skip()
        shp = [len(flat) // n if x == -1 else x for x in shp]
        n = 1
        for x in shp: n *= x
        if n != len(flat): raise Skip()
        def build(xs, dims):
            if not dims: return xs[0]
            k = len(xs) // dims[0] if dims[0] else 0
            return Arrv([build(xs[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])])
        return build(flat, shp)

    def index(self, v, i):
        if isinstance(v, Arrv):
            if isinstance(i, U): i = self.tonum(i)
            if isinstance(i, bool) or not is_n(i): raise NoEval('index')
            if isinstance(i, float) or i.denominator != 1: raise Skip()
            i = int(i)
            if i < 0: i += len(v.data)
            if not 0 <= i < len(v.data):
                if self.lenient and 0 <= i < 40 and v.ext:
                    k, shp, isint, nonneg = v.ext
                    return self.mkarr(k + ('i', i), shp[1:], isint, nonneg)
                raise Skip()
            return v.data[i]
        if isinstance(v, U):
            return U(v.key + ('[]', key(i)))
        if isinstance(v, tuple) and isinstance(i, Fraction) and i.denominator == 1 and 0 <= i < len(v):
            return v[int(i)]
        raise NoEval('index of ' + type(v).__name__)

    def mapv(self, f, v):
        return Arrv([self.mapv(f, x) if isinstance(x, Arrv) else f(x) for x in v.data])

    def largest(self, vs):
        n = max(len(v.data) for v in vs if isinstance(v, Arrv))
        if any(isinstance(v, U) for v in vs): raise NoEval('mixed')
        out = []
        for i in range(n):
            ws = []
            for v in vs:
                if not isinstance(v, Arrv): ws.append(v)
                elif len(v.data) == 1: ws.append(v.data[0])
                elif i < len(v.data): ws.append(v.data[i])
                else: raise Skip()
            if any(isinstance(w, Arrv) for w in ws):
                out.append(self.largest(ws))
                continue
            ws = [self.tonum(w) for w in ws]
            out.append(NANV if any(isinstance(w, float) and w != w for w in ws) else max(ws))
        return Arrv(out)

    def lift(self, t, vals):
        arrs = [v for v in vals.values() if isinstance(v, Arrv)]
        def depth(v): return 1 + (depth(v.data[0]) if v.data and isinstance(v.data[0], Arrv) else 0) if isinstance(v, Arrv) else 0
        D = max(depth(v) for v in arrs)
        if any(isinstance(v, U) for v in vals.values()): raise NoEval('mixed')
        n = max(len(v.data) for v in arrs if depth(v) == D)
        out = []
        for i in range(n):
            sub = {}
            for k, v in vals.items():
                if isinstance(v, Arrv) and depth(v) == D:
                    if len(v.data) == 1: sub[k] = v.data[0]
                    elif i < len(v.data): sub[k] = v.data[i]
                    else: raise Skip()
                else: sub[k] = v
            if any(isinstance(v, Arrv) for v in sub.values()):
                out.append(self.lift(t, sub))
            else:
                tot = Fraction(0)
                for m, c in t.args[0]:
                    f = c
                    for x, e in m: f = self.mulv(f, self.powv(self.tonum(sub[x.id]), e))
                    tot = self.addv(tot, f)
                out.append(tot)
        return Arrv(out)

    # ------------------------------------------------------------ numbers
    def norm(self, x):
        return x
    def addv(self, a, b):
        return a + b if isinstance(a, Fraction) and isinstance(b, Fraction) else float(a) + float(b)
    def mulv(self, a, b):
        if isinstance(a, Fraction) and isinstance(b, Fraction): return a * b
        if (a == 0 and isinstance(a, Fraction) and b == b) : return Fraction(0)
        if (b == 0 and isinstance(b, Fraction) and a == a) : return Fraction(0)
        return float(a) * float(b)
    def powv(self, x, e):
        if e == 1: return x
        if isinstance(x, float) and x != x: return NANV
        if x == 0 and e < 0: raise Skip()
        if isinstance(x, Fraction):
            if e.denominator == 1: return x ** int(e)
            if x < 0: raise Skip()
            k = e.denominator
            r = round(float(x.numerator) ** (1.0 / k)), round(float(x.denominator) ** (1.0 / k))
            if r[0] ** k == x.numerator and r[1] ** k == x.denominator and r[1]:
                return Fraction(*r) ** int(e.numerator) if r[0] or e > 0 else NANV
            return float(x) ** float(e)
        if x < 0 and e.denominator != 1: raise Skip()
        try:
            return x ** float(e)
        except OverflowError:
            raise Skip()
    def cmp0(self, op, v):
        v = self.tonum(v)
        if isinstance(v, float):
            if v != v:
                return op == '!='
            if abs(v) < 1e-9: raise Skip()
        return {'==': v == 0, '!=': v != 0, '<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[op]
    def eqv(self, x, y):
        if isinstance(x, U) and isinstance(y, (Fraction, float)): x = self.tonum(x)
        if isinstance(y, U) and isinstance(x, (Fraction, float)): y = self.tonum(y)
        if isinstance(x, U) and isinstance(y, str):
            # strings are drawn so that comparisons with literals are sometimes true
            return self.h(('streq', x.key)).choice(self.strs(y)) == y
        if isinstance(y, U) and isinstance(x, str):
            return self.eqv(y, x)
        return same(x, y)
    def strs(self, y):
        return sorted(self.lits | {y}) + ['\0other']
    lits = frozenset()
    ties, hits = frozenset(), set()
    lenient = False     # reads beyond the end of an input array have some value

def literals(*ts):
    out = set()
    for t in ts:
        for x in S.subterms(t):
            if x.op == 'str' and len(x.args[0]) < 40: out.add(x.args[0])
    return frozenset(out)

def force(e, conds):
    """makes uninterpreted conditions true in this interpretation; returns the conditions left to test"""
    rest = []
    todo = list(conds)
    while todo:
        c = todo.pop(0)
        if c.op == 'and':
            todo = list(c.args[0]) + todo
            continue
        if c.op == 'or':
            todo.append(e.h(('or', c.id, len(todo))).choice(c.args[0]))
            rest.append(c)
            continue
        v, x = True, c
        if c.op == 'not':
            v, x = False, c.args[0]
        if not S.fv(x):
            if x.op == 'truth' and x.args[0].op in ('call', 'item', 'sym') or x.op == 'pred':
                if x.op == 'truth' and x.args[0].op in ('call', 'item'):
                    try:
                        if e.bind(x.args[0], v):
                            rest.append(c)
                            continue
                    except NoEval: pass
                e.fix(x, v)
                if x.op == 'truth' and x.args[0].op == 'sym':
                    rest.append(c)
                continue
            if x.op == 'eq' and v:
                p, q = x.args
                if p.op == 'str': p, q = q, p
                if q.op in ('str', 'none', 'bool') and p.op in ('sym', 'call', 'item', 'field'):
                    e.fix(p, q.args[0] if q.op != 'none' else None)
                    continue
                if p.op not in ('sym', 'call', 'item', 'field') or S.occurs(q, p): p, q = q, p
                if p.op in ('sym', 'call', 'item', 'field') and not S.occurs(q, p):
                    try: e.bind(p, e.ev(q))
                    except NoEval: pass
            if x.op == 'cmp' and x.args[0] == '==' and v:
                d = S.to_poly(x.args[1])
                for m, k in d.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'call', 'item', 'field') and not S.occurs(S.sub(x.args[1], S.mul(S.num(k), m[0][0])), m[0][0]):
                        r = S.div(S.mul(S.num(-1), S.sub(x.args[1], S.mul(S.num(k), m[0][0]))), S.num(k))
                        if r.op == 'num':
                            e.fix(m[0][0], r.args[0])
                            break
                        try:
                            if e.bind(m[0][0], e.tonum(e.ev(r))): break
                        except NoEval: pass
                else:
                    rest.append(c)
                    continue
                rest.append(c)
                continue
        rest.append(c)
    return rest

def aim(e, conds):
    """free integers with an upper bound among the conditions are drawn below it"""
    done = set()
    for c in conds:
        if c.op != 'cmp' or c.args[0] not in ('<', '<='): continue
        for m, k in S.to_poly(c.args[1]).items():
            if len(m) == 1 and m[0][1] == 1 and k == 1 and m[0][0].op == 'sym' and m[0][0].id not in done and m[0][0].id not in e.memo and (S.is_int(m[0][0]) or m[0][0].id in S._vars):
                v = m[0][0]
                top = None
                for d in conds:
                    if d.op != 'cmp' or d.args[0] not in ('<', '<='): continue
                    rest = S.sub(d.args[1], v)
                    if rest is d.args[1] or S.occurs(rest, v): continue
                    try:
                        r = -e.tonum(e.ev(rest))
                    except NoEval:
                        continue
                    if d.args[0] == '<': r -= 1
                    r = math.floor(r)
                    top = r if top is None else min(top, r)
                if top is None: continue
                if top < 0: raise Skip()
                done.add(v.id)
                x = Fraction(e.h(('aim', v.id)).randint(0, min(top, 12)))
                if v.id in S._vars:
                    e.over[('bv', 'sym', v.id)] = x
                elif v.id not in e.memo:
                    e.memo[v.id] = x
                break

DEADLINE = [float('inf')]

def sample(a, b, conds, trials=240, want=60):
    """compares two terms on random interpretations in which the conditions hold"""
    r = sample1(a, b, conds, trials, want)
    if r[0] == 'noeval' and 'decided' in r[1]:
        r2 = sample1(a, b, conds, trials, want, True)
        if r2[0] == 'same': return r2
        # conditions that only hold for longer arrays
        r3 = sample1(a, b, conds, 48, 16, False, BIGGER)
        if r3[0] != 'noeval': return r3
    return r

def strictness(a, b):
    """polynomials that the two terms compare with zero differently"""
    def ops(t):
        d = {}
        for x in S.subterms(t):
            if x.op == 'cmp': d.setdefault(x.args[1].id, set()).add(x.args[0])
        return d
    p, q = ops(a), ops(b)
    return frozenset(k for k in p if k in q and {'<', '<='} <= p[k] ^ q[k])

SIZES = ((1, 2, 3), (2, 3), (1, 2), (0, 1, 2), (3, 4), (5, 6, 7))
BIGGER = ((9, 10, 11), (11, 13), (2, 12, 17), (1, 16, 21))

def sample1(a, b, conds, trials=240, want=60, lenient=False, sizes=SIZES):
    ok = 0
    lits = literals(a, b, *conds)
    ties = strictness(a, b)
    hits = {k: 0 for k in ties}
    outcomes = set()
    import time
    t0 = time.time()
    if t0 > DEADLINE[0]:
        return ('noeval', 'out of time')
    k = -1
    while True:
        k += 1
        low = [x for x in hits if hits[x] < 3]
        if len(outcomes) == 1 and ok: low.append(None)
        if k >= (trials if not low else 8 * trials): break
        if ok >= want and not low or time.time() - t0 > (3 if ok >= 12 and not low else 12): break
        seed = k if k < trials or not low else 3 * k + 2
        e = Ev(seed, sizes=sizes[k % len(sizes)])
        e.lits, e.lenient = lits, lenient
        e.ties, e.hits = ties, set()
        try:
            rest = force(e, conds)
            aim(e, conds)
            if any(e.tobool(e.ev(c)) is False for c in rest):
                continue
            x, y = e.ev(a), e.ev(b)
            if isinstance(x, U) and is_n(y) or isinstance(y, U) and is_n(x):
                x, y = e.tonum(x), e.tonum(y)
            r = same(x, y)
        except Skip:
            continue
        except NoEval as ex:
            return ('noeval', str(ex))
        except (OverflowError, RecursionError, ZeroDivisionError):
            continue
        if not r:
            return ('differ', 'assignment %d: %s vs %s' % (k, key(x) if not isinstance(x, Arrv) else 'array', key(y) if not isinstance(y, Arrv) else 'array'))
        ok += 1
        if isinstance(x, bool): outcomes.add(x)
        for x in e.hits: hits[x] += 1
    if ok < 4:
        return ('noeval', 'no decided assignment' if not ok else 'too few decided assignments')
    if any(v < 1 for v in hits.values()):
        return ('noeval', 'no decided assignment on a boundary')
    return ('same', ok)

INTERP = {'isnan', 'exp', 'sin', 'cos', 'tan', 'floor', 'ceil', 'log', 'log10', 'int', 'mod', 'floordiv', 'opaque', 'unknown'}
class Budget(Exception): pass

def infeasible(cs):
    """contradiction between two or three linear conditions"""
    le, eq, ne = [], [], []
    for c in cs:
        if c.op == 'cmp' and c.args[0] in ('<', '<=', '==', '!='):
            {'<': le, '<=': le, '==': eq, '!=': ne}[c.args[0]].append((c.args[1], c.args[0] == '<'))
    def const(p):
        return p.args[0] if p.op == 'num' else None
    for e, _ in eq:
        for p, strict in le:
            for q in (S.add(p, e), S.sub(p, e)):
                v = const(q)
                if v is not None and (v > 0 or strict and v == 0): return True
        for p, _ in ne:
            if const(S.add(p, e)) == 0 or const(S.sub(p, e)) == 0: return True
    for k, (p, s1) in enumerate(le):
        for q, s2 in le[:k]:
            v = const(S.add(p, q))
            if v is None: continue
            if v > 0 or (s1 or s2) and v == 0: return True
            if v == 0:
                for r, _ in ne:
                    if const(S.add(p, r)) == 0 or const(S.sub(p, r)) == 0: return True
    return False

def solved(x, y, cs):
    """replaces a quantity that an equation among the conditions determines"""
    cs = list(cs)
    for _ in range(6):
        for k, c in enumerate(cs):
            if c.op == 'eq' and not S.fv(c):
                z, r = c.args
                if z.op not in ('sym', 'call', 'item', 'field', 'sel') or S.occurs(r, z): z, r = r, z
                if z.op in ('sym', 'call', 'item', 'field', 'sel') and r.op not in ('str', 'none', 'bool', 'num', 'bytes') and not S.occurs(r, z):
                    x, y = S.subst(x, {z: r}), S.subst(y, {z: r})
                    cs = [S.subst(d, {z: r}) for j, d in enumerate(cs) if j != k]
                    break
            if c.op != 'cmp' or c.args[0] != '==' or S.fv(c): continue
            for m, q in S.to_poly(c.args[1]).items():
                if len(m) != 1 or m[0][1] != 1 or m[0][0].op not in ('sym', 'call', 'item', 'field') or A.rank(m[0][0]) not in (0, None): continue
                if m[0][0].op == 'call' and m[0][0].args[0] in INTERP: continue
                z = m[0][0]
                rest = S.sub(c.args[1], S.mul(S.num(q), z))
                if S.occurs(rest, z): continue
                r = S.div(S.neg(rest), S.num(q))
                if r.op == 'num': continue       # left to force
                x, y = S.subst(x, {z: r}), S.subst(y, {z: r})
                cs = [S.subst(d, {z: r}) for j, d in enumerate(cs) if j != k]
                break
            else: continue
            break
        else: break
    return x, y, tuple(d for d in cs if d is not S.TRUE)

def differ(a, b, trials=240, env=None, cond=None):
    """('differ', witness) | ('same', assignments decided) | ('noeval', why)

    Terms are taken apart as far as they have the same build; only the parts that differ are interpreted, under the
    conditions on the way to them, so that agreement means that the differing parts were reached."""
    left = [60]
    n = [0]
    done = {}
    BOOLOPS = ('cmp', 'and', 'or', 'not', 'eq', 'truth')
    def rare(t): return any(z.op == 'eq' or z.op == 'cmp' and z.args[0] in ('==', '!=') for z in S.subterms(t))
    def leaf(x, y, cs):
        r = leaf1(x, y, cs)
        if r[0] == 'same' and x.op in BOOLOPS and y.op in BOOLOPS and (rare(x) or rare(y)):
            # equations seldom hold by chance: each side made true and made false
            for p, q in ((x, y), (y, x)):
                for c, v in ((p, S.TRUE), (S.neg_c(p), S.FALSE)):
                    w = assume(v, q, cs, c)
                    if w is None or w[0] is w[1]: continue
                    k = leaf1(w[0], w[1], w[2])
                    if k[0] == 'differ': return k
        return r
    def leaf1(x, y, cs):
        if left[0] <= 0:
            return ('noeval', 'too many differing parts')
        left[0] -= 1
        # numbers are compared at the scale of 1
        ks = [abs(k) for t in (x, y) if t.op == 'poly' for m, k in t.args[0]]
        if ks and not Fraction(1, 1000) < max(ks) < 1000:
            x, y = [S.mul(S.num(1 / max(ks)), t) for t in (x, y)]
        cases = [()]
        for c in cs:
            alts = list(c.args[0]) if c.op == 'or' and len(c.args[0]) * len(cases) <= 8 else [c]
            cases = [k + ((a,) if a.op != 'and' else tuple(a.args[0])) for k in cases for a in alts]
        agreed = []
        for cs1 in cases:
            x2, y2, cs2 = solved(x, y, cs1)
            if S.FALSE in cs2 or infeasible(cs1):
                agreed.append(0)
                continue
            if x2 is y2:
                agreed.append(0)
                continue
            r = sample(x, y, cs1, trials, 60 if left[0] > 45 else 16)
            if r[0] == 'differ': return r
            if r[0] == 'same': agreed.append(r[1])
        if agreed and len(agreed) == len(cases):
            n[0] += sum(agreed)
            return ('same', 1)
        r = sample(x, y, cs, trials, 60 if left[0] > 45 else 16)
        if r[0] == 'same': n[0] += r[1]
        return r
    def both(rs):
        bad = None
        for r in rs:
            if r[0] == 'differ': return r
            if r[0] == 'noeval': bad = r
        return bad or ('same', 1)
    def under(x, m):
        return S.subst(x, m) if m else x
    def strfacts(c, ts):
        m = facts(c, True)
        for q in list(m):
            if m[q] is S.TRUE and q.op == 'eq' and 'str' in (q.args[0].op, q.args[1].op):
                l, o = (q.args[0], q.args[1]) if q.args[0].op == 'str' else (q.args[1], q.args[0])
                if o.op == 'str': continue
                for t in ts:
                    for z in S.subterms(t):
                        if z.op == 'eq' and z is not q and o in z.args:
                            w = z.args[0] if z.args[1] is o else z.args[1]
                            if w.op == 'str' and w is not l: m[z] = S.FALSE
        return m
    def assume(x, y, cs, c):
        """both terms and the conditions when c holds as well, or None when that cannot be"""
        cs2 = [z for d in cs + (c,) for z in (d.args[0] if d.op == 'and' else (d,))]
        for _ in range(3):
            # unit propagation among the conditions themselves
            out, again = [], False
            for k, d in enumerate(cs2):
                d2 = d
                for e in out + cs2[k + 1:]:
                    d2 = under(d2, strfacts(e, (d2,)))
                if d2 is S.FALSE: return None
                if d2 is not d: again = True
                out += list(d2.args[0]) if d2.op == 'and' else [] if d2 is S.TRUE else [d2]
            seen = set()
            cs2 = [d for d in out if not (d.id in seen or seen.add(d.id))]
            if not again: break
        m = {}
        for d in cs2: m.update(strfacts(d, (x, y)))
        m = {k: v for k, v in m.items() if k.op != 'bool'}
        return contextual(under(x, m)), contextual(under(y, m)), tuple(cs2)
    def go(x, y, cs, depth):
        if x is y:
            return ('same', 1)
        k = (x.id, y.id, tuple(c.id for c in cs))
        if k in done:
            return done[k]
        r = done[k] = _go(x, y, cs, depth)
        return r
    def parts(ps, cs, depth, x, y):
        ps = [(p, q) for p, q in ps if p is not q]
        return both([go(p, q, cs, depth + 1) for p, q in ps])
    def _go(x, y, cs, depth):
        if depth > 60:
            return leaf(x, y, cs)
        if (x.op == 'ite' or y.op == 'ite') and A.rank(x.args[0] if x.op == 'ite' else y.args[0]) in (0, None):
            c = x.args[0] if x.op == 'ite' else y.args[0]
            if x.op == 'ite' and y.op == 'ite' and x.args[0] is not y.args[0] and S.occurs(x.args[0], y.args[0]):
                c = y.args[0]
            if A.rank(c) == 0 or c.op in ('cmp', 'and', 'or', 'not', 'eq', 'truth', 'pred'):
                try:
                    rs = []
                    for k in (c, S.neg_c(c)):
                        q = assume(x, y, cs, k)
                        if q is not None: rs.append(go(q[0], q[1], q[2], depth + 1))
                    return both(rs)
                except RecursionError:
                    return leaf(x, y, cs)
        if x.op == 'poly' or y.op == 'poly':
            for t in (x, y):
                if t.op != 'poly' or len(t.args[0]) > 6: continue
                for m, k in t.args[0]:
                    for z, e in m:
                        if z.op == 'ite' and not S.fv(z.args[0]) and A.rank(z.args[0]) in (0, None) and z.args[0].op in ('cmp', 'and', 'or', 'not', 'eq', 'truth', 'pred'):
                            rs = []
                            for c in (z.args[0], S.neg_c(z.args[0])):
                                q = assume(x, y, cs, c)
                                if q is not None: rs.append(go(q[0], q[1], q[2], depth + 1))
                            return both(rs)
            if x.op == y.op:
                px, py = dict(x.args[0]), dict(y.args[0])
                ox = [(m, k) for m, k in px.items() if py.get(m) != k]
                oy = [(m, k) for m, k in py.items() if px.get(m) != k]
                if len(ox) < len(px) and ox and oy:
                    # the summands they share settle nothing
                    rx, ry = S.from_poly(dict(ox)), S.from_poly(dict(oy))
                    if rx is not x and A.rank(rx) == A.rank(ry) == A.rank(x): return go(rx, ry, cs, depth + 1)
                if len(ox) == 1 and len(oy) == 1 and ox[0][1] == oy[0][1] and len(ox[0][0]) == len(oy[0][0]):
                    dx = [z for z in ox[0][0] if z not in oy[0][0]]
                    dy = [z for z in oy[0][0] if z not in ox[0][0]]
                    if len(dx) == 1 and len(dy) == 1 and dx[0][1] == dy[0][1] and dx[0][0].op == dy[0][0].op == 'call' and dx[0][0].args[0] == dy[0][0].args[0]:
                        return go(dx[0][0], dy[0][0], cs, depth + 1)
        if (x.op in ('and', 'or') or y.op in ('and', 'or')) and not (x.op == 'bool' or y.op == 'bool'):
            op = x.op if x.op in ('and', 'or') else y.op
            sx, sy = [list(t.args[0]) if t.op == op else [t] for t in (x, y)]
            ids = {t.id for t in sx} & {t.id for t in sy}
            if ids:
                c = tuple(t for t in sx if t.id in ids)
                c = S.conj(list(c)) if op == 'and' else S.conj([S.neg_c(t) for t in c])
                m = S.conj if op == 'and' else S.disj
                q = assume(m([t for t in sx if t.id not in ids]), m([t for t in sy if t.id not in ids]), cs, c)
                return ('same', 1) if q is None else go(q[0], q[1], q[2], depth + 1)
        if x.op == y.op:
            if x.op == 'call' and x.args[0] == y.args[0] and x.args[0] not in INTERP and len(x.args[1]) == len(y.args[1]) \
                    and [k for k, _ in x.args[2]] == [k for k, _ in y.args[2]] and A.rank(x) == A.rank(y):
                return parts(list(zip(x.args[1], y.args[1])) + [(p[1], q[1]) for p, q in zip(x.args[2], y.args[2])], cs, depth, x, y)
            if x.op in ('updf', 'item', 'pred', 'tuple', 'scatter'):
                kx, ky = S.kids(x), S.kids(y)
                nx, ny = strip(x), strip(y)
                if len(kx) == len(ky) and nx == ny:
                    return parts(list(zip(kx, ky)), cs, depth, x, y)
            if x.op == 'vec' and len(x.args[0]) == len(y.args[0]):
                return parts(list(zip(x.args[0], y.args[0])), cs, depth, x, y)
            if x.op == 'lam':
                v = S.fresh('e')
                S.declare_int(v); S.declare_nonneg(v)
                return go(S.apply_lam(x, v), S.apply_lam(y, v), cs, depth + 1)
            if x.op == 'alam' and x.args[1] is y.args[1]:
                v = S.fresh('e')
                S.declare_int(v); S.declare_nonneg(v)
                return go(A.sel(x, (v,)), A.sel(y, (v,)), cs + (S.compare('<', v, x.args[1]),), depth + 1)
        return leaf(x, y, cs)
    a, b = contextual(a), contextual(b)
    if cond is not None and cond is not S.TRUE:
        q = assume(a, b, (), cond)
        r = go(q[0], q[1], q[2], 0)
    else:
        r = go(a, b, (), 0)
    return ('same', n[0]) if r[0] == 'same' else r

def facts(c, v, out=None):
    """what is known of conditions when c has the truth value v"""
    out = {} if out is None else out
    if c.op == 'not':
        return facts(c.args[0], not v, out)
    if c.op == 'bool':
        return out
    out[c] = S.TRUE if v else S.FALSE
    n = S.neg_c(c)
    if n.op != 'bool': out[n] = S.FALSE if v else S.TRUE
    if c.op == ('and' if v else 'or'):
        for x in c.args[0]: facts(x, v, out)
    return out

def contextual(t, budget=3000):
    """the branches of choices rewritten with what the choice says"""
    n = [budget]
    memo, ites = {}, {}
    def has(t):
        r = ites.get(t.id)
        if r is None:
            r = ites[t.id] = t.op == 'ite' or any(has(k) for k in S.kids(t))
        return r
    def rec(t):
        if not has(t):
            return t
        r = memo.get(t.id)
        if r is None:
            n[0] -= 1
            if n[0] < 0: return t
            r = memo[t.id] = one(t)
        return r
    def one(t):
        if t.op == 'ite':
            c = rec(t.args[0])
            if c.op == 'bool': return rec(t.args[1] if c.args[0] else t.args[2])
            x, y = t.args[1], t.args[2]
            if not S.fv(c):
                x, y = S.subst(x, facts(c, True)), S.subst(y, facts(c, False))
            return S.ite(c, rec(x), rec(y))
        ks = [k for k in S.kids(t)]
        m = {}
        for k in ks:
            k2 = rec(k)
            if k2 is not k: m[k] = k2
        return S.subst(t, m) if m else t
    try:
        return rec(t)
    except RecursionError:
        return t

def strip(t):
    """the parts of a term that are not terms"""
    def rec(x):
        if isinstance(x, T): return None
        if isinstance(x, tuple): return tuple(rec(y) for y in x)
        return x
    return tuple(rec(x) for x in t.args)
