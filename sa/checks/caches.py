"""C10: the caches.

lock and ring:  every way through a cached call, with an arbitrary state of the cache at each acquisition of the
                lock, keeps the invariant (ring of links and dictionary describe the same entries, an entry stored
                under a key holds the result of the call with that key, no more entries than the limit), touches
                shared state under the lock only, and calls the user function without it.
keys:           two calls with equal keys have equal arguments, by unification of the symbolic keys.
arrays:         the array wrapper's key determines value, shape and order of every argument and the cached function
                gets the arguments back.
state:          a cached function reads nothing that can change, and its results are not modified by the callers."""
import ast, itertools
from ..check import rule
from .. import heap as H, names
from ..heap import Sym, App, L, D, Fn, Env, Lin, Native, Alarm, Raised, Unsupported, tree

MOD = 'cosmic_profiles.common.caching'
RINGS = ['R', 'Ra', 'Rab', 'Rabc', 'RabScd', 'RK', 'RaK', 'RKa', 'RaKb', 'RabKc', 'RaKbc', 'RaSbKcSd', 'RaSbK', 'RKbSc', 'RaSbKc', 'RaKbSc']

def where(m, n): return '%s:%s' % (m.name, getattr(n, 'lineno', '?'))

class State:
    """installs arbitrary states and checks the invariant for one cached function"""
    def __init__(self, I, w, result):
        self.I, self.result = I, result
        e = w.env
        while e is not None and not any(isinstance(x, H.Lock) for x in e.v.values()) and not any(isinstance(x, D) for x in e.v.values()): e = e.up
        if e is None: raise Unsupported('no closure with a dictionary found')
        self.e = e
        ds = [n for n, x in e.v.items() if isinstance(x, D)]
        if len(ds) != 1: raise Unsupported('expected one dictionary in the closure')
        self.cname, self.cache = ds[0], e.v[ds[0]]
        rs = [n for n, x in e.v.items() if isinstance(x, L) and any(y is x for y in x.items)]
        self.rname = rs[0] if len(rs) == 1 else None
        if len(rs) > 1: raise Unsupported('two rings')
        if self.rname and not mentions(w, self.e, self.rname): self.rname = None
        bs = [n for n, x in e.v.items() if isinstance(x, bool)]
        if len(bs) > 1: raise Unsupported('two flags')
        self.flag = bs[0] if bs else None
        def idx(n, d):
            x = e.find(n)
            return x.v[n] if x and isinstance(x.v[n], int) and not isinstance(x.v[n], bool) else d
        self.PREV, self.NEXT, self.KEY, self.RES = idx('PREV', 0), idx('NEXT', 1), idx('KEY', 2), idx('RESULT', 3)
        self.K = None
        self.kkey = None
        self.unlimited = False
    def other(self, k): return App('call', k)
    def install(self, I):
        I.gen += 1
        spec = RINGS[I.choose(len(RINGS))]
        full = bool(I.choose(2)) if self.flag else False
        d = (0, 1)[I.choose(2)] if full else (1, 5)[I.choose(2)]
        if not self.flag: d = (0, 1, 5)[I.choose(3)]
        n = len(spec) - 1
        if (full or d == 0) and n == 0: raise H.Skip()
        c = self.cache
        c.d.clear()
        c.shared, c.delta, c.rest = 'locked', 0, 'S' in spec
        I.limit = d
        nodes, prev_seg = [], None
        chain = []
        for ch in spec:
            if ch == 'S':
                h, t = L(), L()
                h.node = t.node = 'segment'
                h.name, t.name = 'rest', 'rest'
                h.pair = t
                chain.append((h, t))
            else:
                x = L([None] * 4)
                x.node, x.gen, x.name = True, I.gen, {'R': 'root', 'K': 'link'}.get(ch, 'link ' + ch)
                chain.append((x, x))
                nodes.append((ch, x))
        for (h, t), (h2, t2) in zip(chain, chain[1:] + chain[:1]):
            if not h.node == 'segment': t.items[self.NEXT] = h2
            if not h2.node == 'segment': h2.items[self.PREV] = t
        # the fixed ends of a segment
        self.segs = {}
        for k, (h, t) in enumerate(chain):
            if h.node == 'segment':
                self.segs[id(h)] = (h, t, chain[k - 1][1], chain[(k + 1) % len(chain)][0])
        self.K = None
        for ch, x in nodes:
            if ch == 'R':
                self.e.v[self.rname] = x
                self.root0 = x
            else:
                if ch == 'K':
                    self.K = x
                    x.items[self.KEY], x.items[self.RES] = Sym('key'), self.result
                else:
                    k = Sym('key ' + ch)
                    x.items[self.KEY], x.items[self.RES] = k, self.other(k)
                    c.d[k] = (k, x)
        self.kkey = None
        if self.flag: self.e.v[self.flag] = full
        self.size0 = d
        self.spec = spec
        I.present = self.present
    def present(self, I, d, t):
        if d is not self.cache: return False
        if isinstance(t, Sym) and t.name.startswith('key'): return False
        if self.kkey is not None and t != self.kkey:
            raise Unsupported('two different keys are looked up')
        first = self.kkey is None
        self.kkey = t
        if first and self.K is not None:
            k = t
            self.K.items[self.KEY] = self.keyvalue(t)
            d.d[t] = (self.K.items[self.KEY], self.K)
            return True
        return t in d.d
    def keyvalue(self, t):
        return KeyVal(t)
    def check(self, I):
        """the invariant holds when the lock is released"""
        c, P, N, K, R = self.cache, self.PREV, self.NEXT, self.KEY, self.RES
        root = self.e.v.get(self.rname)
        at = I.at
        if self.K is not None and self.kkey is None and not getattr(c, 'cleared', False):
            k = Sym('key')
            self.K.items[self.KEY] = k
            c.d[k] = (k, self.K)
        if not isinstance(root, L): raise Alarm('the list has no root any more', at)
        seen, x, prev = [], root, None
        ring = []
        for _ in range(30):
            ring.append(x)
            if x.node == 'segment':
                h, t, before, after = self.segs.get(id(x), (None,) * 4)
                if h is None: raise Alarm('the list is broken', at)
                if prev is not before: raise Alarm('the list of links is broken (forwards)', at)
                prev, x = t, after
                if x is root and root.items[P] is not prev: raise Alarm('the list of links is broken (backwards)', at)
                if x is root: break
                continue
            if len(x.items) != 4: raise Alarm('a link does not have its four fields', at)
            if prev is not None and x.items[P] is not prev and x is not root: raise Alarm('the list of links is broken (backwards)', at)
            nx = x.items[N]
            if not isinstance(nx, L): raise Alarm('the list of links is broken (no successor)', at)
            if nx.node == 'segment' and id(nx) not in self.segs: raise Alarm('the list of links is broken (forwards)', at)
            prev, x = x, nx
            if x is root:
                if root.items[P] is not prev: raise Alarm('the list of links is broken (backwards)', at)
                break
        else:
            raise Alarm('the list of links does not come back to its root', at)
        if not getattr(c, 'cleared', False):
            for s in self.segs.values():
                if not any(y is s[0] for y in ring): raise Alarm('the list of links is cut', at)
        links = [y for y in ring if y is not root and y.node != 'segment']
        for y in links:
            t = unval(y.items[K])
            if t not in c.d: raise Alarm('a link stays in the list without an entry in the dictionary', at)
            if c.d[t][1] is not y: raise Alarm('two links for one key', at)
            want = self.result if t == self.kkey or y is self.K else self.other(t)
            if y.items[R] != want: raise Alarm('the result stored for a key is not that of the call with this key', at)
        for t, (k, y) in c.d.items():
            if not any(y is z for z in links):
                raise Alarm('the dictionary has an entry that is not in the list', at)
        if self.flag is not None:
            full = self.e.v[self.flag]
            if isinstance(full, App): full = I.truth(full)
        if getattr(c, 'cleared', False):
            n, empty = None, not c.d
            if self.flag and full and empty: raise Alarm('the cache is marked full when it is empty', at)
            c.cleared = False
            return
        size = c.delta
        if self.limited:
            if size > self.size0: raise Alarm('the cache holds more entries than its limit', at)
            if self.flag and not full and size >= self.size0: raise Alarm('the cache has reached its limit and is not marked full', at)
        elif self.flag and self.was_full(I) and size > 0:
            raise Alarm('a full cache grows', at)
    def was_full(self, I): return self.full0

def mentions(w, e, name):
    seen, todo = set(), [w]
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name):
                if x.id == name: return True
                v = e.v.get(x.id)
                if isinstance(v, Fn) and v.node.name not in ('cache_info', 'cache_clear'): todo.append(v)
    return False

class KeyVal(Sym):
    """the key object of the call under analysis, equal to the structural key t"""
    def __init__(self, t):
        Sym.__init__(self, 'key of this call')
        self.t = t
def unval(k): return k.t if isinstance(k, KeyVal) else H.tree(k)

_tree = H.tree
def tree2(x):
    return x.t if isinstance(x, KeyVal) else _tree(x)
H.tree = tree2

def lru(c):
    m = c.P.modules.get(MOD)
    g = m and m.globals.get('lru_cache')
    return m, (g[1] if g and g[0] == 'func' else None)

def wrapper_of(I, maxsize, memory):
    f = I.g.v.get('lru_cache')
    u = Sym('user_function', 'function')
    if not isinstance(f, Fn): raise Unsupported('lru_cache is no function')
    ps = [a.arg for a in f.node.args.args]
    if not {'maxsize', 'use_memory_up_to'} <= set(ps): raise Unsupported('parameters of lru_cache changed')
    w = I.call(I.call(f, [], {'maxsize': maxsize, 'use_memory_up_to': memory}), [u], {})
    if not isinstance(w, Fn): raise Unsupported('the cached function is %r' % (w,))
    return w

VARIANTS = {'memory bound': (None, Sym('bytes', 'limit')), 'no cache': (0, False), 'unbounded': (None, False), 'bounded': (Sym('maxsize', 'limit'), False)}
ARGS = ([Sym('arg 1'), Sym('arg 2')], {'name': Sym('arg 3')})
RESULT = App('call', tree(tuple(ARGS[0])), tuple((k, v) for k, v in ARGS[1].items()))

def run_call(I, variant):
    mx, mem = VARIANTS[variant]
    w = wrapper_of(I, mx, mem)
    s = None
    if variant != 'no cache':
        s = State(I, w, RESULT)
        s.limited = variant == 'bounded'
        if s.rname:
            def on(I):
                s.install(I)
                s.full0 = bool(s.flag and s.e.v[s.flag])
            I.on_lock, I.on_unlock = on, s.check
            I.guarded = (s.e, {s.rname} | ({s.flag} if s.flag else set()))
            s.cache.shared = 'locked'
            I.present = s.present
        else:
            s.cache.shared = 'free'
            hit = not I.choose(2)
            def present(I, d, t):
                if d is not s.cache: return False
                if t in d.d: return True
                if hit and s.kkey in (None, t):
                    s.kkey = t
                    d.d[t] = (t, RESULT)
                    return True
                return False
            I.present = present
            if variant == 'bounded': raise Unsupported('a bounded cache without a list of links')
    return w, s

def call_analysis(c, variant):
    m, f = lru(c)
    if f is None:
        c.unknown(variant, 'lru_cache not found'); return
    def go(I):
        w, s = run_call(I, variant)
        I.calls0 = len(I.user)
        I.final = s
        r = I.call(w, list(ARGS[0]), dict(ARGS[1]))
        if I.lock: raise Alarm('the lock is still held when the call returns', I.at)
        if r != RESULT: raise Alarm('the call does not return the result for its arguments', I.at)
        if len(I.user) > 1: raise Alarm('the user function is called %d times' % len(I.user), I.at)
        if s is not None and not s.rname:
            for t, (k, v) in s.cache.d.items():
                if v != RESULT: raise Alarm('the stored value is not the result of the call', I.at)
        return 'ok'
    report(c, m, f, variant, H.paths(c.P, m, go))

def report(c, m, f, what, ps):
    n, bad, unk = 0, {}, {}
    done = 0
    try:
        for I, r in ps:
            n += 1
            if isinstance(r, H.Skip): continue
            if isinstance(r, Alarm): bad.setdefault((r.msg, getattr(r.node, 'lineno', '?')), n)
            elif isinstance(r, Raised): bad.setdefault(('fails with %s' % r.what, getattr(r.node, 'lineno', '?')), n)
            elif isinstance(r, Unsupported): unk.setdefault(str(r), n)
            else: done += 1
    except Unsupported as e:
        unk.setdefault(str(e), n)
    c.functions.add('%s.%s' % (m.name, f.name))
    c.stats['paths'] = c.stats.get('paths', 0) + n
    if bad:
        for (msg, ln), k in list(bad.items())[:4]:
            c.bad('%s:%s' % (what, msg), '%s: %s' % (what, msg), '%s:%s' % (m.name, ln))
    elif unk or not done:
        c.unknown(what, '; '.join(list(unk)[:3]) or 'nothing analysed', where(m, f))
    else:
        c.ok(what, where=where(m, f), detail='%d paths' % n)

for _v in VARIANTS:
    @rule('cache_%s' % _v.replace(' ', '_'), 'C10', timeout=400)
    def _f(c, v=_v): call_analysis(c, v)

@rule('cache_clear', 'C10')
def clear(c):
    m, f = lru(c)
    if f is None:
        c.unknown('clear', 'lru_cache not found'); return
    for variant in ('memory bound', 'bounded'):
        def go(I, what):
            w, s = run_call(I, variant)
            x = w.attrs.get(what)
            if x is None: raise Unsupported('no %s' % what)
            I.call(x, [], {})
            if I.lock: raise Alarm('the lock is still held', I.at)
            return 'ok'
        for what in ('cache_clear', 'cache_info'):
            report(c, m, f, '%s of a %s cache' % (what, variant), H.paths(c.P, m, lambda I: go(I, what)))

# ------------------------------------------------------------ keys
def shapes():
    for n in range(4):
        for kw in ((), ('a',), ('b',), ('a', 'b')):
            yield n, kw

def keys_of(c, m, n, kw, typed):
    """(key, variables known to be of a plain type) for a call of this shape"""
    out = []
    args = [Sym('p%d' % i) for i in range(n)]
    kws = {k: Sym('k' + k) for k in kw}
    def go(I):
        w = wrapper_of(I, None, False) if not typed else I.call(I.call(I.g.v['lru_cache'], [], {'maxsize': None, 'use_memory_up_to': False, 'typed': True}), [Sym('user_function', 'function')], {})
        s = State(I, w, None)
        s.cache.shared = 'free'
        got = []
        def present(I, d, t):
            if d is s.cache: got.append(t)
            return t in d.d
        I.present = present
        I.call(w, args, kws)
        if not got: raise Unsupported('no key is looked up')
        return got[0], set(I.fast), s.cache
    for I, r in H.paths(c.P, m, go):
        if isinstance(r, Exception): raise r
        out.append(r[:2])
    return args, kws, out

@rule('cache_key', 'C10')
def key(c):
    m, f = lru(c)
    if f is None:
        c.unknown('key', 'lru_cache not found'); return
    hs = hashed(c, m)
    c.functions.add(MOD + '._make_key')
    for typed in (False, True):
        ks = {}
        try:
            for n, kw in shapes(): ks[n, kw] = keys_of(c, m, n, kw, typed)
        except Unsupported as e:
            c.unknown('typed=%s' % typed, str(e), where(m, f)); continue
        except (Alarm, Raised) as e:
            c.bad('typed=%s' % typed, 'a call with %s: %s' % (say((n, kw)), getattr(e, 'msg', None) or 'fails with ' + e.what), where(m, e.node) if e.node else where(m, f)); continue
        for (s1, (a1, k1, o1)), (s2, (a2, k2, o2)) in itertools.combinations_with_replacement(list(ks.items()), 2):
            bad = None
            for (t1, f1), (t2, f2) in itertools.product(o1, o2):
                memo = {}
                u = H.rename(t2, "'", memo)
                w = H.unify([(t1, u)], f1 | {memo.get(x, x) for x in f2})
                if w is None: continue
                if s1 != s2:
                    bad = 'calls with %s and with %s can get the same key' % (say(s1), say(s2)); break
                lost = [v.name for v in a1 + list(k1.values()) if not same(w, v, memo.get(v))]
                if lost:
                    bad = 'two calls with %s that differ in argument %s get the same key' % (say(s1), lost[0]); break
            k = 'typed=%s:%s|%s' % (typed, say(s1), say(s2))
            if bad: c.bad(k, bad, MOD + ' key function'); 
            else: c.ok(k, where=MOD + ' key function')

def say(s): return '%d positional%s' % (s[0], ' and keywords ' + ', '.join(s[1]) if s[1] else '')

def same(w, v, v2):
    if v2 is None: return False
    return w(v) is w(v2)

def hashed(c, m):
    """equality of the key class is that of its contents"""
    for n in m.tree.body:
        if isinstance(n, ast.ClassDef) and [ast.unparse(b) for b in n.bases] in (['list'], ['tuple']):
            eq = [x for x in n.body if isinstance(x, ast.FunctionDef) and x.name in ('__eq__', '__ne__')]
            if not eq:
                c.ok('equality of %s' % n.name, where=where(m, n)); continue
            ex = [x for e in eq for x in ast.walk(e) if isinstance(x, ast.Return) and x.value is not None]
            full = any('__eq__' in ast.unparse(x) and ('list' in ast.unparse(x) or 'tuple' in ast.unparse(x) or 'super' in ast.unparse(x)) for x in ex)
            only = all(isinstance(x.value, ast.Compare) and 'hash' in ast.unparse(x) for x in ex) and ex
            if full: c.ok('equality of %s' % n.name, where=where(m, n))
            elif only: c.bad('equality of %s' % n.name, 'keys with equal hashes count as equal', where(m, eq[0]))
            else: c.unknown('equality of %s' % n.name, 'own comparison', where(m, eq[0]))

# ------------------------------------------------------------ arrays
def np_shapes():
    for na in range(0, 3):
        for ls in ((), ((2, 1),), ((1, 2),), ((3,),), ((2, 1), (1,))):
            for r in (0, 1, 2):
                yield na, ls, r

def np_call(c, m, na, ls, r):
    arrs = [Sym('array %d' % i, 'array') for i in range(na)]
    lists = [L([L([Sym('list %d %d %d' % (i, j, k)) for k in range(n)]) for j, n in enumerate(l)]) for i, l in enumerate(ls)]
    rest = [Sym('rest %d' % i) for i in range(r)]
    args = arrs + lists + rest
    want = tree(tuple(args))
    rec = []
    def stub(I, a, kw, e):
        def deco(I, b, kw2, e2):
            def call(I, args, kwds, e3):
                rec.append((tree(tuple(args)), tuple(sorted((k, tree(v)) for k, v in kwds.items()))))
                return I.call(b[0], list(args), dict(kwds))
            n = Native(call)
            n.attrs = {'cache_info': H.Obj(), 'cache_clear': H.Obj()}
            return n
        return Native(deco)
    res = []
    def go(I):
        rec.clear()
        I.stub = {'lru_cache': stub, 'functools.lru_cache': stub}
        f = I.g.v.get('np_cache_factory')
        if not isinstance(f, Fn): raise Unsupported('np_cache_factory not found')
        u = Sym('user_function', 'function')
        w = I.call(I.call(f, [na, len(ls)], {}), [u], {})
        out = I.call(w, args, {})
        if len(I.user) != 1: raise Alarm('the user function is called %d times' % len(I.user), I.at)
        got, gk = I.user[0]
        if gk or tree(tuple(got)) != want:
            k = [i for i, (x, y) in enumerate(zip(tree(tuple(got))[1:], want[1:])) if x != y]
            raise Alarm('the cached function gets something else as argument %s than the caller passed' % (k[0] + 1 if k else len(want)), I.at)
        if out != App('call', want, ()): raise Alarm('the result of the cached function is changed', I.at)
        if len(rec) != 1: raise Unsupported('%d cached calls' % len(rec))
        return rec[0]
    leaves = []
    for a in arrs: leaves += [('value of ', a, App('flat', a)), ('shape of ', a, App('shape', a))]
    for l in lists:
        for x in l.items:
            leaves += [('', y, y) for y in x.items]
    leaves += [('', x, x) for x in rest]
    return leaves, list(H.paths(c.P, m, go))

def contains(t, x):
    if t is x or (type(t) is type(x) and t == x): return True
    if isinstance(t, tuple): return any(contains(y, x) for y in t)
    return False

@rule('cache_arrays', 'C10')
def arrays(c):
    m, f = lru(c)
    c.functions.add(MOD + '.np_cache_factory')
    ks = {}
    for sh in np_shapes():
        k = '%d arrays, lists %s, %d others' % (sh[0], list(sh[1]), sh[2])
        leaves, ps = np_call(c, m, *sh)
        for I, r in ps:
            at = getattr(getattr(r, 'node', None), 'lineno', None) or getattr(I.at, 'lineno', '?')
            if isinstance(r, Alarm) or isinstance(r, Raised):
                c.bad(k, getattr(r, 'msg', None) or 'fails with ' + r.what, '%s:%s' % (MOD, at)); break
            if isinstance(r, Exception):
                c.unknown(k, str(r), '%s:%s' % (MOD, at)); break
            ks.setdefault(sh, []).append(r)
            lost = [w + x.name for w, x, t in leaves if not contains(r, t) and not (w == 'value of ' and (contains(r, App('nested', x)) or contains(r, App('bytes', x)))) and
                    not (w == 'shape of ' and contains(r, App('nested', x)))]
            if lost:
                c.bad(k, 'the cache key does not contain the %s' % lost[0], '%s:%s' % (MOD, at)); break
            memo = {}
            u = H.rename(r, "'", memo)
            w = H.unify([(r, u)])
            lost = [p + x.name for p, x, t in leaves if w and w(t) != w(H.rename(t, "'", memo)) and contains(r, t)]
            if lost:
                c.bad(k, 'two calls that differ in the %s get the same key' % lost[0], '%s:%s' % (MOD, at)); break
        else: c.ok(k, where=MOD + '.np_cache_factory')
    # lists of different lengths
    for (a, x), (b, y) in itertools.combinations(ks.items(), 2):
        if a[0] == b[0] and len(a[1]) == len(b[1]) and a[2] == b[2]:
            t = H.rename(y[0], "'", {})
            k = 'lists %s and %s with %d arrays and %d others' % (list(a[1]), list(b[1]), a[0], a[2])
            if H.unify([(x[0], t)]) is None: c.ok(k, where=MOD + '.np_cache_factory')
            else: c.bad(k, 'lists of lengths %s and %s can get the same key' % (list(a[1]), list(b[1])), MOD + '.np_cache_factory')

# ------------------------------------------------------------ cached functions and their state
from .randomness import prog

def cached_functions(c):
    """(module, node of the cached function, number of arrays, lists, where): every use of np_cache_factory or lru_cache"""
    P = c.P
    for m, cl, fn in names.functions(P):
        for d in fn.decorator_list:
            k = factory(P, m, d)
            if k: yield m, fn, k, d
    for m in P.modules.values():
        if m.name.startswith('spec.') or m.name == MOD: continue
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Call):
                k = factory(P, m, x.func)
                if k and x.args:
                    t = x.args[0]
                    tgt = None
                    if isinstance(t, ast.Name):
                        for m2, cl, fn in names.functions(P):
                            if m2 is m and fn.name == t.id: tgt = fn
                    yield m, tgt, k, x

def factory(P, m, d):
    if not isinstance(d, ast.Call): return None
    n = d.func
    nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', None)
    if m.name == MOD: return None
    if nm == 'np_cache_factory':
        v = []
        for a in d.args:
            v.append(a.value if isinstance(a, ast.Constant) else None)
        kw = {k.arg: k.value.value if isinstance(k.value, ast.Constant) else None for k in d.keywords}
        na = v[0] if v else kw.get('nb_arrs')
        nl = v[1] if len(v) > 1 else kw.get('nb_lists')
        return ('np', na, nl)
    if nm == 'lru_cache': return ('lru', 0, 0)
    return None

def changing(P):
    """module variables and attributes that some function rebinds or changes: {(module, name)}"""
    if hasattr(P, '_changing'): return P._changing
    out = {}
    for m, cl, fn in names.functions(P):
        glob = set()
        for x in names.own(fn):
            if isinstance(x, ast.Global): glob |= set(x.names)
        for x in names.own(fn):
            t = None
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in glob:
                out[m.name, x.id] = fn
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                r = P.resolve_name(m, x.value.id) if x.value.id not in names.assigned(fn) else None
                if r and r[0] in ('mod', 'ext'): out[r[1], x.attr] = fn
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b = x.value
                if isinstance(b, ast.Name) and b.id not in names.assigned(fn) and m.globals.get(b.id, ('',))[0] == 'assign': out[m.name, b.id] = fn
    P._changing = out
    return out

def reads_state(P, m, fn, outer, seen, table):
    """yields (node, text) for reads of changing state in fn and its callees"""
    if fn in seen: return
    seen.add(fn)
    ch = changing(P)
    loc = names.assigned(fn)
    inner = [x for x in names.own(fn) if isinstance(x, (ast.FunctionDef,))]
    for x in names.own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in loc:
            if x.id in outer:
                yield m, x, 'variable %s of the enclosing call' % x.id
            elif (m.name, x.id) in ch:
                yield m, x, 'module variable %s' % x.id
            else:
                r = P.resolve_name(m, x.id)
                g = m.globals.get(x.id)
                if g and g[0] == 'import':
                    if (g[1], g[2]) in ch: yield m, x, 'module variable %s.%s' % (g[1], g[2])
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id not in loc:
            r = P.resolve_name(m, x.value.id)
            if r and r[0] in ('mod', 'ext') and (r[1], x.attr) in ch:
                yield m, x, 'setting %s.%s' % (x.value.id, x.attr)
            f2 = P.resolve_name(m, x.value.id)
            if f2 and f2[0] == 'func' and x.attr not in ('inner', '__name__', '__doc__'):
                yield m, x, 'attribute %s of function %s' % (x.attr, x.value.id)
        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load) and 'self' in loc:
            if 'self' in [a.arg for a in fn.args.args] and fn is not None and len(seen) == 1:
                yield m, x, 'attribute %s of the object' % x.attr
        if isinstance(x, ast.Call):
            for g in names.callees(P, m, x, inner):
                gm = getattr(g, 'module', m)
                if g in inner:
                    yield from reads_state(P, m, g, outer - names.assigned(fn), seen, table)
                else:
                    yield from reads_state(P, gm, g, set(), seen, table)

@rule('cached_functions', 'C10')
def state(c):
    P = c.P
    par = {}
    n = 0
    for m, fn, (kind, na, nl), at in cached_functions(c):
        n += 1
        k = '%s.%s' % (m.name, fn.name if fn else '?')
        if fn is None:
            c.unknown(k, 'cached function not found', where(m, at)); continue
        c.functions.add(k)
        # reads
        outer = set()
        if m not in par: par[m] = names.parents(m.tree)
        p = par[m].get(fn)
        while p is not None:
            if isinstance(p, ast.FunctionDef): outer |= names.assigned(p)
            p = par[m].get(p)
        outer -= {fn.name}
        bad = None
        for m2, x, t in reads_state(P, m, fn, outer, set(), None):
            bad = (m2, x, t); break
        if bad: c.bad(k + ':state', 'the cached function %s reads %s, which is no part of the cache key' % (fn.name, bad[2]), where(bad[0], bad[1]))
        else: c.ok(k + ':state', where=where(m, fn))
        # argument kinds
        if kind == 'np':
            if na is None or nl is None:
                c.unknown(k + ':arguments', 'number of arrays not constant', where(m, at)); continue
            ps = fn.args.args
            kinds = []
            for a in ps:
                t = ast.unparse(a.annotation) if a.annotation is not None else (str(getattr(a, 'ctype', None)) if getattr(a, 'ctype', None) is not None else None)
                kinds.append(None if t is None else ('[' in t))
            if na + nl > len(ps): c.bad(k + ':arguments', 'more arrays and lists announced than %s has parameters' % fn.name, where(m, at))
            elif any(x is False for x in kinds[:na]) or any(x is True for x in kinds[na + nl:]):
                c.bad(k + ':arguments', 'the %d leading arguments are taken for arrays, the parameters are %s' % (na, [a.arg for a in ps]), where(m, at))
            else: c.ok(k + ':arguments', where=where(m, at))
    if n == 0: c.ok('no cached function')

# ------------------------------------------------------------ results of cached calls
INPLACE = {'sort', 'fill', 'resize', 'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'put', 'partition', 'setflags', 'itemset'}
NEW = {'copy', 'astype', 'sum', 'mean', 'flatten', 'tolist', 'min', 'max', 'nonzero', 'argsort'}

@rule('cached_results', 'C10', 'C16')
def results(c):
    """names that hold (parts of) the result of a cached call are never modified in place"""
    P = c.P
    cached = {}
    for m, fn, k, at in cached_functions(c):
        if fn is None: continue
        cached[fn.name] = fn
        p = names.parents(m.tree)
        q = p.get(fn)
        while q is not None and not isinstance(q, ast.FunctionDef): q = p.get(q)
        if q is not None: cached[q.name] = q
    attrs = {}
    n = 0
    fs = [(m, cl, fn) for m, cl, fn in names.functions(P)]
    def alias(e, tn):
        """does the expression denote (part of) a cached result"""
        if isinstance(e, ast.Name): return e.id in tn
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == 'self': return e.attr in attrs
            return alias(e.value, tn) if e.attr in ('base', 'T', 'flat', 'real') else False
        if isinstance(e, ast.Subscript): return alias(e.value, tn)
        if isinstance(e, (ast.Tuple, ast.List)): return any(alias(x, tn) for x in e.elts)
        if isinstance(e, ast.Starred): return alias(e.value, tn)
        if isinstance(e, ast.IfExp): return alias(e.body, tn) or alias(e.orelse, tn)
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)
            if nm in cached or (nm == 'inner' and isinstance(f, ast.Attribute)): return True
            if nm in ('asarray', 'reshape', 'ravel', 'squeeze', 'view', 'transpose', 'atleast_1d'):
                return any(alias(a, tn) for a in e.args) or (isinstance(f, ast.Attribute) and alias(f.value, tn))
        return False
    for rounds in (0, 1):
        for m, cl, fn in fs:
            tn = set()
            for _ in (0, 1):
                for x in names.own(fn):
                    if isinstance(x, ast.Assign) and alias(x.value, tn):
                        for t in x.targets:
                            for y in ast.walk(t):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): tn.add(y.id)
                                elif isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == 'self': attrs[y.attr] = fn
            # a name that is rebound to something else as well is only tainted if no copy intervenes
            if rounds == 0: continue
            n += 1
            for x in names.own(fn):
                t = None
                if isinstance(x, ast.AugAssign) and alias(x.target, tn) : t = x.target
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and alias(x.value, tn): t = x
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in INPLACE and alias(x.func.value, tn): t = x
                elif isinstance(x, ast.Call) and any(k.arg == 'out' and alias(k.value, tn) for k in x.keywords): t = x
                if t is not None and rebound(fn, t, tn, alias, x): t = None
                if t is not None:
                    c.bad('%s.%s:%s' % (m.name, fn.name, ast.unparse(t)[:40]), 'the result of a cached call is modified in place', where(m, x))
    for nm in cached: c.ok('results of %s' % nm)
    c.stats['functions searched'] = n

def rebound(fn, t, tn, alias, at):
    """the name was given a new array (a copy) before, in straight order"""
    b = t
    while isinstance(b, (ast.Subscript, ast.Attribute, ast.Call)): b = b.func if isinstance(b, ast.Call) else b.value
    if not isinstance(b, ast.Name) or b.id == 'self': return False
    last = None
    for x in names.own(fn):
        if isinstance(x, ast.Assign) and x.lineno < at.lineno and any(isinstance(y, ast.Name) and y.id == b.id for tt in x.targets for y in ast.walk(tt)):
            if last is None or x.lineno > last.lineno: last = x
    return last is not None and not alias(last.value, tn)
