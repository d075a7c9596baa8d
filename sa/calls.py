"""Calls: repository functions (inlined or kept as atoms with inferred effects), models of the
numpy / python / C functions the code relies on, and uninterpreted terms for everything else."""
import ast
from . import terms as S
from . import arrays as A
from .terms import T, mk, num, ZERO, ONE, TRUE, FALSE, NONE, NAN, add, sub, mul, div, neg, power, ite, compare, conj, disj, \
    neg_c, truth, call, string, sym, subst, fresh, occurs
from . import interp as IP
from .interp import View, Arr, PyTuple, ListRef, DictRef, Fn, Ext, Bound, Mod, Cls, ObjRef, SuperRef, Range, Ptr, UNDEF, \
    Choice, Switch, Zip, Enum, Unsupported, fresh_opaque, is_boolt, is_strish, strcat, percent_format, declare_str, State, expr_src

def rank(t): return A.rank(t)
def shape(t, k): return A.shape(t, k)

# ------------------------------------------------------------------ entry
def eval_call(I, e, st):
    I.stats['callsites'] = I.stats.get('callsites', 0) + 1
    f = e.func
    if isinstance(f, ast.Name) and f.id == 'super' and not (I.frames and f.id in st.env):
        fr = I.frames[-1]
        owner = getattr(fr.fn, 'owner', None)
        slf = st.env.get('self')
        if isinstance(slf, ObjRef) and owner is not None:
            return SuperRef(slf, owner)
    fn = I.ev(f, st)
    args, kw = [], {}
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = I.ev(a.value, st)
            if isinstance(v, PyTuple):
                args.extend(v.items)
            elif isinstance(v, ListRef) and isinstance(st.mem.get(('list', v.id)), tuple):
                args.extend(st.mem[('list', v.id)])
            else:
                t = I.term(v, st)
                if t.op in ('vec', 'tuple'):
                    args.extend(t.args[0])
                elif rank(t) and shape(t, 0).op == 'num' and 0 <= shape(t, 0).args[0] <= 8:
                    args.extend(A.sel(t, (num(k),)) for k in range(int(shape(t, 0).args[0])))
                else:
                    args.append(mk('star', t))
        else:
            args.append(I.ev(a, st))
    for k in e.keywords:
        if k.arg is None:
            v = I.ev(k.value, st)
            c = st.mem.get(('dict', v.id)) if isinstance(v, DictRef) else None
            if isinstance(c, dict) and all(x.op == 'str' for x in c):
                kw.update({x.args[0]: y for x, y in c.items()})
            else:
                kw['**'] = v
        else:
            kw[k.arg] = I.ev(k.value, st)
    return do_call(I, fn, args, kw, st, e)

def do_call(I, fn, args, kw, st, node):
    if isinstance(fn, Fn):
        return call_repo(I, fn, args, kw, st, node)
    if isinstance(fn, Cls):
        return instantiate(I, fn, args, kw, st, node)
    if isinstance(fn, Ext):
        return call_ext(I, fn.name, args, kw, st, node)
    if isinstance(fn, Bound):
        return call_bound(I, fn, args, kw, st, node)
    if isinstance(fn, IP.Partial):
        return do_call(I, fn.fn, list(fn.args) + list(args), dict(fn.kw, **kw), st, node)
    if isinstance(fn, Choice):
        s1, s2 = st.copy(), st.copy()
        s1.assume(fn.c); s2.assume(neg_c(fn.c))
        s1.env['\0v'] = do_call(I, fn.a, args, kw, s1, node)
        s2.env['\0v'] = do_call(I, fn.b, args, kw, s2, node)
        I.merge(fn.c, s1, s2, st)
        return st.env.pop('\0v', UNDEF)
    if isinstance(fn, Switch):
        cur = None
        base = st.copy()
        states = []
        notc = []
        alts = list(fn.pairs) + ([(IP.TRUE, fn.default)] if fn.default is not None and not isinstance(fn.default, T) else [])
        for c, v in alts:
            s1 = base.copy()
            for x in notc:
                s1.assume(x)
            s1.assume(c)
            r = do_call(I, v, args, kw, s1, node) if not isinstance(v, T) else call('apply', v)
            s1.env['\0v'] = r
            states.append((c, s1))
            notc.append(neg_c(c))
        acc = states[-1][1]
        for c, s1 in reversed(states[:-1]):
            res = base.copy()
            I.merge(c, s1, acc, res)
            acc = res
        st.set(acc)
        return st.env.pop('\0v', UNDEF)
    if isinstance(fn, T):
        ts = [I.term(a, st) for a in args]
        if fn.op == 'fn':
            return call_ext(I, fn.args[0], args, kw, st, node)
        if fn.op == 'ite':
            pass
        I.event('dyncall', expr_src(node)[:80] if isinstance(node, ast.AST) else '', ts, None, st, node, extra=fn)
        if fn.op == 'call' and fn.args[0] == 'scipy.interpolate.interp1d' and len(ts) == 1 and not kw and len(fn.args[1]) >= 2 \
                and A.rank(fn.args[1][1]) == 1 and not any(k == 'axis' for k, _ in fn.args[2]):
            return call('value_of', fn, ts[0])      # an interpolant acts on every element
        return mk('apply', fn, tuple(ts))
    if isinstance(fn, ObjRef):
        f, c = I.P.method(fn.ci, '__call__')
        if f is not None:
            return call_repo(I, Fn(f, c.module, owner=c, self_=fn), args, kw, st, node)
    I.event('notcallable', type(fn).__name__, (), None, st, node)
    return fresh_opaque('call of ' + type(fn).__name__)

# ------------------------------------------------------------------ repository functions
def qualname(fn):
    n = getattr(fn.node, 'name', 'lambda')
    return (fn.owner.name + '.' + n) if fn.owner is not None else n

def is_opaque(I, fn):
    n = getattr(fn.node, 'name', 'lambda')
    m = getattr(getattr(fn, 'module', None), 'name', None)
    for k in (qualname(fn), n) + ((m.split('.')[-1] + '.' + n,) if m else ()):
        if k in I.opaque:
            return k
    return None

def call_repo(I, fn, args, kw, st, node):
    q = qualname(fn)
    n = getattr(fn.node, 'name', 'lambda')
    h = I.models.get(q) or I.models.get(n)
    if h is not None:
        r = h(I, fn, args, kw, st, node)
        if r is not NotImplemented:
            return r
    k = is_opaque(I, fn)
    if k is None:
        return I.call_fn(fn, args, kw, st, node)
    return call_opaque(I, fn, k, args, kw, st, node)

def writes_through(nd):
    """parameters whose referenced storage the function (syntactically) stores into, and calls that receive them"""
    if hasattr(nd, '_wr'):
        return nd._wr
    names = [a.arg for a in nd.args.args]
    w, passes = set(), []
    alias = {n: {n} for n in names}
    for x in ast.walk(nd):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            r = root_name(x.value)
            if r in alias:
                alias.setdefault(x.targets[0].id, set()).update(alias[r])
    def note(e):
        r = root_name(e)
        if r in alias:
            w.update(alias[r])
    for x in ast.walk(nd):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                for y in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(y, ast.Subscript):
                        note(y)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript):
            note(x.target)
        elif isinstance(x, ast.Call):
            passes.append(x)
            if isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'sort', 'fill', 'insert', 'pop', 'remove', 'clear', 'update', 'reverse', 'resize'):
                note(x.func.value)
    nd._wr = (w, passes, alias)
    return nd._wr

def root_name(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        if isinstance(e, ast.Attribute) and e.attr not in ('base', 'T', 'real'):
            return None
        e = e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == '__addr__' and e.args:
        return root_name(e.args[0])
    return e.id if isinstance(e, ast.Name) else None

def param_writes(P, nd, seen=None):
    """closure of writes_through over calls to repository functions"""
    if hasattr(nd, '_pw'):
        return nd._pw
    seen = seen or set()
    if id(nd) in seen:
        return set()
    seen.add(id(nd))
    w, passes, alias = writes_through(nd)
    w = set(w)
    for c in passes:
        g = static_callee(P, nd, c)
        if g is None:
            f = c.func
            if isinstance(f, ast.Name) and P.resolve_name(nd.module, f.id) and P.resolve_name(nd.module, f.id)[0] == 'extern':
                for a in c.args:
                    r = root_name(a)
                    if r in alias and (isinstance(a, ast.Name) and _isptr(nd, a.id) or isinstance(a, ast.Call)):
                        w |= alias[r]
            continue
        gw = param_writes(P, g, seen)
        names = [a.arg for a in g.args.args]
        if names and names[0] == 'self':
            names = names[1:]
        for a, nme in list(zip(c.args, names)) + [(k.value, k.arg) for k in c.keywords if k.arg]:
            if nme in gw:
                r = root_name(a)
                if r in alias:
                    w |= alias[r]
    nd._pw = w
    return w

def _isptr(nd, name):
    for a in nd.args.args:
        if a.arg == name:
            return '*' in (getattr(a, 'ctype', None) or '')
    return False

def static_callee(P, nd, c):
    f = c.func
    if isinstance(f, ast.Name):
        r = P.resolve_name(nd.module, f.id)
        return r[1] if r and r[0] == 'func' else None
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        r = P.resolve_name(nd.module, f.value.id)
        if r and r[0] == 'class':
            m, _ = P.method(r[1], f.attr)
            return m
        if f.value.id == 'self' and getattr(nd, 'owner', None) is not None:
            m, _ = P.method(nd.owner, f.attr)
            return m
        if r and r[0] == 'mod':
            q = P.resolve_in(r[1], f.attr)
            return q[1] if q and q[0] == 'func' else None
    return None

def returned_param(nd):
    """name of the parameter every return statement returns, or None"""
    rs = [x for x in ast.walk(nd) if isinstance(x, ast.Return)]
    names = {x.value.id if isinstance(x.value, ast.Name) else None for x in rs}
    if len(names) == 1 and None not in names:
        n = names.pop()
        if n in [a.arg for a in nd.args.args]:
            return n
    return None

def call_opaque(I, fn, key, args, kw, st, node):
    spec = I.opaque[key] if isinstance(I.opaque, dict) else None
    spec = spec or {}
    nd = fn.node
    env = {}
    fr = IP.Frame(nd, fn.module, nd.name)
    a = list(args)
    names = [x.arg for x in nd.args.args]
    bound_self = fn.self_ is not None
    if bound_self:
        a = [fn.self_] + a
    I.bind_args(nd, a, kw, env, st, node, fr)
    ins = spec.get('ins')
    drop = spec.get('drop', ())
    parts = []
    use = [n for n in (ins if ins is not None else names) if n not in drop and not (bound_self and n == names[0])]
    for n in use:
        if n not in env:
            parts.append(fresh_opaque('parameter %s of %s missing' % (n, key)))
            I.event('opaque-arg', n, (), None, st, node)
            continue
        parts.append(canon_arg(deref(I, env[n], st)))
    label = spec.get('label', key)
    t = call(label, *parts)
    if 'rank' in spec:
        A.declare(t, spec['rank'], spec.get('shape'))
    if 'like' in spec and isinstance(parts[spec['like']], T) and rank(parts[spec['like']]) is not None:
        x = parts[spec['like']]      # an array of the same shape
        A.declare(t, rank(x), [shape(x, k) for k in range(rank(x))])
    ev = I.event('call', label, parts, None, st, node, extra={n: env[n] for n in names if n in env})
    # effects
    if spec.get('writes') is not None:
        wr = [n for n in names if n in spec['writes']]
    else:
        pw = param_writes(I.P, nd)
        wr = [n for n in names if n in pw]
    for n in wr:
        v = env.get(n)
        if isinstance(v, (View, Ptr)):
            old = deref(I, v, st)
            new = call(label + '!' + n, *parts)
            if isinstance(v, Ptr) and v.view is not None:
                old = I.content(v.view, st)
            r = rank(old)
            shp = [shape(old, k) for k in range(r)] if r else None
            if n in spec.get('shapes', {}):
                shp = spec['shapes'][n]
            A.declare(new, r, shp)
            write_through(I, v, new, st, node)
        elif isinstance(v, ListRef):
            st.mem[('list', v.id)] = call(label + '!' + n, *parts)
    rp = returned_param(nd)
    if rp is not None and isinstance(env.get(rp), View):
        return env[rp]
    if 'ret' in spec:
        r = spec['ret'](I, t, env, st)
        return I.box(r, st, node, nd.name) if isinstance(r, T) else r
    # several values
    if spec.get('rank') == 1 and [x.op for x in spec.get('shape', ())] == ['num'] and spec['shape'][0].args[0] <= 4:
        return ret_arr(I, st, A.vec([A.sel(t, (num(j),)) for j in range(int(spec['shape'][0].args[0]))]), node)
    k = ret_count(nd)
    if k is not None:
        out = []
        rk = spec.get('retrank', {})
        for j in range(k):
            x = mk('item', t, j)
            if j in rk:
                A.declare(x, rk[j])
            out.append(x)
        return PyTuple(out)
    return t

def canon_arg(t):
    if t.op in ('alam', 'vec', 'upd', 'sym', 'call', 'sel', 'num', 'poly'):
        return t
    return IP.canon(t)

def ret_count(nd, depth=0):
    """number of values returned; a call of a function defined inside returns what that one returns"""
    ks = set()
    defs = {x.name: x for x in ast.walk(nd) if isinstance(x, ast.FunctionDef) and x is not nd}
    for x in walk_own(nd):
        if isinstance(x, ast.Return):
            v = x.value
            f = v.func if isinstance(v, ast.Call) else None
            inner = defs.get(f.id) if isinstance(f, ast.Name) else defs.get(f.attr) if isinstance(f, ast.Attribute) else None
            if isinstance(v, ast.Tuple):
                ks.add(len(v.elts))
            elif inner is not None and depth < 3:
                ks.add(ret_count(inner, depth + 1))
            else:
                ks.add(None)
    return ks.pop() if len(ks) == 1 else None

def walk_own(nd):
    todo = list(nd.body) if isinstance(nd.body, list) else [nd.body]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))

def deref(I, v, st):
    if isinstance(v, Ptr):
        if v.view is not None:
            if all(isinstance(x, T) and x is ZERO for x in v.idx):
                return I.content(v.view, st) if _whole(v.view) else I.view_term(v.view, st)
            r = I.read_index(v.view, list(v.idx), st, None)
            return I.term(r, st)
        x = v.env.get(v.name, UNDEF)
        return I.term(x, st)
    return I.term(v, st)

def _whole(v):
    return v.dims is None or all(d[0] == 'ax' and d[1] is ZERO for d in v.dims)

def write_through(I, v, t, st, node):
    if isinstance(v, Ptr):
        if v.view is not None:
            if all(isinstance(x, T) and x is ZERO for x in v.idx):
                v = v.view
            else:
                I.write_index(v.view, list(v.idx), t, st, node)
                return
        else:
            v.env[v.name] = t
            return
    if not isinstance(v, View):
        I.event('store', 'pointer', [t], None, st, node, extra=None)
        return
    r = I.view_rank(v, st)
    if r is None or v.dims is None:
        st.mem[('arr', v.arr.id)] = t
        I.event('store', v.arr.name, [t], None, st, node, extra=(v.arr, v.dims, [], v, False))
        return
    I.write_index(v, [slice(None)] * r, t, st, node)

# ------------------------------------------------------------------ objects
def instantiate(I, c, args, kw, st, node):
    ci = c.ci
    h = I.models.get(ci.name)
    if h is not None:
        r = h(I, c, args, kw, st, node)
        if r is not NotImplemented: return r
    f, o = I.P.method(ci, '__init__')
    g, og = I.P.method(ci, '__cinit__')
    names = [ci.name]
    if ci.name in I.opaque:
        I.event('call', ci.name, [I.term(a, st) for a in args], {k: I.term(v, st) for k, v in kw.items()}, st, node)
        return call(ci.name, *[I.term(a, st) for a in args])
    obj = ObjRef(ci)
    I.event('new', ci.name, [I.term(a, st) for a in args], {k: I.term(v, st) for k, v in kw.items()}, st, node, extra=obj)
    for m, w in ((g, og), (f, o)):
        if m is not None:
            I.call_fn(Fn(m, w.module, owner=w, self_=obj), args, kw, st, node)
    return obj

# ------------------------------------------------------------------ externals
EXT = {}
def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco

IMPURE = ('random', 'open', 'print', 'time', 'fromfile', 'urandom', 'uuid', 'input')
PUREMODS = ('numpy', 'math', 'libc', 'scipy')

def norm_ext(name):
    for a, b in (('np.', 'numpy.'),):
        if name.startswith(a):
            name = b + name[len(a):]
    return name

def call_ext(I, name, args, kw, st, node):
    name = norm_ext(name)
    h = I.models.get(name)
    if h is not None:
        r = h(I, name, args, kw, st, node)
        if r is not NotImplemented:
            return r
    f = EXT.get(name)
    if f is None and name.startswith(('libc.math.', 'math.')):
        f = EXT.get('numpy.' + name.split('.')[-1])
    if f is not None:
        r = f(I, st, args, kw, node)
        if r is not NotImplemented:
            return r
    return generic_ext(I, name, args, kw, st, node)

def ser(I, v, st):
    return I.term(v, st)

def generic_ext(I, name, args, kw, st, node):
    ts = [ser(I, a, st) for a in args]
    ks = {k: ser(I, v, st) for k, v in kw.items()}
    if any(x in name for x in IMPURE):
        I.callcount[name] = I.callcount.get(name, 0) + (0 if I.mute else 1)
        t = mk('call', name, tuple(ts) + (mk('seq', len(I.loops), I.callcount[name], *[l[0] for l in I.loops if isinstance(l[0], T)]),), tuple(sorted(ks.items())))
        if name.startswith('numpy.random.') and rank(t) is None and name.split('.')[-1] in ('uniform', 'normal', 'random', 'randn', 'standard_normal', 'exponential', 'poisson'):
            sz = ks.get('size', ts[2] if len(ts) > 2 else None)
            if sz is None: A.declare(t, 0)
            elif sz.op == 'tuple': A.declare(t, len(sz.args[0]), sz.args[0])
            elif rank(sz) == 0: A.declare(t, 1, (sz,))
    else:
        t = mk('call', name, tuple(ts), tuple(sorted(ks.items())))
        if ts and name.split('.')[-1] in ('inv', 'cholesky') and '.linalg.' in name and rank(ts[0]) == 2 and rank(t) is None:
            A.declare(t, 2, (shape(ts[0], 0), shape(ts[0], 1)))
    I.event('ext', name, ts, ks, st, node, extra=(args, kw, t))
    for a in args:
        if isinstance(a, Ptr):
            write_through(I, a, call(name + '!ptr', *ts), st, node)
    if name.split('.')[-1] in ('shuffle', 'put', 'copyto', 'place', 'fill_diagonal', 'putmask') and args and isinstance(args[0], View):
        write_through(I, args[0], call(name + '!', *ts), st, node)
    if name in ('sys.exit', 'builtins.exit', 'builtins.quit', 'os._exit', 'os.abort'):
        I.event('raise', name, ts, None, st, node)
        I.deaths += 1
        st.dead = True
    return t

def T_(I, st, v): return I.term(v, st)

def ret_arr(I, st, t, node, name='arr'):
    return I.box(t, st, node, name)

def lift(I, st, f, vals, node):
    ts = [T_(I, st, v) for v in vals]
    if all(rank(t) == 0 for t in ts):
        return f(*ts)
    r = A.arrmap(f, *ts)
    return None if r is None else ret_arr(I, st, r, node)

def pointwise(name, opname=None):
    opname = opname or name
    def g(I, st, args, kw, node):
        ts = [T_(I, st, v) for v in args]
        r = lift(I, st, lambda *x: scalar_fn(opname, *x), args, node)
        if r is None:
            return call(opname, *ts)
        return r
    return g

def scalar_fn(n, *x):
    if n == 'exp':
        if x[0] is ZERO:
            return ONE
        return S.call('exp', x[0])
    if n == 'log' and x[0] is ONE:
        return ZERO
    if n in ('ceil', 'floor'):
        q = IP.quotient(x[0])
        if q is not None:
            return IP.ceildiv(*q) if n == 'ceil' else IP.floordiv(*q)
    return S.call(n, *x)

for _n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'arctan2', 'floor', 'ceil', 'sign', 'isfinite', 'isinf', 'log2', 'sinh', 'cosh', 'tanh', 'radians', 'deg2rad', 'hypot'):
    EXT['numpy.' + _n] = pointwise(_n)
EXT['math.acos'] = EXT['numpy.arccos']; EXT['math.asin'] = EXT['numpy.arcsin']; EXT['math.atan'] = EXT['numpy.arctan']; EXT['math.atan2'] = EXT['numpy.arctan2']
EXT['scipy.special.gamma'] = pointwise('gamma'); EXT['scipy.special.gammainc'] = pointwise('gammainc'); EXT['scipy.special.hyp2f1'] = pointwise('hyp2f1')
EXT['math.gamma'] = pointwise('gamma')

@ext('numpy.sqrt', 'math.sqrt', 'libc.math.sqrt')
def _sqrt(I, st, args, kw, node):
    t = T_(I, st, args[0])
    r = power(t, S.Fraction(1, 2))
    return ret_arr(I, st, r, node)

@ext('numpy.square')
def _sq(I, st, args, kw, node):
    return ret_arr(I, st, power(T_(I, st, args[0]), 2), node)

@ext('numpy.power', 'math.pow', 'libc.math.pow', 'builtins.pow')
def _pow(I, st, args, kw, node):
    if len(args) != 2:
        return NotImplemented
    return ret_arr(I, st, I.binop('**', T_(I, st, args[0]), T_(I, st, args[1]), st, node), node)

@ext('numpy.abs', 'numpy.absolute', 'builtins.abs', 'libc.math.fabs', 'math.fabs', 'numpy.fabs', 'libc.stdlib.abs')
def _abs(I, st, args, kw, node):
    t = T_(I, st, args[0])
    return ret_arr(I, st, S.tabs(t), node)

@ext('builtins.max', 'libc.math.fmax', 'numpy.maximum')
def _max(I, st, args, kw, node):
    if kw:
        return NotImplemented
    if len(args) == 1:
        it = I.iterable(args[0], st, node)
        if it[0] == 'const' and it[1]:
            ts = [T_(I, st, x) for x in it[1]]
            if all(rank(t) == 0 for t in ts):
                return S.tmax(*ts)
        x = T_(I, st, args[0])
        r = extremes('amax', x) or call('amax', x)
        return A.declare(r, 0) if rank(x) == 1 and r.op == 'call' else r
    ts = [T_(I, st, a) for a in args]
    if any(rank(t) is None for t in ts):
        return call('maximum', *ts)
    return ret_arr(I, st, S.tmax(*ts), node)

@ext('builtins.min', 'libc.math.fmin', 'numpy.minimum')
def _min(I, st, args, kw, node):
    if kw:
        return NotImplemented
    if len(args) == 1:
        it = I.iterable(args[0], st, node)
        if it[0] == 'const' and it[1]:
            ts = [T_(I, st, x) for x in it[1]]
            if all(rank(t) == 0 for t in ts):
                return S.tmin(*ts)
        x = T_(I, st, args[0])
        r = extremes('amin', x) or call('amin', x)
        return A.declare(r, 0) if rank(x) == 1 and r.op == 'call' else r
    ts = [T_(I, st, a) for a in args]
    if any(rank(t) is None for t in ts):
        return call('minimum', *ts)
    return ret_arr(I, st, S.tmin(*ts), node)

@ext('builtins.len')
def _len(I, st, args, kw, node):
    v = args[0]
    if isinstance(v, PyTuple):
        return num(len(v.items))
    if isinstance(v, ListRef):
        c = st.mem.get(('list', v.id))
        if isinstance(c, tuple):
            return num(len(c))
        return length(c)
    if isinstance(v, DictRef):
        c = st.mem.get(('dict', v.id))
        if isinstance(c, dict):
            return num(len(c))
        return call('len', T_(I, st, v))
    if isinstance(v, View):
        r = I.view_rank(v, st)
        if r is not None and r > 0:
            return I.view_shape(v, 0, st)
    if isinstance(v, Range) and v.step is ONE:
        return sub(v.hi, v.lo)
    t = T_(I, st, v)
    if t.op == 'str':
        return num(len(t.args[0]))
    if is_strish(t):
        return call('len', t)
    return length(t)

def length(t):
    if t.op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == 'lapp':
        return add(length(t.args[0]), ONE)
    if t.op == 'tuple':
        return num(len(t.args[0]))
    if t.op == 'vec':
        return num(len(t.args[0]))
    return shape(t, 0)

@ext('builtins.range', 'builtins.prange', 'cython.parallel.prange')
def _range(I, st, args, kw, node):
    ts = [T_(I, st, a) for a in args]
    if len(ts) == 1:
        return Range(ZERO, ts[0])
    return Range(ts[0], ts[1], ts[2] if len(ts) > 2 else ONE)

@ext('builtins.enumerate')
def _enum(I, st, args, kw, node):
    s = T_(I, st, args[1]) if len(args) > 1 else T_(I, st, kw['start']) if 'start' in kw else ZERO
    return Enum(args[0], s)

@ext('builtins.zip')
def _zip(I, st, args, kw, node):
    return Zip(list(args))

@ext('builtins.int', 'builtins.float', 'numpy.float64', 'numpy.float32', 'numpy.int32', 'numpy.int64', 'numpy.float_', 'numpy.int_', 'numpy.double', 'numpy.single', 'numpy.longlong', 'numpy.uint32', 'numpy.uint64', 'numpy.intc')
def _castnum(I, st, args, kw, node):
    if not args:
        return ZERO
    v = args[0]
    t = T_(I, st, v)
    if t.op == 'str':
        try:
            return num(S.Fraction(t.args[0]))
        except ValueError:
            return call('float', t)
    if is_strish(t):
        return call('tonum', t)
    n = expr_src(node.func) if isinstance(node, ast.Call) else ''
    if 'float' in n or n.endswith(('double', 'single')):
        f = IP.ids_as_float(t)
        if f is not t: return ret_arr(I, st, f, node)
    if n.split('.')[-1].startswith(('int', 'uint')) and not S.is_int(t) and rank(t) == 0 and 'np' not in n:
        return call('int', t) if t.op != 'num' else num(int(t.args[0]))
    if isinstance(v, View):
        return v
    return ret_arr(I, st, t, node)

S.INTCALLS = getattr(S, 'INTCALLS', set())

@ext('builtins.str')
def _str(I, st, args, kw, node):
    t = T_(I, st, args[0]) if args else string('')
    if is_strish(t):
        return t
    if t.op == 'num' and t.args[0].denominator == 1:
        return string(str(int(t.args[0])))
    return declare_str(call('str', t))

@ext('builtins.bool')
def _bool(I, st, args, kw, node):
    return truth(T_(I, st, args[0]))

@ext('builtins.list', 'builtins.tuple')
def _list(I, st, args, kw, node):
    tup = isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'tuple'
    if not args:
        return PyTuple([]) if tup else I.new_list([], st)
    it = I.iterable(args[0], st, node)
    if it[0] == 'const':
        return PyTuple(it[1]) if tup else I.new_list(it[1], st)
    v = args[0]
    t = T_(I, st, v) if not isinstance(v, (Zip, Enum)) else None
    if t is None:
        i = fresh('l')
        t = A.mk_alam(i, it[1], T_(I, st, it[2](i, st)))
    return I.new_list(t, st)

@ext('builtins.dict')
def _dict(I, st, args, kw, node):
    d = DictRef()
    c = {string(k): v for k, v in kw.items()}
    if args:
        a = args[0]
        if isinstance(a, DictRef) and isinstance(st.mem.get(('dict', a.id)), T):
            t = st.mem[('dict', a.id)]
            for k, v in c.items():
                t = IP.updf(t, k, T_(I, st, v))
            st.mem[('dict', d.id)] = t
            return d
        if isinstance(a, DictRef) and isinstance(st.mem.get(('dict', a.id)), dict):
            c = dict(st.mem[('dict', a.id)], **{}) | c
        else:
            it = I.iterable(a, st, node)
            if it[0] == 'const' and all(isinstance(x, PyTuple) and len(x.items) == 2 for x in it[1]):
                c = {T_(I, st, x.items[0]): x.items[1] for x in it[1]} | c
            else:
                t = T_(I, st, a)
                if t.op not in ('sym', 'updf', 'ite', 'field', 'scatter') or A.rank(t) is not None and A.rank(t) > 0:
                    t = call('dict', t)
                for k, v in c.items():
                    t = IP.updf(t, k, T_(I, st, v))
                st.mem[('dict', d.id)] = t
                return d
    st.mem[('dict', d.id)] = c
    return d

@ext('builtins.sum', 'numpy.sum')
def _sum(I, st, args, kw, node):
    t = T_(I, st, args[0])
    if t.op == 'vec' and not t.args[0]:
        return ZERO
    ax = kw.get('axis', args[1] if len(args) > 1 and not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)) else None)
    if ax is not None:
        ax = T_(I, st, ax)
        if ax is NONE:
            ax = None
    if is_boolt(t) and rank(t):
        t = A.arrmap(lambda x: S.iverson(truth(x)), t)
    if ax is not None and ax.op != 'num':
        return NotImplemented
    isb = isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'sum'
    if isb and rank(t) and rank(t) > 1:
        r = A.reduce_sum(t, 0)
    else:
        r = A.reduce_sum(t, None if ax is None else int(ax.args[0]))
    if r is None:
        return call('sum', t) if ax is None else call('sum', t, ax)
    return ret_arr(I, st, r, node)

@ext('numpy.mean', 'numpy.average')
def _mean(I, st, args, kw, node):
    t = T_(I, st, args[0])
    ax = kw.get('axis', args[1] if len(args) > 1 else None)
    ax = None if ax is None else T_(I, st, ax)
    if ax is NONE:
        ax = None
    w = kw.get('weights', args[2] if len(args) > 2 else None)
    w = None if w is None else T_(I, st, w)
    if w is NONE:
        w = None
    r = rank(t)
    if r is None or (ax is not None and ax.op != 'num') or (w is not None and rank(w) is None):
        return call('mean', t, *([ax] if ax is not None else [NONE]), *([w] if w is not None else []))
    a = None if ax is None else int(ax.args[0])
    if w is None:
        s = A.reduce_sum(t, a)
        n = shape(t, a) if a is not None else mul(*[shape(t, k) for k in range(r)]) if r else ONE
        return ret_arr(I, st, div(s, n), node)
    if a is None or r == 1:
        if rank(w) == r == 1:
            return div(A.reduce_sum(mul(t, w)), A.reduce_sum(w))
        return call('mean', t, NONE, w)
    if a == 0 and rank(w) == 1:
        k = fresh('k')
        tw = A.mk_alam(k, shape(t, 0), mul(A.sel(t, (k,)), A.sel(w, (k,))))
        return ret_arr(I, st, div(A.reduce_sum(tw, 0), A.reduce_sum(w)), node)
    return call('mean', t, ax, w)

def shape_list(I, st, v):
    if isinstance(v, PyTuple):
        return [T_(I, st, x) for x in v.items]
    if isinstance(v, ListRef):
        c = st.mem.get(('list', v.id))
        if isinstance(c, tuple):
            return [T_(I, st, x) for x in c]
    t = T_(I, st, v)
    if t.op in ('tuple', 'vec'):
        return list(t.args[0])
    if t.op == 'shapeof':
        return None
    if rank(t) == 0 or (rank(t) is None and t.op != 'call'):
        return [t]
    return None

def dtype_of(I, st, kw, args, pos):
    v = kw.get('dtype', args[pos] if len(args) > pos else None)
    if v is None:
        return None
    if isinstance(v, Ext):
        return v.name.split('.')[-1]
    t = T_(I, st, v)
    if t.op == 'fn':
        return t.args[0].split('.')[-1]
    return t.args[0] if t.op == 'str' else None

def new_filled(I, st, args, kw, node, val, name):
    shp = shape_list(I, st, args[0] if args else kw.get('shape'))
    dt = dtype_of(I, st, kw, args, 1 if val is not None else 2)
    if shp is None:
        t = call(name, *[T_(I, st, a) for a in args])
        return t
    if val is None:
        t = sym('\0uninit', I.where(node), len(I.loops))
        A.declare(t, len(shp), shp)
    else:
        t = A.fill(shp, val)
    if not shp:
        return t
    v = I.new_array(t, name, node, st, dtype=dt)
    v.arr.shape = tuple(shp)
    I.event('alloc', name, shp, None, st, node, extra=v.arr)
    if dt and 'bool' in dt:
        pass
    return v

@ext('numpy.zeros')
def _zeros(I, st, args, kw, node): return new_filled(I, st, args, kw, node, ZERO, 'zeros')
@ext('numpy.ones')
def _ones(I, st, args, kw, node): return new_filled(I, st, args, kw, node, ONE, 'ones')
@ext('numpy.empty', 'numpy.ndarray')
def _empty(I, st, args, kw, node): return new_filled(I, st, args, kw, node, None, 'empty')
@ext('numpy.full')
def _full(I, st, args, kw, node): return new_filled(I, st, [args[0]] + list(args[2:]), kw, node, T_(I, st, args[1] if len(args) > 1 else kw['fill_value']), 'full')

@ext('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like')
def _zl(I, st, args, kw, node):
    t = T_(I, st, args[0])
    r = rank(t)
    n = expr_src(node.func)
    if r is None:
        return call('zeros_like' if 'zeros' in n else 'like', t)
    val = ONE if 'ones' in n else ZERO
    x = A.fill([shape(t, k) for k in range(r)], val)
    return ret_arr(I, st, x, node)

@ext('numpy.array', 'numpy.copy', 'copy.copy', 'copy.deepcopy')
def _array(I, st, args, kw, node):
    v = args[0]
    if isinstance(v, (ListRef, PyTuple)):
        it = I.iterable(v, st, node)
        if it[0] == 'const':
            t = A.vec([T_(I, st, x) for x in it[1]])
            if not it[1]:
                return I.new_array(A.declare(mk('vec', ()), 1, (ZERO,)), 'array', node, st)
            if rank(t) is None:
                return call('array', t)
            return I.new_array(t, 'array', node, st, dtype=dtype_of(I, st, kw, args, 1))
    t = T_(I, st, v)
    if isinstance(v, DictRef):
        d = DictRef()
        st.mem[('dict', d.id)] = st.mem.get(('dict', v.id))
        return d
    r = rank(t)
    if r is None:
        # copying is the identity on values
        return t
    if r == 0:
        return t
    return I.new_array(t, 'array', node, st, dtype=dtype_of(I, st, kw, args, 1))

@ext('numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asanyarray', 'numpy.atleast_1d')
def _asarray(I, st, args, kw, node):
    if isinstance(args[0], View):
        return args[0] if not args[0].mv else View(args[0].arr, args[0].dims, False)
    if isinstance(args[0], T):
        return args[0]
    return _array(I, st, args, kw, node)

def seq_terms(I, st, v, node):
    it = I.iterable(v, st, node)
    if it[0] == 'const':
        return [T_(I, st, x) for x in it[1]]
    return None

@ext('numpy.concatenate')
def _concat(I, st, args, kw, node):
    ax = kw.get('axis', args[1] if len(args) > 1 else ZERO)
    ts = seq_terms(I, st, args[0], node)
    if ts is None:
        return A.ccat(T_(I, st, args[0])) if T_(I, st, ax) is ZERO else call('concatenate', T_(I, st, args[0]), T_(I, st, ax))
    if T_(I, st, ax) is ZERO:
        if ts and all(shape(t, 0) is ZERO for t in ts):
            return ret_arr(I, st, A.vec([]), node)
        r = A.concat(ts)
        if r is not None:
            return ret_arr(I, st, r, node)
    if T_(I, st, ax) is ONE:
        return _hstack(I, st, args[:1], {}, node)
    return call('concatenate', mk('tuple', tuple(ts)), T_(I, st, ax))

@ext('numpy.hstack')
def _hstack(I, st, args, kw, node):
    ts = seq_terms(I, st, args[0], node)
    if ts is None:
        t = T_(I, st, args[0])
        if t.op == 'alam' and rank(A.sel(t, (fresh('k'),))) == 1:
            return ret_arr(I, st, A.ccat(t), node)
        return call('hstack', t)
    rs = [rank(t) for t in ts]
    if None in rs:
        some = [t for t in ts if shape(t, 0) is not ZERO]
        if not some:
            return ret_arr(I, st, A.vec([]), node)
        return call('hstack', mk('tuple', tuple(ts)))
    ts = [A.vec([t]) if r == 0 else t for t, r in zip(ts, rs)]
    rs = [max(r, 1) for r in rs]
    if all(r == 1 for r in rs):
        return ret_arr(I, st, A.concat(ts), node)
    if all(r == 2 for r in rs):
        k = fresh('h')
        row = A.concat([A.sel(t, (k,)) for t in ts])
        if row is not None:
            n = next((shape(t, 0) for t in ts if shape(t, 0).op != 'shape'), shape(ts[0], 0))
            return ret_arr(I, st, A.mk_alam(k, n, row), node)
    return call('hstack', mk('tuple', tuple(ts)))

@ext('numpy.vstack')
def _vstack(I, st, args, kw, node):
    ts = seq_terms(I, st, args[0], node)
    if ts is None or any(rank(t) is None for t in ts):
        return call('vstack', T_(I, st, args[0]))
    ts = [A.vec([t]) if rank(t) == 1 else t for t in ts]
    r = A.concat(ts)
    return ret_arr(I, st, r, node) if r is not None else call('vstack', mk('tuple', tuple(ts)))

@ext('numpy.stack', 'numpy.column_stack')
def _stack(I, st, args, kw, node):
    ts = seq_terms(I, st, args[0], node)
    ax = T_(I, st, kw.get('axis', args[1] if len(args) > 1 else ZERO))
    if 'column' in expr_src(node.func):
        ax = num(-1)
    if ts is None or any(rank(t) is None for t in ts):
        return call('stack', T_(I, st, args[0]), ax)
    if ax is ZERO:
        return ret_arr(I, st, A.vec(ts), node)
    if ax.op == 'num' and rank(ts[0]) == 1:
        k = fresh('h')
        return ret_arr(I, st, A.mk_alam(k, shape(ts[0], 0), A.vec([A.sel(t, (k,)) for t in ts])), node)
    return call('stack', mk('tuple', tuple(ts)), ax)

@ext('numpy.cumsum')
def _cumsum(I, st, args, kw, node):
    t = T_(I, st, args[0])
    if rank(t) == 1:
        return ret_arr(I, st, A.cumsum(t), node)
    return call('cumsum', t)

@ext('numpy.transpose')
def _transpose(I, st, args, kw, node):
    t = T_(I, st, args[0])
    axes = kw.get('axes', args[1] if len(args) > 1 else None)
    r = rank(t)
    if r is None:
        return call('transpose', t, *([T_(I, st, axes)] if axes is not None else []))
    perm = tuple(reversed(range(r)))
    if axes is not None:
        l = shape_list(I, st, axes)
        if l is None or any(x.op != 'num' for x in l):
            return call('transpose', t, T_(I, st, axes))
        perm = tuple(int(x.args[0]) for x in l)
    return ret_arr(I, st, A.transpose(t, perm), node)

@ext('numpy.tile')
def _tile(I, st, args, kw, node):
    reps = args[1] if len(args) > 1 else kw.get('reps')
    t = T_(I, st, args[0])
    shp = shape_list(I, st, reps)
    if rank(t) != 1 or shp is None:
        return NotImplemented
    if len(shp) == 1:
        x = call('tile', t, shp[0])
        A.declare(x, 1, (mul(shape(t, 0), shp[0]),))
        return ret_arr(I, st, x, node)
    if len(shp) == 2 and shp[1] is ONE:
        return ret_arr(I, st, A.mk_alam(fresh('k'), shp[0], t), node)
    return NotImplemented

@ext('numpy.reshape')
def _reshape(I, st, args, kw, node):
    v = args[0]
    shp = shape_list(I, st, args[1]) if len(args) == 2 else [T_(I, st, x) for x in args[1:]]
    return reshape(I, st, v, shp, node, args)

def reshape(I, st, v, shp, node, args=()):
    t = T_(I, st, v)
    r = rank(t)
    if shp is None:
        return call('reshape', t, *[T_(I, st, x) for x in args[1:]])
    if r == 1:
        if len(shp) == 1:
            return v
        if len(shp) == 2 and t.op == 'call' and t.args[0] == 'tile' and shp[0] is t.args[1][1] and (shp[1] is shape(t.args[1][0], 0) or shp[1] is num(-1)):
            return ret_arr(I, st, A.mk_alam(fresh('k'), shp[0], t.args[1][0]), node)
        if len(shp) == 2 and shp[1] is ONE:
            k = fresh('r')
            n = shape(t, 0)
            return ret_arr(I, st, A.mk_alam(k, n if shp[0] is num(-1) else shp[0], A.vec([A.sel(t, (k,))])), node)
        if len(shp) == 2 and shp[0] is ONE:
            return ret_arr(I, st, A.vec([t]), node)
        if len(shp) == 2:
            k, m = fresh('r'), fresh('c')
            n1 = shp[1]
            n0 = shp[0]
            if n0 is num(-1):
                n0 = div(shape(t, 0), n1)
            elif n1 is num(-1):
                n1 = div(shape(t, 0), n0)
            return ret_arr(I, st, A.mk_alam(k, n0, A.mk_alam(m, n1, A.sel(t, (add(mul(k, n1), m),)))), node)
    if r == 2 and len(shp) == 1:
        n1 = shape(t, 1)
        if n1 is ONE:
            k = fresh('r')
            return ret_arr(I, st, A.mk_alam(k, shape(t, 0), A.sel(t, (k, ZERO))), node)
        n0 = shape(t, 0)
        if n0.op == 'num' and n1.op == 'num':
            return ret_arr(I, st, A.vec([A.sel(t, (num(a), num(b))) for a in range(int(n0.args[0])) for b in range(int(n1.args[0]))]), node)
        tt = call('ravel', t)
        A.declare(tt, 1, (mul(n0, n1),))
        return ret_arr(I, st, tt, node)
    if r == 2 and len(shp) == 2 and shp[0] is shape(t, 0) and shp[1] is shape(t, 1):
        return v
    if r == 2 and len(shp) == 3 and shp[0] is shape(t, 0) and ONE in (shp[1], shp[2]) and shape(t, 1) is (shp[2] if shp[1] is ONE else shp[1]):
        # an axis of length one put in
        k = fresh('r')
        row = A.sel(t, (k,))
        if shp[1] is ONE:
            row = A.vec([row])
        else:
            m = fresh('c')
            row = A.mk_alam(m, shp[1], A.vec([A.sel(row, (m,))]))
        return ret_arr(I, st, A.mk_alam(k, shp[0], row), node)
    x = call('reshape', t, *shp)
    if sum(s.op == 'num' and s.args[0] < 0 for s in shp) <= 1:
        A.declare(x, len(shp), [mk('shape', x, k) if s.op == 'num' and s.args[0] < 0 else s for k, s in enumerate(shp)])
    return x if rank(x) is None else ret_arr(I, st, x, node)

@ext('numpy.arange')
def _arange(I, st, args, kw, node):
    ts = [T_(I, st, a) for a in args]
    if len(ts) == 1:
        lo, hi = ZERO, ts[0]
    else:
        lo, hi = ts[0], ts[1]
    step = ts[2] if len(ts) > 2 else ONE
    if step is not ONE:
        if all(x.op == 'num' for x in (lo, hi, step)) and step.args[0] != 0:
            n = max(0, -(-(hi.args[0] - lo.args[0]) // step.args[0]))
            i = fresh('a')
            return I.new_array(A.mk_alam(i, num(n), add(lo, mul(i, step))), 'arange', node, st)
        return call('arange', lo, hi, step)
    i = fresh('a')
    return I.new_array(A.mk_alam(i, sub(hi, lo), add(lo, i)), 'arange', node, st)

@ext('numpy.linspace')
def _linspace(I, st, args, kw, node):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    n = args[2] if len(args) > 2 else kw.get('num', num(50))
    n = T_(I, st, n)
    if 'endpoint' in kw:
        return NotImplemented
    i = fresh('a')
    return I.new_array(A.mk_alam(i, n, add(a, mul(i, div(sub(b, a), sub(n, ONE))))), 'linspace', node, st)

@ext('numpy.logspace')
def _logspace(I, st, args, kw, node):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    n = args[2] if len(args) > 2 else kw.get('num', num(50))
    n = T_(I, st, n)
    if 'endpoint' in kw or 'base' in kw:
        return NotImplemented
    i = fresh('a')
    return I.new_array(A.mk_alam(i, n, IP.powt(num(10), add(a, mul(i, div(sub(b, a), sub(n, ONE)))))), 'logspace', node, st)

@ext('numpy.where')
def _where(I, st, args, kw, node):
    c = T_(I, st, args[0])
    if len(args) == 3:
        a, b = T_(I, st, args[1]), T_(I, st, args[2])
        if None not in (rank(c), rank(a), rank(b)):
            r = A.arrmap(lambda x, y, z: ite(truth(x), y, z), c, a, b)
            return ret_arr(I, st, r, node)
        return call('where', c, a, b)
    return nonzero(I, st, c, node)

def nonzero(I, st, c, node):
    if rank(c) == 1:
        j, k = fresh('j'), fresh('k')
        n = shape(c, 0)
        cond = truth(A.sel(c, (j,)))
        if n.op == 'num' and n.args[0] <= 16:
            cs = [truth(A.sel(c, (num(q),))) for q in range(int(n.args[0]))]
            if all(x.op == 'bool' for x in cs):
                return PyTuple([I.new_array(A.vec([num(q) for q, x in enumerate(cs) if x.args[0]]), 'nonzero', node, st)])
        r = A.flagged(cond, j)
        if r is not None:
            return PyTuple([ret_arr(I, st, r, node)])
        P = S.lam(j, cond)
        cnt = S.summ(j, ZERO, n, S.iverson(cond))
        return PyTuple([I.new_array(A.mk_alam(k, cnt, S.cpt(P, n, k)), 'nonzero', node, st)])
    return call('nonzero', c)

@ext('numpy.nonzero')
def _nonzero(I, st, args, kw, node): return nonzero(I, st, T_(I, st, args[0]), node)
@ext('numpy.flatnonzero')
def _fnz(I, st, args, kw, node):
    r = nonzero(I, st, T_(I, st, args[0]), node)
    return r.items[0] if isinstance(r, PyTuple) else r

@ext('numpy.isnan', 'math.isnan', 'libc.math.isnan')
def _isnan(I, st, args, kw, node):
    t = T_(I, st, args[0])
    if rank(t) == 0:
        return isnan0(t)
    r = A.arrmap(isnan0, t)
    if r is None:
        return call('isnan', t)
    return ret_arr(I, st, r, node)

def isnan0(x):
    if x.op == 'nan':
        return TRUE
    if x.op == 'num':
        return FALSE
    if x.op == 'ite':
        return disj([conj([x.args[0], isnan0(x.args[1])]), conj([neg_c(x.args[0]), isnan0(x.args[2])])])
    return call('isnan', x)

def logic(f):
    def g(I, st, args, kw, node):
        ts = [T_(I, st, a) for a in args]
        if any(rank(t) is None for t in ts):
            return call(expr_src(node.func).split('.')[-1], *ts)
        return ret_arr(I, st, A.arrmap(lambda *x: f([truth(y) for y in x]), *ts), node)
    return g
EXT['numpy.logical_and'] = logic(conj)
EXT['numpy.logical_or'] = logic(disj)
EXT['numpy.logical_not'] = logic(lambda xs: neg_c(xs[0]))
def _np_not(I, st, args, kw, node):
    if kw or len(args) != 1:
        return call('logical_not', *[T_(I, st, a) for a in args])
    r = I.invert(T_(I, st, args[0]))
    return ret_arr(I, st, r, node) if rank(r) else r
EXT['numpy.logical_not'] = EXT['numpy.invert'] = EXT['numpy.bitwise_not'] = _np_not

@ext('numpy.matmul')
def _matmul(I, st, args, kw, node):
    return ret_arr(I, st, I.np_dot(T_(I, st, args[0]), T_(I, st, args[1]), True), node)

@ext('numpy.dot', 'numpy.inner')
def _dot(I, st, args, kw, node):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    return ret_arr(I, st, I.np_dot(a, b), node)

@ext('numpy.linalg.norm', 'scipy.linalg.norm')
def _norm(I, st, args, kw, node):
    t = T_(I, st, args[0])
    ax = kw.get('axis', args[2] if len(args) > 2 else None)
    o = args[1] if len(args) > 1 else kw.get('ord')
    r = rank(t)
    if r is None or (o is not None and T_(I, st, o) not in (NONE, num(2))):
        return NotImplemented
    h = S.Fraction(1, 2)
    if ax is None:
        return power(A.reduce_sum(power(t, 2)), h)
    ax = T_(I, st, ax)
    if ax.op != 'num':
        return NotImplemented
    x = A.reduce_sum(power(t, 2), int(ax.args[0]))
    return ret_arr(I, st, A.arrmap(lambda y: power(y, h), x), node)

@ext('numpy.fromiter')
def _fromiter(I, st, args, kw, node):
    return _array(I, st, args[:1], {}, node)

ALONG = {'amax', 'amin', 'median', 'std', 'argmin', 'argmax', 'prod', 'nanmax', 'nanmin', 'nanmean', 'nanmedian'}

def extremes(nm, t):
    """largest / smallest of a few scalars"""
    if nm in ('amax', 'amin') and rank(t) == 1 and (n := shape(t, 0)).op == 'num' and 0 < n.args[0] <= 4:
        return (S.tmax if nm == 'amax' else S.tmin)(*[A.sel(t, (num(k),)) for k in range(int(n.args[0]))])
    return None

@ext('builtins.set')
def _set(I, st, args, kw, node):
    if len(args) != 1 or kw or rank(t := T_(I, st, args[0])) != 1:
        return NotImplemented
    return reducer('unique')(I, st, [t], {}, node)

def reducer(nm):
    def g(I, st, args, kw, node):
        t = T_(I, st, args[0])
        ks = [T_(I, st, a) for a in args[1:]] + [T_(I, st, v) for k, v in sorted(kw.items())]
        if nm in ('argsort', 'sort') and not ks and t.op == 'vec' and t.args[0] and all(x.op == 'num' for x in t.args[0]):
            vs = [x.args[0] for x in t.args[0]]
            if len(set(vs)) == len(vs) or len(vs) <= 16:      # short arrays: the order of equal elements is kept
                o = sorted(range(len(vs)), key=lambda k: vs[k])
                return ret_arr(I, st, A.vec([num(k) if nm == 'argsort' else num(vs[k]) for k in o]), node)
        if nm in ALONG and rank(t) == 2 and len(ks) == 1 and ('axis' in kw or len(args) == 2) and ks[0].op == 'num' and ks[0].args[0] in (0, 1, -1):
            v, w = fresh('v'), fresh('w')
            ax = int(ks[0].args[0]) % 2
            one = lambda x: extremes(nm, x) or A.declare(call(nm, x), 0)
            return ret_arr(I, st, A.mk_alam(w, shape(t, 1 - ax), one(A.mk_alam(v, shape(t, ax), A.sel(t, (w, v) if ax else (v, w))))), node)
        if not ks and extremes(nm, t) is not None:
            return extremes(nm, t)
        if not ks and nm not in ('argmin', 'argmax', 'argsort'):
            t = A.unordered(t)
        r = call(nm, t, *ks)
        if r.op == 'call' and rank(r) is None and rank(t) is not None:
            if nm in ('argsort', 'sort'):
                if not ks: A.declare(r, rank(t), [shape(t, k) for k in range(rank(t))])
            elif nm == 'unique':
                if not ks:
                    n = mk('shape', r, 0)
                    S.declare_int(n); S.declare_nonneg(n)
                    if rank(t) == 1:
                        S.declare_nonneg(sub(shape(t, 0), n))
                    A.declare(r, 1)
            elif not ks:
                A.declare(r, 0)
            elif len(ks) == 1 and ks[0].op == 'num' and 'axis' in kw or len(args) == 2:
                k = ks[0]
                if k.op == 'num' and k.args[0].denominator == 1:
                    d = [shape(t, q) for q in range(rank(t))]
                    del d[int(k.args[0])]
                    A.declare(r, len(d), d)
            if nm.startswith('arg'): S.declare_int(r)
        return r
    return g
for _n, _m in (('max', 'amax'), ('amax', 'amax'), ('min', 'amin'), ('amin', 'amin'), ('median', 'median'), ('std', 'std'), ('argmin', 'argmin'), ('argmax', 'argmax'),
               ('argsort', 'argsort'), ('sort', 'sort'), ('unique', 'unique'), ('prod', 'prod'), ('nanmax', 'nanmax'), ('nanmin', 'nanmin'), ('nanmean', 'nanmean'), ('nanmedian', 'nanmedian')):
    EXT['numpy.' + _n] = reducer(_m)

def quantile(scale):
    def g(I, st, args, kw, node):
        if len(args) != 2 or kw:
            return NotImplemented
        t, q = T_(I, st, args[0]), T_(I, st, args[1])
        r = call('numpy.quantile', A.unordered(t), S.div(q, num(scale)))
        return A.declare(r, 0) if rank(t) == 1 and rank(q) == 0 else r
    return g
EXT['numpy.quantile'] = quantile(1)
EXT['numpy.percentile'] = quantile(100)

@ext('numpy.searchsorted')
def _searchsorted(I, st, args, kw, node):
    side = T_(I, st, kw['side']) if 'side' in kw else string('left')
    if len(args) != 2 or set(kw) - {'side'} or side.op != 'str':
        return NotImplemented
    a, v = T_(I, st, args[0]), T_(I, st, args[1])
    f = lambda x: S.declare_int(c := A.declare(call('searchsorted' if side.args[0] == 'left' else 'searchsorted_right', a, x), 0)) or S.declare_nonneg(c) or c
    if rank(v) == 0:
        return f(v)
    if rank(v) is None:
        return NotImplemented
    return ret_arr(I, st, A.arrmap(f, v), node)

def quant(f):
    def g(I, st, args, kw, node):
        t = T_(I, st, args[0])
        r = rank(t)
        x = call(f, t)
        A.declare(x, 0)
        return x
    return g
@ext('numpy.all')
def _all(I, st, args, kw, node):
    if kw or len(args) > 1:
        return NotImplemented
    return all_(T_(I, st, args[0]))
def all_(t):
    r = rank(t)
    if r == 0:
        return truth(t)
    if r == 1:
        j = fresh('j')
        return compare('==', S.summ(j, ZERO, shape(t, 0), S.iverson(neg_c(truth(A.sel(t, (j,)))))), ZERO)
    return mk('pred', 'all', t)
@ext('builtins.all')
def _ball(I, st, args, kw, node): return all_(T_(I, st, args[0]))
@ext('numpy.any', 'builtins.any')
def _any(I, st, args, kw, node):
    if kw or len(args) > 1:
        return NotImplemented
    t = T_(I, st, args[0])
    r = rank(t)
    if r == 0:
        return truth(t)
    if r == 1:
        j = fresh('j')
        return compare('<', ZERO, S.summ(j, ZERO, shape(t, 0), S.iverson(truth(A.sel(t, (j,))))))
    return mk('pred', 'any', t)

@ext('numpy.isin', 'numpy.in1d')
def _isin(I, st, args, kw, node):
    """membership of every element"""
    if len(args) != 2 or any(k not in ('assume_unique', 'invert') for k in kw) or kw.get('invert', FALSE) is not FALSE:
        return NotImplemented
    t, s = T_(I, st, args[0]), T_(I, st, args[1])
    if rank(s) != 1 or rank(t) not in (0, 1):
        return NotImplemented
    def member(x):
        j = fresh('j')
        return compare('<', ZERO, S.summ(j, ZERO, shape(s, 0), S.iverson(compare('==', x, A.sel(s, (j,))))))
    if rank(t) == 0:
        return member(t)
    i = fresh('i')
    return ret_arr(I, st, A.mk_alam(i, shape(t, 0), member(A.sel(t, (i,)))), node)

@ext('builtins.isinstance')
def _isinstance(I, st, args, kw, node):
    v, c = args
    names = []
    def coll(x):
        if isinstance(x, PyTuple):
            for y in x.items:
                coll(y)
        elif isinstance(x, Ext):
            names.append(x.name.split('.')[-1])
        elif isinstance(x, Cls):
            names.append(x.ci.name)
        else:
            names.append('?')
    coll(c)
    kind = None
    if isinstance(v, View): kind = {'ndarray'}
    elif isinstance(v, ListRef): kind = {'list'}
    elif isinstance(v, PyTuple): kind = {'tuple'}
    elif isinstance(v, DictRef): kind = {'dict'}
    elif isinstance(v, (Fn, Bound)): kind = {'function'}
    elif isinstance(v, ObjRef): kind = {x.name for x in I.P.mro(v.ci)}
    elif isinstance(v, T):
        if is_strish(v): kind = {'str'}
        elif v.op == 'none': kind = {'NoneType'}
        elif v.id in IP.NUMS: kind = {'float'}
        elif v.op == 'num': kind = {'int' if v.args[0].denominator == 1 else 'float'}
        elif v.op == 'bool': kind = {'bool', 'int'}
        elif v.op == 'ite':
            a = _isinstance(I, st, [v.args[1], c], kw, node)
            b = _isinstance(I, st, [v.args[2], c], kw, node)
            return disj([conj([v.args[0], a]), conj([neg_c(v.args[0]), b])])
    if kind is not None and '?' not in names:
        return mk('bool', bool(kind & set(names)))
    return mk('pred', 'isinstance', T_(I, st, v), string(','.join(sorted(names))))

@ext('builtins.type')
def _type(I, st, args, kw, node):
    v = args[0]
    name = {View: 'numpy.ndarray', ListRef: 'builtins.list', PyTuple: 'builtins.tuple', DictRef: 'builtins.dict'}.get(type(v))
    if name is None and isinstance(v, T):
        name = 'builtins.str' if is_strish(v) else 'builtins.float' if v.id in IP.NUMS else {'bool': 'builtins.bool'}.get(v.op)
    if name is not None:
        return Ext(name)
    return call('type', T_(I, st, v))

@ext('builtins.print')
def _print(I, st, args, kw, node):
    I.event('ext', 'builtins.print', [T_(I, st, a) for a in args], {k: T_(I, st, v) for k, v in kw.items()}, st, node, extra=(args, kw, NONE))
    return NONE

@ext('cache.decorator')
def _cachedeco(I, st, args, kw, node):
    """the cached function computes what the function computes; the cache itself is decided by the rules of C10"""
    return args[0]

@ext('builtins.hasattr')
def _hasattr(I, st, args, kw, node):
    v, n = args
    if isinstance(v, Fn) and isinstance(n, T) and n.op == 'str':
        # a function attribute is set by the function itself only; the first call is analysed
        return mk('bool', ('fnattr', id(v.node), n.args[0]) in st.mem)
    if isinstance(v, ObjRef) and isinstance(n, T) and n.op == 'str':
        if ('attr', v.id, n.args[0]) in st.mem or I.P.method(v.ci, n.args[0])[0] is not None:
            return TRUE
    if isinstance(n, T) and n.op == 'str' and n.args[0] == '__len__':
        if isinstance(v, (View, ListRef, PyTuple, DictRef)):
            return TRUE
        r = rank(v) if isinstance(v, T) else None
        if r is not None and not (isinstance(v, T) and is_strish(v)):
            return TRUE if r else FALSE
    return mk('pred', 'hasattr', T_(I, st, v), T_(I, st, n))

@ext('builtins.getattr')
def _getattr(I, st, args, kw, node):
    if isinstance(args[1], T) and args[1].op == 'str' and not isinstance(args[0], T):
        return I.get_attr(args[0], args[1].args[0], st, node)
    return NotImplemented

@ext('builtins.setattr')
def _setattr(I, st, args, kw, node):
    if isinstance(args[1], T) and args[1].op == 'str':
        I.set_attr(args[0], args[1].args[0], args[2], st, node)
        return NONE
    return NotImplemented

@ext('mpi4py.MPI.COMM_WORLD.Get_rank')
def _rank_(I, st, args, kw, node): return RANK
@ext('mpi4py.MPI.COMM_WORLD.Get_size')
def _size_(I, st, args, kw, node): return SIZE

@ext('builtins.round', 'numpy.round', 'numpy.around', 'numpy.rint')
def _round(I, st, args, kw, node):
    if len(args) == 1 and not kw:
        r = lift(I, st, lambda x: call('rint', x), args, node)
        if r is not None:
            return r
    return call('round', *[T_(I, st, a) for a in args])

@ext('builtins.map')
def _map(I, st, args, kw, node):
    it = I.iterable(args[1], st, node)
    if it[0] == 'const':
        return I.new_list([do_call(I, args[0], [x], {}, st, node) for x in it[1]], st)
    i = fresh('q')
    s = st.copy()
    v = do_call(I, args[0], [it[2](i, s)], {}, s, node)
    return I.new_list(A.mk_alam(i, it[1], T_(I, s, v)), st)

@ext('functools.partial')
def _partial(I, st, args, kw, node):
    if args and isinstance(args[0], (Fn, Bound, IP.Partial)):
        return IP.Partial(args[0], list(args[1:]), dict(kw))
    return NotImplemented

def callable_(v):
    return isinstance(v, (Fn, IP.Partial))

def extra_args(I, st, kw):
    a = kw.get('args')
    if a is None: return []
    return list(a.items) if isinstance(a, PyTuple) else [a]

@ext('scipy.integrate.quad')
def _quad(I, st, args, kw, node):
    if len(args) != 3 or set(kw) - {'args'} or not callable_(args[0]):
        return NotImplemented
    r = mk('sym', '\0quad')
    A.declare(r, 0)
    S.declare_nonneg(r)
    S._numbers.add(r.id)
    s = st.copy()
    body = T_(I, s, do_call(I, args[0], [r] + extra_args(I, st, kw), {}, s, node))
    t = call('quad', body, T_(I, st, args[1]), T_(I, st, args[2]))
    A.declare(t, 0)
    S._numbers.add(t.id)
    return PyTuple([t, call('quad.err', t)])

@ext('scipy.optimize.minimize')
def _minimize(I, st, args, kw, node):
    if not args or not callable_(args[0]):
        return NotImplemented
    kw = dict(kw)
    for k, n in enumerate(('fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options')):
        if k < len(args): kw[n] = args[k]
    x0 = T_(I, st, kw['x0'])
    x = mk('sym', '\0minx%s' % (shape(x0, 0).id if rank(x0) == 1 else ''))
    if rank(x0) == 1: A.declare(x, 1, [shape(x0, 0)])
    s = st.copy()
    body = T_(I, s, do_call(I, args[0], [I.box(x, s, node)] + extra_args(I, st, kw), {}, s, node))
    t = call('minimize', body, x0, **{k: T_(I, st, v) for k, v in kw.items() if k not in ('fun', 'x0', 'args')})
    I.event('ext', 'scipy.optimize.minimize', list(t.args[1]), dict(t.args[2]), st, node, extra=(args, kw, t))
    return t

@ext('builtins.reversed')
def _rev(I, st, args, kw, node):
    it = I.iterable(args[0], st, node)
    if it[0] == 'const':
        return I.new_list(list(reversed(it[1])), st)
    return call('reversed', T_(I, st, args[0]))

@ext('os.path.join')
def _join(I, st, args, kw, node):
    parts = []
    for k, a in enumerate(args):
        if k:
            parts.append(string('/'))
        parts.append(T_(I, st, a))
    return strcat(parts)

@ext('builtins.__cast__')
def _cast(I, st, args, kw, node):
    t = args[0]
    ty = t.args[0] if isinstance(t, T) and t.op == 'str' else '?'
    v = args[1]
    if isinstance(v, T) and ty in ('int', 'long') and not S.is_int(v) and rank(v) == 0 and v.op != 'call':
        return call('int', v) if v.op != 'num' else num(int(v.args[0]))
    return v

@ext('builtins.__sizeof__')
def _sizeof(I, st, args, kw, node):
    t = args[0]
    return mk('sym', 'sizeof', t.args[0] if isinstance(t, T) and t.op == 'str' else '?')

@ext('builtins.__addr__')
def _addr(I, st, args, kw, node):
    e = node.args[0]
    if isinstance(e, ast.Name):
        v = st.env.get(e.id, UNDEF)
        if isinstance(v, View):
            r = I.view_rank(v, st) or 1
            return Ptr(st.env, None, v, (ZERO,) * r)
        return Ptr(st.env, e.id)
    if isinstance(e, ast.Subscript):
        b = I.ev(e.value, st)
        idx = I.indices(e.slice, st)
        if isinstance(b, View):
            return Ptr(st.env, None, b, tuple(idx))
    return Ptr(st.env, None)

@ext('builtins.__unsupported__')
def _uns(I, st, args, kw, node):
    return I.giveup('syntax %s' % (args[0].args[0] if args and isinstance(args[0], T) else '?'), node, st)

@ext('openmp.omp_get_thread_num')
def _tid(I, st, args, kw, node):
    return I.tid

S.INTOPS.add('tid')
NTHREADS = sym('omp_max_threads')
S.declare_int(NTHREADS)
@ext('openmp.omp_get_max_threads')
def _nth(I, st, args, kw, node):
    return NTHREADS

RANK = sym('mpi_rank'); SIZE = sym('mpi_size')
S.declare_int(RANK); S.declare_int(SIZE); S.declare_nonneg(RANK); S.declare_nonneg(SIZE)

@ext('scipy.linalg.cython_lapack.zheevr')
def _zheevr(I, st, args, kw, node):
    ts = []
    e = I.event('lapack', 'zheevr', [deref(I, a, st) for a in args[:5] + args[15:16]], None, st, node, extra=args)
    if e is not None:
        e.info = ([deref(I, a, st) if not (isinstance(a, Ptr) and a.view is not None) else None for a in args],
                  [[I.view_shape(a.view, k, st) for k in range(I.view_rank(a.view, st) or 1)] if isinstance(a, Ptr) and a.view is not None else None for a in args])
    if len(args) < 15:
        return I.giveup('zheevr arguments', node, st)
    def c(x):
        t = deref(I, x, st)
        return t.args[0] if t.op in ('str', 'bytes') else None
    uplo = c(args[2])
    H = args[4]
    if not (isinstance(H, Ptr) and H.view is not None):
        return I.giveup('zheevr matrix', node, st)
    M = deref(I, H, st)
    n = 3
    up = uplo in ('U', b'U', 'u', b'u')
    el = []
    for i in range(n):
        for j in range(i + 1):
            a, b = (j, i) if up else (i, j)
            el.append(A.sel(M, (num(a), num(b))))
    # column-major storage: a C-ordered matrix is seen transposed; symmetric content makes no difference
    key = A.vec(el)
    ev = A.declare(call('eigval', key), 1, (num(3),))
    vv = A.declare(call('eigvec', key), 2, (num(3), num(3)))
    ev = A.vec([A.sel(ev, (num(k),)) for k in range(3)])
    write_through(I, args[12], ev, st, node)
    write_through(I, args[13], vv, st, node)
    write_through(I, H, A.declare(call('destroyed', key), 2, (num(3), num(3))), st, node)
    for a in args[:12] + args[14:]:
        if isinstance(a, Ptr) and a.view is None and a.name is not None and a in (args[-1], args[11]):
            a.env[a.name] = call('lapack_' + ('info' if a is args[-1] else 'm'), key)
    return NONE

@ext('PyDataMem_NEW', 'PyDataMem_NEW_ZEROED', 'PyDataMem_RENEW', 'libc.stdlib.malloc', 'libc.stdlib.calloc', 'libc.stdlib.realloc')
def _new(I, st, args, kw, node):
    ts = [T_(I, st, a) for a in args]
    IP._opq[0] += 1
    t = sym('\0mem', IP._opq[0])
    I.event('malloc', expr_src(node.func), ts, None, st, node, extra=t)
    return t

@ext('PyDataMem_FREE', 'libc.stdlib.free')
def _free(I, st, args, kw, node):
    I.event('free', expr_src(node.func), [T_(I, st, a) for a in args], None, st, node)
    return NONE

@ext('builtins.sorted')
def _sorted(I, st, args, kw, node):
    it = I.iterable(args[0], st, node)
    if it[0] == 'const' and not kw and all(isinstance(x, T) and x.op == 'num' for x in it[1]):
        return I.new_list(sorted(it[1], key=lambda t: t.args[0]), st)
    return call('sorted', T_(I, st, args[0]), *[T_(I, st, v) for v in kw.values()])

@ext('builtins.open')
def _open(I, st, args, kw, node):
    return NotImplemented

# ------------------------------------------------------------------ bound methods
def call_bound(I, b, args, kw, st, node):
    v, n = b.val, b.name
    if isinstance(v, Ext) and v.name.endswith('COMM_WORLD'):
        r = mpi_method(I, n, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if isinstance(v, ListRef):
        r = list_method(I, v, n, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if isinstance(v, DictRef):
        r = dict_method(I, v, n, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if isinstance(v, PyTuple) and n in ('index', 'count'):
        return call('.' + n, T_(I, st, v), *[T_(I, st, a) for a in args])
    t = None
    if isinstance(v, T) and n in ('append', 'extend', 'insert', 'remove', 'reverse', 'clear') and element_grows(I, v, n, args, kw, st, node):
        return NONE
    if n in ('map', 'imap') and len(args) == 2 and isinstance(v, T) and v.op == 'call' and v.args[0].endswith('Pool') and callable_(args[0]):
        return _map(I, st, args, kw, node)        # results in the order of the items; other processes cannot change anything here
    if isinstance(v, (View, T)):
        t = T_(I, st, v)
        if is_strish(t) or n == 'format' or (n == 'join' and t.op == 'str'):
            r = str_method(I, t, n, args, kw, st, node)
            if r is not NotImplemented:
                return r
        if t.op == 'call' and t.args[0].endswith(('COMM_WORLD',)) or (t.op == 'fn' and t.args[0].endswith('COMM_WORLD')):
            r = mpi_method(I, n, args, kw, st, node)
            if r is not NotImplemented:
                return r
        r = arr_method(I, v, t, n, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if isinstance(v, Ext):
        return call_ext(I, v.name + '.' + n, args, kw, st, node)
    t = t if t is not None else T_(I, st, v)
    ts = [T_(I, st, a) for a in args]
    ks = {k: T_(I, st, x) for k, x in kw.items()}
    key = '.' + n
    if n in ('read', 'readline', 'readlines', 'recv', 'tell', 'random', 'normal', 'uniform', 'integers'):
        I.callcount[key] = I.callcount.get(key, 0) + (0 if I.mute else 1)
        r = mk('call', key, (t,) + tuple(ts) + (mk('seq', I.callcount[key]),), tuple(sorted(ks.items())))
    else:
        r = mk('call', key, (t,) + tuple(ts), tuple(sorted(ks.items())))
    if n == 'choice' and ts and rank(r) is None:
        sz = ks.get('size', ts[1] if len(ts) > 1 else None)
        if sz is None: A.declare(r, 0)
        elif sz.op == 'tuple': A.declare(r, len(sz.args[0]), sz.args[0])
        elif rank(sz) == 0: A.declare(r, 1, (sz,))
    I.event('method', n, [t] + ts, ks, st, node, extra=(v, args, kw, r))
    return r

def element_grows(I, v, n, args, kw, st, node):
    """y[k].append(x) for a list y of lists of which the number is symbolic"""
    f = getattr(node, 'func', None)
    f = f.value if isinstance(f, ast.Attribute) else None
    base = I.ev(f.value, st) if isinstance(f, ast.Subscript) else None
    c = st.mem.get(('list', base.id)) if isinstance(base, ListRef) else None
    idx = I.indices(f.slice, st) if isinstance(c, T) else None
    if n in ('append', 'extend') and idx and len(idx) == 1 and isinstance(idx[0], T) and len(args) == 1 and not kw and c.op in ('alam', 'sym'):
        x = T_(I, st, args[0])
        j = S.fresh('j')
        old = A.sel(c, (j,))
        r = A.concat([old, A.vec([x]) if n == 'append' else x])
        if r is not None:
            I.event('mutate', n, [idx[0], x], None, st, node, extra=base)
            st.mem[('list', base.id)] = A.mk_alam(j, A.shape(c, 0), ite(compare('==', j, A.wrapneg(c, idx[0], 0)), r, old))
            return True
    if rank(v) == 0 or v.op in ('call', 'obj', 'fn') and rank(v) is None:
        return False
    I.giveup('element .%s' % n, node, st)
    return True

def list_method(I, l, n, args, kw, st, node):
    c = st.mem.get(('list', l.id))
    if n == 'append':
        I.event('mutate', 'append', [T_(I, st, args[0])], None, st, node, extra=l)
        v = args[0]
        if isinstance(c, tuple):
            st.mem[('list', l.id)] = c + (v,)
        else:
            tv = T_(I, st, v)
            if c.op in ('alam',) or (c.op == 'vec' and rank(c) is not None):
                r = A.concat([c, A.vec([tv])])
                st.mem[('list', l.id)] = r if r is not None else mk('lapp', c, tv)
            else:
                st.mem[('list', l.id)] = mk('lapp', c, tv)
        return NONE
    if n == 'extend':
        I.list_extend(l, args[0], st, node)
        return NONE
    if n == 'copy':
        return I.new_list(c, st)
    if n in ('insert', 'pop', 'remove', 'sort', 'reverse', 'clear'):
        I.event('mutate', n, [T_(I, st, a) for a in args], None, st, node, extra=l)
        if isinstance(c, tuple):
            ks = [T_(I, st, a) for a in args]
            if n == 'clear':
                st.mem[('list', l.id)] = ()
                return NONE
            if n == 'reverse':
                st.mem[('list', l.id)] = tuple(reversed(c))
                return NONE
            if n == 'insert' and ks[0].op == 'num':
                x = list(c); x.insert(int(ks[0].args[0]), args[1])
                st.mem[('list', l.id)] = tuple(x)
                return NONE
            if n == 'pop' and c and (not ks or ks[0].op == 'num'):
                x = list(c)
                r = x.pop(int(ks[0].args[0]) if ks else -1)
                st.mem[('list', l.id)] = tuple(x)
                return r
        st.mem[('list', l.id)] = call('.' + n, T_(I, st, l), *[T_(I, st, a) for a in args])
        return fresh_opaque(n)
    if n in ('index', 'count'):
        return call('.' + n, T_(I, st, l), *[T_(I, st, a) for a in args])
    return NotImplemented

def dict_method(I, d, n, args, kw, st, node):
    c = st.mem.get(('dict', d.id))
    if n == 'keys' and isinstance(c, dict):
        return I.new_list(list(c), st)
    if n == 'values' and isinstance(c, dict):
        return I.new_list(list(c.values()), st)
    if n == 'items' and isinstance(c, dict):
        return I.new_list([PyTuple([k, v]) for k, v in c.items()], st)
    if n == 'get' and isinstance(c, dict):
        k = T_(I, st, args[0])
        d0 = args[1] if len(args) > 1 else NONE
        if k in c:
            return c[k]
        if k.op in ('str', 'num') and all(x.op in ('str', 'num') for x in c):
            return d0
        if all(x.op in ('str', 'num') for x in c) and isinstance(d0, T) and all(isinstance(v, T) for v in c.values()):
            return I.choice_over([(compare('==', k, x), v) for x, v in c.items()], d0, st)
        if all(x.op in ('str', 'num') for x in c) and not isinstance(d0, T) and c:
            return IP.Switch([(compare('==', k, x), v) for x, v in c.items()], d0)
        return call('.get', T_(I, st, d), k, T_(I, st, d0))
    if n == 'get' and isinstance(c, T):
        k = T_(I, st, args[0])
        return ite(IP.in_term(k, c), I.field(c, k), T_(I, st, args[1]) if len(args) > 1 else NONE)
    if n == 'keys' and isinstance(c, T):
        return c
    if n == 'copy':
        e = DictRef()
        st.mem[('dict', e.id)] = c
        return e
    if n == 'update':
        I.event('mutate', 'update', [T_(I, st, a) for a in args], None, st, node, extra=d)
        o = st.mem.get(('dict', args[0].id)) if args and isinstance(args[0], DictRef) else ({} if not args else None)
        if isinstance(c, T) and isinstance(o, dict) and all(k.op == 'str' for k in o):
            for k, v in {**o, **{string(k): v for k, v in kw.items()}}.items():
                c = IP.updf(c, k, T_(I, st, v))
            st.mem[('dict', d.id)] = c
        elif isinstance(c, dict) and isinstance(o, dict):
            st.mem[('dict', d.id)] = {**c, **o, **{string(k): v for k, v in kw.items()}}
        else:
            st.mem[('dict', d.id)] = call('.update', T_(I, st, d), *[T_(I, st, a) for a in args])
        return NONE
    if n in ('pop', 'setdefault', 'clear', 'popitem'):
        I.event('mutate', n, [T_(I, st, a) for a in args], None, st, node, extra=d)
        if n == 'pop' and isinstance(c, dict):
            k = T_(I, st, args[0])
            if k in c:
                c = dict(c)
                r = c.pop(k)
                st.mem[('dict', d.id)] = c
                return r
        if n == 'clear':
            st.mem[('dict', d.id)] = {}
            return NONE
        old = T_(I, st, d)
        st.mem[('dict', d.id)] = call('dict.' + n, old, *[T_(I, st, a) for a in args])
        if n == 'pop' and isinstance(c, T) and args and T_(I, st, args[0]).op == 'str':
            return I.field(c, T_(I, st, args[0]))
        return fresh_opaque('dict.' + n)
    return NotImplemented

def str_method(I, t, n, args, kw, st, node):
    ts = [T_(I, st, a) for a in args]
    if n == 'format' and t.op == 'str':
        return str_format(I, t.args[0], ts, {k: T_(I, st, v) for k, v in kw.items()})
    if n == 'join' and t.op == 'str':
        it = I.iterable(args[0], st, node)
        if it[0] == 'const':
            parts = []
            for k, x in enumerate(it[1]):
                if k:
                    parts.append(t)
                parts.append(T_(I, st, x))
            return strcat(parts)
    if t.op == 'str' and all(x.op == 'str' for x in ts):
        s = t.args[0]
        if n in ('replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize'):
            return string(getattr(s, n)(*[x.args[0] for x in ts]))
        if n in ('startswith', 'endswith'):
            return mk('bool', getattr(s, n)(*[x.args[0] for x in ts]))
        if n == 'encode':
            return mk('bytes', s.encode())
        if n == 'split':
            return I.new_list([string(x) for x in s.split(*[x.args[0] for x in ts])], st)
    if n in ('startswith', 'endswith', 'isdigit'):
        return mk('pred', n, t, *ts)
    if n in ('replace', 'lower', 'upper', 'strip'):
        return declare_str(call('.' + n, t, *ts))
    return NotImplemented

def str_format(I, s, ts, ks):
    import string as pystr
    parts, auto = [], 0
    try:
        for lit, fld, spec, conv in pystr.Formatter().parse(s):
            if lit:
                parts.append(string(lit))
            if fld is None:
                continue
            if fld == '':
                x = ts[auto]
                auto += 1
            elif fld.isdigit():
                x = ts[int(fld)]
            else:
                base = fld.split('[')[0].split('.')[0]
                if base in ks and base == fld:
                    x = ks[base]
                else:
                    return call('.format', string(s), *ts)
            parts.append(I.fmt_part(x, spec or ''))
    except (IndexError, ValueError):
        return call('.format', string(s), *ts)
    return strcat(parts) if parts else string('')

def arr_method(I, v, t, n, args, kw, st, node):
    r = rank(t)
    if n == 'copy':
        if r:
            return I.new_array(t, 'copy', node, st)
        return t
    if n == 'byteswap':
        inplace = I.term(args[0], st) if args else I.term(kw['inplace'], st) if 'inplace' in kw else S.FALSE
        def bs(x):
            if x.op == 'call' and x.args[0] == 'bswap': return x.args[1][0]
            y = call('bswap', x)
            if rank(x) == 0: A.declare(y, 0)
            return y
        new = (A.arrmap(bs, t) if r else None) or bs(t)
        if r and rank(new) is None: A.declare(new, r, [shape(t, k) for k in range(r)])
        if isinstance(v, View) and inplace is S.TRUE:
            write_through(I, v, new, st, node)
            return v
        return I.new_array(new, 'byteswap', node, st) if r else new
    if n in ('astype',):
        from .dtypes import dtype_term
        d = dtype_term(I, args[0] if args else kw['dtype'], st) if args or 'dtype' in kw else None
        dn = str(d.args[1]) if d is not None and d.op == 'sym' and d.args[0] == 'dtype' else ''
        if dn.startswith('float'):
            t = IP.ids_as_float(t)
        elif dn.startswith(('int', 'uint')) and not IP.identifiers(t):
            def trunc(x): return x if S.is_int(x) else call('int', x) if x.op != 'num' else num(int(x.args[0]))
            t = A.arrmap(trunc, t) or t
        if r:
            v = I.new_array(t, 'astype', node, st)
            if dn and isinstance(v, View): v.arr.elem = S.mk('sym', 'dtype', dn, 1)
            return v
        return t
    if n == 'tolist':
        return I.new_list(tuple(t.args[0]) if t.op == 'vec' else t, st)
    if n in ('flatten', 'ravel'):
        if r == 1:
            return I.new_array(t, n, node, st)
        return reshape(I, st, v, [num(-1)], node)
    if n == 'reshape':
        shp = shape_list(I, st, args[0]) if len(args) == 1 else [T_(I, st, a) for a in args]
        return reshape(I, st, v, shp, node, (v,) + tuple(args))
    if n == 'transpose':
        return _transpose(I, st, [v] + ([PyTuple(args)] if args else []), {}, node)
    m = {'sum': 'numpy.sum', 'mean': 'numpy.mean', 'cumsum': 'numpy.cumsum', 'dot': 'numpy.dot', 'nonzero': 'numpy.nonzero', 'max': 'numpy.max', 'min': 'numpy.min',
         'argmin': 'numpy.argmin', 'argmax': 'numpy.argmax', 'argsort': 'numpy.argsort', 'std': 'numpy.std', 'all': 'numpy.all', 'any': 'numpy.any'}.get(n)
    if m is not None and (isinstance(v, View) or r is not None or t.op == 'call'):
        q = EXT[m](I, st, [v] + list(args), kw, node)
        if q is not NotImplemented:
            return q
    if n == 'round':
        return EXT['numpy.round'](I, st, [v] + list(args), kw, node)
    if n == 'sort' and isinstance(v, View):
        write_through(I, v, call('sort', t), st, node)
        return NONE
    if n == 'fill' and isinstance(v, View):
        write_through(I, v, T_(I, st, args[0]), st, node)
        return NONE
    if n == 'as_matrix' and not args and t.op == 'call' and t.args and all(rank(x) == 1 for x in S.kids(t) if isinstance(x, T)):
        return ret_arr(I, st, A.declare(call('.as_matrix', t), 2, [num(3), num(3)]), node)      # one rotation
    if n == 'any' or n == 'all':
        return mk('pred', n, t)
    if n == 'is_f_contig':
        return mk('pred', n, t)
    return NotImplemented

def mpi_method(I, n, args, kw, st, node):
    if '@world' in I.models:
        return I.models['@world'].collective(I, n, args, kw, st, node)
    ts = [T_(I, st, a) for a in args]
    ks = {k: T_(I, st, x) for k, x in kw.items()}
    if n == 'Get_rank':
        return RANK
    if n == 'Get_size':
        return SIZE
    I.event('mpi', n, ts, ks, st, node, extra=(args, kw))
    if n == 'Bcast':
        if args and isinstance(args[0], View):
            old = T_(I, st, args[0])
            new = call('mpi_bcast', old)
            A.declare(new, rank(old), [shape(old, k) for k in range(rank(old))] if rank(old) else None)
            write_through(I, args[0], new, st, node)
        return NONE
    if n == 'bcast':
        return args[0] if I.simp(compare('==', RANK, ZERO), st) is TRUE else call('mpi_bcast', ts[0])
    if n == 'gather':
        return call('mpi_gather', ts[0])
    if n == 'Gatherv':
        if len(args) > 1 and isinstance(args[1], (View, PyTuple, ListRef)):
            tgt = args[1]
            if not isinstance(tgt, View):
                it = I.iterable(tgt, st, node)
                tgt = it[1][0] if it[0] == 'const' and it[1] else None
            if isinstance(tgt, View):
                old = T_(I, st, tgt)
                new = call('mpi_gatherv', ts[0], ts[1])
                A.declare(new, rank(old), [shape(old, k) for k in range(rank(old))] if rank(old) else None)
                write_through(I, tgt, new, st, node)
        return NONE
    if n == 'Barrier':
        return NONE
    return NotImplemented
