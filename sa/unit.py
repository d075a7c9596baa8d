"""A unit compares what a piece of the repository computes with what a reference function says.

Both sides are interpreted abstractly to terms over the same symbols; components (returned
values, stored arrays, rejected inputs, written files, plotted data) are compared one by one."""
import ast, time, traceback
from . import terms as S, arrays as A, interp as IP, evalt
from .interp import Interp, State, View, PyTuple, ListRef, DictRef, ObjRef, Fn, T, UNDEF
from .terms import mk, conj, disj, TRUE, FALSE, sym, num

class Outcome:
    pass

def dim(x):
    x = x.strip()
    if x.isdigit():
        return num(int(x))
    if '*' in x:
        return S.mul(*[dim(y) for y in x.split('*')])
    if '+' in x:
        return S.add(*[dim(y) for y in x.split('+')])
    if '-' in x:
        return S.sub(*[dim(y) for y in x.split('-')])
    t = sym(x)
    S.declare_int(t); S.declare_nonneg(t)
    return t

def declare(name, decl):
    """symbol of a declared kind: 'f', 'i', 'i+', 'f+', 's', 'b', 'f[N,3]', 'i+[n]', '=value'"""
    kind, shp = decl, None
    if '[' in decl:
        kind, rest = decl.split('[', 1)
        shp = [dim(x) for x in rest.rstrip(']').split(',')]
    t = sym(name)
    if kind == 's':
        IP.declare_str(t); A.declare(t, 0)
    elif kind == 'b':
        A.declare(t, 0)
        S.declare_nonneg(t)
    elif shp is None:
        A.declare(t, 0)
        if kind in ('f', 'f+'): IP.NUMS.add(t.id)
    else:
        A.declare(t, len(shp), shp)
        if kind in ('f', 'f+', 'i', 'i+'): IP.NUMS.add(t.id)
    if kind.startswith('i'):
        S.declare_int(t)
    if kind.endswith('+'):
        S.declare_nonneg(t)
    return t

def run(P, nd, owner, args, opaque=(), assume=(), globs=None, models=None, types=None):
    """args: list of (name, decl or python value)"""
    I = Interp(P, opaque=opaque, models=models, assume=())
    st = State()
    vals, views = [], {}
    for name, d in args:
        if isinstance(d, str) and d.startswith('='):
            v = I.ev(ast.parse(d[1:], mode='eval').body, st) if False else literal(I, ast.literal_eval(d[1:]), st)
        elif isinstance(d, str):
            if d.startswith('z['):
                v = I.new_array(A.fill([dim(x) for x in d[2:-1].split(',')], S.ZERO), name, None, st, kind='param', dtype='double')
                views[name] = v
                vals.append(v)
                continue
            t = declare(name, d)
            v = t
            if '[' in d:
                v = I.new_array(t, name, None, st, kind='param', dtype='int' if d.startswith('i') else 'double')
                views[name] = v
            elif d == 'dict':
                v = DictRef(name, 'param')
                st.mem[('dict', v.id)] = t
                views[name] = v
        elif callable(d):
            v = d(I, st)
        else:
            v = d
        vals.append(v)
    for k, v in (globs or {}).items():
        st.mem[('gvar',) + k] = v
    for a in assume:
        st.assume(a)
    entry = tuple(st.pc)
    I.frames.append(IP.Frame(nd, nd.module, 'driver'))
    o = Outcome()
    try:
        v = I.call_fn(Fn(nd, nd.module, owner=owner), vals, {}, st, None)
    finally:
        I.frames.pop()
    o.I, o.st, o.vals, o.views = I, st, vals, views
    o.ret = v
    o.entry = entry
    o.alive = FALSE if st.dead else conj([x for x in st.pc if x not in entry] or [TRUE])
    return o

def literal(I, x, st):
    if isinstance(x, bool): return S.TRUE if x else S.FALSE
    if isinstance(x, (int, float)): return num(x)
    if isinstance(x, str): return S.string(x)
    if x is None: return S.NONE
    if isinstance(x, tuple): return PyTuple([literal(I, y, st) for y in x])
    if isinstance(x, list): return I.new_list(tuple(literal(I, y, st) for y in x), st)
    if isinstance(x, dict):
        d = DictRef()
        st.mem[('dict', d.id)] = {literal(I, k, st): literal(I, v, st) for k, v in x.items()}
        return d
    raise ValueError(x)

WRITERS = ('numpy.savetxt', 'numpy.save', 'numpy.savez', 'matplotlib.pyplot.savefig', 'builtins.open', 'os.remove', 'os.rename')

def components(o):
    """name -> term of everything observable"""
    I, st = o.I, o.st
    out = {}
    def ret(v, pre):
        if isinstance(v, PyTuple):
            for k, x in enumerate(v.items):
                ret(x, '%s.%d' % (pre, k))
        elif isinstance(v, IP.Choice) or isinstance(v, IP.Switch):
            out[pre] = I.term(v, st)
        elif isinstance(v, DictRef):
            c = st.mem.get(('dict', v.id), {})
            if isinstance(c, T):
                out[pre] = c
            else:
                for k, x in c.items():
                    ret(x, pre + '[%s]' % S.show(k, 2))
        elif isinstance(v, T) and v.op == 'tuple':
            for k, x in enumerate(v.args[0]):
                out['%s.%d' % (pre, k)] = x
        else:
            out[pre] = I.term(v, st) if v is not None else S.NONE
    if not st.dead:
        ret(o.ret, 'ret')
    for n, v in o.views.items():
        t = I.term(v, st) if isinstance(v, DictRef) else I.content(v, st)
        if n not in getattr(o, 'scratch', ()):
            out['out.' + n] = t
    out['alive'] = o.alive
    for k, v in st.mem.items():
        if k[0] == 'gvar' and v is not None:
            out['global.%s' % k[2]] = I.term(v, st)
    return out

def labels(t, acc=None):
    s = set()
    for x in S.subterms(t):
        if x.op == 'call':
            s.add(x.args[0])
        elif x.op == 'sym' and x.args[0] == '\0opaque':
            s.add('opaque:' + str(x.args[1]))
        elif x.op in ('lmu', 'undef', 'apply', 'scatter', 'updf', 'pred', 'redmax', 'fn', 'unset', 'elem', 'lapp', 'rel', 'tid'):
            s.add('op:' + x.op)
    return s

def firstdiff(a, b, depth=0):
    """innermost place where two terms part"""
    while True:
        if a is b or a.op != b.op or depth > 40:
            return a, b
        ka, kb = S.kids(a), S.kids(b)
        if len(ka) != len(kb) or a.op in ('poly',):
            if a.op == 'poly':
                pa, pb = S.to_poly(a), S.to_poly(b)
                oa = {m: c for m, c in pa.items() if pb.get(m) != c}
                ob = {m: c for m, c in pb.items() if pa.get(m) != c}
                if len(oa) == 1 and len(ob) == 1:
                    (ma, ca), (mb, cb) = next(iter(oa.items())), next(iter(ob.items()))
                    if ca == cb and len(ma) == len(mb):
                        da = [x for x in ma if x not in mb]
                        db = [x for x in mb if x not in ma]
                        if len(da) == 1 and len(db) == 1 and da[0][1] == db[0][1]:
                            a, b = da[0][0], db[0][0]
                            depth += 1
                            continue
                if len(oa) + len(ob) < len(pa) + len(pb):
                    try:
                        return S.from_poly(oa), S.from_poly(ob)
                    except Exception:
                        pass
            return a, b
        ds = [(x, y) for x, y in zip(ka, kb) if x is not y]
        if len(ds) != 1 or any(p is not q for p, q in zip(nonterms(a), nonterms(b))) and nonterms(a) != nonterms(b):
            if len(ds) > 1 and nonterms(a) == nonterms(b):
                a, b = ds[0]
                depth += 1
                continue
            return a, b
        a, b = ds[0]
        depth += 1

def nonterms(t):
    out = []
    def rec(x):
        if isinstance(x, T): return
        if isinstance(x, tuple):
            for y in x: rec(y)
            return
        out.append(x)
    for x in t.args: rec(x)
    return out

def under(t, conds):
    """t with the given conditions taken as true"""
    return t

# operations with a fixed meaning wherever they occur
EVALUATED = {'as_float', 'int', 'searchsorted', 'searchsorted_right', 'exp', 'sin', 'cos', 'tan'}

def compare_terms(a, b, vocab=(), strict=(), cond=None):
    """('equal'|'differs'|'undecided', detail)"""
    if a is b:
        return 'equal', ''
    try:
        if A.rank(a) and A.expand(a) is A.expand(b):
            return 'equal', ''
    except RecursionError:
        pass
    la, lb = labels(a), labels(b)
    r = evalt.differ(a, b, cond=cond)
    x, y = firstdiff(a, b)
    d = 'found %s, expected %s' % (S.show(x, 7)[:400], S.show(y, 7)[:400])
    extra = {l for l in la - lb - set(vocab) - EVALUATED}
    if r[0] == 'same':
        return 'equal', 'normal forms differ, agreed on %d random interpretations' % r[1] if r[1] else 'equal after distinction of cases'
    hard = {l for l in extra if l.startswith(('opaque:', 'op:lmu', 'op:undef'))}
    if hard:
        return 'undecided', 'not modelled: %s; %s' % (', '.join(sorted(hard))[:200], d)
    if any(l.startswith('opaque:') for l in lb):
        return 'undecided', 'reference not modelled: ' + d
    if extra and not any(l in strict for l in extra):
        # operations outside the vocabulary of the reference: equality cannot be judged
        unk = {l for l in extra if not l.startswith('op:')}
        if unk:
            return 'undecided', 'operations unknown to the reference: %s; %s' % (', '.join(sorted(unk))[:200], d)
    if r[0] == 'differ':
        return 'differs', d + ' [' + r[1] + ']'
    if leafdiff(x, y) and not extra and cond is None:
        return 'differs', d
    return 'undecided', 'no interpretation decides (%s): %s' % (r[1], d)

def leafdiff(x, y):
    """the terms are the same but for one constant or one variable"""
    leaf = ('num', 'str', 'sym', 'bool', 'nan', 'none')
    return x.op in leaf and y.op in leaf
