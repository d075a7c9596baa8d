"""Observable effects of an analysed entry point as named components.

Every write, plot call and call of a named repository function is described by the condition
under which it happens, the loops around it and the values handed over."""
from . import terms as S, arrays as A, unit as U
from .terms import mk, conj, TRUE, call
from .interp import T

FILES = {'savetxt': (0, 1), 'save': (0, 1), 'savefig': (0,), 'to_csv': (0,), 'dump': (1, 0)}
PLOTS = ('plot', 'scatter', 'quiver', 'hist', 'hist2d', 'fill_between', 'errorbar', 'loglog', 'semilogx', 'semilogy', 'axvline', 'axhline', 'bar', 'step',
         'set_xscale', 'set_yscale', 'xscale', 'yscale', 'xlim', 'ylim', 'set_xlim', 'set_ylim')
DATAKW = ('bins', 'weights', 'density', 'range', 'length', 'yerr', 'xerr', 'y1', 'y2', 'x', 'y', 'where', 'cumulative', 's')

class Eff:
    """what happens, under which condition, in which loops"""
    def __init__(self, pc, loops, t):
        self.pc, self.loops, self.t = pc, loops, t

    def term(self):
        return around(self.loops, S.ite(conj(sorted(self.pc, key=lambda c: c.id)) if self.pc else TRUE, self.t, S.NONE))

def around(loops, t):
    for l in reversed(loops):
        v, lo, hi = l[0], l[1], l[2]
        if v is None or hi is None:
            t = call('loop', t)
        else:
            t = call('for', lo if isinstance(lo, T) else S.ZERO, hi if isinstance(hi, T) else S.NONE, S.lam(v, t))
    return t

def wrap(o, e, payload):
    """payload under the loops and the condition of event e"""
    entry = set(o.entry)
    pc = set()
    for c in e.pc:
        if c not in entry: pc |= parts(c)
    return Eff(pc, list(e.loops), mk('tuple', tuple(payload)))

def effects(o, calls=(), plots=False, files=True, mpi=False, open_=False):
    """{component: term}"""
    out = {}
    def put(k, t):
        out.setdefault(k, []).append(t)
    for e in o.I.events:
        n = e.name.split('.')[-1] if isinstance(e.name, str) else e.name
        if e.kind in ('ext', 'method'):
            args = e.args[1:] if e.kind == 'method' else e.args
            if files and n in FILES and len(args) > FILES[n][0] and (e.kind == 'method' or e.name.startswith(('numpy.', 'matplotlib.'))):
                f = args[FILES[n][0]]
                rest = [a for k, a in enumerate(args) if k != FILES[n][0]]
                put('file.%s.%s' % ('fig' if n == 'savefig' else 'txt', fname(f)), wrap(o, e, [f] + rest))
            elif plots and n in PLOTS:
                ks = [mk('tuple', (S.string(k), e.kw[k])) for k in sorted(e.kw) if k in DATAKW]
                put('plot.' + n, wrap(o, e, [a for a in args if a.op != 'str' or len(a.args[0]) > 4] + ks))
        elif e.kind == 'call' and e.name in calls:
            put('call.' + e.name, wrap(o, e, e.args))
        elif e.kind == 'mpi' and mpi:
            put('mpi', wrap(o, e, [S.string(n)] + list(e.args)))
    return {k: sequence(v) for k, v in out.items()}

def parts(c):
    return set(c.args[0]) if c.op == 'and' else {c}

def sequence(es):
    """effects in order; runs of them that exclude each other are alternatives of one another"""
    runs = []
    for e in es:
        l = runs[-1] if runs else None
        if l and l[0].pc == e.pc and same(l[0].loops, e.loops):
            l.append(e)
        else:
            runs.append([e])
    for partly in (False, True):
        k = 0
        while k + 1 < len(runs):
            m = alternatives(runs[k], runs[k + 1], partly)
            if m is not None:
                runs[k:k + 2] = [m]
                k = max(k - 1, 0)
            else:
                k += 1
    out = [e.term() for r in runs for e in r]
    return out[0] if len(out) == 1 else mk('tuple', tuple(out))

def same(a, b):
    return len(a) == len(b) and all(x is y or x[0] is not None and x[0] is y[0] for x, y in zip(a, b))

def alternatives(a, b, partly):
    if len(a) != len(b) or not same(a[0].loops, b[0].loops):
        return None
    pa, pb = a[0].pc, b[0].pc
    ca = conj(sorted(pa - pb, key=lambda c: c.id)) if pa - pb else TRUE
    cb = conj(sorted(pb - pa, key=lambda c: c.id)) if pb - pa else TRUE
    if ca is S.neg_c(cb):
        return [Eff(pa & pb, x.loops, S.ite(ca, x.t, y.t)) for x, y in zip(a, b)]
    if partly and any(S.neg_c(x) in pb for x in pa):
        return [Eff(pa & pb, x.loops, S.ite(ca, x.t, S.ite(cb, y.t, S.NONE))) for x, y in zip(a, b)]
    return None

def fname(f):
    """template of a file name: text pieces kept, the rest shown as {}"""
    if f.op == 'str':
        return f.args[0]
    if f.op == 'strcat':
        return ''.join(p.args[0] if p.op == 'str' else '{}' for p in f.args[0])
    return '{}'

def extractor(**k):
    def ex(o):
        c = U.components(o)
        c.update(effects(o, **k))
        return c
    return ex

def validator(*names):
    """models: a call of the named functions returns only for valid input"""
    def h(I, fn, args, kw, st, node):
        nd = fn.node
        from . import interp as IP
        env = {}
        fr = IP.Frame(nd, fn.module, nd.name)
        I.bind_args(nd, list(args), kw, env, st, node, fr)
        ts = [I.term(env[a.arg], st) for a in nd.args.args if a.arg in env]
        I.event('call', nd.name, ts, None, st, node)
        st.assume(mk('pred', nd.name, mk('tuple', tuple(ts))))
        return S.NONE
    return {n: h for n in names}
