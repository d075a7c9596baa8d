"""Comparison of two functions that are built around one unbounded loop.

The state of each loop is reduced to the variables that its stopping condition and the results
need. The variables of the analysed loop are paired with those of the reference so that as many
initial values and steps as possible coincide; what then still differs is the finding."""
import itertools
from . import terms as S, arrays as A, interp as IP, unit as U
from .interp import rank, shape

def lterm(t):
    return t.op in ('lmu', 'lmui', 'lprev', 'lprevi')

class Loop:
    def __init__(self, o, comps):
        r, = o.I.loop_records
        self.sys, self.stop = r['sys'], r['stop']
        # terms that stand for the state at exit
        self.exit = {}
        for kind, g, gg, ex, smap in r['exits']:
            for m, t in smap.items():
                if lterm(t):
                    self.exit[t] = m
        self.names = {}
        for k, m in r['mus'].items():
            n = k[1] if k[0] == 'env' else None
            if n is None:
                n = next((x for x, v in o.views.items() if ('arr', v.arr.id) == k[1]), str(k[1]))
            if isinstance(m, S.T):
                self.names[m] = n
        self.back = {L: m for L, m in self.exit.items()}
        self.comps = {n: S.subst(t, self.back) for n, t in comps.items()}
        roots = [self.stop] + [t for n, t in self.comps.items() if n.startswith(('ret', 'alive'))]
        need = IP.reach(self.sys, roots)
        self.vars = [m for m in self.sys if m.id in need]

    def drop_derived(self):
        """variables that always are the same function of the others need not be kept"""
        again = True
        while again:
            again = False
            for m in list(self.vars):
                iv, nx = self.sys[m]
                if rank(m) != 0 or iv.op in ('num', 'bool', 'sym', 'none'):
                    continue
                others = {v: self.sys[v] for v in self.vars if v is not m}
                back = {i0: v for v, (i0, n0) in others.items() if i0.op not in ('num', 'bool', 'none')}
                f = common(iv, nx, back, {v: n0 for v, (i0, n0) in others.items()})
                if f is None or f is iv or S.occurs(f, m):
                    continue
                rep = {m: f}
                self.sys = {v: (i0, S.subst(n0, rep)) for v, (i0, n0) in self.sys.items() if v is not m}
                self.stop = S.subst(self.stop, rep)
                self.comps = {n: S.subst(t, rep) for n, t in self.comps.items()}
                roots = [self.stop] + [t for n, t in self.comps.items() if n.startswith(('ret', 'alive'))]
                need = IP.reach(self.sys, roots)
                self.vars = [v for v in self.sys if v.id in need]
                again = True
                break

def common(x, y, back, step):
    """the function of the state whose value is x before the loop and y after one step"""
    if x is y and not any(S.occurs(x, v) for v in step):
        return x
    f = S.subst(x, back)
    if S.subst(f, step) is y:
        return f
    kx, ky = S.kids(x), S.kids(y)
    if x.op != 'call' or y.op != 'call' or x.args[0] != y.args[0] or len(kx) != len(ky):
        return None
    ks = [common(a, b, back, step) for a, b in zip(kx, ky)]
    if None in ks:
        return None
    r = S.rebuild(x, {a.id: k for a, k in zip(kx, ks)})
    return r if S.subst(r, {v: i for i, v in back.items()}) is x and S.subst(r, step) is y else None

def buckets(g, w):
    bk = {}
    for m in w.vars: bk.setdefault(kind(m), ([], []))[1].append(m)
    for m in g.vars: bk.setdefault(kind(m), ([], []))[0].append(m)
    return None if any(len(a) != len(b) for a, b in bk.values()) or any(len(a) > 5 for a, b in bk.values()) else bk

def kind(m):
    r = rank(m)
    return (r, S.is_int(m), m.id in IP.BOOLARR, tuple(shape(m, d).id for d in range(r)) if r else ())

def pairs(og, cg, ow, cw, vocab=()):
    """component name -> (term found, term expected), or a text saying why there is none"""
    if len(og.I.loop_records) != 1 or len(ow.I.loop_records) != 1:
        return 'loop structure differs'
    g, w = Loop(og, cg), Loop(ow, cw)
    bk = buckets(g, w)
    if bk is None:
        g.drop_derived(); w.drop_derived()
        bk = buckets(g, w)
    if bk is None:
        return 'the loops keep different state'
    marks = {}
    for k, m in enumerate(w.vars):
        s = S.sym('\0st.%s' % w.names.get(m, 'members'))
        r = rank(m)
        if r is not None:
            A.declare(s, r, [shape(m, d) for d in range(r)] if r else None)
        if S.is_int(m): S.declare_int(s)
        if m.id in IP.BOOLARR: IP.BOOLARR.add(s.id)
        marks[m] = s
    W = {m: (w.sys[m][0], S.subst(w.sys[m][1], marks)) for m in w.vars}
    wstop = S.subst(w.stop, marks)
    best = None
    groups = list(bk.values())
    for choice in itertools.product(*[itertools.permutations(a) for a, b in groups]):
        mp = {}
        for (a, b), p in zip(groups, choice):
            for x, y in zip(p, b):
                mp[x] = y
        sb = {x: marks[y] for x, y in mp.items()}
        score = 0
        for x, y in mp.items():
            gi, gn = g.sys[x][0], S.subst(g.sys[x][1], sb)
            score += (gi is W[y][0]) + 2 * (gn is W[y][1])
        score += S.subst(g.stop, sb) is wstop
        score += sum(S.subst(t, sb) is S.subst(w.comps.get(n, S.NONE), marks) for n, t in g.comps.items())
        if best is None or score > best[0]:
            best = (score, mp, sb)
    score, mp, sb = best
    out = {}
    # a step is taken while the loop goes on
    from . import evalt
    going = {}
    for d in evalt.facts(S.neg_c(wstop), True).items():
        if d[0].op == 'truth' and d[0].args[0].op == 'sym': going[d[0].args[0]] = d[1]
    going = {s: going[s] for y, s in marks.items() if s in going and W[y][0].op == 'bool'}
    for x, y in mp.items():
        n = w.names.get(y, 'members')
        out['init.' + n] = (g.sys[x][0], W[y][0])
        out['step.' + n] = (S.subst(S.subst(g.sys[x][1], sb), going), S.subst(W[y][1], going))
    out['going'] = S.neg_c(wstop)
    out['stop'] = (S.subst(g.stop, sb), wstop)
    for n in sorted(set(g.comps) | set(w.comps)):
        a, b = g.comps.get(n), w.comps.get(n)
        out[n] = (None if a is None else S.subst(a, sb), None if b is None else S.subst(b, marks))
    return out
