"""Obligations, verdicts, known findings, evidence."""
import os, sys, json, time, fnmatch, multiprocessing as mp, signal, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

UNITS = []      # comparison units
RULES = []      # rule checks: (id, properties, function)

class Unit:
    def __init__(self, id, got, want, args, props, **k):
        self.id, self.got, self.want, self.args, self.props = id, got, want, args, props
        self.opaque = k.pop('opaque', {})
        self.assume = k.pop('assume', None)
        self.globs = k.pop('globs', None)
        self.timeout = k.pop('timeout', 150)
        self.public = k.pop('public', False)
        self.comps = k.pop('comps', None)
        self.ignore = k.pop('ignore', ())
        self.vocab = k.pop('vocab', ())
        self.known = k.pop('known', ())
        self.extract = k.pop('extract', None)
        self.models = k.pop('models', None)
        self.tier = k.pop('tier', 'quick')
        self.anchor = k.pop('anchor', None)
        self.pre = k.pop('pre', None)
        self.loop = k.pop('loop', False)
        assert not k, k
        UNITS.append(self)

def rule(id, *props, **k):
    def deco(f):
        RULES.append((id, props, f, k))
        return f
    return deco

class Ob:
    """one obligation with its verdict"""
    def __init__(self, prop, key, verdict, detail='', where=''):
        self.prop, self.key, self.verdict, self.detail, self.where = prop, key, verdict, detail, where

# ------------------------------------------------------------ execution
_P = None
def program():
    global _P
    if _P is None:
        from .program import Program
        _P = Program(REPO)
        sp = os.path.join(ROOT, 'sa', 'spec')
        for f in sorted(os.listdir(sp)):
            if f.endswith(('.py', '.pyx')) and f != '__init__.py':
                _P.add(os.path.join(sp, f), 'spec.' + f.rsplit('.', 1)[0])
    return _P

def lookup(P, name):
    """function node by dotted name, spec:name for reference functions"""
    if name.startswith('spec.'):
        mod, fn = name.rsplit('.', 1)
        g = P.modules[mod].globals.get(fn)
        return g[1] if g and g[0] == 'func' else None
    return P.fn(name)

def loc(nd):
    m = getattr(nd, 'module', None)
    return '%s:%s %s' % (os.path.relpath(m.path, REPO) if m else '?', getattr(nd, 'lineno', '?'), getattr(nd, 'name', '?'))

def argvals(u, nd):
    """arguments in the order of nd's parameters; falls back to position when names were changed"""
    names = [a.arg for a in nd.args.args]
    d = dict(u.args)
    if set(names) <= set(d):
        return [(n, d[n]) for n in names]
    if len(names) == len(u.args):
        return list(u.args)
    ndef = len(nd.args.defaults)
    out = []
    for k, n in enumerate(names):
        if n in d:
            out.append((n, d[n]))
        elif k >= len(names) - ndef:
            break
        else:
            return None
    return out

def run_unit(u, P=None, into=None):
    from . import unit as U, terms as S
    P = P or program()
    nd = lookup(P, u.got)
    obs = []
    res = {'unit': u.id, 'obs': obs, 'functions': [], 'stats': {}}
    if into is not None: into.append(res)
    where = u.got
    if nd is None:
        for p in u.props:
            obs.append(Ob(p, u.id, 'violated' if u.public and not P.unparsed else 'undecided', 'anchor %s no longer exists' % u.got if not P.unparsed else 'not read: %s' % (P.unparsed[0],), u.got))
        return res
    where = loc(lookup(P, u.anchor) or nd) if u.anchor else loc(nd)
    av = argvals(u, nd)
    if av is None:
        for p in u.props:
            obs.append(Ob(p, u.id, 'undecided', 'parameters of %s changed' % u.got, where))
        return res
    want = lookup(P, u.want)
    assert want is not None, u.want
    wv = argvals(u, want)
    def go(node, vals):
        if u.pre: u.pre()
        g = u.globs() if callable(u.globs) else u.globs
        a = u.assume() if callable(u.assume) else (u.assume or ())
        o = U.run(P, node, getattr(node, 'owner', None), vals, opaque=u.opaque, assume=a, globs=g, models=u.models)
        return o, (u.extract(o) if u.extract else U.components(o))
    ow, cw = go(want, wv)
    og, cg = go(nd, av)
    res['functions'] = sorted('%s.%s' % x for x in og.I.inlined if not x[0].startswith('spec.'))
    res['stats'] = dict(og.I.stats)
    known = []
    if u.loop:
        from . import loops
        pr = loops.pairs(og, cg, ow, cw)
        if isinstance(pr, str):
            for p in u.props:
                obs.append(Ob(p, u.id, 'undecided', pr, where))
            return res
        going = pr.pop('going')
        cg, cw = {n: x for n, (x, y) in pr.items() if x is not None}, {n: y for n, (x, y) in pr.items() if y is not None}
    names = sorted(set(cg) | set(cw))
    cond = cg.get('alive')
    if cond is None or cw.get('alive') is None:
        cond = None
    elif cond is not cw['alive']:
        cond = S.conj([cond, cw['alive']]) if U.compare_terms(cond, cw['alive'], u.vocab)[0] == 'equal' else None
    if cond is not None and cond.op == 'bool':
        cond = None
    for n in names:
        if any(fnmatch.fnmatch(n, p) for p in u.ignore):
            continue
        props = [p for p, pats in u.props.items() if any(fnmatch.fnmatch(n, q) for q in pats)]
        if not props:
            continue
        a, b = cg.get(n), cw.get(n)
        if a is None or b is None:
            if a is None and og.st.dead:
                v, d = 'violated', 'never returns'
            else:
                v, d = 'violated', ('missing, expected %s' % S.show(b, 6)[:300] if a is None else 'unexpected effect %s' % S.show(a, 6)[:300])
            if og.I.unsupported:
                v = 'undecided'
        else:
            step = u.loop and n.startswith('step.')
            v, d = U.compare_terms(a, b, u.vocab, cond=cond if n != 'alive' and not (u.loop and n.startswith(('step.', 'init.', 'stop'))) else None)
            if v != 'equal' and step:
                v, d = U.compare_terms(a, b, u.vocab, cond=going)
            v = {'equal': 'holds', 'differs': 'violated'}.get(v, v)
        if v == 'violated':
            for kname, kprop, variant in u.known:
                kd = lookup(P, variant)
                ok, ck = go(kd, argvals(u, kd))
                if n in ck and a is not None and U.compare_terms(a, ck[n], u.vocab)[0] == 'equal':
                    v, d = 'known:' + kname, d
                    break
        for p in props:
            obs.append(Ob(p, '%s:%s' % (u.id, n), v, d, where))
    if og.I.unsupported:
        res['unsupported'] = og.I.unsupported[:10]
    return res

def _child(kind, idx, props, conn, seconds):
    sys.setrecursionlimit(20000)
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    part = []
    def late(*a):
        raise TimeoutError('no answer within %ds' % seconds)
    from . import evalt
    evalt.DEADLINE[0] = time.time() + 0.7 * seconds
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(0.93 * seconds))
    try:
        if kind == 'unit':
            r = run_unit(UNITS[idx], into=part)
        else:
            id_, ps, f, k = RULES[idx]
            c = Ctx(id_, ps)
            f(c)
            r = {'unit': id_, 'obs': c.obs, 'functions': sorted(c.functions), 'stats': c.stats}
    except MemoryError:
        r = {'unit': str(idx), 'error': 'out of memory', 'obs': []}
    except BaseException as e:
        r = part[0] if part else {'unit': str(idx), 'obs': []}
        r['error'] = ''.join(traceback.format_exception(e)[-4:])
    signal.alarm(0)
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'unit': str(idx), 'error': 'result: %s' % e, 'obs': []})
    conn.close()

class Ctx:
    """handed to rule functions"""
    def __init__(self, id_, props):
        self.id, self.props, self.obs, self.functions, self.stats = id_, props, [], set(), {}
        self.P = program()
    def ok(self, key, prop=None, where='', detail=''):
        self._add('holds', key, detail, where, prop)
    def bad(self, key, detail, where='', prop=None):
        self._add('violated', key, detail, where, prop)
    def unknown(self, key, detail, where='', prop=None):
        self._add('undecided', key, detail, where, prop)
    def known(self, name, key, detail, where='', prop=None):
        self._add('known:' + name, key, detail, where, prop)
    def _add(self, v, key, detail, where, prop):
        for p in ([prop] if prop else self.props):
            self.obs.append(Ob(p, '%s:%s' % (self.id, key), v, detail, where))

def run_tasks(tasks, jobs=None, limit=800):
    """tasks: list of (kind, index, id, timeout); returns results in order"""
    program()
    ctx = mp.get_context('fork')
    jobs = jobs or max(1, (os.cpu_count() or 4))
    todo = list(enumerate(tasks))
    running, out = [], {}
    t_end = time.time() + limit
    while todo or running:
        while todo and len(running) < jobs:
            k, (kind, idx, id_, to) = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(kind, idx, None, b, to))
            p.start(); b.close()
            running.append((k, p, a, time.time(), to, id_))
        nxt = []
        for k, p, a, t0, to, id_ in running:
            if a.poll(0.02):
                try:
                    out[k] = a.recv()
                except EOFError:
                    out[k] = {'unit': id_, 'error': 'analysis ended early', 'obs': []}
                out[k]['wall'] = time.time() - t0
                out[k]['unit'] = id_
                p.join()
            elif time.time() - t0 > to or time.time() > t_end:
                p.kill(); p.join()
                out[k] = {'unit': id_, 'error': 'no answer within %ds' % to, 'obs': [], 'wall': time.time() - t0}
            elif not p.is_alive() and not a.poll(0.1):
                out[k] = {'unit': id_, 'error': 'analysis ended early', 'obs': [], 'wall': time.time() - t0}
            else:
                nxt.append((k, p, a, t0, to, id_))
        running = nxt
    return [out[k] for k in range(len(tasks))]

# ------------------------------------------------------------ known findings
def known_findings():
    """property -> {name: text}; lines 'known: property=Cxx id=<name> <text>'"""
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                f = l[6:].split(None, 2)
                out.setdefault(f[0].split('=', 1)[1], {})[f[1].split('=', 1)[1]] = f[2] if len(f) > 2 else ''
    return out

def load():
    """import every module that registers units and rules"""
    import importlib
    d = os.path.join(ROOT, 'sa', 'checks')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('sa.checks.' + f[:-3])

def run_property(prop, tier='quick', explain='', only=None, verbose=False):
    t0 = time.time()
    tasks = []
    for i, u in enumerate(UNITS):
        if prop in u.props and (tier == 'thorough' or u.tier == 'quick') and (not only or only in u.id):
            tasks.append(('unit', i, u.id, u.timeout * (3 if tier == 'thorough' else 1)))
    for i, (id_, ps, f, k) in enumerate(RULES):
        if prop in ps and (not only or only in id_):
            tasks.append(('rule', i, id_, k.get('timeout', 150)))
    tasks.sort(key=lambda t: -t[3])
    res = run_tasks(tasks)
    kf = known_findings().get(prop, {})
    viol, undec, held, known = [], [], [], []
    for r in res:
        if r.get('error'):
            undec.append((r['unit'], r['error'].strip().splitlines()[-1][:300], ''))
            if verbose: print('ERROR in', r['unit'], r['error'])
        for o in r['obs']:
            if o.prop != prop:
                continue
            if o.verdict == 'holds': held.append(o)
            elif o.verdict == 'violated': viol.append(o)
            elif o.verdict.startswith('known:') and o.verdict[6:] in kf: known.append(o)
            elif o.verdict.startswith('known:'): viol.append(o)
            else: undec.append((o.key, o.detail, o.where))
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, prop + '.violations.txt')
    funcs = sorted({f for r in res for f in r.get('functions', ())})
    stats = {}
    for r in res:
        for k, v in (r.get('stats') or {}).items():
            if isinstance(v, (int, float)):
                stats[k] = stats.get(k, 0) + v
    fam = {}
    for o in held + viol + known:
        a = fam.setdefault(o.key.split(':')[0], [0, 0])
        a[0 if o.verdict == 'holds' else 1] += 1
    doc = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': explain or 'static comparison of normal forms extracted from the source',
            'obligations': len(held) + len(viol) + len(known) + len(undec),
            'discharged': len(held), 'violated': len(viol), 'known_findings': len(known), 'undecided': len(undec),
            'units': {k: {'held': a, 'not_held': b} for k, (a, b) in sorted(fam.items())},
            'functions_analysed': funcs,
            'analysis_counts': stats,
            'undecided_items': [{'item': a, 'why': b[:400], 'where': c} for a, b, c in undec][:60],
            'obligation_list': [{'key': o.key, 'where': o.where, 'verdict': o.verdict} for o in held + viol + known][:400],
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': [{'key': o.key, 'where': o.where, 'detail': o.detail[:600]} for o in viol],
        'assumptions': ['the C compiler, Cython, numpy, scipy, h5py and LAPACK behave as documented',
                        'real arithmetic: rounding is not modelled'],
    }
    for n, e in program().unparsed: undec.append((n, 'source not understood: ' + e[:300], n))
    seen = set()
    for o in known:
        k = o.verdict[6:]
        if k not in seen:
            seen.add(k)
            print('KNOWN-FINDING: property=%s %s [%s at %s]' % (prop, kf[k], o.key, o.where))
    if viol:
        with open(rp, 'w') as f:
            for o in viol:
                f.write('%s\n  at %s\n  %s\n' % (o.key, o.where, o.detail))
        for o in viol[:20]:
            print('  %s at %s: %s' % (o.key, o.where, o.detail[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    elif os.path.exists(rp):
        os.remove(rp)
    if verbose:
        for a, b, c in undec: print('  undecided', a, b[:500], c)
        for r in res: print('   %-40s %.1fs %d obligations' % (r['unit'], r.get('wall', 0), len(r['obs'])))
    print('%s: %d obligations hold, %d violated, %d known, %d undecided; %d functions analysed; %.1fs' %
          (prop, len(held), len(viol), len(known), len(undec), len(funcs), time.time() - t0))
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    return 1 if viol else 0
