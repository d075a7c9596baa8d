"""Hierarchical files read through h5py, as terms: h5(file, path), attributes h5attr(file, path, name), presence h5has(file, path)."""
from . import terms as S, arrays as A
from .terms import mk, call

RANKS = {'GroupLenType': 2, 'SubhaloLenType': 2, 'Coordinates': 2, 'Velocities': 2, 'Masses': 1, 'ParticleIDs': 1, 'GroupNsubs': 1, 'Group_R_TopHat200': 1, 'Group_R_Mean200': 1, 'Group_R_Crit200': 1}
VEC6 = ('MassTable', 'NumPart_ThisFile', 'NumPart_Total', 'NumPart_Total_HighWord')

ROWS = [None]    # (file, path) -> number of rows, where the analysis fixes it

def norm(path):
    from .interp import strcat, string
    ps = list(path.args[0]) if path.op == 'strcat' else [path]
    if ps and ps[0].op == 'str': ps[0] = string(ps[0].args[0].lstrip('/'))
    if ps and ps[-1].op == 'str': ps[-1] = string(ps[-1].args[0].rstrip('/'))
    return strcat(ps) if ps else string('')

def tail(path):
    x = path.args[0][-1] if path.op == 'strcat' else path
    return x.args[0].split('/')[-1] if x.op == 'str' else None

def node(name, path):
    if path.op == 'ite': return S.ite(path.args[0], node(name, path.args[1]), node(name, path.args[2]))
    t = call('h5', name, norm(path))
    r = RANKS.get(tail(path))
    if r:
        n0 = ROWS[0](name, norm(path)) if ROWS[0] else None
        if n0 is None: n0 = mk('shape', t, 0)
        S.declare_int(n0); S.declare_nonneg(n0)
        A.declare(t, r, (n0,) + ((S.num(3),) if tail(path) in ('Coordinates', 'Velocities') else (S.num(6),) if r == 2 else ()))
    return t

def is_(t, kind='h5'): return isinstance(t, S.T) and t.op == 'call' and t.args[0] == kind

def join(base, key):
    from .interp import strcat, string
    p = base.args[1][1]
    if p.op == 'str' and p.args[0] == '': return norm(key)
    return norm(strcat([p, string('/'), key]))

def open_(I, name, args, kw, st, nd):
    from .interp import string
    I.event('ext', 'h5py.File', [I.term(a, st) for a in args], None, st, nd)
    return call('h5', I.term(args[0] if args else kw['name'], st), string(''))

def item(base, key):
    """base[key] with a name, else None"""
    from .interp import is_strish
    if is_(base) and is_strish(key): return node(base.args[1][0], join(base, key))
    if is_(base) and key.op == 'ite' and all(is_strish(x) for x in key.args[1:]): return S.ite(key.args[0], item(base, key.args[1]), item(base, key.args[2]))
    if is_(base, 'h5attrs') and is_strish(key):
        t = call('h5attr', base.args[1][0], base.args[1][1], key)
        if key.op == 'str' and key.args[0] in VEC6: A.declare(t, 1, (S.num(6),))
        else: A.declare(t, 0)
        return t
    return None

def attrs(base): return call('h5attrs', base.args[1][0], base.args[1][1])
def has(base, key): return call('h5has', base.args[1][0], join(base, key))
