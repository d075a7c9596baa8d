"""C03, C08, C24 ...: the three-dimensional views of single objects"""
from ..check import Unit
from .. import effects as E, terms as S, arrays as A
from ..terms import num
from ..interp import PyTuple
from .classes import BASE, SEL, KATZ, OPQ as CLS, VAL

def shapes(profile):
    """what a shape algorithm returns: lengths, ratios and axes (one row per radius if a profile), centres and masses"""
    def ret(I, t, env, st):
        from ..calls import deref, ret_arr
        def size(n):
            return A.shape(I.term(deref(I, env[n], st), st), 0)
        out = []
        for k in range(8):
            dims = [size('obj_size')]
            if profile and k < 6: dims.append(size('r_over_r200'))
            if 3 <= k < 7: dims.append(num(3))
            out.append(ret_arr(I, st, A.declare(S.mk('item', t, k), len(dims), dims), None))
        return PyTuple(out)
    return ret
def katz(I, t, env, st):
    """options: radii, three numbers and two flags"""
    from ..calls import ret_arr
    r = A.declare(S.mk('item', t, 0), 1, [A.declare(S.mk('shape', S.mk('item', t, 0), 0), 0)])
    return PyTuple([ret_arr(I, st, r, None)] + [A.declare(S.mk('item', t, k), 0) for k in range(1, 6)])
def points(I, t, env, st):
    """points on an ellipsoid: a list of triples"""
    i, n = S.fresh('i'), A.declare(S.call('points', I.term(env['samples'], st)), 0)
    S.declare_int(n); S.declare_nonneg(n)
    A.declare(t, 2, [n, num(3)])
    return I.new_list(A.mk_alam(i, n, A.vec([A.sel(t, (i, num(k))) for k in range(3)])), st)
OPQ = dict(CLS)
OPQ.update({'calcMorphLocal': {'ret': shapes(True)}, 'calcMorphGlobal': {'ret': shapes(False)}, 'checkKatzConfig': {'ret': katz}, 'fibonacci_ellipsoid': {'pure': True, 'ret': points},
            'respectPBCNoRef': {'pure': True, 'like': 0}, 'set_axes_equal': {}, 'getSubSetIdxCat': {'pure': True}})
def not_stored(I, fn, args, kw, st, node):
    return S.FALSE
MOD = dict(VAL)
MOD['os.path.exists'] = not_stored
EX = E.extractor(plots=True)
P = {'C24': ['plot.*'], 'C08': ['plot.*'], 'C01': ['plot.*'], 'C03': ['plot.*', 'alive'], 'C15': ['file.*'], 'C11': ['plot.*', 'file.*'], 'C16': ['out.*'], 'C12': ['plot.scatter'], 'C06': ['plot.*'],
     'C13': ['plot.scatter']}
def some():
    from ..unit import dim
    return [S.compare('>', dim('M'), S.ZERO)]
for f, m in (('viz_local', 'vizLocalShapes'), ('viz_global', 'vizGlobalShapes')):
    Unit(f, 'spec.viz.d_' + f, 'spec.viz.r_' + f, BASE + [SEL, KATZ], P, opaque=OPQ, models=MOD, extract=EX, assume=some, public=True, anchor='DensShapeProfsBase.' + m)
