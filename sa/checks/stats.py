"""C24: statistics and plots"""
from ..check import Unit
from .. import effects as E
from ..terms import num
ST = 'cosmic_profiles.shape_profs.shape_profs_tools.'
PR = 'cosmic_profiles.common.python_routines.'
EX = E.extractor(plots=True)
OPQ = {n: {} for n in ('print_status', 'getEpsilon', 'getCatWithinFracR200', 'respectPBCNoRef', 'M_split', 'getMeanOrMedianAndError', 'getShape', 'getShapeMs')}
OPQ.update({n: {'rank': 1, 'shape': [num(3)]} for n in ('calcMode', 'calcCoM')})
OPQ['respectPBCNoRef'] = {'pure': True, 'like': 0}
OPQ['print_status'] = {'drop': ('start_time',)}
OPQ['M_split'] = {'drop': ('start_time',)}
OPQ['eTo10'] = {'pure': True}
OPQ['LMVLabel'] = {'pure': True}
def no_tables(I, fn, args, kw, st, node):
    """the tables of unit names are used for the text of a label only"""
    from ..interp import PyTuple, DictRef
    out = []
    for k in range(3):
        d = DictRef('units', 'local')
        st.mem[('dict', d.id)] = {}
        out.append(d)
    return PyTuple(out)
def bins(I, t, env, st):
    """what M_split returns: K+1 edges and, for each of the K bins, masses, centres and numbers of the objects in it"""
    from .. import terms as S, arrays as A
    from ..interp import PyTuple
    K = S.mk('shape', t, 0)
    S.declare_int(K); S.declare_nonneg(K)
    e = A.declare(S.call('bin_edges', t), 1, [S.add(K, S.ONE)])
    L = A.declare(S.call('bin_size', t), 1, [K])
    S.declare_int(L); S.declare_nonneg(L)
    out = [I.new_list(e, st)]
    for name, r in (('bin_mass', 2), ('bin_center', 3), ('bin_object', 2)):
        X = A.declare(S.call(name, t), r)
        if name == 'bin_object': S.declare_int(X); S.declare_nonneg(X); A.DISTINCT.add(X.id)
        p, j = S.fresh('p'), S.fresh('j')
        b = A.sel(X, (p, j))
        if r == 3: b = A.vec([A.sel(X, (p, j, num(k))) for k in range(3)])
        out.append(I.new_list(A.mk_alam(p, K, A.mk_alam(j, A.sel(L, (p,)), b)), st))
    return PyTuple(out)
OPQ['M_split']['ret'] = bins
def U(id, got, want, args, props, show=(), **k):
    o = {n: v for n, v in OPQ.items() if n != got.split('.')[-1] and n not in show}
    Unit(id, got, 'spec.stats.' + want, args, props, opaque=o, extract=EX, **k)
D = [('VIZ_DEST', 's'), ('SNAP', 's')]
SH = [('d', 'f[N,R]'), ('q', 'f+[N,R]'), ('s', 'f+[N,R]')]
OBJ = [('start_time', 'f+'), ('obj_masses', 'f+[N]'), ('obj_centers', 'f[N,3]')]
FIG = {'C24': ['plot.*', 'file.*'], 'C15': ['file.*'], 'C11': ['file.*'], 'C16': ['out.*']}
U('hist_lt', ST + 'getLocalTHist', 'local_t', D + [('r_over_r200', 'f+[R]'), ('r200', 'f+[N]')] + OBJ + SH + [('major_full', 'f[N,R,3]'), ('HIST_NB_BINS', 'i+'), ('frac_r200', 'f+'), ('MASS_UNIT', 'f+'), ('suffix', 's')], FIG)
U('hist_gt', ST + 'getGlobalTHist', 'global_t', D + OBJ + SH + [('major_full', 'f[N,R,3]'), ('HIST_NB_BINS', 'i+'), ('MASS_UNIT', 'f+'), ('suffix', 's')], FIG)
XM = [('xyz', 'f[M,3]'), ('masses', 'f+[M]')]
CAT = [('idx_cat', 'i+[T]'), ('obj_size', 'i+[N]'), ('L_BOX', 'f+'), ('CENTER', 's')]
U('hist_ge', ST + 'getGlobalEpsHist', 'global_eps', XM + CAT + D + [('suffix', 's'), ('HIST_NB_BINS', 'i+')], FIG)
U('hist_le', ST + 'getLocalEpsHist', 'local_eps', XM + [('r200', 'f+[N]')] + CAT + D + [('frac_r200', 'f+'), ('suffix', 's'), ('HIST_NB_BINS', 'i+')], FIG)
U('epsilon', ST + 'getEpsilon', 'epsilon', CAT[:2] + XM + CAT[2:] + [('angle', 'f')], {'C24': ['ret*'], 'C13': ['ret'], 'C06': ['ret'], 'C16': ['out.*']})
U('within', PR + 'getCatWithinFracR200', 'within', [('cat_in', 'i+[T]'), ('obj_size_in', 'i+[N]')] + XM + CAT[2:] + [('r200', 'f+[N]'), ('frac_r200', 'f+')],
  {'C24': ['ret*'], 'C13': ['ret*'], 'C06': ['ret*'], 'C16': ['out.*']})
RS = [('r_over_r200', 'f+[R]'), ('r200', 'f+[N]')]
def listoflists(I, st):
    return I.new_list(None, st)
U('get_shape', ST + 'getShape', 'shape', [('d', 'f[N,R]'), ('param_interest', 'f[N,R]'), ('ERROR_METHOD', 's')] + RS, {'C24': ['ret*'], 'C16': ['out.*']})
def S_(id, got, want, args, props, **k):
    U(id, 'spec.stats.' + got, want, args, props, **k)
S_('split', 'd_split', 'r_split', [('m', 'f+[N]'), ('center', 'f[N,3]'), ('n', 'i+')], {'C24': ['ret*'], 'C16': ['out.*']}, show=('M_split',))
def ragged(I, st):
    """list of K lists of numbers"""
    from .. import terms as S, arrays as A
    from ..unit import dim
    p, j = S.fresh('p'), S.fresh('j')
    L = A.declare(S.sym('list_len'), 1, [dim('K')])
    S.declare_int(L); S.declare_nonneg(L)
    X = A.declare(S.sym('list_val'), 2)
    return I.new_list(A.mk_alam(p, dim('K'), A.mk_alam(j, A.sel(L, (p,)), A.sel(X, (p, j)))), st)
def groups(I, st):
    """list of K lists of object numbers"""
    from .. import terms as S, arrays as A
    from ..unit import dim
    p, j = S.fresh('p'), S.fresh('j')
    L = A.declare(S.sym('list_len'), 1, [dim('K')])
    S.declare_int(L); S.declare_nonneg(L)
    X = A.declare(S.sym('list_idx'), 2)
    S.declare_int(X); S.declare_nonneg(X)
    return I.new_list(A.mk_alam(p, dim('K'), A.mk_alam(j, A.sel(L, (p,)), A.sel(X, (p, j)))), st)
S_('stat', 'd_stat', 'r_stat', [('y', ragged), ('quantile', 'b')], {'C24': ['ret*'], 'C16': ['out.*']}, show=('getMeanOrMedianAndError',))
U('get_shape_ms', ST + 'getShapeMs', 'shape_ms', [('d', 'f[N,R]'), ('idx_groups', groups), ('group', 'i+'), ('param_interest', 'f[N,R]'), ('ERROR_METHOD', 's')] + RS, {'C24': ['ret*'], 'C16': ['out.*']})
U('shape_profs', ST + 'getShapeProfs', 'shape_profs', D + RS[:1] + RS[1:] + OBJ + SH + [('major_full', 'f[N,R,3]'), ('nb_bins', 'i+'), ('MASS_UNIT', 'f+'), ('suffix', 's')], FIG)
from .profiles import method
def fit_model(n):
    def h(I, fn, args, kw, st, node):
        from ..calls import T_
        from .. import terms as S, arrays as A
        from ..interp import PyTuple
        if len(args) != 3 or kw:
            return NotImplemented
        a = [T_(I, st, x) for x in args]
        if a[2].op != 'tuple' or len(a[2].args[0]) != 3:
            return NotImplemented
        r = S.call('fitDensProf', *a)
        I.event('call', 'fitDensProf', a, None, st, node)
        return PyTuple([I.new_array(A.vec([A.sel(A.declare(r, 1, [num(n)]), (num(k),)) for k in range(n)]), 'fit', None, st, dtype='double'), a[2].args[0][2]])
    return h
def some_objects():
    from .. import terms as S
    from ..unit import dim
    return [S.compare('>', dim('N'), S.ZERO)]
for _p, _n in (('einasto', 3), ('alpha_beta_gamma', 5), ('nfw', 2), ('hernquist', 2)):
    U('dens_profs_' + _p, 'cosmic_profiles.dens_profs.dens_profs_tools.drawDensProfs', 'dens_profs',
      D + [('r200s', 'f+[N]'), ('dens_profs_fit', 'f+[N,F]'), ('ROverR200_fit', 'f+[F]'), ('dens_profs', 'f+[N,B]'), ('ROverR200', 'f+[B]'), ('obj_masses', 'f+[N]'), ('obj_centers', 'f[N,3]'),
           ('method', method(_p)), ('nb_bins', 'i+'), ('start_time', 'f+'), ('MASS_UNIT', 'f+'), ('suffix', 's')],
      {'C24': ['plot.*', 'file.*'], 'C01': ['plot.*'], 'C15': ['file.*'], 'C11': ['file.*'], 'C16': ['out.*'], 'C09': ['plot.loglog']}, models={'fitDensProf': fit_model(_n)}, assume=some_objects)
