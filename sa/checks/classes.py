from ..check import Unit
from .. import effects as E
BASE = [('xyz','f[N,3]'),('masses','f[N]'),('idx_cat','i+[T]'),('r200','f+[K]'),('obj_size','i+[K]'),('SNAP','s'),('L_BOX','f+'),('MIN','i+'),
        ('CENTER','s'),('VIZ','s'),('CAT','s'),('SUFFIX','s')]
SEL, KATZ = ('sel','i+[M]'), ('katz','dict')
OPQ = {n: {} for n in ('checkKatzConfig', 'getSubSetIdxCat', 'calcMorphLocal', 'calcMorphGlobal', 'calcMorphLocalVelDisp', 'calcMorphGlobalVelDisp',
                       'print_status', 'calcMassesCenters', 'calcDensProfsSphDirectBinning', 'calcDensProfsEllDirectBinning', 'calcDensProfsKernelBased', 'fitDensProfHelper')}
OPQ.update({n: {'drop': ('start_time',)} for n in ('drawDensProfs', 'getLocalTHist', 'getGlobalTHist', 'getShapeProfs', 'getGlobalEpsHist', 'getLocalEpsHist')})
VAL = E.validator('isValidSelection', 'checkDensFitMethod')
CALLS = ('drawDensProfs', 'getLocalTHist', 'getGlobalTHist', 'getShapeProfs', 'getGlobalEpsHist', 'getLocalEpsHist')
EX = E.extractor(calls=CALLS)

def U(id, fn, args, props, anchor, **k):
    Unit(id, 'spec.classes.d_' + fn, 'spec.classes.r_' + fn, args, props, opaque=OPQ, models=VAL, extract=EX, public=True, anchor=anchor, **k)

D = 'DensShapeProfsBase.'
IN = {'C16': ['out.*']}
U('shape_local', 'shape_local', BASE + [SEL, KATZ], {'C01': ['ret'], 'C03': ['ret', 'alive'], 'C07': ['ret'], 'C08': ['ret'], 'C11': ['ret'], 'C21': ['ret'], 'C04': ['ret'], **IN}, D + 'getShapeCatLocal')
U('shape_global', 'shape_global', BASE + [SEL, KATZ], {'C01': ['ret'], 'C03': ['ret', 'alive'], 'C07': ['ret'], 'C08': ['ret'], 'C11': ['ret'], 'C21': ['ret'], 'C04': ['ret'], **IN}, D + 'getShapeCatGlobal')
U('dump_local', 'dump_local', BASE + [SEL, KATZ], {'C01': ['file.*'], 'C03': ['alive'], 'C07': ['file.*'], 'C15': ['file.*'], 'C11': ['file.*'], **IN}, D + 'dumpShapeCatLocal')
U('dump_global', 'dump_global', BASE + [SEL, KATZ], {'C01': ['file.*'], 'C03': ['alive'], 'C07': ['file.*'], 'C15': ['file.*'], 'C11': ['file.*'], **IN}, D + 'dumpShapeCatGlobal')
for f, m in (('plot_shape', 'plotShapeProfs'), ('plot_lt', 'plotLocalTHist'), ('plot_gt', 'plotGlobalTHist'), ('plot_ge', 'plotGlobalEpsHist'), ('plot_le', 'plotLocalEpsHist')):
    U(f, f, BASE + [SEL, KATZ, ('nb', 'i+'), ('frac', 'f+')], {'C03': ['call.*', 'alive'], 'C21': ['call.*'], 'C15': ['call.*'], 'C11': ['call.*'], 'C01': ['call.*'], **IN}, D + m)
U('r200', 'r200', BASE, {'C01': ['ret'], 'C11': ['ret'], **IN}, 'DensProfsBase.getR200')
U('xyz', 'xyz', BASE, {'C01': ['ret*'], 'C11': ['ret*'], **IN}, 'DensProfsBase.getXYZMasses')
U('idx', 'idx', BASE, {'C03': ['ret*'], 'C11': ['ret*'], **IN}, 'DensProfsBase.getIdxCat')
U('centers', 'centers', BASE + [SEL], {'C01': ['ret'], 'C03': ['ret', 'alive'], 'C11': ['ret'], **IN}, 'DensProfsBase.getMassesCenters')
U('dens', 'dens', BASE + [SEL, KATZ, ('rr', 'f+[B]'), ('direct', 'b'), ('sph', 'b')], {'C01': ['ret'], 'C03': ['ret', 'alive'], 'C11': ['ret'], 'C08': ['ret'], 'C21': ['ret'], **IN}, 'DensProfsBase.estDensProfs')
FIT = BASE + [('dens', 'f+[M,B]'), ('rr', 'f+[B]'), ('method', 'dict'), SEL]
from .. import terms as S, interp as IP
def root():
    return [S.compare('==', IP_RANK(), S.ZERO)]
def IP_RANK():
    from ..calls import RANK
    return RANK
U('fit', 'fit', FIT, {'C01': ['ret'], 'C03': ['ret', 'alive'], 'C09': ['ret'], **IN}, 'DensProfsBase.fitDensProfs', assume=root)
U('conc', 'conc', FIT, {'C01': ['ret'], 'C03': ['ret', 'alive'], 'C09': ['ret'], **IN}, 'DensProfsBase.estConcentrations', assume=root)
U('plot_dens', 'plot_dens', FIT + [('densf', 'f+[M,F]'), ('rrf', 'f+[F]'), ('nb', 'i+')], {'C01': ['call.*'], 'C03': ['call.*', 'alive'], 'C15': ['call.*'], 'C11': ['call.*'], **IN}, 'DensProfsBase.plotDensProfs')

# construction from plain arrays: a list of index lists of any lengths
from .. import arrays as A
def ragged(I, st):
    """list of K lists; list p has apply(len, p) indices"""
    p, j = S.fresh('p'), S.fresh('j')
    L = A.declare(S.sym('list_len'), 1, [unit_dim('K')])
    S.declare_int(L); S.declare_nonneg(L)
    X = A.declare(S.sym('list_idx'), 2)
    S.declare_int(X); S.declare_nonneg(X)
    t = A.mk_alam(p, unit_dim('K'), A.mk_alam(j, A.sel(L, (p,)), A.sel(X, (p, j))))
    return I.new_list(t, st)
def unit_dim(x):
    from ..unit import dim
    return dim(x)
NEW = [('xyz','f[N,3]'),('masses','f[N]'),('idx_cat',ragged),('r200','f+[K]'),('L_BOX','f+'),('SNAP','s'),('VIZ','s'),('CAT','s'),('MIN','i+'),('CENTER','s')]
U('new', 'new', NEW + [SEL, KATZ], {'C01': ['ret*', 'file.*'], 'C19': ['ret*', 'file.*', 'alive'], 'C16': ['out.*'], 'C06': ['ret*']}, 'DensShapeProfs.__init__')
def single(I, st):
    X = A.declare(S.sym('list_idx1'), 1, [unit_dim('L')])
    S.declare_int(X); S.declare_nonneg(X)
    return I.new_list(X, st)
NEW1 = [('xyz','f[N,3]'),('masses','f[N]'),('idx_cat',single),('r200','f+'),('L_BOX','f+'),('SNAP','s'),('VIZ','s'),('CAT','s'),('MIN','i+'),('CENTER','s')]
U('new1', 'new1', NEW1, {'C01': ['ret*'], 'C19': ['ret*', 'alive'], 'C16': ['out.*']}, 'DensShapeProfs.__init__')
