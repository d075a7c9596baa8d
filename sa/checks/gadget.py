from ..check import Unit
from .classes import OPQ, VAL, EX, SEL, KATZ
G = [('SNAPD', 's'), ('GROUPD', 's'), ('OBJ', 's'), ('SNAP', 's'), ('VIZ', 's'), ('CAT', 's'), ('RV', 's'), ('MIN', 'i+'), ('CENTER', 's')]
O2 = dict(OPQ)
O2.update({'getFoFSHData': {}, 'read_block': {}, 'header': {}, 'calcObjCat': {}})
C = 'DensShapeProfsGadget.'
def u(id, fn, args, props, anchor, **k):
    Unit(id, 'spec.gadget.d_' + fn, 'spec.gadget.r_' + fn, args, props, opaque=O2, models=VAL, extract=EX, public=True, anchor=C + anchor, **k)
R = {'C01': ['ret*'], 'C11': ['ret*', 'alive'], 'C19': ['ret*'], 'C18': ['ret*']}
u('g_r200', 'g_r200', G, R, 'getR200')
u('g_idx', 'g_idx', G, R, 'getIdxCat')
u('g_xyz', 'g_xyz', G, R, 'getXYZMasses')
u('g_vel', 'g_vel', G, R, 'getVelXYZ')
u('g_header', 'g_header', G, {'C18': ['ret*'], 'C11': ['ret*']}, 'getHeader')
V = {'C01': ['ret*'], 'C03': ['ret*', 'alive'], 'C07': ['ret*'], 'C08': ['ret*'], 'C11': ['ret*', 'alive'], 'C21': ['ret*'], 'C04': ['ret*'], 'C22': ['ret*']}
u('vel_local', 'vel_local', G + [SEL, KATZ], V, 'getShapeCatVelLocal')
u('vel_global', 'vel_global', G + [SEL, KATZ], V, 'getShapeCatVelGlobal')
F = {'C01': ['file.*'], 'C03': ['alive'], 'C07': ['file.*'], 'C15': ['file.*'], 'C11': ['file.*'], 'C19': ['file.*']}
u('dump_vel_local', 'dump_vel_local', G + [SEL, KATZ], F, 'dumpShapeVelCatLocal')
u('dump_vel_global', 'dump_vel_global', G + [SEL, KATZ], F, 'dumpShapeVelCatGlobal')
u('g_dump', 'g_dump', G + [SEL, KATZ], F, '__init__')
Unit('parttype', 'cosmic_profiles.gadget.read_fof.getPartType', 'spec.gadget.r_parttype', [('OBJ', 's')], {'C18': ['*'], 'C19': ['*']}, public=True)
