from ..check import Unit
from .kernels import D
KIN = ['xyz', 'vxyz', 'masses', 'center', 'vcenter', 'd', 'delta_d', 'IT_TOL', 'IT_WALL', 'IT_MIN', 'reduced']
KERN = {n: {'ins': [a for a in KIN if ('VDisp' in n or a not in ('vxyz', 'vcenter')) and ('Shell' in n or a != 'delta_d')]} for n in ('runShellAlgo', 'runEllAlgo', 'runShellVDispAlgo', 'runEllVDispAlgo')}
OBJ = [('morph_info', 'f[12,B]'), ('r200', 'f+'), ('log_d', 'f+[B]'), ('SAFE', 'f+'), ('shell_based', 'b')] + D[1:]
GLO = [('morph_info', 'f[12]')] + OBJ[1:]
PR = {'C04': ['ret'], 'C06': ['ret'], 'C21': ['ret'], 'C08': ['ret'], 'C22': ['ret']}
OP = dict(KERN, **{'CythonHelpers.calcLocalSpread': {}})
for got, want, a in (('calcObjMorphLocal', 'obj_local', OBJ), ('calcObjMorphGlobal', 'obj_global', GLO),
                     ('calcObjMorphLocalVelDisp', 'obj_local_v', OBJ), ('calcObjMorphGlobalVelDisp', 'obj_global_v', GLO)):
    Unit(want, got, 'spec.morph.' + want, a, PR, opaque=OP, ignore=['out.*'])

OIN = ['r200', 'log_d', 'xyz', 'vxyz', 'masses', 'center', 'vcenter', 'IT_TOL', 'IT_WALL', 'IT_MIN', 'SAFE', 'reduced', 'shell_based']
ALG = {'respectPBCNoRef': {'pure': True}, 'calcMode': {}, 'calcCoM': {}, 'recentreObject': {}, 'CythonHelpers.respectPBCNoRef': {}, 'CythonHelpers.calcCoM': {'ins': ['nns', 'masses']}}
for n in ('calcObjMorphLocal', 'calcObjMorphGlobal', 'calcObjMorphLocalVelDisp', 'calcObjMorphGlobalVelDisp'):
    ALG[n] = {'ins': [a for a in OIN if ('Vel' in n or a not in ('vxyz', 'vcenter')) and ('Local' in n or a not in ('log_d', 'shell_based')) and ('Global' in n or a != 'SAFE')]}
ARG = [('xyz', 'f[N,3]'), ('vxyz', 'f[N,3]'), ('masses', 'f[N]'), ('r200', 'f+[K]'), ('idx_cat', 'i+[T]'), ('obj_size', 'i+[K]'), ('L_BOX', 'f+'), ('r_over_r200', 'f+[B]'),
       ('IT_TOL', 'f+'), ('IT_WALL', 'i+'), ('IT_MIN', 'i+'), ('CENTER', 's'), ('SAFE', 'f+'), ('reduced', 'b'), ('shell_based', 'b')]
PR = {'C06': ['ret*'], 'C03': ['ret*'], 'C04': ['ret*'], 'C08': ['ret*'], 'C13': ['ret*'], 'C21': ['ret*'], 'C22': ['ret*'], 'C16': ['out.*']}
for got, want in (('calcMorphLocal', 'morph_local'), ('calcMorphGlobal', 'morph_global'), ('calcMorphLocalVelDisp', 'morph_local_v'), ('calcMorphGlobalVelDisp', 'morph_global_v')):
    Unit(want, got, 'spec.morph.' + want, ARG, PR, opaque=ALG)
