from ..check import Unit
D = [('morph_info', 'f[12]'), ('xyz', 'f[N,3]'), ('vxyz', 'f[N,3]'), ('xyz_princ', 'f[N,3]'), ('masses', 'f[N]'), ('shell', 'i[N]'), ('ellipsoid', 'i[N]'), ('r_ell', 'f[N]'),
     ('center', 'f[3]'), ('vcenter', 'f[3]'), ('shape_tensor', 'f[3,3]'), ('eigval', 'f[3]'), ('eigvec', 'f[3,3]'), ('d', 'f+'), ('delta_d', 'f+'), ('IT_TOL', 'f+'),
     ('IT_WALL', 'i+'), ('IT_MIN', 'i+'), ('reduced', 'b')]
TENSOR = {'CythonHelpers.calcShapeTensor': {'ins': ['nns', 'select', 'masses', 'center', 'nb_pts', 'reduced', 'r_ell']}}
PR = {'C04': ['stop', 'ret', 'init.err', 'step.err', 'init.iteration', 'step.iteration'],
      'C08': ['ret', 'step.morph_info', 'step.q', 'step.s'],
      'C22': ['step.members', 'init.members', 'step.r_ell', 'init.r_ell', 'step.morph_info', 'init.q', 'init.s'],
      'C17': ['step.members', 'init.members'],
      'C21': ['stop', 'ret', 'step.members', 'init.members', 'step.morph_info'],
      'C06': ['ret', 'init.*', 'step.*']}
for got, want in (('runEllAlgo', 'ell'), ('runShellAlgo', 'shell'), ('runEllVDispAlgo', 'ell_v'), ('runShellVDispAlgo', 'shell_v')):
    Unit('kernel_' + want, got, 'spec.kernels.' + want, D, PR, opaque=TENSOR, loop=True, ignore=['out.*'])
