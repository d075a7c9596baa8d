from ..check import Unit
X, M, C = ('xyz', 'f[N,3]'), ('masses', 'f[N]'), ('center', 'f[3]')
Unit('tensor', 'CythonHelpers.calcShapeTensor', 'spec.helpers.tensor',
     [('nns', 'f[N,3]'), ('select', 'i[N]'), ('shape_tensor', 'f[3,3]'), M, C, ('nb_pts', 'i+'), ('reduced', 'b'), ('r_ell', 'f[N]')],
     {'C22': ['ret'], 'C21': ['ret']})
Unit('spread', 'CythonHelpers.calcLocalSpread', 'spec.helpers.spread', [('nns', 'f[N,3]')], {'C04': ['ret']})
Unit('com', 'CythonHelpers.calcCoM', 'spec.helpers.com', [('nns', 'f[N,3]'), M, ('com', 'f[3]')], {'C22': ['ret'], 'C06': ['ret']})
Unit('wrap', 'CythonHelpers.respectPBCNoRef', 'spec.helpers.wrap_noref', [X, ('L_BOX', 'f+')], {'C13': ['ret']})
Unit('dens_sph', 'CythonHelpers.calcDensProfBruteForceSph', 'spec.helpers.dens_sph',
     [X, M, C, ('r_200', 'f+'), ('bin_edges', 'f+[E+1]'), ('dens_prof', 'z[E]'), ('shell', 'i[N]')], {'C17': ['ret'], 'C06': ['ret']}, ignore=['out.*'])
Unit('mencl_sph', 'CythonHelpers.calcMenclsBruteForceSph', 'spec.helpers.mencl_sph',
     [X, M, C, ('r_200', 'f+'), ('ROverR200', 'f+[E]'), ('Mencl', 'z[E]'), ('ellipsoid', 'i[N]')], {'C17': ['ret'], 'C06': ['ret']}, ignore=['out.*'])
AX = [('a', 'f+[E+1]'), ('b', 'f+[E+1]'), ('c', 'f+[E+1]'), ('major', 'f[E+1,3]'), ('inter', 'f[E+1,3]'), ('minor', 'f[E+1,3]')]
Unit('dens_ell', 'CythonHelpers.calcDensProfBruteForceEll', 'spec.helpers.dens_ell',
     [X, ('xyz_princ', 'f[N,3]'), M, C, ('r_200', 'f+')] + AX + [('dens_prof', 'z[E]'), ('shell', 'i[N]')], {'C17': ['ret'], 'C06': ['ret'], 'C08': ['ret']}, ignore=['out.*'])
Unit('mencl_ell', 'CythonHelpers.calcMenclsBruteForceEll', 'spec.helpers.mencl_ell',
     [X, ('xyz_princ', 'f[N,3]'), M, C] + AX + [('Mencl', 'z[E]'), ('ellipsoid', 'i[N]')], {'C17': ['ret'], 'C06': ['ret'], 'C08': ['ret']}, ignore=['out.*'])
Unit('ktilde', 'CythonHelpers.calcKTilde', 'spec.helpers.ktilde', [('r', 'f+'), ('r_i', 'f+'), ('h_i', 'f+')], {'C17': ['ret']})
