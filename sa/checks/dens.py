from ..check import Unit
O = [('xyz', 'f[N,3]'), ('masses', 'f[N]')]
R = [('r200s', 'f+[K]'), ('r_over_r200', 'f+[B]')]
I_ = [('idx_cat', 'i+[T]'), ('obj_size', 'i+[K]'), ('L_BOX', 'f+'), ('CENTER', 's')]
S_ = [(n, 'f[K,J]') for n in 'abc'] + [(n, 'f[K,J,3]') for n in ('major', 'inter', 'minor')]
OPQ = {'respectPBCNoRef': {'pure': True}, 'calcMode': {}, 'calcCoM': {}, 'recentreObject': {},
       'CythonHelpers.respectPBCNoRef': {}, 'CythonHelpers.calcKTilde': {},
       'CythonHelpers.calcDensProfBruteForceSph': {'ins': ['xyz', 'masses', 'center', 'r_200', 'bin_edges']},
       'CythonHelpers.calcDensProfBruteForceEll': {'ins': ['xyz', 'masses', 'center', 'r_200', 'a', 'b', 'c', 'major', 'inter', 'minor']}}
PR = {'C06': ['ret*'], 'C22': ['ret*'], 'C13': ['ret*'], 'C21': ['ret*'], 'C16': ['out.*']}
Unit('masses_centers', 'calcMassesCenters', 'spec.dens.masses_centers', O + I_, PR, opaque=OPQ)
PR = {'C06': ['ret'], 'C17': ['ret', 'alive'], 'C13': ['ret'], 'C21': ['ret'], 'C16': ['out.*']}
Unit('dens_algo_sph', 'calcDensProfsSphDirectBinning', 'spec.dens.sph', O + R + I_, PR, opaque=OPQ)
Unit('dens_algo_ell', 'calcDensProfsEllDirectBinning', 'spec.dens.ell', O + R + S_ + I_, dict(PR, C08=['ret']), opaque=OPQ)
Unit('dens_algo_ker', 'calcDensProfsKernelBased', 'spec.dens.kernel', O + R + I_, PR, opaque=OPQ)
