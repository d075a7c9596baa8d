from ..check import Unit
R = 'cosmic_profiles.common.python_routines.'
X, M = ('xyz', 'f[N,3]'), ('masses', 'f[N]')
Unit('pywrap', 'respectPBCNoRef', 'spec.routines.wrap', [X, ('L_BOX', 'f+')], {'C13': ['ret'], 'C16': ['out.*']})
Unit('pycom', 'calcCoM', 'spec.routines.com', [X, M], {'C22': ['ret'], 'C16': ['out.*']})
Unit('recentre', 'recentreObject', 'spec.routines.recentre', [X, ('L_BOX', 'f+')], {'C13': ['ret'], 'C16': ['out.*']})
Unit('valid', 'isValidSelection', 'spec.routines.valid', [('obj_numbers', 'f[K]'), ('nb_objects', 'i+')], {'C03': ['ret', 'alive']})
Unit('katz', 'checkKatzConfig', 'spec.routines.katz', [('katz_config', 'dict')], {'C21': ['ret*', 'alive'], 'C16': ['out.*']})
Unit('mode', 'calcMode', 'spec.routines.mode', [X, M, ('rad', 'f')], {'C22': ['ret'], 'C16': ['out.*']}, opaque={'calcMode': {'ins': ['xyz', 'masses', 'rad'], 'pure': True}})   # induction over the recursion
Unit('subset', 'getSubSetIdxCat', 'spec.routines.subset', [('idx_cat', 'i+[T]'), ('obj_size', 'i+[K]'), ('obj_numbers', 'i+[M]')], {'C03': ['ret'], 'C06': ['ret'], 'C16': ['out.*']}, public=True)
Unit('fit_method', 'checkDensFitMethod', 'spec.routines.fit_method', [('method', 'dict')], {'C09': ['alive', 'ret'], 'C16': ['out.*']}, public=True)
Unit('in_shell', 'inShell', 'spec.routines.in_shell', [('X', 'f[3]'), ('a', 'f+[K]'), ('b', 'f+[K]'), ('c', 'f+[K]'), ('shell_nb', 'i+')], {'C17': ['ret'], 'C23': ['ret'], 'C16': ['out.*']})
Unit('sphere', 'fibonacci_sphere', 'spec.routines.sphere', [('samples', 'i+')], {'C24': ['ret']})
Unit('ellipsoid', 'fibonacci_ellipsoid', 'spec.routines.ellipsoid', [('a', 'f'), ('b', 'f'), ('c', 'f'), ('samples', 'i+')], {'C24': ['ret'], 'C08': ['ret']})
Unit('mass_dm', 'getMassDMParticle', 'spec.routines.mass_dm', [('N', 'f+'), ('L', 'f+')], {'C23': ['ret']})
Unit('delta', 'getDelta', 'spec.routines.delta', [('z', 'f+'), ('OMEGA_M', 'f+'), ('OMEGA_L', 'f+')], {'C23': ['ret']})
SH = [('dims', '=3'), ('a', 'f+[K]'), ('b', 'f+[K]'), ('c', 'f+[K]'), ('Nptc', 'i+[K]')]
Unit('draw_shell', 'drawUniformFromShell', 'spec.routines.draw_shell', SH + [('shell_nb', 'i+')], {'C23': ['ret'], 'C16': ['out.*']}, public=True)
Unit('draw_ellipsoid', 'drawUniformFromEllipsoid', 'spec.routines.draw_ellipsoid', SH + [('ell_nb', 'i+')], {'C23': ['ret*'], 'C16': ['out.*']}, public=True)
