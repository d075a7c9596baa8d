from ..check import Unit
from .. import unit as U, terms as S, arrays as A
from ..interp import PyTuple, DictRef
def method(profile):
    def build(I, st):
        v = DictRef('method', 'param')
        st.mem[('dict', v.id)] = S.mk('updf', U.declare('method', 'dict'), S.string('profile'), S.string(profile))
        return v
    return build
def triple(I, st):
    y = U.declare('median', 'f[N]')
    return PyTuple([I.new_array(y, 'median', None, st, kind='param', dtype='double'), U.declare('r200', 'f+'), U.declare('obj_nb', 'i+')])
T = 'cosmic_profiles.dens_profs.dens_profs_tools.'
for f, w in (('getEinastoProf', 'einasto'), ('getAlphaBetaGammaProf', 'abg'), ('getNFWProf', 'nfw'), ('getHernquistProf', 'hernquist')):
    Unit('model_' + w, T + f, 'spec.profiles.' + w, [('r', 'f+'), ('model_pars', 'dict')], {'C09': ['ret'], 'C23': ['ret'], 'C16': ['out.*']}, public=True)
for p, n in (('einasto', 3), ('alpha_beta_gamma', 5), ('nfw', 2), ('hernquist', 2)):
    Unit('pars_' + p, T + 'getModelParsDict', 'spec.profiles.pars_dict', [('model_pars_arr', 'f[%d]' % n), ('profile', '=' + repr(p))], {'C09': ['ret*']})
    Unit('residual_' + p, T + 'toMinimize', 'spec.profiles.residual', [('model_pars_arr', 'f[%d]' % n), ('median', 'f+[N]'), ('rbin_centers', 'f+[N]'), ('profile', '=' + repr(p))],
         {'C09': ['ret'], 'C16': ['out.*']})
for p in ('einasto', 'alpha_beta_gamma', 'nfw', 'hernquist'):
    Unit('fit_' + p, T + 'fitDensProf', 'spec.profiles.fit', [('ROverR200', 'f+[N]'), ('method', method(p)), ('median_r200_obj_nb', triple)],
         {'C09': ['ret*'], 'C16': ['out.*'], 'C04': ['ret*']})
def fit_model(I, fn, args, kw, st, node):
    """the fit of one object: opaque parameters and, as the units above decide, the number it was given"""
    from ..calls import T_
    if len(args) != 3 or kw:
        return NotImplemented
    a = [T_(I, st, x) for x in args]
    if a[2].op != 'tuple' or len(a[2].args[0]) != 3:
        return NotImplemented
    r = S.call('fitDensProf', *a)
    return PyTuple([r, a[2].args[0][2]])
Unit('fit_all', T + 'fitDensProfHelper', 'spec.profiles.fit_all', [('dens_profs', 'f[K,N]'), ('ROverR200', 'f+[N]'), ('r200s', 'f+[K]'), ('method', 'dict')],
     {'C09': ['ret*'], 'C16': ['out.*'], 'C06': ['ret*'], 'C11': ['ret*']}, models={'fitDensProf': fit_model})
def points(I, t, env, st):
    """the points drawn from one shell: as many as that shell contains"""
    from ..calls import deref
    n, k, d = (I.term(deref(I, env[x], st), st) for x in ('Nptc', 'shell_nb', 'dims'))
    return A.declare(t, 2, [A.sel(n, (k,)), d])
Unit('halo', 'cosmic_profiles.mock_tools.mock_halo_gen.genHalo', 'spec.profiles.halo',
     [('tot_mass', 'f+'), ('res', 'i+'), ('model_pars', 'dict'), ('profile', 's'), ('a', 'f+[K]'), ('b', 'f+[K]'), ('c', 'f+[K]')],
     {'C23': ['*'], 'C09': ['ret*', 'alive'], 'C16': ['out.*'], 'C11': ['ret*', 'alive']}, loop=True, public=True,
     opaque={'drawUniformFromShell': {'ins': ['dims', 'a', 'b', 'c', 'Nptc', 'shell_nb'], 'pure': True, 'ret': points}})
