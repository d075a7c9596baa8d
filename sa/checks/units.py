from ..check import Unit
from .. import unit as U, terms as S
def EX(o):
    """result, acceptance, and what had already been overwritten where the call may be rejected"""
    c = U.components(o)
    c = {k: v for k, v in c.items() if not k.startswith('global.')}
    dirty = sorted({k[2] for s, m in o.I.fails for k, v in m.items() if not (v.op == 'sym' and v.args[0] == 'gvar')})
    c['overwritten_before_rejection'] = S.mk('tuple', tuple(S.string(x) for x in dirty))
    return c
S_ = [('length', 's'), ('mass', 's'), ('vel', 's'), ('h', 'f+')]
N_ = [('length', 'f+'), ('mass', 'f+'), ('vel', 'f+'), ('h', 'f+')]
P = {'C02': ['*'], 'C01': ['ret*']}
C = 'cosmic_profiles.common.config.'
def u(id, got, want, args, anchor, **k):
    Unit(id, got, 'spec.units.' + want, args, P, extract=EX, public=True, anchor=anchor, **k)
u('in_names', 'spec.units.d_in', 'r_in_names', S_, C + 'updateInUnitSystem')
u('in_numbers', 'spec.units.d_in', 'r_in_numbers', N_, C + 'updateInUnitSystem')
u('out_names', 'spec.units.d_out', 'r_out_names', S_, C + 'updateOutUnitSystem')
u('out_numbers', 'spec.units.d_out', 'r_out_numbers', N_, C + 'updateOutUnitSystem')
u('unit_init', 'spec.units.d_init', 'r_init', [(x, 'f+') for x in ('gbs', 'maxsize', 'il', 'im', 'iv', 'h', 'ol', 'om', 'ov')], C + 'initialize')
u('max_gbs', 'spec.units.d_gbs', 'r_gbs', [('x', 'f+')], C + 'updateCachingMaxGBs')
u('max_size', 'spec.units.d_size', 'r_size', [('x', 'f+')], C + 'updateCachingMaxSize')
u('internal', C + 'getLMVInternal', 'r_internal', [], C + 'getLMVInternal')
for n, w in (('LengthInternalToOut', 'length_out'), ('MassInternalToOut', 'mass_out'), ('VelInternalToOut', 'vel_out'),
             ('LengthInToInternal', 'length_in'), ('MassInToInternal', 'mass_in'), ('VelInToInternal', 'vel_in')):
    u(w, C + n, 'r_' + w, [('x', 'f[N]')], C + n)
    u(w + '_scalar', C + n, 'r_' + w, [('x', 'f')], C + n)
u('admissible', 'spec.units.d_admissible', 'r_admissible', [('which', 'i+'), ('name', 's'), ('h', 'f+')], C + 'getAdmissibleLMV')
u('label', C + 'LMVLabel', 'r_label', [], C + 'LMVLabel')
