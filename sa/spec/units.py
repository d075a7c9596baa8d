"""Unit settings: what each setter, getter and conversion has to do."""
import numpy as np
from cosmic_profiles.common import config

def setting():
    return (config.InUnitLength_in_cm, config.InUnitMass_in_g, config.InUnitVelocity_in_cm_per_s, config.LittleH,
            config.OutUnitLength_in_cm, config.OutUnitMass_in_g, config.OutUnitVelocity_in_cm_per_s, config.GBs, config.CACHE_MAXSIZE)

PC, MSUN = 3.085678e18, 1.989e33

def lengths(h):
    return {'pc': PC, 'kpc': 1e3 * PC, 'Mpc': 1e6 * PC, 'Gpc': 1e9 * PC, 'pc/h': PC / h, 'kpc/h': 1e3 * PC / h, 'Mpc/h': 1e6 * PC / h, 'Gpc/h': 1e9 * PC / h}

def masses(h):
    return {'Msun': MSUN, 'E+10Msun': 1e10 * MSUN, 'Msun/h': MSUN / h, 'E+10Msun/h': 1e10 * MSUN / h}

def velocities():
    return {'km/s': 1e5}

# the setters, with names and with numbers
def d_in(length, mass, vel, h):
    config.updateInUnitSystem(length, mass, vel, h)
    return setting()

def r_in_names(length, mass, vel, h):
    old = setting()
    assert length in lengths(h).keys()
    assert mass in masses(h).keys()
    assert vel in velocities().keys()
    return (lengths(h)[length], masses(h)[mass], velocities()[vel], h) + old[4:]

def r_in_numbers(length, mass, vel, h):
    return (length, mass, vel, h) + setting()[4:]

def d_out(length, mass, vel, h):
    config.updateOutUnitSystem(length, mass, vel, h)
    return setting()

def r_out_names(length, mass, vel, h):
    old = setting()
    assert length in lengths(h).keys()
    assert mass in masses(h).keys()
    assert vel in velocities().keys()
    return old[:3] + (h, lengths(h)[length], masses(h)[mass], velocities()[vel]) + old[7:]

def r_out_numbers(length, mass, vel, h):
    old = setting()
    return old[:3] + (h, length, mass, vel) + old[7:]

def d_init(gbs, maxsize, il, im, iv, h, ol, om, ov):
    config.initialize(gbs, maxsize, il, im, iv, h, ol, om, ov)
    return setting()

def r_init(gbs, maxsize, il, im, iv, h, ol, om, ov):
    return il, im, iv, h, ol, om, ov, gbs, maxsize

def d_gbs(x):
    config.updateCachingMaxGBs(x)
    return setting()

def r_gbs(x):
    old = setting()
    return old[:7] + (x, old[8])

def d_size(x):
    config.updateCachingMaxSize(x)
    return setting()

def r_size(x):
    return setting()[:8] + (x,)

# ------------------------------------------------------------ conversions
def MPC(): return lengths(config.LittleH)['Mpc/h']
def M10(): return masses(config.LittleH)['E+10Msun/h']
def KMS(): return velocities()['km/s']

def r_internal():
    return MPC(), M10(), KMS()

def r_length_out(x): return x * (MPC() / config.OutUnitLength_in_cm)
def r_mass_out(x): return x * (M10() / config.OutUnitMass_in_g)
def r_vel_out(x): return x * (KMS() / config.OutUnitVelocity_in_cm_per_s)
def r_length_in(x): return x * (config.InUnitLength_in_cm / MPC())
def r_mass_in(x): return x * (config.InUnitMass_in_g / M10())
def r_vel_in(x): return x * (config.InUnitVelocity_in_cm_per_s / KMS())

def d_admissible(which, name, h):
    t = config.getAdmissibleLMV(h)
    return t[0][name] if which == 0 else t[1][name] if which == 1 else t[2][name]

def r_admissible(which, name, h):
    return lengths(h)[name] if which == 0 else masses(h)[name] if which == 1 else velocities()[name]

# ------------------------------------------------------------ labels of figures
def nearest(names, values, x):
    return names[np.argmin(abs(np.array(values) - x))]

def r_label():
    """the name of the unit set for output, or how many kpc, Msun, km/s it is"""
    L, M, V = lengths(config.LittleH), masses(config.LittleH), velocities()
    l, m, v = config.OutUnitLength_in_cm, config.OutUnitMass_in_g, config.OutUnitVelocity_in_cm_per_s
    return (nearest(list(L.keys()), list(L.values()), l) if l in L.values() else '{:.2e}kpc'.format(l / L['kpc']),
            nearest(list(M.keys()), list(M.values()), m) if m in M.values() else '{:.2e}Msun'.format(m / M['Msun']),
            nearest(list(V.keys()), list(V.values()), v) if v in V.values() else '{:.2e}km/s'.format(v / V['km/s']))
