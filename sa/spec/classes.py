"""What the public methods of the profile classes must return and write, in terms of their inputs."""
import os
import subprocess
import numpy as np
from mpi4py import MPI
from cosmic_profiles.common import config
from cosmic_profiles.shape_profs.shape_profs_classes import DensShapeProfsBase, DensShapeProfs
from cosmic_profiles.common.python_routines import getSubSetIdxCat, isValidSelection, checkKatzConfig, checkDensFitMethod
from cosmic_profiles.shape_profs.shape_profs_algos import calcMorphLocal, calcMorphGlobal
from cosmic_profiles.dens_profs.dens_profs_algos import calcMassesCenters, calcDensProfsSphDirectBinning, calcDensProfsEllDirectBinning, calcDensProfsKernelBased
from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs
from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs, getGlobalEpsHist, getLocalEpsHist
rank = MPI.COMM_WORLD.Get_rank()

def make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX):
    return DensShapeProfsBase(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX)

# ------------------------------------------------------------ units
def out_length():
    return config.getLMVInternal()[0] / config.OutUnitLength_in_cm

def out_mass():
    return config.getLMVInternal()[1] / config.OutUnitMass_in_g

def out_density():
    """kernel densities are in 1e10 Msun/h over (Mpc/h)^3"""
    return out_mass() / out_length() ** 3

# ------------------------------------------------------------ stored catalogues
def path(CAT, what, kind, SUFFIX, SNAP):
    return '{}/{}_{}{}{}.txt'.format(CAT, what, kind, SUFFIX, SNAP)

def read(CAT, what, kind, SUFFIX, SNAP):
    return np.loadtxt(path(CAT, what, kind, SUFFIX, SNAP))

def local_cat(xyz, masses, idx, r200, size, SNAP, L_BOX, CENTER, CAT, SUFFIX, katz):
    if not os.path.exists(path(CAT, 'd', 'local', SUFFIX, SNAP)):
        return calcMorphLocal(xyz=xyz, masses=masses, r200=r200, idx_cat=idx, obj_size=size, L_BOX=L_BOX, r_over_r200=katz[0],
                              IT_TOL=katz[1], IT_WALL=katz[2], IT_MIN=katz[3], CENTER=CENTER, reduced=katz[4], shell_based=katz[5])
    d = read(CAT, 'd', 'local', SUFFIX, SNAP) / out_length()
    q, s = read(CAT, 'q', 'local', SUFFIX, SNAP), read(CAT, 's', 'local', SUFFIX, SNAP)
    minor, inter, major = read(CAT, 'minor', 'local', SUFFIX, SNAP), read(CAT, 'inter', 'local', SUFFIX, SNAP), read(CAT, 'major', 'local', SUFFIX, SNAP)
    c = read(CAT, 'centers', 'local', SUFFIX, SNAP) / out_length()
    m = read(CAT, 'm', 'local', SUFFIX, SNAP) / out_mass()
    if d.shape[0] != 0 and d.ndim == 2:
        return d, q, s, minor.reshape(minor.shape[0], -1, 3), inter.reshape(inter.shape[0], -1, 3), major.reshape(major.shape[0], -1, 3), c, m
    if d.ndim == 1:
        return (d.reshape(1, -1), q.reshape(1, -1), s.reshape(1, -1), minor.reshape(1, -1, 3), inter.reshape(1, -1, 3), major.reshape(1, -1, 3),
                c.reshape(1, 3), np.array([m]))
    return d, q, s, np.array([]), np.array([]), np.array([]), c, m

def global_cat(xyz, masses, idx, r200, size, SNAP, L_BOX, CENTER, CAT, SUFFIX, katz):
    if not os.path.exists(path(CAT, 'd', 'global', SUFFIX, SNAP)):
        d, q, s, minor, inter, major, c, m = calcMorphGlobal(xyz=xyz, masses=masses, r200=r200, idx_cat=idx, obj_size=size, L_BOX=L_BOX,
                IT_TOL=katz[1], IT_WALL=katz[2], IT_MIN=katz[3], CENTER=CENTER, SAFE=6, reduced=katz[4])
        return column(d, q, s, minor, inter, major, c, m)
    d = read(CAT, 'd', 'global', SUFFIX, SNAP) / out_length()
    q, s = read(CAT, 'q', 'global', SUFFIX, SNAP), read(CAT, 's', 'global', SUFFIX, SNAP)
    minor, inter, major = read(CAT, 'minor', 'global', SUFFIX, SNAP), read(CAT, 'inter', 'global', SUFFIX, SNAP), read(CAT, 'major', 'global', SUFFIX, SNAP)
    c = read(CAT, 'centers', 'global', SUFFIX, SNAP) / out_length()
    m = read(CAT, 'm', 'global', SUFFIX, SNAP) / out_mass()
    if len(d.shape) != 0 and d.shape[0] != 0 and d.ndim == 1:
        return (d.reshape(-1, 1), q.reshape(-1, 1), s.reshape(-1, 1), minor.reshape(minor.shape[0], -1, 3), inter.reshape(inter.shape[0], -1, 3),
                major.reshape(major.shape[0], -1, 3), c, m)
    if d.ndim == 0:
        return (d.reshape(1, 1), q.reshape(1, 1), s.reshape(1, 1), minor.reshape(1, -1, 3), inter.reshape(1, -1, 3), major.reshape(1, -1, 3),
                c.reshape(1, 3), np.array([m]))
    assert d.size == 0
    return d, q, s, np.array([]), np.array([]), np.array([]), c, m

def column(d, q, s, minor, inter, major, c, m):
    """one row per object"""
    if d.shape[0] == 0:
        return d, q, s, np.array([]), np.array([]), np.array([]), c, m
    n = d.shape[0]
    d2 = np.reshape(d, (n, 1))
    return (d2, np.reshape(q, (q.shape[0], 1)), np.reshape(s, (s.shape[0], 1)), minor.reshape((d2.shape[0], d2.shape[1], 3)),
            inter.reshape((d2.shape[0], d2.shape[1], 3)), major.reshape((d2.shape[0], d2.shape[1], 3)), c, m)

def selected(idx_cat, r200, obj_size, sel):
    isValidSelection(sel, len(obj_size))
    return getSubSetIdxCat(idx_cat, obj_size, sel), r200[sel], obj_size[sel]

SHAPE = [("d", "f8"), ("s", "f8"), ("q", "f8"), ("is_conv", "bool"), ("minor", "f8", (3,)), ("inter", "f8", (3,)), ("major", "f8", (3,))]

# ------------------------------------------------------------ shape catalogues
def d_shape_local(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).getShapeCatLocal(sel, katz)

def r_shape_local(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    k = checkKatzConfig(katz)
    if rank != 0:
        return None
    idx, r, n = selected(idx_cat, r200, obj_size, sel)
    d, q, s, minor, inter, major, c, m = local_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, SUFFIX, k)
    out = np.zeros((len(sel), k[0].shape[0]), dtype=SHAPE)
    out["d"] = d * out_length()
    out["q"] = q
    out["s"] = s
    out["minor"] = minor
    out["inter"] = inter
    out["major"] = major
    out["is_conv"] = ~np.isnan(q)
    return out

def d_shape_global(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).getShapeCatGlobal(sel, katz)

def r_shape_global(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    k = checkKatzConfig(katz)
    if rank != 0:
        return None
    idx, r, n = selected(idx_cat, r200, obj_size, sel)
    d, q, s, minor, inter, major, c, m = global_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, SUFFIX, k)
    out = np.zeros((len(sel),), dtype=SHAPE)
    out["d"] = d[:,0] * out_length()
    out["q"] = q[:,0]
    out["s"] = s[:,0]
    out["minor"] = minor[:,0,:]
    out["inter"] = inter[:,0,:]
    out["major"] = major[:,0,:]
    out["is_conv"] = ~np.isnan(q[:,0])
    return out

def rows(v):
    return v.reshape(v.shape[0], -1)

def dump(kind, cat, CAT, SUFFIX, SNAP):
    d, q, s, minor, inter, major, c, m = cat
    d = d * out_length()
    subprocess.call(['mkdir', '-p', CAT])
    np.savetxt(path(CAT, 'd', kind, SUFFIX, SNAP), d, fmt='%1.7e')
    np.savetxt(path(CAT, 'q', kind, SUFFIX, SNAP), q, fmt='%1.7e')
    np.savetxt(path(CAT, 's', kind, SUFFIX, SNAP), s, fmt='%1.7e')
    np.savetxt(path(CAT, 'minor', kind, SUFFIX, SNAP), rows(minor) if d.shape[0] != 0 else np.array([]), fmt='%1.7e')
    np.savetxt(path(CAT, 'inter', kind, SUFFIX, SNAP), rows(inter) if d.shape[0] != 0 else np.array([]), fmt='%1.7e')
    np.savetxt(path(CAT, 'major', kind, SUFFIX, SNAP), rows(major) if d.shape[0] != 0 else np.array([]), fmt='%1.7e')
    np.savetxt(path(CAT, 'm', kind, SUFFIX, SNAP), m * out_mass(), fmt='%1.7e')
    np.savetxt(path(CAT, 'centers', kind, SUFFIX, SNAP), c * out_length(), fmt='%1.7e')

def d_dump_local(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).dumpShapeCatLocal(sel, katz)

def r_dump_local(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    k = checkKatzConfig(katz)
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        dump('local', local_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, SUFFIX, k), CAT, SUFFIX, SNAP)

def d_dump_global(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).dumpShapeCatGlobal(sel, katz)

def r_dump_global(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    k = checkKatzConfig(katz)
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        dump('global', global_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, SUFFIX, k), CAT, SUFFIX, SNAP)

# ------------------------------------------------------------ plots of shapes
def d_plot_shape(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    o = make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX)
    o.plotShapeProfs(nb, sel, katz)

def r_plot_shape(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    k = checkKatzConfig(katz)
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        d, q, s, minor, inter, major, c, m = local_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, SUFFIX, k)
        getShapeProfs(VIZ, SNAP, k[0], r, 0, m, c, d, q, s, major, nb, 1e10, suffix=SUFFIX)

def d_plot_lt(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    o = make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX)
    o.plotLocalTHist(nb, frac, sel, katz)

def r_plot_lt(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    k = checkKatzConfig(katz)
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        d, q, s, minor, inter, major, c, m = local_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, SUFFIX, k)
        getLocalTHist(VIZ, SNAP, k[0], r, 0, m, c, d, q, s, major, nb, frac, 1e10, suffix=SUFFIX)

def d_plot_gt(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    o = make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX)
    o.plotGlobalTHist(nb, sel, katz)

def r_plot_gt(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    k = checkKatzConfig(katz)
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        d, q, s, minor, inter, major, c, m = global_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, SUFFIX, k)
        getGlobalTHist(VIZ, SNAP, 0, m, c, d, q, s, major, nb, 1e10, suffix=SUFFIX)

def d_plot_ge(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    o = make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX)
    o.plotGlobalEpsHist(nb, sel)

def r_plot_ge(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        getGlobalEpsHist(xyz, masses, idx, n, L_BOX, CENTER, VIZ, SNAP, suffix=SUFFIX, HIST_NB_BINS=nb)

def d_plot_le(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    o = make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX)
    o.plotLocalEpsHist(frac, nb, sel)

def r_plot_le(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, nb, frac):
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        getLocalEpsHist(xyz, masses, r, idx, n, L_BOX, CENTER, VIZ, SNAP, frac, suffix=SUFFIX, HIST_NB_BINS=nb)

# ------------------------------------------------------------ plain getters
def d_r200(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).getR200()

def r_r200(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX):
    return r200 * out_length() if rank == 0 else None

def d_xyz(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX):
    x, m = make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).getXYZMasses()
    return x, m

def r_xyz(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX):
    if rank == 0:
        return xyz * out_length(), masses * out_mass()
    return None, None

def d_idx(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX):
    i, n = make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).getIdxCat()
    return i, n

def r_idx(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX):
    if rank == 0:
        return idx_cat, obj_size
    return None, None

def d_centers(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).getMassesCenters(sel)

def r_centers(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel):
    if rank != 0:
        return None, None
    idx, r, n = selected(idx_cat, r200, obj_size, sel)
    c, m = calcMassesCenters(xyz=xyz, masses=masses, idx_cat=idx, obj_size=n, L_BOX=L_BOX, CENTER=CENTER)
    out = np.zeros((len(sel),), dtype=[("centre", "f8", (3,)), ("mass", "f8")])
    out["centre"] = c * out_length()
    out["mass"] = m * out_mass()
    return out

# ------------------------------------------------------------ density profiles
def d_dens(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, rr, direct, sph):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).estDensProfs(rr, sel, direct, sph, katz)

def r_dens(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz, rr, direct, sph):
    k = checkKatzConfig(katz)
    if rank != 0:
        return None
    idx, r, n = selected(idx_cat, r200, obj_size, sel)
    if not direct:
        rho = calcDensProfsKernelBased(xyz=xyz, masses=masses, r200s=r, r_over_r200=rr, idx_cat=idx, obj_size=n, L_BOX=L_BOX, CENTER=CENTER)
    elif sph:
        rho = calcDensProfsSphDirectBinning(xyz=xyz, masses=masses, r200s=r, r_over_r200=rr, idx_cat=idx, obj_size=n, L_BOX=L_BOX, CENTER=CENTER)
    else:
        d, q, s, minor, inter, major, c, m = local_cat(xyz, masses, idx, r, n, SNAP, L_BOX, CENTER, CAT, '_', k)
        if rr.shape[0] < 3:
            raise ValueError("too few bins")
        rho = calcDensProfsEllDirectBinning(xyz=xyz, masses=masses, r200s=r, r_over_r200=rr, a=d, b=d*q, c=d*s, major=major, inter=inter, minor=minor,
                                            idx_cat=idx, obj_size=n, L_BOX=L_BOX, CENTER=CENTER)
    return rho * out_density()

# ------------------------------------------------------------ fits
def fit_density():
    """output density units over the units of the fit, Msun/h over (Mpc/h)^3"""
    return 1 / (out_mass() / 1e10 / out_length() ** 3)

def fit_method(method):
    m = dict(method)
    if 'rho_s' in m:
        m['rho_s'] = m['rho_s'] * fit_density()
    if 'r_s' in m:
        m['r_s'] = m['r_s'] / out_length()
    return m

def same_length(dens, sel):
    if len(dens) != len(sel):
        raise ValueError("inconsistent")

def d_fit(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, dens, rr, method, sel):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).fitDensProfs(dens, rr, method, sel)

def r_fit(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, dens, rr, method, sel):
    checkDensFitMethod(method)
    same_length(dens, sel)
    isValidSelection(sel, len(obj_size))
    best = fitDensProfHelper(dens * fit_density(), rr, r200[sel], fit_method(method))
    n = len(sel)
    if method['profile'] == 'einasto':
        out = np.zeros((n,), dtype=[("rho_s", "f8"), ("alpha", "f8"), ("r_s", "f8"), ("is_conv", "bool")])
        out['alpha'] = best[:,1]
        out['r_s'] = best[:,2] * out_length()
    elif method['profile'] == 'alpha_beta_gamma':
        out = np.zeros((n,), dtype=[("rho_s", "f8"), ("alpha", "f8"), ("beta", "f8"), ("gamma", "f8"), ("r_s", "f8"), ("is_conv", "bool")])
        out['alpha'] = best[:,1]
        out['beta'] = best[:,2]
        out['gamma'] = best[:,3]
        out['r_s'] = best[:,4] * out_length()
    else:
        assert method['profile'] == 'nfw' or method['profile'] == 'hernquist'
        out = np.zeros((n,), dtype=[("rho_s", "f8"), ("r_s", "f8"), ("is_conv", "bool")])
        out['r_s'] = best[:,1] * out_length()
    out['rho_s'] = best[:,0] / fit_density()
    out['is_conv'] = ~np.isnan(best[:,1])
    return out

def d_conc(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, dens, rr, method, sel):
    return make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).estConcentrations(dens, rr, method, sel)

def r_conc(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, dens, rr, method, sel):
    checkDensFitMethod(method)
    same_length(dens, sel)
    isValidSelection(sel, len(obj_size))
    best = fitDensProfHelper(dens * fit_density(), rr, r200[sel], fit_method(method))
    return r200[sel] / best[:,-1]

def d_plot_dens(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, dens, rr, method, sel, densf, rrf, nb):
    make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).plotDensProfs(dens, rr, densf, rrf, method, nb, sel)

def r_plot_dens(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, dens, rr, method, sel, densf, rrf, nb):
    checkDensFitMethod(method)
    same_length(dens, sel)
    if rank == 0:
        idx, r, n = selected(idx_cat, r200, obj_size, sel)
        c, m = calcMassesCenters(xyz=xyz, masses=masses, idx_cat=idx, obj_size=n, L_BOX=L_BOX, CENTER=CENTER)
        drawDensProfs(VIZ, SNAP, r, densf * fit_density(), rrf, dens * fit_density(), rr, m, c, fit_method(method), nb, 0, 1e10, suffix=SUFFIX)

# ------------------------------------------------------------ construction from plain arrays
def d_new(xyz, masses, idx_cat, r200, L_BOX, SNAP, VIZ, CAT, MIN, CENTER, sel, katz):
    o = DensShapeProfs(xyz, masses, idx_cat, r200, L_BOX, SNAP, VIZ, CAT, MIN, CENTER)
    x, m = o.getXYZMasses()
    i, n = o.getIdxCat()
    return x, m, i, n, o.getR200(), o.dumpShapeCatLocal(sel, katz)

def r_new(xyz, masses, idx_cat, r200, L_BOX, SNAP, VIZ, CAT, MIN, CENTER, sel, katz):
    assert xyz.shape[0] == masses.shape[0]
    k = checkKatzConfig(katz)
    l = config.InUnitLength_in_cm / config.getLMVInternal()[0]
    g = config.InUnitMass_in_g / config.getLMVInternal()[1]
    n = len(idx_cat)
    keep = np.zeros((n,), dtype=np.int32)
    size = np.zeros((n,), dtype=np.int32)
    idx = np.empty((0,), dtype=np.int32)
    for p in range(n):
        if len(idx_cat[p]) >= MIN:
            keep[p] = 1
            size[p] = len(idx_cat[p])
            idx = np.hstack((idx, idx_cat[p]))
    kept = keep.nonzero()[0]
    if rank != 0:
        return None, None, None, None, None, None
    s, r = size[kept], (r200 * l)[kept]
    i2, r2, n2 = selected(idx, r, s, sel)
    dump('local', local_cat(xyz * l, masses * g, i2, r2, n2, SNAP, L_BOX * l, CENTER, CAT, '_', k), CAT, '_', SNAP)
    return xyz * l * out_length(), masses * g * out_mass(), idx, s, r * out_length(), None

def d_new1(xyz, masses, idx_cat, r200, L_BOX, SNAP, VIZ, CAT, MIN, CENTER):
    o = DensShapeProfs(xyz, masses, idx_cat, r200, L_BOX, SNAP, VIZ, CAT, MIN, CENTER)
    i, n = o.getIdxCat()
    return i, n, o.getR200()

def r_new1(xyz, masses, idx_cat, r200, L_BOX, SNAP, VIZ, CAT, MIN, CENTER):
    assert xyz.shape[0] == masses.shape[0]
    if rank != 0:
        return None, None, None
    r = r200 * (config.InUnitLength_in_cm / config.getLMVInternal()[0]) * out_length()
    if len(idx_cat) >= MIN:
        return np.array(idx_cat), np.array([len(idx_cat)]), np.array([r])
    return np.zeros((0,), dtype=np.int32), np.zeros((0,), dtype=np.int32), np.zeros((0,))
