"""statistics and plots of shapes and profiles"""
import numpy as np
import subprocess
from mpi4py import MPI
rank = MPI.COMM_WORLD.Get_rank()
import matplotlib.pyplot as plt
from scipy.spatial.transform import Rotation as R
from scipy.spatial import cKDTree
from cosmic_profiles.common.python_routines import respectPBCNoRef, calcCoM, calcMode, getCatWithinFracR200
from cosmic_profiles.common.cosmo_tools import M_split, getMeanOrMedianAndError
from cosmic_profiles.common.config import getLMVInternal
from cosmic_profiles.shape_profs.shape_profs_tools import getEpsilon, getShape, getShapeMs
from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProf, getEinastoProf, getAlphaBetaGammaProf, getNFWProf, getHernquistProf
from cosmic_profiles.common import config

def triax(q, s):
    return (1 - q**2) / (1 - s**2)

def folder(f):
    subprocess.call(['mkdir', '-p', f])

def hist(x, n):
    plt.hist(x=x, bins=np.linspace(0, 1, n), density=True)

def kept(t):
    """histograms leave out what is not a number; zero marks the objects without a shape"""
    t = np.nan_to_num(t)
    t[t == 0.] = np.nan
    return t

def local_t(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj_centers, d, q, s, major_full, HIST_NB_BINS, frac_r200, MASS_UNIT, suffix):
    if rank == 0:
        folder(VIZ_DEST)
        k = np.argmin(abs(r_over_r200 - frac_r200))
        hist(kept(np.array([triax(q[p, k], s[p, k]) for p in range(d.shape[0])])), HIST_NB_BINS)
        plt.axvline(1/3)
        plt.axvline(2/3)
        plt.xlim(0.0, 1.0)
        plt.savefig(VIZ_DEST + '/LocalTCount' + suffix + SNAP + '.pdf')

def global_t(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s, major_full, HIST_NB_BINS, MASS_UNIT, suffix):
    if rank == 0:
        folder(VIZ_DEST)
        hist(kept(np.array([triax(q[p, -1], s[p, -1]) for p in range(d.shape[0])])), HIST_NB_BINS)
        plt.axvline(1/3)
        plt.axvline(2/3)
        plt.xlim(0.0, 1.0)
        plt.savefig(VIZ_DEST + '/GlobalTCount' + suffix + SNAP + '.pdf')

def global_eps(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SNAP, suffix, HIST_NB_BINS):
    if rank == 0:
        folder(VIZ_DEST)
        hist(abs(getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER)), HIST_NB_BINS)
        plt.xlim(0.0, 1.0)
        plt.savefig(VIZ_DEST + '/GlobalEpsCount' + suffix + SNAP + '.pdf')

def local_eps(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SNAP, frac_r200, suffix, HIST_NB_BINS):
    if rank == 0:
        i, n = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
        folder(VIZ_DEST)
        hist(abs(getEpsilon(i, n, xyz, masses, L_BOX, CENTER)), HIST_NB_BINS)
        plt.xlim(0.0, 1.0)
        plt.savefig(VIZ_DEST + '/LocalEpsCount' + suffix + SNAP + '.pdf')

def own(idx_cat, obj_size, p):
    return idx_cat[sum(obj_size[j] for j in range(p)):sum(obj_size[j] for j in range(p + 1))]

def extent(x):
    return max(max(x[:, k]) - min(x[:, k]) for k in range(3))

def middle(x, m, CENTER):
    if CENTER == 'mode':
        return calcMode(x, m, extent(x))
    return calcCoM(x, m)

def epsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, angle):
    """complex ellipticity of the projection along z of the second moments about the centre"""
    if rank == 0:
        rot = R.from_rotvec(angle * np.array([0, 0, 1])).as_matrix()
        out = []
        for p in range(len(obj_size)):
            i = own(idx_cat, obj_size, p)
            x, m = respectPBCNoRef(xyz[i], L_BOX), masses[i]
            c = middle(x, m, CENTER)
            n = x.shape[0]
            def y(a, k):
                return sum(rot[k, l] * (x[a, l] - c[l]) for l in range(3))
            def Q(k, l):
                return sum(m[a] * y(a, k) * y(a, l) for a in range(n)) / sum(m[a] for a in range(n))
            t = Q(0, 0) + Q(1, 1)
            out.append((Q(0, 0) - Q(1, 1)) / t + complex(0, 1) * 2 * Q(0, 1) / t)
        return np.array(out)
    return None

def within(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200, frac_r200):
    cat, size = np.empty(0, dtype=np.int32), []
    for p in range(len(obj_size_in)):
        i = own(cat_in, obj_size_in, p)
        x = respectPBCNoRef(xyz[i], L_BOX)
        near = cKDTree(x, leafsize=2, balanced_tree=False).query_ball_point(middle(x, masses[i], CENTER), r=r200[p] * frac_r200, workers=-1)
        if near != []:
            cat = np.hstack((cat, np.array(i)[near]))
            size.append(len(near))
    return cat, np.array(size)

def shape(d, param, method, rr, r200):
    """the value of every converged radius counts at the closest of the radii asked for"""
    y = [[] for k in range(len(rr))]
    for p in range(param.shape[0]):
        for j in range(len(rr)):
            if not np.isnan(param[p, j]):
                y[np.argmin(abs(rr - d[p, j] / r200[p]))].append(param[p, j])
    return getMeanOrMedianAndError(y, method)

def shape_ms(d, idx_groups, group, param, method, rr, r200):
    y = [[] for k in range(len(rr))]
    for p in idx_groups[group]:
        for j in range(len(rr)):
            if not np.isnan(param[p, j]):
                y[np.argmin(abs(rr - d[p, j] / r200[p]))].append(param[p, j])
    return getMeanOrMedianAndError(y, 'median_quantile')

# ------------------------------------------------------------ mass bins
def d_split(m, center, n):
    a, b, c, d = M_split(m, center, 0., NB_BINS=n)
    return a, b, c, d

def r_split(m, center, n):
    """n bins of equally many objects (fewer in the last) in the order of mass; edges are the smallest masses of the bins and the largest of all"""
    o = np.argsort(m)
    N = len(m)
    k = -(-N // n)
    if k == 0:
        return [], [], [], []
    nb = -(-N // k)
    edges = [np.sort(m)[j * k] for j in range(nb)] + [np.sort(m)[-1]]
    groups = [[np.sort(m)[i] for i in range(j * k, min(j * k + k, N))] for j in range(nb)]
    centers = [center[o[j * k:min(j * k + k, N)]] for j in range(nb)]
    idx = [[o[i] for i in range(j * k, min(j * k + k, N))] for j in range(nb)]
    return edges, groups, centers, idx

def stat(y, method):
    if method == 'SEM':
        mean = np.array([np.average(z) if z != [] else np.nan for z in y])
        e = np.array([np.std(z, ddof=1) / np.sqrt(len(z)) for z in y])
        return mean, e, e
    mean = np.array([np.median(z) if z != [] else np.nan for z in y])
    lo = np.array([np.quantile(np.array(z), 0.25) / np.sqrt(len(z)) if z != [] else np.nan for z in y])
    hi = np.array([np.quantile(np.array(z), 0.75) / np.sqrt(len(z)) if z != [] else np.nan for z in y])
    return mean, lo, hi

def d_stat(y, quantile):
    return getMeanOrMedianAndError(y, 'median_quantile' if quantile else 'SEM')

def r_stat(y, quantile):
    return stat(y, 'median_quantile' if quantile else 'SEM')

# ------------------------------------------------------------ profiles of shapes and densities
def label(lo, hi):
    return None

def band(x, st, ok):
    if ok:
        plt.semilogx(x, st[0])
        plt.fill_between(x, st[0] - st[1], st[0] + st[2])

def shape_profs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj_centers, d, q, s, major_full, nb_bins, MASS_UNIT, suffix):
    if rank == 0:
        edges, groups, centers, idx = M_split(MASS_UNIT * obj_masses, obj_centers, start_time, NB_BINS=nb_bins)
        folder(VIZ_DEST)
        T = np.array([[triax(q[p, j], s[p, j]) for j in range(q.shape[1])] for p in range(q.shape[0])])
        for name, y in (('q', q), ('s', s), ('T', T)):
            a, b, c = getShape(d, y, 'median_quantile', r_over_r200, r200)
            band(r_over_r200, (a, b, c), True)
            if name == 'T':
                plt.axhline(2/3)
            plt.ylim(0.0, 1.0)
            plt.savefig(VIZ_DEST + '/' + name + suffix + SNAP + '.pdf')
        for name, y in (('q', q), ('s', s), ('T', T)):
            for g in range(len(groups)):
                a, b, c = getShapeMs(d, idx, g, y, 'median_quantile', r_over_r200, r200)
                band(r_over_r200, (a, b, c), len(idx[g]) != 0)
                if name == 'T':
                    plt.axhline(2/3)
                plt.ylim(0.0, 1.0)
                plt.savefig('{}/{}M{:.2f}{}{}.pdf'.format(VIZ_DEST, name, np.float64(np.log10(edges[g])), suffix, SNAP))

def model(r, p, profile):
    if profile == 'einasto':
        return getEinastoProf(r, p)
    if profile == 'alpha_beta_gamma':
        return getAlphaBetaGammaProf(r, p)
    if profile == 'nfw':
        return getNFWProf(r, p)
    return getHernquistProf(r, p)

def parameters(p, profile, f):
    if profile == 'einasto':
        return {'rho_s': p[0] * f, 'alpha': p[1], 'r_s': p[2]}
    if profile == 'alpha_beta_gamma':
        return {'rho_s': p[0] * f, 'alpha': p[1], 'beta': p[2], 'gamma': p[3], 'r_s': p[4]}
    return {'rho_s': p[0] * f, 'r_s': p[1]}

def columns(a):
    return [list(a[:, i]) for i in range(a.shape[1])]

def medians(ys):
    return np.array([np.median(z) if z != [] else np.nan for z in ys])

def one_dens_plot(name, r200, prof_fit, x_fit, prof, x, method, f):
    ys = columns(prof)
    mean, lo, hi = stat(ys, 'median_quantile')
    p, k = fitDensProf(x_fit, method, (medians(columns(prof_fit)), r200, 0))
    plt.loglog(x_fit, model(x_fit * r200, parameters(p, method['profile'], f), method['profile']), 'o--')
    plt.loglog(x, mean * f)
    plt.fill_between(x, (mean - lo) * f, (mean + hi) * f)
    plt.savefig(name)

def dens_profs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_profs, ROverR200, obj_masses, obj_centers, method, nb_bins, start_time, MASS_UNIT, suffix):
    if rank == 0:
        edges, groups, centers, idx = M_split(MASS_UNIT * obj_masses, obj_centers, start_time, NB_BINS=nb_bins)
        l, m, v = getLMVInternal()
        f = (m / MASS_UNIT / l**3) / (config.OutUnitMass_in_g / config.OutUnitLength_in_cm**3)
        n = r200s.shape[0]
        one_dens_plot(VIZ_DEST + '/RhoProf' + suffix + SNAP + '.pdf', np.average(r200s), dens_profs_fit, ROverR200_fit, dens_profs, ROverR200, method, f)
        folder(VIZ_DEST)
        for g in range(len(groups)):
            mark = np.zeros((n,), dtype=np.int32)
            mark[idx[g]] = 1
            own = np.nonzero(mark > 0)[0]
            one_dens_plot('{}/RhoProfM{:.2f}{}{}.pdf'.format(VIZ_DEST, np.float32(np.log10(edges[g])), suffix, SNAP), np.average(r200s[own]), dens_profs_fit[own], ROverR200_fit,
                          dens_profs[own], ROverR200, method, f)
