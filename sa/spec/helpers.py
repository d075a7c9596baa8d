import numpy as np
from math import sqrt, pi, exp

def tensor(nns, select, masses, center, nb_pts, reduced, r_ell):
    """mass-weighted second moment about center of the selected particles"""
    M = sum(masses[select[n]] for n in range(nb_pts))
    def el(i, j):
        if reduced:
            return sum(masses[select[n]] * (nns[select[n], i] - center[i]) * (nns[select[n], j] - center[j]) / r_ell[select[n]]**2 for n in range(nb_pts)) / M
        return sum(masses[select[n]] * (nns[select[n], i] - center[i]) * (nns[select[n], j] - center[j]) for n in range(nb_pts)) / M
    return np.array([[el(i, j) for j in range(3)] for i in range(3)])

def spread(nns):
    n = nns.shape[0]
    mean = [sum(nns[i, k] for i in range(n)) / n for k in range(3)]
    return sum(sqrt(sum((nns[i, k] - mean[k])**2 for k in range(3))) for i in range(n)) / n

def com(nns, masses):
    n = nns.shape[0]
    M = sum(masses[i] for i in range(n))
    return np.array([sum(masses[i] * nns[i, k] for i in range(n)) / M for k in range(3)])

def wrap_noref(xyz, L_BOX):
    """nearest image of every coordinate with respect to the same coordinate of particle 0"""
    if L_BOX == 0:
        return xyz
    n = xyz.shape[0]
    def w(x, ref):
        if x - ref > L_BOX / 2:
            return x - L_BOX
        if x - ref < -L_BOX / 2:
            return x + L_BOX
        return x
    return np.array([[w(xyz[i, k], xyz[0, k]) for k in range(3)] for i in range(n)])

def dist2(xyz, center, i):
    return sum((xyz[i, k] - center[k])**2 for k in range(3))

def dens_sph(xyz, masses, center, r_200, bin_edges):
    n = xyz.shape[0]
    out = []
    for r in range(bin_edges.shape[0] - 1):
        lo = bin_edges[r] * r_200
        hi = bin_edges[r + 1] * r_200
        out.append(sum(masses[i] for i in range(n) if dist2(xyz, center, i) >= lo**2 and dist2(xyz, center, i) < hi**2) / (4 / 3 * pi * (hi**3 - lo**3)))
    return np.array(out)

def mencl_sph(xyz, masses, center, r_200, ROverR200):
    n = xyz.shape[0]
    return np.array([sum(masses[i] for i in range(n) if dist2(xyz, center, i) < (f * r_200)**2) for f in ROverR200])

def frame(xyz, center, ax, r, i):
    nrm = sqrt(ax[r, 0]**2 + ax[r, 1]**2 + ax[r, 2]**2)
    return sum(ax[r, k] / nrm * (xyz[i, k] - center[k]) for k in range(3))

def ellrad2(xyz, center, a, b, c, major, inter, minor, r, e, i):
    """squared ellipsoidal radius in the frame of r and the half axes of e"""
    return (frame(xyz, center, major, r, i) / a[e])**2 + (frame(xyz, center, inter, r, i) / b[e])**2 + (frame(xyz, center, minor, r, i) / c[e])**2

def dens_ell(xyz, masses, center, a, b, c, major, inter, minor):
    n = xyz.shape[0]
    out = []
    for r in range(a.shape[0] - 1):
        ins = [i for i in range(n) if ellrad2(xyz, center, a, b, c, major, inter, minor, r, r + 1, i) < 1 and ellrad2(xyz, center, a, b, c, major, inter, minor, r, r, i) >= 1]
        if len(ins) == 0:
            out.append(np.nan)
        else:
            out.append(sum(masses[i] for i in ins) / (4 / 3 * pi * (a[r + 1] * b[r + 1] * c[r + 1] - a[r] * b[r] * c[r])))
    return np.array(out)

def mencl_ell(xyz, masses, center, a, b, c, major, inter, minor):
    n = xyz.shape[0]
    out = []
    for r in range(a.shape[0] - 1):
        ins = [i for i in range(n) if ellrad2(xyz, center, a, b, c, major, inter, minor, r, r + 1, i) < 1]
        if len(ins) == 0:
            out.append(np.nan)
        else:
            out.append(sum(masses[i] for i in ins))
    return np.array(out)

def ktilde(r, r_i, h_i):
    """h_i**3 times the mean, over the sphere of radius r, of a normalised three-dimensional Gaussian of width h_i
    centred at distance r_i from the origin"""
    return (exp(-(r - r_i)**2 / (2 * h_i**2)) - exp(-(r + r_i)**2 / (2 * h_i**2))) * h_i**2 / (2 * (2 * pi)**(3 / 2) * r * r_i)
