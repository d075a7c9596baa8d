"""Centres, masses and density profiles of objects, each from the particles of that object alone."""
import numpy as np
from scipy.interpolate import interp1d
from cosmic_profiles.common.python_routines import respectPBCNoRef, calcMode, calcCoM, recentreObject
from cosmic_profiles.cython_helpers.helper_class import CythonHelpers

def off(obj_size, p):
    return sum(obj_size[k] for k in range(p))

def members(idx_cat, obj_size, p):
    return idx_cat[off(obj_size, p):off(obj_size, p) + obj_size[p]]

def center(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, p):
    who = members(idx_cat, obj_size, p)
    x = respectPBCNoRef(xyz[who], L_BOX)
    if CENTER == 'mode':
        return calcMode(x, masses[who], 1000)
    return calcCoM(x, masses[who])

def centers(xyz, masses, idx_cat, obj_size, L_BOX, CENTER):
    out = np.zeros((obj_size.shape[0], 3))
    for p in range(obj_size.shape[0]):
        out[p] = center(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, p)
    return out

def total(masses, idx_cat, obj_size, p):
    return sum(masses[idx_cat[off(obj_size, p) + n]] for n in range(obj_size[p]))

def masses_centers(xyz, masses, idx_cat, obj_size, L_BOX, CENTER):
    return (recentreObject(centers(xyz, masses, idx_cat, obj_size, L_BOX, CENTER), L_BOX),
            np.array([total(masses, idx_cat, obj_size, p) for p in range(obj_size.shape[0])]))

def mid(r):
    return np.array([(r[k] + r[k + 1]) / 2 for k in range(r.shape[0] - 1)])

def own(xyz, idx_cat, obj_size, p):
    return np.array([xyz[idx_cat[off(obj_size, p) + n]] for n in range(obj_size[p])])

def sph(xyz, masses, r200s, r_over_r200, idx_cat, obj_size, L_BOX, CENTER):
    """bins between the midpoints of consecutive radii; the first starts at the centre, the last ends at the last radius"""
    K, B = obj_size.shape[0], r_over_r200.shape[0]
    if K == 0:
        return np.zeros((0, B))
    edges = np.hstack(([1e-8], mid(r_over_r200), r_over_r200[-1]))
    c = centers(xyz, masses, idx_cat, obj_size, L_BOX, CENTER)
    out = np.zeros((K, B))
    for p in range(K):
        x = CythonHelpers.respectPBCNoRef(own(xyz, idx_cat, obj_size, p), L_BOX)
        m = np.array([masses[idx_cat[off(obj_size, p) + n]] for n in range(obj_size[p])])
        out[p] = CythonHelpers.calcDensProfBruteForceSph(x, m, c[p], r200s[p], edges, out[p], np.zeros((obj_size[p],)))
    return out

def at(x, y, r):
    return interp1d(x, y, bounds_error=False, fill_value='extrapolate')(r)

def axes(a, v, r):
    out = np.zeros((r.shape[0], 3))
    for k in range(3):
        out[:, k] = at(a, v[:, k], r)
    return out

def ell(xyz, masses, r200s, r_over_r200, a, b, c, major, inter, minor, idx_cat, obj_size, L_BOX, CENTER):
    """half axes at the bin edges and axis directions at the radii, by linear interpolation along the object's own shape profile"""
    assert a.shape[0] == b.shape[0]
    assert b.shape[0] == c.shape[0]
    K, B = obj_size.shape[0], r_over_r200.shape[0]
    if K == 0:
        return np.zeros((0, B))
    m_ = mid(r_over_r200)
    edges = np.hstack(([m_[0] * m_[0] / m_[1]], m_, r_over_r200[-1]))
    cen = centers(xyz, masses, idx_cat, obj_size, L_BOX, CENTER)
    out = np.zeros((K, B))
    for p in range(K):
        x = CythonHelpers.respectPBCNoRef(own(xyz, idx_cat, obj_size, p), L_BOX)
        m = np.array([masses[idx_cat[off(obj_size, p) + n]] for n in range(obj_size[p])])
        A, B_, C = np.zeros((B + 1,)), np.zeros((B + 1,)), np.zeros((B + 1,))
        A[:] = at(a[p], a[p], edges * r200s[p])
        B_[:] = at(a[p], b[p], edges * r200s[p])
        C[:] = at(a[p], c[p], edges * r200s[p])
        at_r = r_over_r200 * r200s[p]
        out[p] = CythonHelpers.calcDensProfBruteForceEll(x, np.zeros((obj_size[p], 3)), m, cen[p], r200s[p], A, B_, C, axes(a[p], major[p], at_r), axes(a[p], inter[p], at_r),
                                                         axes(a[p], minor[p], at_r), out[p], np.zeros((obj_size[p],)))
    return out

def kernel(xyz, masses, r200s, r_over_r200, idx_cat, obj_size, L_BOX, CENTER):
    """sum of the members' kernels, of width growing with the square root of the distance from the centre"""
    K, B = obj_size.shape[0], r_over_r200.shape[0]
    if K == 0:
        return np.zeros((0, B))
    cen = centers(xyz, masses, idx_cat, obj_size, L_BOX, CENTER)
    out = np.zeros((K, B))
    for p in range(K):
        x = CythonHelpers.respectPBCNoRef(own(xyz, idx_cat, obj_size, p), L_BOX)
        for k in range(B):
            s = 0
            for n in range(obj_size[p]):
                d = np.sqrt(sum((x[n, j] - cen[p, j])**2 for j in range(3)))
                h = 0.005 * r200s[p] * (d / (0.1 * r200s[p]))**0.5
                s += masses[idx_cat[off(obj_size, p) + n]] * CythonHelpers.calcKTilde(r_over_r200[k] * r200s[p], d, h) / h**3
            out[p, k] = s
    return out
