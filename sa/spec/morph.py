"""Shapes of whole objects: profile over radii, overall shape, and the loop over objects."""
import numpy as np
from cosmic_profiles.cython_helpers.helper_class import CythonHelpers
from cosmic_profiles.common.python_routines import respectPBCNoRef, calcCoM, calcMode, recentreObject
from cosmic_profiles.shape_profs.shape_profs_algos import runShellAlgo, runEllAlgo, runShellVDispAlgo, runEllVDispAlgo
from cosmic_profiles.shape_profs.shape_profs_algos import calcObjMorphLocal, calcObjMorphGlobal, calcObjMorphLocalVelDisp, calcObjMorphGlobalVelDisp

def z(*s):
    return np.zeros(s)

def obj_local(morph_info, r200, log_d, xyz, xyz_princ, masses, shell, r_ell, center, shape_tensor, eigval, eigvec, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based):
    B, N = log_d.shape[0], xyz.shape[0]
    out = np.zeros((12, B))
    if CythonHelpers.calcLocalSpread(xyz) != 0 and r200 != 0:
        for k in range(B):
            d = r200 * log_d[k]
            inner = 0 if k == 0 else r200 * log_d[k - 1]
            if shell_based:
                out[:, k] = runShellAlgo(z(12), xyz, z(N, 3), masses, z(N), z(N), center, z(3, 3), z(3), z(3, 3), d, d - inner, IT_TOL, IT_WALL, IT_MIN, reduced)
            else:
                out[:, k] = runEllAlgo(z(12), xyz, z(N, 3), masses, z(N), z(N), center, z(3, 3), z(3), z(3, 3), d, IT_TOL, IT_WALL, IT_MIN, reduced)
    return out

def obj_local_v(morph_info, r200, log_d, xyz, vxyz, xyz_princ, masses, shell, r_ell, center, vcenter, shape_tensor, eigval, eigvec, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based):
    B, N = log_d.shape[0], xyz.shape[0]
    out = np.zeros((12, B))
    if CythonHelpers.calcLocalSpread(xyz) != 0 and r200 != 0:
        for k in range(B):
            d = r200 * log_d[k]
            inner = 0 if k == 0 else r200 * log_d[k - 1]
            if shell_based:
                out[:, k] = runShellVDispAlgo(z(12), xyz, vxyz, z(N, 3), masses, z(N), z(N), center, vcenter, z(3, 3), z(3), z(3, 3), d, d - inner, IT_TOL, IT_WALL, IT_MIN, reduced)
            else:
                out[:, k] = runEllVDispAlgo(z(12), xyz, vxyz, z(N, 3), masses, z(N), z(N), center, vcenter, z(3, 3), z(3), z(3, 3), d, IT_TOL, IT_WALL, IT_MIN, reduced)
    return out

def obj_global(morph_info, r200, xyz, xyz_princ, masses, ellipsoid, r_ell, center, shape_tensor, eigval, eigvec, IT_TOL, IT_WALL, IT_MIN, SAFE, reduced):
    N = xyz.shape[0]
    out = np.zeros((12,))
    if CythonHelpers.calcLocalSpread(xyz) != 0:
        out[:] = runEllAlgo(z(12), xyz, z(N, 3), masses, z(N), z(N), center, z(3, 3), z(3), z(3, 3), r200 + SAFE, IT_TOL, IT_WALL, IT_MIN, reduced)
    return out

def obj_global_v(morph_info, r200, xyz, vxyz, xyz_princ, masses, ellipsoid, r_ell, center, vcenter, shape_tensor, eigval, eigvec, IT_TOL, IT_WALL, IT_MIN, SAFE, reduced):
    N = xyz.shape[0]
    out = np.zeros((12,))
    if CythonHelpers.calcLocalSpread(xyz) != 0:
        out[:] = runEllVDispAlgo(z(12), xyz, vxyz, z(N, 3), masses, z(N), z(N), center, vcenter, z(3, 3), z(3), z(3, 3), r200 + SAFE, IT_TOL, IT_WALL, IT_MIN, reduced)
    return out

# ------------------------------------------------------------ all objects
def off(obj_size, p):
    return sum(obj_size[k] for k in range(p))

def own(x, idx_cat, obj_size, p):
    return np.array([x[idx_cat[off(obj_size, p) + n]] for n in range(obj_size[p])])

def extent(x):
    return max((max(x[:, 0]) - min(x[:, 0]), max(x[:, 1]) - min(x[:, 1]), max(x[:, 2]) - min(x[:, 2])))

def center(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, p):
    who = idx_cat[off(obj_size, p):off(obj_size, p) + obj_size[p]]
    x = respectPBCNoRef(xyz[who], L_BOX)
    if CENTER == 'mode':
        return calcMode(x, masses[who], extent(x))
    return calcCoM(x, masses[who])

def finish(info, xyz, masses, idx_cat, obj_size, L_BOX, CENTER):
    """info(p, centre, particles, masses) -> 12 numbers per radius; what was rejected becomes NaN"""
    K = obj_size.shape[0]
    cen = np.zeros((K, 3))
    for p in range(K):
        cen[p] = center(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, p)
    def shape_of(p):
        x = CythonHelpers.respectPBCNoRef(own(xyz, idx_cat, obj_size, p), L_BOX)
        return info(p, cen[p], x, own(masses, idx_cat, obj_size, p))
    def slot(k):
        return hide(np.array([shape_of(p)[k] for p in range(K)]))
    def axis(k):
        return hide(np.array([vector(shape_of(p), k) for p in range(K)]))
    m = np.array([sum(masses[idx_cat[off(obj_size, p) + n]] for n in range(obj_size[p])) for p in range(K)])
    return slot(0), slot(1), slot(2), axis(9), axis(6), axis(3), recentreObject(cen, L_BOX), m

def hide(a):
    return np.where(a == 0.0, np.nan, a)

def vector(info, k):
    """the three components of one axis, last index"""
    if info.ndim == 1:
        return np.array([info[k], info[k + 1], info[k + 2]])
    return np.array([[info[k, b], info[k + 1, b], info[k + 2, b]] for b in range(info.shape[1])])

def morph_local(xyz, masses, r200, idx_cat, obj_size, L_BOX, r_over_r200, IT_TOL, IT_WALL, IT_MIN, CENTER, reduced, shell_based):
    def info(p, c, x, m):
        n, B = obj_size[p], r_over_r200.shape[0]
        return calcObjMorphLocal(z(12, B), r200[p], r_over_r200, x, z(n, 3), m, z(n), z(n), c, z(3, 3), z(3), z(3, 3), IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
    return finish(info, xyz, masses, idx_cat, obj_size, L_BOX, CENTER)

def morph_global(xyz, masses, r200, idx_cat, obj_size, L_BOX, IT_TOL, IT_WALL, IT_MIN, CENTER, SAFE, reduced):
    def info(p, c, x, m):
        n = obj_size[p]
        return calcObjMorphGlobal(z(12), r200[p], x, z(n, 3), m, z(n), z(n), c, z(3, 3), z(3), z(3, 3), IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
    return finish(info, xyz, masses, idx_cat, obj_size, L_BOX, CENTER)

def morph_local_v(xyz, vxyz, masses, r200, idx_cat, obj_size, L_BOX, r_over_r200, IT_TOL, IT_WALL, IT_MIN, CENTER, reduced, shell_based):
    def info(p, c, x, m):
        n, B = obj_size[p], r_over_r200.shape[0]
        v = own(vxyz, idx_cat, obj_size, p)
        vc = CythonHelpers.calcCoM(v, m, z(3))
        return calcObjMorphLocalVelDisp(z(12, B), r200[p], r_over_r200, x, v, z(n, 3), m, z(n), z(n), c, vc, z(3, 3), z(3), z(3, 3), IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
    return finish(info, xyz, masses, idx_cat, obj_size, L_BOX, CENTER)

def morph_global_v(xyz, vxyz, masses, r200, idx_cat, obj_size, L_BOX, IT_TOL, IT_WALL, IT_MIN, CENTER, SAFE, reduced):
    def info(p, c, x, m):
        n = obj_size[p]
        v = own(vxyz, idx_cat, obj_size, p)
        vc = CythonHelpers.calcCoM(v, m, z(3))
        return calcObjMorphGlobalVelDisp(z(12), r200[p], x, v, z(n, 3), m, z(n), z(n), c, vc, z(3, 3), z(3), z(3, 3), IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
    return finish(info, xyz, masses, idx_cat, obj_size, L_BOX, CENTER)
