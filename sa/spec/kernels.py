"""The iterative shape determination: one description for all four variants."""
from libc.math import sqrt
from cosmic_profiles.cython_helpers.helper_class import CythonHelpers

def dist2(x, c, i):
    return sum((x[i, k] - c[k])**2 for k in range(3))

def ell2(x, q, s, i):
    return x[i, 0]**2 + x[i, 1]**2 / q**2 + x[i, 2]**2 / s**2

def gather(select, inside, N):
    n = 0
    for i in range(N):
        if inside(i):
            select[n] = i
            n += 1
    return n

def column(vec, k):
    """unit vector along eigenvector k"""
    norm = sqrt(vec[0, k].real**2 + vec[1, k].real**2 + vec[2, k].real**2)
    return [vec[0, k].real / norm, vec[1, k].real / norm, vec[2, k].real / norm]

def iterate(shell, moments, mean, morph_info, xyz, xyz_princ, masses, select, r_ell, center, shape_tensor, eigval, eigvec, d, delta_d, IT_TOL, IT_WALL, IT_MIN, reduced):
    N = xyz.shape[0]
    q, s, err, iteration = 1.0, 1.0, 1.0, 1
    def start(i):
        if shell:
            return dist2(xyz, center, i) < d**2 and dist2(xyz, center, i) >= (d - delta_d)**2
        return dist2(xyz, center, i) < d**2
    n = gather(select, start, N)
    for i in range(N):
        r_ell[i] = sqrt(dist2(xyz, center, i))
    while err > IT_TOL:
        if iteration > IT_WALL or n < IT_MIN:
            morph_info[:] = 0.0
            return morph_info
        shape_tensor = CythonHelpers.calcShapeTensor(moments, select, shape_tensor, masses, mean, n, reduced, r_ell)
        eigvec[:, :] = 0.0
        eigval[:] = 0.0
        CythonHelpers.ZHEEVR(shape_tensor[:, :], eigval, eigvec, 3)
        q0, s0 = q, s
        q = sqrt(eigval[1] / eigval[2])
        s = sqrt(eigval[0] / eigval[2])
        err = max(abs(q - q0) / q0, abs(s - s0) / s0)
        major, inter, minor = column(eigvec, 2), column(eigvec, 1), column(eigvec, 0)
        morph_info[0] = d
        morph_info[1] = q
        morph_info[2] = s
        for k in range(3):
            morph_info[3 + k] = major[k]
            morph_info[6 + k] = inter[k]
            morph_info[9 + k] = minor[k]
        for i in range(N):
            xyz_princ[i, 0] = sum(major[k] * (xyz[i, k] - center[k]) for k in range(3))
            xyz_princ[i, 1] = sum(inter[k] * (xyz[i, k] - center[k]) for k in range(3))
            xyz_princ[i, 2] = sum(minor[k] * (xyz[i, k] - center[k]) for k in range(3))
            r_ell[i] = sqrt(ell2(xyz_princ, q, s, i))
        def again(i):
            inside = ell2(xyz_princ, q, s, i) < d**2
            if shell:
                inner = xyz_princ[i, 0]**2 / (d - delta_d)**2 + xyz_princ[i, 1]**2 / (q * d - delta_d)**2 + xyz_princ[i, 2]**2 / (s * d - delta_d)**2
                return inside and (d == delta_d or inner >= 1)
            return inside
        n = gather(select, again, N)
        iteration += 1
    return morph_info

def ell(morph_info, xyz, xyz_princ, masses, ellipsoid, r_ell, center, shape_tensor, eigval, eigvec, d, IT_TOL, IT_WALL, IT_MIN, reduced):
    return iterate(False, xyz, center, morph_info, xyz, xyz_princ, masses, ellipsoid, r_ell, center, shape_tensor, eigval, eigvec, d, 0, IT_TOL, IT_WALL, IT_MIN, reduced)

def shell(morph_info, xyz, xyz_princ, masses, shell, r_ell, center, shape_tensor, eigval, eigvec, d, delta_d, IT_TOL, IT_WALL, IT_MIN, reduced):
    return iterate(True, xyz, center, morph_info, xyz, xyz_princ, masses, shell, r_ell, center, shape_tensor, eigval, eigvec, d, delta_d, IT_TOL, IT_WALL, IT_MIN, reduced)

def ell_v(morph_info, xyz, vxyz, xyz_princ, masses, ellipsoid, r_ell, center, vcenter, shape_tensor, eigval, eigvec, d, IT_TOL, IT_WALL, IT_MIN, reduced):
    return iterate(False, vxyz, vcenter, morph_info, xyz, xyz_princ, masses, ellipsoid, r_ell, center, shape_tensor, eigval, eigvec, d, 0, IT_TOL, IT_WALL, IT_MIN, reduced)

def shell_v(morph_info, xyz, vxyz, xyz_princ, masses, shell, r_ell, center, vcenter, shape_tensor, eigval, eigvec, d, delta_d, IT_TOL, IT_WALL, IT_MIN, reduced):
    return iterate(True, vxyz, vcenter, morph_info, xyz, xyz_princ, masses, shell, r_ell, center, shape_tensor, eigval, eigvec, d, delta_d, IT_TOL, IT_WALL, IT_MIN, reduced)
