import numpy as np
import math
from numpy.random import default_rng
from numpy.linalg import inv
from scipy.linalg import cholesky
from scipy.interpolate import interp1d
from scipy.interpolate import interp1d
from scipy.linalg import cholesky
from numpy.linalg import inv

def reference(xyz):
    """average of at most 50 particles drawn with a fixed seed, coordinate by coordinate"""
    pick = default_rng(seed=0).choice(np.arange(len(xyz)), (min(50, len(xyz)),), replace=False)
    return np.average(xyz[pick], axis=0)

def wrap(xyz, L_BOX):
    if L_BOX == 0:
        return xyz
    ref = reference(xyz)
    def w(x, r):
        if x - r > L_BOX / 2:
            return x - L_BOX
        if x - r < -L_BOX / 2:
            return x + L_BOX
        return x
    return np.array([[w(xyz[i, k], ref[k]) for k in range(3)] for i in range(xyz.shape[0])])

def com(xyz, masses):
    n = xyz.shape[0]
    M = sum(masses[i] for i in range(n))
    return np.array([sum(masses[i] * xyz[i, k] for i in range(n)) / M for k in range(3)])

def recentre(xyz, L_BOX):
    def w(x):
        y = x - L_BOX if x >= L_BOX else x
        return y + L_BOX if y < 0 else y
    return np.array([[w(xyz[i, k]) for k in range(3)] for i in range(xyz.shape[0])])

def valid(obj_numbers, nb_objects):
    n = len(obj_numbers)
    if n == 0:
        raise ValueError('empty')
    if any(obj_numbers[i] != obj_numbers.round()[i] for i in range(n)):
        raise ValueError('fractional')
    if any(obj_numbers[i] < 0 for i in range(n)):
        raise ValueError('negative')
    if len(np.unique(obj_numbers)) != n:
        raise ValueError('repeated')
    if np.max(obj_numbers) >= nb_objects:
        raise ValueError('too large')
    return True

def katz(katz_config):
    assert type(katz_config['SHELL_BASED']) == bool
    assert type(katz_config['REDUCED']) == bool
    assert hasattr(katz_config['ROverR200'], '__len__')
    return (np.float64(katz_config['ROverR200']), np.float64(katz_config['IT_TOL']), np.int32(katz_config['IT_WALL']),
            np.int32(katz_config['IT_MIN']), katz_config['REDUCED'], katz_config['SHELL_BASED'])

def mode(xyz, masses, rad):
    n = xyz.shape[0]
    M = sum(masses[i] for i in range(n))
    c = np.array([sum(masses[i] * xyz[i, k] for i in range(n)) / M for k in range(3)])
    near = np.array([np.linalg.norm(xyz[i] - c) < rad for i in range(n)])
    if xyz[near].shape[0] < 5:
        return c
    from cosmic_profiles.common.python_routines import calcMode
    return calcMode(xyz[near], masses[near], rad * 0.83)

# ------------------------------------------------------------ selections, fit options, mock shells
def subset(idx_cat, obj_size, obj_numbers):
    """the particle lists of the selected objects, in the order of the selection"""
    start = np.hstack((np.array([0]), np.cumsum(obj_size)))
    out = np.empty((0,), np.int32)
    for p in obj_numbers:
        out = np.hstack((out, idx_cat[start[p]:start[p + 1]]))
    return out

def fit_method(method):
    assert type(method) == dict
    assert 'profile' in method
    assert method['profile'] in ('einasto', 'alpha_beta_gamma', 'hernquist', 'nfw')
    if method['profile'] == 'einasto':
        assert method.keys() <= {'profile', 'rho_s', 'alpha', 'r_s', 'min_method'}
    elif method['profile'] == 'alpha_beta_gamma':
        assert method.keys() <= {'profile', 'rho_s', 'alpha', 'beta', 'gamma', 'r_s', 'min_method'}
    else:
        assert method.keys() <= {'profile', 'rho_s', 'r_s', 'min_method'}
    if 'min_method' in method:
        assert method['min_method'] in ('Nelder-Mead', 'L-BFGS-B', 'TNC', 'SLSQP', 'Powell', 'trust-constr')

def in_shell(X, a, b, c, shell_nb):
    def r(k):
        return (X[0] / a[k])**2 + (X[1] / b[k])**2 + (X[2] / c[k])**2
    if shell_nb > 0:
        return r(shell_nb) <= 1 and r(shell_nb - 1) > 1
    return r(0) <= 1

def sphere(samples):
    out = []
    golden = math.pi * (3 - math.sqrt(5))
    for i in range(samples):
        y = 1 - 2 * i / (samples - 1)
        rad = math.sqrt(1 - y * y)
        out.append((math.cos(golden * i) * rad, y, math.sin(golden * i) * rad))
    return out

def ellipsoid(a, b, c, samples):
    return [(x * a, y * b, z * c) for x, y, z in sphere(samples)]

def rho_crit():
    """3 H^2 / (8 pi G), in Msun/h over (Mpc/h)^3"""
    G = 6.674 * 10**(-29) / (3.086 * 10**16)**3
    H = 100 / (3.086 * 10**19)
    return 3 * H**2 / (8 * np.pi * G) / (2 * 10**30)

def mass_dm(N, L):
    return rho_crit() * (L / N)**3

def delta(z, OMEGA_M, OMEGA_L):
    x = OMEGA_M * (1 + z)**3 / (OMEGA_M * (1 + z)**3 + OMEGA_L)
    return (18 * np.pi**2 + 82 * (x - 1) - 39 * (x - 1)**2) / x - 1

def ball(dims, n, seed):
    """n points uniform in the unit ball, each from a direction and a radius"""
    np.random.seed(seed)
    g = np.zeros((n, dims))
    z = np.zeros((n, dims))
    for i in range(n):
        g[i] = np.random.normal(0, 1, dims)
        u = np.random.uniform(0, 1, 1)
        z[i] = u**(1 / dims) * g[i] / np.linalg.norm(g[i])
    return z

def draw_shell(dims, a, b, c, Nptc, shell_nb):
    """directions of points uniform in a sphere, put on the ellipsoid whose axes are interpolated between the shell's two surfaces"""
    K = a.shape[0]
    n = Nptc[shell_nb]
    z = ball(dims, n, shell_nb)
    R = a[shell_nb]
    S = np.array([[1 / R**2, 0, 0], [0, 1 / R**2, 0], [0, 0, 1 / R**2]])
    M = inv(cholesky(S, lower=True).T)
    p = np.zeros((n, dims))
    for i in range(n):
        p[i] = np.dot(M, z[i])
    x = np.arange(K + 1) / K
    t = np.random.uniform(x[shell_nb], x[shell_nb + 1], size=n)
    theta = np.arctan2(np.sqrt(p[:, 0]**2 + p[:, 1]**2), p[:, 2])
    phi = np.arctan2(p[:, 1], p[:, 0])
    A = interp1d(x, np.hstack((0.0, a)))(t)
    B = interp1d(x, np.hstack((0.0, b)))(t)
    C = interp1d(x, np.hstack((0.0, c)))(t)
    out = np.zeros((n, 3))
    for i in range(n):
        out[i, 0] = np.sin(theta[i]) * np.cos(phi[i]) * A[i]
        out[i, 1] = np.sin(theta[i]) * np.sin(phi[i]) * B[i]
        out[i, 2] = np.cos(theta[i]) * C[i]
    return out

def draw_ellipsoid(dims, a, b, c, Nptc, ell_nb):
    n = Nptc[ell_nb]
    z = ball(dims, n, ell_nb)
    S = np.array([[1 / a[ell_nb]**2, 0, 0], [0, 1 / b[ell_nb]**2, 0], [0, 0, 1 / c[ell_nb]**2]])
    L = cholesky(S, lower=True)
    out = np.zeros((n, dims))
    for i in range(n):
        out[i] = np.dot(inv(L.T), z[i])
    return out, ell_nb
