"""Profile models, their parameters, fits and mock haloes."""
import numpy as np
from scipy.integrate import quad
from scipy import optimize
from functools import partial
from pathos.multiprocessing import ProcessingPool as Pool
from mpi4py import MPI
import os
comm = MPI.COMM_WORLD
rank = comm.Get_rank()

NAMES = {'einasto': ['rho_s', 'alpha', 'r_s'], 'alpha_beta_gamma': ['rho_s', 'alpha', 'beta', 'gamma', 'r_s'],
         'hernquist': ['rho_s', 'r_s'], 'nfw': ['rho_s', 'r_s']}

def einasto(r, p):
    return p['rho_s'] * np.exp(-2 / p['alpha'] * ((r / p['r_s'])**p['alpha'] - 1))
def abg(r, p):
    x = r / p['r_s']
    return p['rho_s'] / (x**p['gamma'] * (1 + x**p['alpha'])**((p['beta'] - p['gamma']) / p['alpha']))
def nfw(r, p):
    x = r / p['r_s']
    return p['rho_s'] / (x * (1 + x)**2)
def hernquist(r, p):
    x = r / p['r_s']
    return p['rho_s'] / (x * (1 + x)**3)

def density(profile, r, p):
    if profile == 'einasto': return einasto(r, p)
    if profile == 'alpha_beta_gamma': return abg(r, p)
    if profile == 'hernquist': return hernquist(r, p)
    return nfw(r, p)

def pars_dict(model_pars_arr, profile):
    if profile == 'einasto':
        return {'rho_s': model_pars_arr[0], 'alpha': model_pars_arr[1], 'r_s': model_pars_arr[2]}
    if profile == 'alpha_beta_gamma':
        return {'rho_s': model_pars_arr[0], 'alpha': model_pars_arr[1], 'beta': model_pars_arr[2], 'gamma': model_pars_arr[3], 'r_s': model_pars_arr[4]}
    return {'rho_s': model_pars_arr[0], 'r_s': model_pars_arr[1]}

def model(profile, r, a):
    return density(profile, r, pars_dict(a, profile))

def residual(model_pars_arr, median, rbin_centers, profile):
    n = rbin_centers.shape[0]
    t = 0.0
    for i in range(n):
        t += (np.log(median[i]) - np.log(model(profile, rbin_centers[i], model_pars_arr)))**2 / n
    return t

def bound(method, name, low, factor):
    if name in method:
        return (method[name] * factor, method[name] * factor)
    return (low, np.inf)

def fit(ROverR200, method, median_r200_obj_nb):
    y, r200, obj_nb = median_r200_obj_nb
    how = method['min_method'] if 'min_method' in method else 'Powell'
    ok = ~np.isnan(y)
    x = (ROverR200 * r200)[ok]
    y = y[ok]
    mean = np.average(y)
    rho = bound(method, 'rho_s', 1e-7, 1 / mean)
    rs = bound(method, 'r_s', 1e-5, 1)
    profile = method['profile']
    try:
        if profile == 'einasto':
            guess = np.array([0.1, 0.18, r200 / 5])
            lim = [rho, bound(method, 'alpha', 1e-10, 1), rs]
        elif profile == 'alpha_beta_gamma':
            guess = np.array([0.1, 1.0, 1.0, 1.0, r200 / 5])
            lim = [rho, bound(method, 'alpha', 1e-5, 1), bound(method, 'beta', 1e-5, 1), bound(method, 'gamma', 1e-5, 1), rs]
        else:
            guess = np.array([0.1, r200 / 5])
            lim = [rho, rs]
        best = optimize.minimize(residual, guess, method=how, args=(y / mean, x, profile), bounds=lim).x
        best[0] *= mean
    except ValueError:
        best = guess * np.nan
    return best, obj_nb

def fit_all(dens_profs, ROverR200, r200s, method):
    from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProf
    if rank != 0:
        return None
    n = 3 if method['profile'] == 'einasto' else 5 if method['profile'] == 'alpha_beta_gamma' else 2
    res = np.zeros((dens_profs.shape[0], n))
    for i in range(dens_profs.shape[0]):
        res[i] = fitDensProf(ROverR200, method, (dens_profs[i], r200s[i], i))[0]
    return res

def halo(tot_mass, res, model_pars, profile, a, b, c):
    from cosmic_profiles.common.python_routines import drawUniformFromShell
    if profile not in ['einasto', 'alpha_beta_gamma', 'hernquist', 'nfw']:
        raise ValueError("profile")
    if rank != 0:
        return None, None, None, None, None
    def shape(r):
        return 4 * np.pi * r**2 * density(profile, r, dict(model_pars, rho_s=1.0))
    rho_s = tot_mass / quad(shape, 1e-8, a[-1])[0]
    pars = dict(model_pars, rho_s=rho_s)
    def mass(lo, hi):
        return quad(lambda r: 4 * np.pi * r**2 * density(profile, r, pars), lo, hi)[0]
    def coarser(x):
        return x[::2] if x.shape[0] % 2 == 1 else np.hstack((x[::2], x[-1]))
    n1 = int(round(res * mass(a[0], a[1]) / tot_mass))
    tries = 0
    while n1 == 0:
        a = coarser(a)
        b = coarser(b)
        c = coarser(c)
        n1 = int(round(res * mass(a[0], a[1]) / tot_mass))
        if tries > 1000:
            raise ValueError("resolution")
        tries += 1
    n = np.zeros((a.shape[0],), dtype=np.int32)
    n[0] = int(round(n1 * mass(1e-8, a[0]) / mass(a[0], a[1])))
    for k in range(1, a.shape[0]):
        n[k] = int(round(n1 * mass(a[k - 1], a[k]) / mass(a[0], a[1])))
    x, y, z = np.empty(0), np.empty(0), np.empty(0)
    for k in range(n.shape[0]):
        p = drawUniformFromShell(3, a, b, c, n, k)
        x = np.hstack((x, p[:, 0]))
        y = np.hstack((y, p[:, 1]))
        z = np.hstack((z, p[:, 2]))
    return x, y, z, mass(1e-8, a[-1]) / z.shape[0], rho_s
