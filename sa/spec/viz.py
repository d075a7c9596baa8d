"""What the three-dimensional views of single objects must show."""
import numpy as np
from numpy.random import default_rng
from matplotlib import pyplot as plt
from mpi4py import MPI
from cosmic_profiles.common import config
from cosmic_profiles.common.python_routines import getSubSetIdxCat, isValidSelection, checkKatzConfig, fibonacci_ellipsoid, respectPBCNoRef
from cosmic_profiles.shape_profs.shape_profs_algos import calcMorphLocal, calcMorphGlobal
from spec.classes import make, out_length
rank = MPI.COMM_WORLD.Get_rank()

def d_viz_local(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).vizLocalShapes(sel, katz)

def d_viz_global(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    make(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX).vizGlobalShapes(sel, katz)

def particles(ax, number, xyz, masses, idx_cat, obj_size, L_BOX, center):
    """at most 5000 of the particles of one object, and its centre"""
    end = np.cumsum(obj_size)[number]
    own = idx_cat[end - obj_size[number]:end]
    n = obj_size[number]
    x = respectPBCNoRef(xyz[own], L_BOX) * out_length()
    m = masses[own]
    shown = default_rng(seed=42).choice(np.arange(n), (5000,), replace=False) if n > 5000 else np.arange(n)
    ax.scatter(x[shown, 0], x[shown, 1], x[shown, 2], s=m[shown] / np.average(m[shown]) * 0.3)
    ax.scatter(center[0], center[1], center[2], s=50)

def surface(ax, center, d, q, s, major, inter, minor):
    """points on the ellipsoid, turned from its principal frame into that of the box"""
    p = fibonacci_ellipsoid(d, q * d, s * d, samples=500)
    ex, ey, ez = major / np.linalg.norm(major), inter / np.linalg.norm(inter), minor / np.linalg.norm(minor)
    x = np.array([ex[0] * v[0] + ey[0] * v[1] + ez[0] * v[2] for v in p])
    y = np.array([ex[1] * v[0] + ey[1] * v[1] + ez[1] * v[2] for v in p])
    z = np.array([ex[2] * v[0] + ey[2] * v[1] + ez[2] * v[2] for v in p])
    ax.scatter(x + center[0], y + center[1], z + center[2], s=1)

def arrow(ax, center, axis, length):
    ax.quiver(center[0], center[1], center[2], axis[0], axis[1], axis[2], length=length)

def arrows(ax, center, d, q, s, major, inter, minor):
    arrow(ax, center, major, d)
    arrow(ax, center, inter, q * d)
    arrow(ax, center, minor, s * d)

def r_viz_local(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    k = checkKatzConfig(katz)
    if rank != 0:
        return
    isValidSelection(sel, len(obj_size))
    d, q, s, minor, inter, major, c, m = calcMorphLocal(xyz=xyz, masses=masses, r200=r200[sel], idx_cat=getSubSetIdxCat(idx_cat, obj_size, sel), obj_size=obj_size[sel],
        L_BOX=L_BOX, r_over_r200=k[0], IT_TOL=k[1], IT_WALL=k[2], IT_MIN=k[3], CENTER=CENTER, reduced=k[4], shell_based=k[5])
    d, c = d * out_length(), c * out_length()
    nr = k[0].shape[0] - 1
    for i in range(len(sel)):
        ax = plt.figure().axes3d()
        particles(ax, sel[i], xyz, masses, idx_cat, obj_size, L_BOX, c[i])
        surface(ax, c[i], d[i, -1], q[i, -1], s[i, -1], major[i, -1], inter[i, -1], minor[i, -1])
        for r in range(nr - nr // 5, nr):
            arrows(ax, c[i], d[i, r], q[i, r], s[i, r], major[i, r], inter[i, r], minor[i, r])
        r = -nr // 5
        surface(ax, c[i], d[i, r], q[i, r], s[i, r], major[i, r], inter[i, r], minor[i, r])
        arrows(ax, c[i], d[i, r], q[i, r], s[i, r], major[i, r], inter[i, r], minor[i, r])
        plt.savefig('{}/LocalObj{}{}{}.pdf'.format(VIZ, sel[i], SUFFIX, SNAP))

def r_viz_global(xyz, masses, idx_cat, r200, obj_size, SNAP, L_BOX, MIN, CENTER, VIZ, CAT, SUFFIX, sel, katz):
    k = checkKatzConfig(katz)
    if rank != 0:
        return
    isValidSelection(sel, len(obj_size))
    d, q, s, minor, inter, major, c, m = calcMorphGlobal(xyz=xyz, masses=masses, r200=r200[sel], idx_cat=getSubSetIdxCat(idx_cat, obj_size, sel), obj_size=obj_size[sel],
        L_BOX=L_BOX, IT_TOL=k[1], IT_WALL=k[2], IT_MIN=k[3], CENTER=CENTER, SAFE=6, reduced=k[4])
    d, c = d * out_length(), c * out_length()
    for i in range(len(sel)):
        ax = plt.figure().axes3d()
        particles(ax, sel[i], xyz, masses, idx_cat, obj_size, L_BOX, c[i])
        surface(ax, c[i], d[i], q[i], s[i], major[i], inter[i], minor[i])
        arrows(ax, c[i], d[i], q[i], s[i], major[i], inter[i], minor[i])
        plt.savefig('{}/GlobalObj{}{}{}.pdf'.format(VIZ, sel[i], SUFFIX, SNAP))
