"""What the methods of the Gadget class must return and write, in terms of the blocks read from the files."""
import os
import numpy as np
from mpi4py import MPI
from cosmic_profiles.common import config
from cosmic_profiles.shape_profs.shape_profs_classes import DensShapeProfsGadget
from cosmic_profiles.common.python_routines import getSubSetIdxCat, isValidSelection, checkKatzConfig
from cosmic_profiles.shape_profs.shape_profs_algos import calcMorphLocalVelDisp, calcMorphGlobalVelDisp
from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
from cosmic_profiles.gadget import readgadget
from cosmic_profiles.gadget.gen_catalogues import calcObjCat
from spec.classes import out_length, out_mass, path, read, local_cat, global_cat, dump, selected, SHAPE, column
rank = MPI.COMM_WORLD.Get_rank()

def make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    return DensShapeProfsGadget(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER)

def parts(OBJ):
    if OBJ == 'dm':
        return 1
    if OBJ == 'stars':
        return 4
    assert OBJ == 'gas'
    return 0

def r_parttype(OBJ):
    return parts(OBJ)

def block(SNAPD, what, OBJ):
    return readgadget.read_block(SNAPD, what, ptype=[parts(OBJ)])

def groups(GROUPD, RV, OBJ):
    nb, sh, fof, r = getFoFSHData(GROUPD, RV, parts(OBJ))
    if len(nb) == 0:
        raise ValueError("no subhalos")
    return nb, sh, fof, r

def opened(SNAPD, GROUPD, RV, OBJ):
    """an object of the class exists"""
    groups(GROUPD, RV, OBJ)
    if rank == 0:
        assert block(SNAPD, "POS ", OBJ).shape[0] == block(SNAPD, "MASS", OBJ).shape[0]

def objects(GROUPD, RV, OBJ, MIN):
    nb, sh, fof, r = groups(GROUPD, RV, OBJ)
    return calcObjCat(nb, sh, fof, r, MIN)

def box(SNAPD):
    """box sizes of the header are in input length units"""
    return readgadget.header(SNAPD).boxsize * (config.InUnitLength_in_cm / config.getLMVInternal()[0])

def d_g_r200(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    return make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getR200()

def r_g_r200(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    opened(SNAPD, GROUPD, RV, OBJ)
    if rank != 0:
        return None
    idx, r, n = objects(GROUPD, RV, OBJ, MIN)
    return r * out_length()

def d_g_idx(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    i, n = make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getIdxCat()
    return i, n

def r_g_idx(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    opened(SNAPD, GROUPD, RV, OBJ)
    if rank != 0:
        return None, None
    idx, r, n = objects(GROUPD, RV, OBJ, MIN)
    return idx, n

def d_g_xyz(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    x, m = make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getXYZMasses()
    return x, m

def r_g_xyz(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    opened(SNAPD, GROUPD, RV, OBJ)
    if rank != 0:
        return None, None
    return block(SNAPD, "POS ", OBJ) * out_length(), block(SNAPD, "MASS", OBJ) * out_mass()

def d_g_vel(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    return make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getVelXYZ()

def r_g_vel(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    opened(SNAPD, GROUPD, RV, OBJ)
    if rank != 0:
        return None
    return block(SNAPD, "VEL ", OBJ) * (config.getLMVInternal()[2] / config.OutUnitVelocity_in_cm_per_s)

def d_g_header(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    return make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getHeader()

def r_g_header(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    opened(SNAPD, GROUPD, RV, OBJ)
    return readgadget.header(SNAPD)

# ------------------------------------------------------------ shapes in velocity space
def vel_local_cat(SNAPD, OBJ, idx, r, n, SNAP, CENTER, CAT, katz):
    suffix = '_v{}_'.format(OBJ)
    xyz, masses, vel = block(SNAPD, "POS ", OBJ), block(SNAPD, "MASS", OBJ), block(SNAPD, "VEL ", OBJ)
    if not os.path.exists(path(CAT, 'd', 'local', suffix, SNAP)):
        return calcMorphLocalVelDisp(xyz=xyz, vxyz=vel, masses=masses, r200=r, idx_cat=idx, obj_size=n, L_BOX=box(SNAPD), r_over_r200=katz[0],
                                     IT_TOL=katz[1], IT_WALL=katz[2], IT_MIN=katz[3], CENTER=CENTER, reduced=katz[4], shell_based=katz[5])
    return local_cat(xyz, masses, idx, r, n, SNAP, 0, CENTER, CAT, suffix, katz)

def vel_global_cat(SNAPD, OBJ, idx, r, n, SNAP, CENTER, CAT, katz):
    suffix = '_v{}_'.format(OBJ)
    xyz, masses, vel = block(SNAPD, "POS ", OBJ), block(SNAPD, "MASS", OBJ), block(SNAPD, "VEL ", OBJ)
    if not os.path.exists(path(CAT, 'd', 'global', suffix, SNAP)):
        d, q, s, minor, inter, major, c, m = calcMorphGlobalVelDisp(xyz=xyz, vxyz=vel, masses=masses, r200=r, idx_cat=idx, obj_size=n, L_BOX=box(SNAPD),
                                       IT_TOL=katz[1], IT_WALL=katz[2], IT_MIN=katz[3], CENTER=CENTER, SAFE=6, reduced=katz[4])
        return column(d, q, s, minor, inter, major, c, m)
    return global_cat(xyz, masses, idx, r, n, SNAP, 0, CENTER, CAT, suffix, katz)

def d_vel_local(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    return make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getShapeCatVelLocal(sel, katz)

def r_vel_local(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    opened(SNAPD, GROUPD, RV, OBJ)
    k = checkKatzConfig(katz)
    if rank != 0:
        return None
    oi, orr, on = objects(GROUPD, RV, OBJ, MIN)
    idx, r, n = selected(oi, orr, on, sel)
    d, q, s, minor, inter, major, c, m = vel_local_cat(SNAPD, OBJ, idx, r, n, SNAP, CENTER, CAT, k)
    out = np.zeros((len(sel), k[0].shape[0]), dtype=SHAPE)
    out["d"] = d * out_length()
    out["q"] = q
    out["s"] = s
    out["minor"] = minor
    out["inter"] = inter
    out["major"] = major
    out["is_conv"] = ~np.isnan(q)
    return out

def d_vel_global(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    return make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getShapeCatVelGlobal(sel, katz)

def r_vel_global(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    opened(SNAPD, GROUPD, RV, OBJ)
    k = checkKatzConfig(katz)
    if rank != 0:
        return None
    oi, orr, on = objects(GROUPD, RV, OBJ, MIN)
    idx, r, n = selected(oi, orr, on, sel)
    d, q, s, minor, inter, major, c, m = vel_global_cat(SNAPD, OBJ, idx, r, n, SNAP, CENTER, CAT, k)
    out = np.zeros((len(sel),), dtype=SHAPE)
    out["d"] = d[:,0] * out_length()
    out["q"] = q[:,0]
    out["s"] = s[:,0]
    out["minor"] = minor[:,0,:]
    out["inter"] = inter[:,0,:]
    out["major"] = major[:,0,:]
    out["is_conv"] = ~np.isnan(q[:,0])
    return out

def d_dump_vel_local(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).dumpShapeVelCatLocal(sel, katz)

def r_dump_vel_local(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    opened(SNAPD, GROUPD, RV, OBJ)
    k = checkKatzConfig(katz)
    if rank == 0:
        oi, orr, on = objects(GROUPD, RV, OBJ, MIN)
        idx, r, n = selected(oi, orr, on, sel)
        dump('local', vel_local_cat(SNAPD, OBJ, idx, r, n, SNAP, CENTER, CAT, k), CAT, '_v{}_'.format(OBJ), SNAP)

def d_dump_vel_global(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).dumpShapeVelCatGlobal(sel, katz)

def r_dump_vel_global(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    opened(SNAPD, GROUPD, RV, OBJ)
    k = checkKatzConfig(katz)
    if rank == 0:
        oi, orr, on = objects(GROUPD, RV, OBJ, MIN)
        idx, r, n = selected(oi, orr, on, sel)
        dump('global', vel_global_cat(SNAPD, OBJ, idx, r, n, SNAP, CENTER, CAT, k), CAT, '_v{}_'.format(OBJ), SNAP)

# ------------------------------------------------------------ the inherited queries see the data of the files
def d_g_dump(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).dumpShapeCatLocal(sel, katz)

def r_g_dump(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    opened(SNAPD, GROUPD, RV, OBJ)
    k = checkKatzConfig(katz)
    if rank == 0:
        oi, orr, on = objects(GROUPD, RV, OBJ, MIN)
        idx, r, n = selected(oi, orr, on, sel)
        cat = local_cat(block(SNAPD, "POS ", OBJ), block(SNAPD, "MASS", OBJ), idx, r, n, SNAP, box(SNAPD), CENTER, CAT, '_{}_'.format(OBJ), k)
        dump('local', cat, CAT, '_{}_'.format(OBJ), SNAP)
