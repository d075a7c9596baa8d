"""Every public method on an object of the Gadget class."""
from cosmic_profiles.shape_profs.shape_profs_classes import DensShapeProfsGadget

def make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    return DensShapeProfsGadget(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER)

def m_getShapeCatLocal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getShapeCatLocal(sel, katz)

def m_getShapeCatGlobal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getShapeCatGlobal(sel, katz)

def m_dumpShapeCatLocal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).dumpShapeCatLocal(sel, katz)

def m_dumpShapeCatGlobal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).dumpShapeCatGlobal(sel, katz)

def m_plotGlobalEpsHist(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, nb, sel):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).plotGlobalEpsHist(nb, sel)

def m_plotLocalEpsHist(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, frac, nb, sel):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).plotLocalEpsHist(frac, nb, sel)

def m_plotLocalTHist(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, nb, frac, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).plotLocalTHist(nb, frac, sel, katz)

def m_plotGlobalTHist(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, nb, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).plotGlobalTHist(nb, sel, katz)

def m_plotShapeProfs(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, nb, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).plotShapeProfs(nb, sel, katz)

def m_vizLocalShapes(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).vizLocalShapes(sel, katz)

def m_vizGlobalShapes(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).vizGlobalShapes(sel, katz)

def m_getMassesCenters(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getMassesCenters(sel)

def m_estDensProfs(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, rr, sel, direct, sph, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).estDensProfs(rr, sel, direct, sph, katz)

def m_fitDensProfs(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, dens, rr, method, sel):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).fitDensProfs(dens, rr, method, sel)

def m_estConcentrations(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, dens, rr, method, sel):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).estConcentrations(dens, rr, method, sel)

def m_plotDensProfs(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, dens, rr, densf, rrf, method, nb, sel):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).plotDensProfs(dens, rr, densf, rrf, method, nb, sel)

def m_getObjInfo(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getObjInfo()

def m_getObjInfoGadget(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getObjInfoGadget()

def m_getShapeCatVelLocal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getShapeCatVelLocal(sel, katz)

def m_getShapeCatVelGlobal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getShapeCatVelGlobal(sel, katz)

def m_dumpShapeVelCatLocal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).dumpShapeVelCatLocal(sel, katz)

def m_dumpShapeVelCatGlobal(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER, sel, katz):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).dumpShapeVelCatGlobal(sel, katz)

def m_getXYZMasses(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getXYZMasses()

def m_getVelXYZ(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getVelXYZ()

def m_getR200(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getR200()

def m_getIdxCat(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getIdxCat()

def m_getHeader(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER):
    make(SNAPD, GROUPD, OBJ, SNAP, VIZ, CAT, RV, MIN, CENTER).getHeader()
