From ba77c96afe52855ce14f26fed495bdba12a61930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 01/28] fix: mass unit conversions used a key that is not in
 the unit table

MassInternalToOut and MassInToInternal looked up 'E+10M_sun/h', which
getAdmissibleLMV does not define, so both raised KeyError on every call.
---
 cosmic_profiles/common/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..0da9c14 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From 25bb9c8a24723a333e8f274185a1e12e576d4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 02/28] fix: local velocity dispersion shapes never received
 the velocities

calcMorphLocalVelDisp allocated vxyz_obj but did not fill it, so every
local velocity dispersion tensor was computed from zeros.
---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..647d707 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -821,6 +821,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
-- 
2.43.0


From f2ca13fb30da3dc876a02d49e56c8d2c5ebefa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:00 +0000
Subject: [PATCH 03/28] fix: ellipsoidal direct binning overwrote the particle
 indices

The members of object p were all replaced by the p-th entry of the flat
index list before the profile was computed, so each object consisted of
copies of one particle (and the caller's catalogue was modified).
---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..2b8b9ae 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From 084c7681ed6dbf0c52607c5feea0251b5bea46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 04/28] fix: in-place periodic wrapping mirrored particles and
 ignored the z axis

CythonHelpers.respectPBCNoRef decided the z axis from the y distance and
reflected particles about L_BOX/2 instead of translating them by L_BOX as
the Python version (used for the centers) does, so an object straddling
the box boundary was torn apart or mirrored.
---
 .../cython_helpers/helper_class.pyx           | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..d046ceb 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -171,7 +171,7 @@ cdef class CythonHelpers:
         Modify xyz inplace so that it respects the box periodicity.
         
         If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        by more than L_BOX/2, translate those particles by L_BOX
         
         :param xyz: coordinates of particles of type 1 or type 4
         :type xyz: (N^3x3) floats
@@ -182,20 +182,31 @@ cdef class CythonHelpers:
         
         if L_BOX == 0.0:
             return xyz
-        cdef int ref = 0
-        cdef float dist_x
-        cdef float dist_y
-        cdef float dist_z
+        if xyz.shape[0] == 0:
+            return xyz
+        cdef double ref_x = xyz[0,0]
+        cdef double ref_y = xyz[0,1]
+        cdef double ref_z = xyz[0,2]
+        cdef double dist_x
+        cdef double dist_y
+        cdef double dist_z
+        cdef int i
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
+            dist_x = xyz[i,0]-ref_x
             if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
+                xyz[i,0] = xyz[i,0]-L_BOX
+            elif dist_x < -L_BOX/2:
+                xyz[i,0] = xyz[i,0]+L_BOX
+            dist_y = xyz[i,1]-ref_y
             if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
+                xyz[i,1] = xyz[i,1]-L_BOX
+            elif dist_y < -L_BOX/2:
+                xyz[i,1] = xyz[i,1]+L_BOX
+            dist_z = xyz[i,2]-ref_z
             if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+                xyz[i,2] = xyz[i,2]-L_BOX
+            elif dist_z < -L_BOX/2:
+                xyz[i,2] = xyz[i,2]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
-- 
2.43.0


From 9c15b04c2be6a065db4cbad2236e7831fc6e16e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 05/28] fix: getShapeCatVelGlobal passed two arguments too many

_getShapeCatVelGlobalBase takes CENTER and SAFE from self; passing them
positionally raised TypeError on every call.
---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From 73ee6ab1a970848e404db9171c39c67c03f40c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 06/28] fix: getLocalEpsHist could not run

getCatWithinFracR200 was called without the masses, indexed .base of an
ndarray, dropped the box size and used a keyword scipy has removed, so
plotLocalEpsHist raised for every input.
---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..e3d946b 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -593,15 +593,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, workers=-1)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..37fc824 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
-- 
2.43.0


From 2228948890a5f8bcf48765548da63c39d104dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 07/28] fix: output directories were created relative to the
 package

mkdir ran with the package directory as its working directory while the
files are written relative to the caller's, so a relative CAT_DEST or
VIZ_DEST was never created where it is needed.
---
 cosmic_profiles/common/cosmic_base_class.pyx        |  8 ++++----
 cosmic_profiles/dens_profs/dens_profs_tools.py      |  2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx |  4 ++--
 cosmic_profiles/shape_profs/shape_profs_tools.py    | 10 +++++-----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..c2e36b7 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -468,7 +468,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -522,7 +522,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -583,7 +583,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -641,7 +641,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..ffb5d3e 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -155,7 +155,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         best_fit_dict = getModelParsDict(best_fit, method['profile'])
         del r200
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Go to outgoing unit system
         l_internal, m_internal, vel_internal = config.getLMVInternal()
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..aafd913 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -165,7 +165,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
                                 
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
@@ -260,7 +260,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
         
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 37fc824..9f977ed 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -149,7 +149,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         ERROR_METHOD = "median_quantile"
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Q
         plt.figure()
@@ -278,7 +278,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -333,7 +333,7 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -379,7 +379,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
     
     if rank == 0:
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         eps = getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER)
         plt.figure()
@@ -424,7 +424,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Direct fitting result prep, needed for both D and A
         eps = getEpsilon(idx_cat_new, obj_size_new, xyz, masses, L_BOX, CENTER)
-- 
2.43.0


From 93f26bedc859e18d38b85d710eab9b187a20fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 08/28] fix: cached FoF data ignored later changes of the input
 unit system

The conversion factor was read from config inside the cached function, so
after updateInUnitSystem() the radii in the old units were returned.
---
 cosmic_profiles/gadget/read_fof.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 5fb7510..86f7633 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -42,7 +42,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target):
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -62,8 +62,6 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -134,5 +132,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
\ No newline at end of file
+    l_internal, m_internal, vel_internal = config.getLMVInternal()
+    l_curr_over_target = config.InUnitLength_in_cm/l_internal # Part of the cache key, the in unit system may be updated
+    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
\ No newline at end of file
-- 
2.43.0


From c867990c323a96bac58c21db2b3d8ec496bf32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 09/28] fix: blocks of format 2 Gadget files were never found

find_block compared the str name asked for with the bytes read from the
file, which are never equal in Python 3.
---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..17377f3 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -118,7 +118,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
     if format==2:
       f.seek(4, os.SEEK_CUR)
       curblock = f.read(4)
-      if (block == curblock):
+      if (block.encode("ascii") == curblock):
         found = True
       f.seek(8, os.SEEK_CUR)  
     else:
-- 
2.43.0


From 99d69dc2f4570576a9106d8f33c00685133a94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 10/28] fix: group catalogue files were never closed

getFoFSHData opened one HDF5 file per group file and kept them all open.
---
 cosmic_profiles/gadget/read_fof.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 86f7633..87d3229 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -77,6 +77,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             if 'Subhalo/SubhaloLenType' in g:
                 sh_len = np.hstack((sh_len, np.int32([np.int32(g['Subhalo/SubhaloLenType'][i,PART_TYPE]) for i in range(g['Subhalo/SubhaloLenType'].shape[0])])))        
                 count_sh += g['Subhalo/SubhaloLenType'].shape[0]
+            g.close()
         
         count_fof_new = comm.gather(count_fof, root=0)
         count_fof_new = comm.bcast(count_fof_new, root = 0)
-- 
2.43.0


From edcd1dfa4aaede2f18f0b257aa3a8d255a334650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 11/28] fix: a pinned rho_s was ignored by the density profile
 fit

fitDensProf honours every fixed parameter of the model except rho_s.
---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index ffb5d3e..5b545dd 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -261,6 +261,12 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     # Discard nan values in median
     R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
     median = median[~np.isnan(median)]
+    if 'rho_s' in method:
+        rho_s_lbound = method['rho_s']/np.average(median) # It is the rescaled median that is fit
+        rho_s_rbound = rho_s_lbound
+    else:
+        rho_s_lbound = 1e-7
+        rho_s_rbound = np.inf
     # Set initial guess and minimize scalar function
     try:
         if method['profile'] == 'einasto':
@@ -277,7 +283,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
@@ -305,7 +311,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         else:
             if 'r_s' in method:
@@ -315,7 +321,7 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
+            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
             best_fit = res.x
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
-- 
2.43.0


From 494c25faf535d4b798bb9ad73b5724030fe34d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 12/28] fix: pinned fit parameters were not converted to the
 units of the fit

rho_s and r_s are returned in the output units but a value pinned by the
user was taken to be in internal units, so with any other output unit
system the parameter was not held at the given value.
---
 cosmic_profiles/common/cosmic_base_class.pyx | 25 +++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index c2e36b7..3f313ca 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -998,6 +998,25 @@ cdef class CosmicBase:
         else:
             return None
         
+    def _getMethodInternal(self, dict method):
+        """ Convert parameters that are to be kept fixed during fitting to the units used for fitting
+        
+        :param method: describes density profile model assumed for fitting, ``method['rho_s']`` in units of 
+            config.OutUnitMass_in_g/config.OutUnitLength_in_cm**3 and ``method['r_s']`` in units of 
+            config.OutUnitLength_in_cm, if provided
+        :type method: dictionary
+        :return: copy of ``method`` with ``method['rho_s']`` in M_sun*h^2/(Mpc)**3 and ``method['r_s']`` in Mpc/h
+        :rtype: dictionary"""
+        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_curr_over_target = config.OutUnitLength_in_cm/l_internal
+        m_curr_over_target = config.OutUnitMass_in_g/(m_internal/self.MASS_UNIT)
+        method = dict(method)
+        if 'rho_s' in method:
+            method['rho_s'] = method['rho_s']*m_curr_over_target*l_curr_over_target**(-3)
+        if 'r_s' in method:
+            method['r_s'] = method['r_s']*l_curr_over_target
+        return method
+    
     def _fitDensProfsBase(self, double[:] r200, int[:] obj_size, double[:,:] dens_profs, double[:] r_over_r200, dict method, obj_numbers):
         """ Get best-fit results for density profile fitting
         
@@ -1029,7 +1048,7 @@ cdef class CosmicBase:
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
-            best_fits = self._getDensProfsBestFitsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], method)
+            best_fits = self._getDensProfsBestFitsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], self._getMethodInternal(method))
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_target/config.OutUnitMass_in_g
             best_fits[:,0] = best_fits[:,0]*m_curr_over_target*l_curr_over_target**(-3)
@@ -1075,7 +1094,7 @@ cdef class CosmicBase:
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
-            cs = self._getConcentrationsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], method)
+            cs = self._getConcentrationsBase(dens_profs, r_over_r200.base, r200.base[obj_numbers], self._getMethodInternal(method))
             return cs
         else:
             return None
@@ -1122,7 +1141,7 @@ cdef class CosmicBase:
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
-            drawDensProfs(self.VIZ_DEST, self.SNAP, r200.base[obj_numbers], dens_profs_fit_, r_over_r200_fit.base, dens_profs_, r_over_r200.base, obj_masses, obj_centers, method, nb_bins, self.start_time, self.MASS_UNIT, suffix = suffix)
+            drawDensProfs(self.VIZ_DEST, self.SNAP, r200.base[obj_numbers], dens_profs_fit_, r_over_r200_fit.base, dens_profs_, r_over_r200.base, obj_masses, obj_centers, self._getMethodInternal(method), nb_bins, self.start_time, self.MASS_UNIT, suffix = suffix)
             del obj_centers; del obj_masses; del r_over_r200_fit; del dens_profs; del r_over_r200
         else:
             del obj_centers; del obj_masses
-- 
2.43.0


From 8b84a11dc569df6c16dac00a5335a5c631a1eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 13/28] fix: local ellipticity histogram overwrote the global
 one

Both were saved as EpsCount<suffix><snap>.pdf; name them like the
triaxiality histograms.
---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 9f977ed..2bff28a 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -388,7 +388,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
         plt.ylabel('Normalized Bin Count')
         plt.grid(axis='y', alpha=0.75)
         plt.xlim(0.0, 1.0)
-        plt.savefig("{0}/EpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
+        plt.savefig("{0}/GlobalEpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
         
 def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SNAP, frac_r200, suffix = '_', HIST_NB_BINS = 11):
     """ Plot ellipticity histogram
@@ -434,4 +434,4 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         plt.ylabel('Normalized Bin Count')
         plt.grid(axis='y', alpha=0.75)
         plt.xlim(0.0, 1.0)
-        plt.savefig("{0}/EpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
\ No newline at end of file
+        plt.savefig("{0}/LocalEpsCount{1}{2}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
\ No newline at end of file
-- 
2.43.0


From dd6e9e4ac52888c83a97eb03c82c3321f190c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 14/28] fix: density profile plots of different object types
 overwrote each other

drawDensProfs accepted the suffix but left it out of the file names.
---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 5b545dd..27e6239 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -183,7 +183,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.xlabel(r"$r/R_{200}$")
         plt.ylabel(r"$\rho$ [${}$]".format(dens_label))
         plt.legend(loc="upper right", fontsize="x-small")
-        plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
+        plt.savefig("{}/RhoProf{}{}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
             obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
@@ -208,7 +208,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
             plt.xlabel(r"$r/R_{200}$")
             plt.ylabel(r"$\rho$ [${}$]".format(dens_label))
             plt.legend(loc="upper right", fontsize="x-small")
-            plt.savefig("{}/RhoProfM{:.2f}_{}.pdf".format(VIZ_DEST, np.float32(np.log10(max_min_m[group])), SNAP), bbox_inches="tight")
+            plt.savefig("{}/RhoProfM{:.2f}{}{}.pdf".format(VIZ_DEST, np.float32(np.log10(max_min_m[group])), suffix, SNAP), bbox_inches="tight")
         del y; del err_low; del err_high
         return
 
-- 
2.43.0


From 6c7d311b506f94fa33e1c46b461d1001c23d0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 15/28] fix: getObjInfoGadget compared every particle index
 with a list

The flat index catalogue was treated as a list of lists, which raises with
current NumPy and counted particles instead of objects before that.
---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index aafd913..1ab5a2d 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -841,7 +841,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank, self.start_time, "The total number of objects is {0}".format(len(nb_shs)))
         print_status(rank, self.start_time, "The total number of SHs (subhalos) is {0}".format(len(sh_len)))
         print_status(rank, self.start_time, "The number of objects that have no SH is {0}".format(nb_shs[nb_shs == 0].shape[0]))
-        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len([x for x in self.idx_cat.base if x != []])))
+        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(self.obj_size.base.shape[0]))
         del nb_shs; del sh_len; del fof_sizes; del group_r200
         
     def getHeader(self): # Header
-- 
2.43.0


From 9984a3b9173003a32d96dc1e79f7dcc2c0dd7bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 16/28] fix: DensShapeProfsGadget could not be built on
 non-root processes

The base class takes .base of every array, which does not exist for the
None handed over by all processes but the root.
---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 1ab5a2d..68c85c4 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -581,11 +581,11 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             del nb_shs; del sh_len; del fof_sizes; del group_r200
         else:
             del nb_shs; del sh_len; del fof_sizes; del group_r200; del xyz; del masses  
-            obj_cat = None
-            obj_r200 = None
-            obj_size = None
-            xyz = None
-            masses = None
+            obj_cat = np.zeros((0,), dtype = np.int32)
+            obj_r200 = np.zeros((0,), dtype = np.float64)
+            obj_size = np.zeros((0,), dtype = np.int32)
+            xyz = np.zeros((0,3), dtype = np.float64)
+            masses = np.zeros((0,), dtype = np.float64)
         # Find L_BOX
         head = readgadget.header(self.SNAP_DEST)
         L_BOX = np.float64(head.boxsize)
-- 
2.43.0


From 853f863e78976b89683a0654689cc7d74cec02aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:53 +0000
Subject: [PATCH 17/28] fix: a rejected unit system update still changed
 LittleH

Both setters assigned LittleH before they validated the unit names.
---
 cosmic_profiles/common/config.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 0da9c14..83c0c8b 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -7,10 +7,11 @@ comm = MPI.COMM_WORLD
 rank = comm.Get_rank()
 size = comm.Get_size()
 
-def getAdmissibleLMV():
-    global LittleH
-    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/LittleH, 'Mpc/h': 3.085678e24/LittleH, 'Gpc/h': 3.085678e27/LittleH, 'pc': 3.085678e18, 'pc/h': 3.085678e18/LittleH}
-    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/LittleH, 'E+10Msun/h': 1.989e43/LittleH}
+def getAdmissibleLMV(little_h = None):
+    if little_h is None:
+        little_h = LittleH
+    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/little_h, 'Mpc/h': 3.085678e24/little_h, 'Gpc/h': 3.085678e27/little_h, 'pc': 3.085678e18, 'pc/h': 3.085678e18/little_h}
+    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/little_h, 'E+10Msun/h': 1.989e43/little_h}
     velocity_in_cm_per_s_d = {'km/s': 1e5}
     return length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d
 
@@ -101,9 +102,8 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     global InUnitMass_in_g
     global InUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -115,6 +115,7 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
     InUnitLength_in_cm = length_in_cm
     InUnitMass_in_g = mass_in_g
+    LittleH = little_h
     InUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
     
 def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
@@ -133,9 +134,8 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     global OutUnitMass_in_g
     global OutUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -147,6 +147,7 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
     OutUnitLength_in_cm = length_in_cm
     OutUnitMass_in_g = mass_in_g
+    LittleH = little_h
     OutUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
     
 def LengthInternalToOut(length_arr):
-- 
2.43.0


From 8577f5415872d6bbf7a80b7240043c876ae8d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 18/28] fix: genHalo added rho_s to the caller's parameter
 dictionary

---
 cosmic_profiles/mock_tools/mock_halo_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/mock_tools/mock_halo_gen.py b/cosmic_profiles/mock_tools/mock_halo_gen.py
index 9dba9f6..b58fce0 100644
--- a/cosmic_profiles/mock_tools/mock_halo_gen.py
+++ b/cosmic_profiles/mock_tools/mock_halo_gen.py
@@ -58,7 +58,7 @@ def genHalo(tot_mass, res, model_pars, profile, a, b, c):
                 r_s = model_pars['r_s']
                 return 4*np.pi*r**2/((r/r_s)*(1+r/r_s)**2)
         rho_s = tot_mass/quad(getMassIntegrand0, 1e-8, a[-1], args=(profile, model_pars))[0]
-        model_pars['rho_s'] = rho_s
+        model_pars = dict(model_pars, rho_s = rho_s) # Copy, otherwise the caller's dictionary would be changed
         
         # Determine number of particles in second shell (first proper shell)
         def getMassIntegrand(r, model_pars):
-- 
2.43.0


From 6a6ffb20f5ca27ca5ac88580de63ee8aa81b1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 19/28] fix: genHalo took any unknown profile name for nfw

---
 cosmic_profiles/mock_tools/mock_halo_gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/mock_tools/mock_halo_gen.py b/cosmic_profiles/mock_tools/mock_halo_gen.py
index b58fce0..321a4ab 100644
--- a/cosmic_profiles/mock_tools/mock_halo_gen.py
+++ b/cosmic_profiles/mock_tools/mock_halo_gen.py
@@ -37,6 +37,8 @@ def genHalo(tot_mass, res, model_pars, profile, a, b, c):
     :rtype: 3 (N,) float arrays, 2 floats
     """
     print('Starting genHalo()')
+    if profile not in ['einasto', 'alpha_beta_gamma', 'hernquist', 'nfw']:
+        raise ValueError("The profile must be either 'einasto', 'alpha_beta_gamma', 'hernquist' or 'nfw'.")
         
     if rank == 0:
         # Determine rho_s in units of M_sun*h^2/Mpc^3
-- 
2.43.0


From b8abc80e9a374b839fea6a5232ad0827de21e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 20/28] fix: objects on the edge of a mass bin were missing
 from its density profile plot

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 27e6239..e6a3b8e 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -131,7 +131,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         
         # Mass splitting
         max_min_m, obj_m_groups, obj_center_groups, idx_groups = M_split(MASS_UNIT*obj_masses, obj_centers, start_time, NB_BINS = nb_bins)
-        del obj_centers; del obj_center_groups; del idx_groups
+        del obj_centers; del obj_center_groups
         print_status(rank, start_time, "The number of objects considered is {0}".format(r200s.shape[0]))
         print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(np.sum(np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[0] and obj_masses[i]*MASS_UNIT < max_min_m[1]) else 0 for i in range(r200s.shape[0])]))))
         print_status(rank, start_time, "The number of mass bins is {0}".format(len(obj_m_groups)))
@@ -186,7 +186,8 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.savefig("{}/RhoProf{}{}.pdf".format(VIZ_DEST, suffix, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
-            obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
+            obj_pass_m = np.zeros((r200s.shape[0],), dtype = np.int32)
+            obj_pass_m[idx_groups[group]] = 1 # Includes the objects whose mass is a bin edge
             # Find profile median
             y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
-- 
2.43.0


From aa4d3b3263ae21cac55c3661c4e826005fa3c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:40 +0000
Subject: [PATCH 21/28] fix: an unconverged radius elsewhere dropped an object
 from the local triaxiality histogram

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 2bff28a..ab3f29d 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -270,7 +270,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
     if rank == 0:
         idx = np.zeros((d.shape[0],), dtype = np.int32)
         for obj in range(idx.shape[0]):
-            idx[obj] = np.argmin(abs(d[obj] - r200[obj]*frac_r200))        
+            idx[obj] = np.argmin(abs(r_over_r200 - frac_r200)) # Not from d[obj], which is nan at unconverged radii
         
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
-- 
2.43.0


From de18b85c618cb49cd121679a1c8926bdb4b8df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 22/28] fix: keep the dtype of cached array arguments, lost for
 empty arrays (groups without any subhalo)

---
 cosmic_profiles/common/caching.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..81d3c6e 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -270,12 +270,12 @@ def np_cache_factory(nb_arrs, nb_lists):
         
         GB = 1024**3 # in bytes
         @lru_cache(maxsize = config.CACHE_MAXSIZE, use_memory_up_to=(config.GBs * GB))
-        def cached_wrapper(*args_cached, dims):
+        def cached_wrapper(*args_cached, dims, dtypes):
             args_l = []
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype = dtypes[arr_nb]).reshape(dims[arr_nb])
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -284,16 +284,19 @@ def np_cache_factory(nb_arrs, nb_lists):
         def wrapper(*args):
             args_l = []
             dims = []
+            dtypes = []
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
                 dims.append(args_l[arr_nb].shape)
+                dtypes.append(args_l[arr_nb].dtype) # Would be lost for an empty array
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
             dims = tuple(dims)
+            dtypes = tuple(dtypes)
             args_l = tuple(args_l)
-            return cached_wrapper(*args_l, dims=dims)
+            return cached_wrapper(*args_l, dims=dims, dtypes=dtypes)
     
         # Copy lru_cache attributes over too
         wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From 65606875bdeb0deded508d3ff201f217a3a172c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 23/28] fix: name the second file in the message about a
 missing snapshot (NameError before)

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 17377f3..0437ddf 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -198,7 +198,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     single_file = False
   else:
     print("file not found:", filename)
-    print("and:", curfilename);  sys.exit()
+    print("and:", filename+".0");  sys.exit()
   
   head = snapshot_header(curfilename)
   format   = head.format
-- 
2.43.0


From 2b87ea7c7cfe8a2fd564426ac5de0cea7da65ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 24/28] fix: long particle IDs of binary snapshots were cut to
 32 bits

---
 cosmic_profiles/gadget/readsnap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 0437ddf..26d9d08 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -321,9 +321,6 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
         else:
           allpartnum += nall[j]
 
-  # Define the array containing the information
-  data = np.empty(allpartnum,dt)
-
   # Loop over all subfiles    
   for i in range(filenum):
 
@@ -355,6 +352,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       if block=="ID  ":
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
+      data = np.empty(allpartnum,dt) # Define the array containing the information
         
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-- 
2.43.0


From c7d3e19b9be01bb29b3ca8b57445cf9dbf454f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 25/28] fix: particle IDs went through floating-point numbers,
 which lost digits of large ones

---
 cosmic_profiles/gadget/readgadget.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..cc7946f 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,8 +100,8 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
-        return array
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        return array if block=="ID  " else array/unit_fac
     else:
         prefix = 'PartType%d/'%ptype
         f = h5py.File(filename, 'r')
@@ -112,7 +112,8 @@ def read_field(snapshot, block, ptype):
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:]
+            if block!="ID  ":  array = array/unit_fac
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -166,7 +167,8 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            data = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            array[offset:offset+Nall[pt]] = data if block=="ID  " else data/unit_fac
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
-- 
2.43.0


From 448efef95aa1d66f37dfebef699f65cbed7791c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 26/28] fix: a file of a snapshot without any particle of the
 requested type made the whole snapshot unreadable

---
 cosmic_profiles/gadget/readgadget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index cc7946f..ad2901a 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -107,8 +107,10 @@ def read_field(snapshot, block, ptype):
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if block=="MASS" and Masses[ptype] != 0.0: # one mass for all particles of this type
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
+            elif Npart[ptype] == 0: # no particle of this type in this file
+                array = np.zeros((0,3) if block in ("POS ", "VEL ") else 0, np.uint64 if block=="ID  " else np.float64)
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-- 
2.43.0


From 703542d0f16b7a43f35407a6e041bceccf44ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 27/28] fix: an invalid RVIR_OR_R200 left the ranks without
 group files waiting for ever

---
 cosmic_profiles/gadget/read_fof.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 87d3229..cfe93ab 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -47,6 +47,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
         group_r200 = np.empty(0, dtype = np.float32)
+        if RVIR_OR_R200 not in ('Rvir', 'R200'): # On every rank, also those without any file to read
+            raise ValueError("RVIR_OR_R200 should be either 'Rvir' or 'R200'. Please modify the provided RVIR_OR_R200 variable.")
         hdf5GroupFilenamesList = glob.glob('{}/*.hdf5'.format(HDF5_GROUP_DEST))
         # Raise Error message if empty
         if len(hdf5GroupFilenamesList) == 0:
@@ -68,10 +70,8 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
                 fof_sizes = np.hstack((fof_sizes, np.int32([np.int32(g['Group/GroupLenType'][i,PART_TYPE]) for i in range(g['Group/GroupLenType'].shape[0])])))
                 if RVIR_OR_R200 == 'Rvir':
                     group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_TopHat200'][:]*l_curr_over_target)))
-                elif RVIR_OR_R200 == 'R200':
-                    group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_Mean200'][:]*l_curr_over_target)))
                 else:
-                    raise ValueError("RVIR_OR_R200 should be either 'Rvir' or 'R200'. Please modify the provided RVIR_OR_R200 variable.")
+                    group_r200 = np.hstack((group_r200, np.float32(g['Group/Group_R_Mean200'][:]*l_curr_over_target)))
                 nb_shs = np.hstack((nb_shs, np.int32([np.int32(g['Group/GroupNsubs'][i]) for i in range(g['Group/GroupNsubs'].shape[0])])))
                 count_fof += g['Group/GroupLenType'].shape[0]
             if 'Subhalo/SubhaloLenType' in g:
-- 
2.43.0


From 06421337cb52eba98729737e068143072522678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 28/28] fix: processes could wait for ever in getFoFSHData once
 the cache of one of them was full

---
 cosmic_profiles/gadget/read_fof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index cfe93ab..ca59a4d 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -3,7 +3,7 @@
 
 import numpy as np
 import h5py
-from cosmic_profiles.common.caching import np_cache_factory
+from cosmic_profiles.common.caching import lru_cache
 import glob
 from mpi4py import MPI
 from cosmic_profiles.common import config
@@ -132,7 +132,9 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
-        getFoFSHData.inner = np_cache_factory(0,0)(inner)
+        # Limited by the number of entries: a limit on the memory left differs between the ranks, and those that
+        # evicted an entry would wait in the collective calls above for those that did not
+        getFoFSHData.inner = lru_cache(maxsize = config.CACHE_MAXSIZE)(inner)
     l_internal, m_internal, vel_internal = config.getLMVInternal()
     l_curr_over_target = config.InUnitLength_in_cm/l_internal # Part of the cache key, the in unit system may be updated
     getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
-- 
2.43.0

