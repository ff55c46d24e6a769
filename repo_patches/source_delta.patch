From a2fcb28830b385de3f4fdc2dda73b63d9243cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 01/33] fix: assembled strain tensor used the transposed x-y
 coupling block

Row (j, u_x), column (i, u_y) of int 2 e(u):e(v) is int dy(phi_j) dx(phi_i),
i.e. matElem2d_dxudyu[j][i], as the matrix-free variant has it. The assembled
element matrix was not symmetric, so assembled and matrix-free operators
differed on every boundary without Dirichlet conditions.
---
 cafes/fem/matElem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matElem.hpp b/cafes/fem/matElem.hpp
index 00f1609..c8afc3b 100644
--- a/cafes/fem/matElem.hpp
+++ b/cafes/fem/matElem.hpp
@@ -392,7 +392,7 @@ auto getMatElemStrainTensorA(std::array<double, 2> const &h)
         {
             MatElem[i + j * 8] =
                 2 * hyx * matElem2d_dxudxu[i][j] + hxy * matElem2d_dyudyu[i][j];
-            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[i][j];
+            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[j][i];
 
             MatElem[i + (j + 4) * 8] = matElem2d_dxudyu[i][j];
             MatElem[i + 4 + (j + 4) * 8] =
-- 
2.43.0


From 819c73ff59c7b6b98d9eb619939aa43941b6703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 02/33] fix: Dirichlet rows of an x-periodic assembled matrix
 on one process were misnumbered

---
 cafes/fem/bc.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..7aebd9a 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,8 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +226,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +242,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +262,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From e05f4caa52f47cf2e9578055613463381d4e4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 03/33] fix: the composite mass product used velocity cell
 sizes on the pressure grid

---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..2e4dc72 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -279,7 +279,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From 3b8b49cb7ed8e1a866f9642ee71b60c33bc9a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 04/33] fix: laplacian_assembling returned an uninitialised
 error code

---
 cafes/fem/assembling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/assembling.hpp b/cafes/fem/assembling.hpp
index ed63c33..b4a98cf 100644
--- a/cafes/fem/assembling.hpp
+++ b/cafes/fem/assembling.hpp
@@ -476,7 +476,7 @@ namespace cafes
     PetscErrorCode laplacian_assembling(DM &dv, Mat &A,
                                         const std::array<double, Dimensions> &h)
     {
-        PetscErrorCode ierr;
+        PetscErrorCode ierr = 0;
 
         DMDALocalInfo info;
         DMDAGetLocalInfo(dv, &info);
-- 
2.43.0


From b89421916bc5859ae5d79cdcaccca264c61b7722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 05/33] fix: 3D and single-grid meshes were used before being
 set up

---
 cafes/fem/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..8b8539a 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -252,6 +252,7 @@ namespace cafes
         ierr = DMDACreate2d(PETSC_COMM_WORLD, b_type[0], b_type[1], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
@@ -275,6 +276,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mpres[0], mpres[1], mpres[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &DAPressure);CHKERRQ(ierr);
+        ierr = DMSetUp(DAPressure);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAPressure, 0, "p");CHKERRQ(ierr);
 
         ierr = DMDAGetInfo(DAPressure, NULL, NULL, NULL, NULL, &npx, &npy, &npz, NULL, NULL, NULL, NULL, NULL, NULL);CHKERRQ(ierr);
@@ -290,6 +292,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], npx, npy, npz,
                             3, 1, lxu, lyu, lzu, &DAVelocity);CHKERRQ(ierr);
+        ierr = DMSetUp(DAVelocity);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 0, "u");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 1, "v");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 2, "w");CHKERRQ(ierr);
@@ -319,6 +322,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 1cb0e96daf2b2407d92c267e217de4167ad2859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 06/33] fix: ownership arrays allocated one by one were freed
 as one coalesced block

---
 cafes/fem/mesh.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index 8b8539a..6370086 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -234,7 +234,8 @@ namespace cafes
 
         ierr = DMDestroy(&DAPressure);CHKERRQ(ierr);
         ierr = DMDestroy(&DAVelocity);CHKERRQ(ierr);
-        ierr = PetscFree2(lxu, lyu);CHKERRQ(ierr);
+        ierr = PetscFree(lxu);CHKERRQ(ierr);
+        ierr = PetscFree(lyu);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
     }
@@ -304,7 +305,9 @@ namespace cafes
 
         ierr = DMDestroy(&DAPressure);CHKERRQ(ierr);
         ierr = DMDestroy(&DAVelocity);CHKERRQ(ierr);
-        ierr = PetscFree3(lxu, lyu, lzu);CHKERRQ(ierr);
+        ierr = PetscFree(lxu);CHKERRQ(ierr);
+        ierr = PetscFree(lyu);CHKERRQ(ierr);
+        ierr = PetscFree(lzu);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 89c6635a315efaf9852d6d475479648591957419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 07/33] fix: quaternions were divided by their squared norm, so
 rotations about a non-unit axis scaled lengths

---
 cafes/particle/geometry/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/quaternion.hpp b/cafes/particle/geometry/quaternion.hpp
index 7d2e35a..7abad25 100644
--- a/cafes/particle/geometry/quaternion.hpp
+++ b/cafes/particle/geometry/quaternion.hpp
@@ -90,7 +90,7 @@ namespace cafes
       void normalize()
       {
         auto norm = std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.);
-        components_ /= norm;
+        components_ /= std::sqrt(norm);
       }
 
       quaternion conj() const
-- 
2.43.0


From 937ad735f951ef47dd4c8b9b1f17c72cecfbf9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 08/33] fix: vector += velocity subtracted and velocity -
 vector had the wrong sign

---
 cafes/particle/geometry/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..3668f8b 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -117,7 +117,7 @@ namespace cafes
 
       vector& operator+=(physics::velocity<Dimensions> const& v)
       {
-          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] -= v[i];
+          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] += v[i];
           return *this;
       }
 
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
-- 
2.43.0


From b6e434a6652a3dbefcfd28c4eaa040f901f0b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 09/33] fix: check_box_inside accepted disjoint boxes sharing a
 range along one axis

---
 cafes/particle/geometry/box.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cafes/particle/geometry/box.hpp b/cafes/particle/geometry/box.hpp
index ac19c58..bf32df0 100644
--- a/cafes/particle/geometry/box.hpp
+++ b/cafes/particle/geometry/box.hpp
@@ -232,14 +232,7 @@ namespace cafes
     bool check_box_inside(box<T, Dimensions> const& b1, box<T, Dimensions> const& b2)
     // check if a part of box b2 is inside the box b1
     {
-      int count = 0;
-      for(std::size_t i=0; i<Dimensions; ++i){
-        if (b2.bottom_left[i] >= b1.bottom_left[i] && b2.bottom_left[i] <= b1.upper_right[i])
-          count++;
-        if (b2.upper_right[i] >= b1.bottom_left[i] && b2.upper_right[i] <= b1.upper_right[i])
-          count++;
-      }
-      return (count>0)?true:false;
+      return intersect(b1, b2);
     }
 
   }
-- 
2.43.0


From af46b2caa98c30eab373f9c763eb64bb9a921d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 10/33] fix: the rigid motion subtracted on particle surfaces
 had the wrong sign for the translation

---
 cafes/problem/particle_operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..6f61f8f 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,8 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= particles[ipart].velocity_;
+          g[ipart][i] -= geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
         }
         ipart++;
       }
-- 
2.43.0


From 11c7ecdb451c82d3e3437a16b9457211d4b37569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 11/33] fix: the DtoN control operator added the singular
 source to every Krylov product and was not linear

---
 cafes/problem/dton.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 9ef3cc6..6ab9946 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -322,8 +322,7 @@ namespace cafes
                 {
                     ctx->compute_rhs = false;
                     ctx->add_rigid_motion = false;
-                    // ctx->compute_singularity = false;
-                    ctx->compute_singularity = use_sing;
+                    ctx->compute_singularity = false;
                 }
 
                 ierr = KSPSolve(ksp, rhs, sol);
-- 
2.43.0


From 32b8ff3b2f44d467cc36633706603baed8f1d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 12/33] fix: SEM::solve added the final right-hand side to the
 one left by the last Krylov product

---
 cafes/problem/sem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..4a42c5f 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -198,6 +198,8 @@ namespace cafes
         ierr = KSPSolve(ksp, rhs, sol);CHKERRQ(ierr);
 
         // solve the problem with the right control
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
+
         ctx->compute_rhs = true;
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
-- 
2.43.0


From d70b93d9c11c4d064169a313d1a5eb35d69e1ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 13/33] fix: singular forces were added to the wrong particle,
 out of bounds from the second one

---
 cafes/particle/forces_torques.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..29659f7 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -114,7 +114,7 @@ namespace cafes
         for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
         {
           for(std::size_t d=0; d<Dimensions; ++d)
-            forces[ipart*Dimensions][d] += sing_forces[ipart][d];
+            forces[ipart][d] += sing_forces[ipart][d];
           // TODO: add singular torques if needed
         }
       }
-- 
2.43.0


From 07575a9d6ad027a7e563dd7d0afe523038c465a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 14/33] fix: particle forces and torques were divided by the
 number of projection sub-points, not of control points

---
 cafes/particle/forces_torques.hpp | 16 +++++++++++++---
 cafes/problem/ntod.hpp            |  1 -
 cafes/problem/sem.hpp             |  1 -
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 29659f7..705d255 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -67,13 +67,15 @@ namespace cafes
                                                geometry::box<int, Dimensions> const& box,
                                                std::vector<geometry::vector<double, Dimensions>>& forces,
                                                torque_type& torques,
-                                               std::vector<int> const& integration_points_size,
                                                std::array<double, Dimensions> const& h,
                                                bool compute_singularity)
     {
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
+      // global number of control points in each particle
+      std::vector<int> num(particles.size(), 0);
+
       std::size_t icontrol = 0;
       PetscScalar const *pcontrol;
       ierr = VecGetArrayRead(control, &pcontrol);CHKERRQ(ierr);
@@ -87,6 +89,7 @@ namespace cafes
         if (geometry::intersect(box, pbox)){
           auto new_box = geometry::overlap_box(box, pbox);
           auto pts = find_fluid_points_insides(p, new_box, h);
+          num[ipart] = pts.size();
           for(auto& ind: pts){
             std::array<double, Dimensions> g;
             for(std::size_t d=0; d<Dimensions; ++d){
@@ -96,13 +99,20 @@ namespace cafes
             set_torques(torques, ipart, p.center_, ind, g, h);
           }       
         }
-        forces[ipart] *= p.volume()/integration_points_size[ipart];
-        torques[ipart] *= p.volume()/integration_points_size[ipart]; 
       }
       ierr = VecRestoreArrayRead(control, &pcontrol);CHKERRQ(ierr);
 
       MPI_Allreduce(MPI_IN_PLACE, forces.data(), forces.size()*Dimensions, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
       MPI_Allreduce(MPI_IN_PLACE, torques.data(), torques.size()*(Dimensions==2?1:3), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
+      MPI_Allreduce(MPI_IN_PLACE, num.data(), num.size(), MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
+
+      for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
+      {
+        if (num[ipart] == 0)
+          continue;
+        forces[ipart] *= particles[ipart].volume()/num[ipart];
+        torques[ipart] *= particles[ipart].volume()/num[ipart];
+      }
 
       if (compute_singularity)
       {
diff --git a/cafes/problem/ntod.hpp b/cafes/problem/ntod.hpp
index 015dbd1..3525f2a 100644
--- a/cafes/problem/ntod.hpp
+++ b/cafes/problem/ntod.hpp
@@ -114,7 +114,6 @@ namespace cafes
                                          box,
                                          forces,
                                          torques,
-                                         ctx->num,
                                          h,
                                          ctx->compute_singularity);CHKERRQ(ierr);
 
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 4a42c5f..9dbdcf2 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -254,7 +254,6 @@ namespace cafes
                                            box,
                                            forces,
                                            torques,
-                                           num_,
                                            h,
                                            false);CHKERRQ(ierr);
 
-- 
2.43.0


From 45dfb793e2addaf948eb05a35ea4b8c8cda7058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 15/33] fix: surface points just below or left of the domain
 were put in its first cells

---
 cafes/particle/particle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..57cdf03 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -152,7 +152,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor<Dimensions>(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(std::make_pair(surf_pi, surf_p[i] - surf_pi*h));
         }
@@ -170,7 +170,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor<Dimensions>(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(surf_p[i] - center);
         }
-- 
2.43.0


From 35b98b3e438d837dca4c6345e463913130be38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 16/33] fix: the implicit equation of 3D super-ellipsoids
 ignored their rotation

---
 cafes/particle/geometry/super_ellipsoid.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index e9adf10..dcc1a3b 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -328,13 +328,16 @@ namespace cafes
            auto r1 = 2./n_;
            auto r2 = e_/n_;
            auto r3 = 2./e_;
+           position_type pos = p-center_;
+           if (q_.is_rotate())
+            pos = q_.conj().rotate(pos);
 
-           return std::pow( std::pow( std::abs((p[0]-center_[0])/shape_factors_[0]), r3)
-                          + std::pow( std::abs((p[1]-center_[1])/shape_factors_[1]), r3)
+           return std::pow( std::pow( std::abs(pos[0]/shape_factors_[0]), r3)
+                          + std::pow( std::abs(pos[1]/shape_factors_[1]), r3)
                           , r2
                           )
 
-                + std::pow( std::abs((p[2]-center_[2])/shape_factors_[2]), r1);
+                + std::pow( std::abs(pos[2]/shape_factors_[2]), r1);
         }
 
         static double c(double w, double m)
-- 
2.43.0


From 08771116d834ac3d3ebe587cd076e43ec2fed7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 17/33] fix: parametric surface points of super-ellipsoids
 ignored their rotation

---
 cafes/particle/geometry/super_ellipsoid.hpp | 31 +++++++++++----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index dcc1a3b..28af7fe 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -268,37 +268,40 @@ namespace cafes
         position_type at(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) + center_[0]
-                  , shape_factors_[1] * s(u,n_) + center_[1]
-                  };
+          position_type p = radial(u);
+          return p += center_;
         }
 
         position_type radial(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) 
-                  , shape_factors_[1] * s(u,n_) 
-                  };
+          position_type p { shape_factors_[0] * c(u,n_)
+                          , shape_factors_[1] * s(u,n_)
+                          };
+          if (q_.is_rotate())
+            p = q_.rotate(p);
+          return p;
         }
 
         position_type at(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_) + center_[0]
-                  , shape_factors_[1] * c(v,n_) * s(u,e_) + center_[1]
-                  , shape_factors_[2] * s(v,n_) + center_[2]
-                  };
+          position_type p = radial(u, v);
+          return p += center_;
         }
 
         position_type radial(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_)
-                  , shape_factors_[1] * c(v,n_) * s(u,e_)
-                  , shape_factors_[2] * s(v,n_) 
-                  };
+          position_type p { shape_factors_[0] * c(v,n_) * c(u,e_)
+                          , shape_factors_[1] * c(v,n_) * s(u,e_)
+                          , shape_factors_[2] * s(v,n_)
+                          };
+          if (q_.is_rotate())
+            p = q_.rotate(p);
+          return p;
         }
 
         double implicit(position_type const& p) const
-- 
2.43.0


From 44f03ae8deaba6bcffc3f6b258594c44efff1c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 18/33] fix: sampling the surface of a 3D super-ellipsoid
 appended to the vector it was iterating over and ignored the rotation

---
 cafes/particle/geometry/super_ellipsoid.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 28af7fe..3189420 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -240,7 +240,13 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
-            std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
+            auto size = that.size();
+            that.reserve(2*size);
+            for(std::size_t i=0; i<size; ++i)
+              that.push_back({that[i][0], that[i][1], -that[i][2]});
+            if (q_.is_rotate()){
+              std::for_each(that.begin(), that.end(),[&](auto& p){ p = q_.rotate(p);});
+            }
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
-- 
2.43.0


From 598630f04cb6ba943be9297f3197530a9df2a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 19/33] fix: sampled points of 3D super-ellipsoids used the two
 exponents in exchanged roles

---
 cafes/particle/geometry/super_ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 3189420..ee68de7 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -218,8 +218,8 @@ namespace cafes
         {
             std::vector<position_type> that;
             double omega1 = 0., omega2 = 0.;
-            double eps1 = n_;
-            double eps2 = e_;
+            double eps1 = e_;
+            double eps2 = n_;
 
             while (omega1 < M_PI/4){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
-- 
2.43.0


From 22b2492d0f5b9f653f6e6a3e7d4754cc9b241d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 20/33] fix: on-axis values of the 3D contact velocity
 gradients were 0 instead of their limit

---
 cafes/particle/singularity/UandPNormal.hpp | 4 ++--
 cafes/particle/singularity/UandPTang.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..8ef5e65 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -739,7 +739,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dyux_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
@@ -786,7 +786,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dzuy_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
diff --git a/cafes/particle/singularity/UandPTang.hpp b/cafes/particle/singularity/UandPTang.hpp
index 08851ea..9477bc9 100644
--- a/cafes/particle/singularity/UandPTang.hpp
+++ b/cafes/particle/singularity/UandPTang.hpp
@@ -1453,7 +1453,7 @@ namespace cafes
         return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[0]/r
           -    dtuz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[1]/r2;
       else
-        return 0;
+        return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param);
     }
 
     PetscScalar dyuz_sing_tangMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal d, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 838b5d9a74f4088d5dd3e4419c1f1805179b544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 21/33] fix: the 2D contact velocity along the gap did not
 match its own gradient where the cut-off varies

---
 cafes/particle/singularity/UandPNormal.hpp | 100 +++------------------
 1 file changed, 10 insertions(+), 90 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 8ef5e65..1057c26 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -86,96 +86,16 @@ namespace cafes
       double r  = X[1];
       double z  = X[0];
 
-      double t1 = r * r;
-      double t2 = H * t1;
-      double t3 = M * a;
-      double t4 = z * z;
-      double t5 = t3 * t4;
-      double t8 = a * a;
-      double t9 = t8 * M;
-      double t10 = t9 * z;
-      double t13 = t1 * t1;
-      double t14 = H * t13;
-      double t15 = M * M;
-      double t16 = t15 * a;
-      double t17 = t16 * z;
-      double t20 = H * H;
-      double t21 = t20 * t13;
-      double t22 = t3 * z;
-      double t31 = t15 * t1;
-      double t32 = a * t4;
-      double t35 = t13 * t1;
-      double t36 = H * t35;
-      double t37 = t15 * M;
-      double t41 = t20 * t1;
-      double t45 = t20 * H;
-      double t46 = t45 * t13;
-      double t51 = t45 * t35;
-      double t55 = t20 * t35;
-      double t59 = t15 * t15;
-      double t61 = t13 * t13;
-      double t64 = t8 * t45;
-      double t67 = t20 * t20;
-      double t68 = a * t67;
-      double t71 = t8 * a;
-      double t74 = t15 * t61;
-      double t89 = -24 * t51 * M * z - 48 * t55 * t15 * z - 5 * H * t59 * t61 + 96 * t64 * t13 + 8 * t68 * t35 - 32 * t41 * t71 + 4 * t74 * t45 - 4 * t37 * t61 * t20 + 5 * M * t61 * t67 - 32 * t71 * t15 * t1 - 24 * t8 * t37 * t13;
-      double t94 = t4 * z;
-      double t99 = H * a;
-      double t100 = t99 * t94;
-      double t102 = t3 * t94;
-      double t109 = H * t8;
-      double t110 = t109 * t4;
-      double t112 = t9 * t4;
-      double t114 = t8 * t8;
-      double t118 = t67 * H;
-      double t126 = a * t20;
-      double t133 = M * t1;
-      double t136 = t15 * t13;
-      double t139 = t37 * t35;
-      double t147 = t118 * t61 - 16 * M * t114 - t59 * M * t61 + 56 * t3 * t51 + 24 * t126 * t35 * t15 + 48 * t21 * t9 - 64 * H * t71 * t133 - 72 * t109 * t136 - 32 * t99 * t139 + 320 * t2 * M * t94 - 384 * t41 * t32;
-      double t155 = pow((2 * a + t133 + t2), 2);
-      double t156 = t155 * t155;
-      double t158 = 1. / (H + M) / t156;
-      double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      double r2 = r * r;
+      // position in the gap: 0 on the first particle, 1 on the second one
+      double gap = 2 * a + (H + M) * r2;
+      double zeta = (2 * z + H * r2) / gap;
+      double drzeta = (2 * H * r - 2 * zeta * (H + M) * r) / gap;
+      double w = zeta * zeta * (3 - 2 * zeta);
+      double chi = chiTrunc(r, l, eps);
+      double dchi = dchiTrunc(r, l, eps);
+
+      return U * ((w - .5 + 6 * r * zeta * (1 - zeta) * drzeta) * chi + 2 * r2 * w * dchi);
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From d9bf4f3f7a444c6d40de3bf2453b36e6f4add090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 22/33] fix: the contact cut-off and its derivatives took wrong
 values inside the cut-off and its fourth derivative lacked a factor

---
 cafes/particle/singularity/truncation.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 67408db..f2623ef 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -99,7 +99,7 @@ namespace cafes
       X2 = X*X;
       X4 = X2*X2;
 
-      return 15120/128.0*(7*X4-10*X2+3);
+      return 15120/128.0*X*(7*X4-10*X2+3);
     }
 
    PetscScalar chiTrunc(PetscReal X, PetscReal l, PetscReal eps)
@@ -108,7 +108,7 @@ namespace cafes
 
      double X2 = X*X;
 
-     if(0<=X2<l-eps)
+     if(X2<l-eps)
        return 1;
      else 
        if(l-eps<=X2 && X2<l+eps)
@@ -124,8 +124,8 @@ namespace cafes
      double X2 = X*X;
      X = sqrt(X2); //on veut la norme
 
-     if(0<=X2<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -X/eps*dalphaTrunc((X2-l)/eps) ;
        return - dalphaTrunc((X2-l)/eps)/eps/2.;
@@ -140,8 +140,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -2*X2/eps/eps*d2alphaTrunc((X2-l)/eps) - dalphaTrunc((X2-l)/eps)/eps;
        return - d2alphaTrunc((X2-l)/eps)/eps/eps/2.;
@@ -156,8 +156,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d3alphaTrunc((X2-l)/eps)/eps/eps/eps/2.;
@@ -171,8 +171,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d4alphaTrunc((X2-l)/eps)/eps/eps/eps/eps/2.;
-- 
2.43.0


From d8671be80d4dbfe19d8ac7853483aafa9fb42ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 23/33] fix: the 3D contact frame was not orthogonal and used
 the opposite relative velocity

---
 cafes/particle/singularity/singularity.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b3c6929..f3c30e3 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -216,23 +216,23 @@ namespace cafes
       {
         base_[2] = position_diff<Shape, Dimensions>(p2, p1)/distance<Shape, Dimensions>(p1, p2);
 
-        auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
+        auto vel_diff = velocity_diff<Shape, Dimensions>(p2, p1);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
 
-        if (vector_space_[2]*vector_space_[2] == vel_norm)
+        if (vel_norm - vector_space_[2]*vector_space_[2] <= 1e-12*vel_norm)
         {
           base_[0][0]    = -sign(base_[2][2])*base_[2][2]
                            -sign(base_[2][1])*base_[2][1];
           base_[0][1]    =  sign(base_[2][1])*base_[2][0];
-          base_[0][2]    =  sign(base_[2][2])*base_[0][0];
+          base_[0][2]    =  sign(base_[2][2])*base_[2][0];
         }
         else
         {
-          // Check the formula to have dU - (dU.n)n ?
+          // tangential part of the relative velocity: dU - (dU.n)n
           for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d]*(1 - base_[2][d]);
+            base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
         }
 
         auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
-- 
2.43.0


From ce9daf0e51997b0955074708c42e06aa1439a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 24/33] fix: linspace of a single point divided by zero

---
 cafes/particle/geometry/linspace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/linspace.hpp b/cafes/particle/geometry/linspace.hpp
index b41c7a1..a03872a 100644
--- a/cafes/particle/geometry/linspace.hpp
+++ b/cafes/particle/geometry/linspace.hpp
@@ -44,7 +44,7 @@ namespace cafes
         std::vector<double> that;
         that.reserve(num);
         int ns = (include_end)? num - 1: num;
-        double step = (end - beg)/ns;
+        double step = (ns > 0)? (end - beg)/ns: 0.;
 
         for(size_t i=0; i<num; ++i)
             that.push_back(beg + i*step);
-- 
2.43.0


From 642b4fa87835d87d261c6d2e0cdd8c353153b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:58 +0000
Subject: [PATCH 25/33] fix: 2D contact forces were always 0 and did not use
 the pair's frame nor the second particle's geometry

---
 .../particle/singularity/add_singularity.hpp  | 48 ++++++++++++++-----
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..8126898 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -652,8 +652,10 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            const int n = static_cast<int>(N);
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -663,7 +665,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -672,9 +674,14 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
+
             return force;
         }
 
@@ -690,8 +697,10 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            const int n = static_cast<int>(N);
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -701,7 +710,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -710,9 +719,14 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
+
             return force;
         }
 
@@ -725,21 +739,24 @@ namespace cafes
             using position_type = geometry::position<double, 2>;
 
             double mu = 1.;
-            double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
+            double theta = std::asin(sing.cutoff_dist_ * sing.H2_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            const int n = static_cast<int>(N);
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
                 std::array<std::array<double, 2>, 2> sigma;
 
-                position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
-                position_type normal{cos_t, sin_t};
+                position_type pos{sing.contact_length_ + (1. - cos_t) / sing.H2_,
+                                  sin_t / sing.H2_};
+                position_type normal{-cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -748,9 +765,14 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / N / sing.H2_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
+
             return force;
         }
 
-- 
2.43.0


From dfd34c5a1c8d5f0916d6abd568bddb6af23266b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:58 +0000
Subject: [PATCH 26/33] fix: 3D contact forces rotated partial sums instead of
 the total

---
 cafes/particle/singularity/add_singularity.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 8126898..36c4db7 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -826,12 +826,13 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
+
             return force;
         }
 
@@ -885,12 +886,13 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
+
             return force;
         }
 
-- 
2.43.0


From 57881418f304819aaa51279747fc18a4b6896de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 27/33] fix: with no particle the pair loops ran past the end
 of the empty list

---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 36c4db7..8afadc8 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -546,7 +546,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -608,7 +608,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -910,7 +910,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -951,7 +951,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -992,7 +992,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1043,7 +1043,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From 8ce8a44644dca0fdd004af8e1e5d90e0a8409e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 28/33] fix: level of a multigrid operator was guessed from the
 square root of the number of unknowns (endless loop on grids that are not
 square, and in 3D)

---
 cafes/problem/stokes.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..b91a20a 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,22 +60,18 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
-            int level = 0;
-            // find the level in MG
-            while(nx_0 != nx)
+            // cell sizes of the MG level: same domain, fewer cells
+            auto n_0 = fem::get_global_bounds<Dim>(ctx_->dm);
+            auto n = fem::get_global_bounds<Dim>(dm);
+            auto bd_type = fem::get_boundary_type<Dim>(dm);
+            auto mg_h = ctx_->h;
+            for (std::size_t d = 0; d < Dim; ++d)
             {
-                level++;
-                nx_0 = (nx_0+1)/Dim;
+                int closed = (bd_type[d] == DM_BOUNDARY_PERIODIC) ? 0 : 1;
+                mg_h[d] *= static_cast<double>(n_0[d] - closed) / (n[d] - closed);
             }
-
-            auto mg_h = ctx_->h;
-            std::for_each(mg_h.begin(), mg_h.end(), [&](auto &x) {x *= (1 << level);});
-            
             auto *mg_ctx = new CTX{dm, mg_h, ctx_->apply, ctx_->apply_diag};
             mg_ctx->set_dirichlet_bc(ctx_->bc_);
 
-- 
2.43.0


From 3719d1d01f768a9d6a4938619353ef3189dcba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 29/33] fix: XDMF description gave the sizes in the wrong order
 and the pressure grid a wrong size

---
 cafes/io/hdf5.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index f042650..8b73a1d 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -41,7 +41,8 @@ namespace cafes
     namespace io
     {
         void create_xdmf(const char *path, const char *filename,
-                         DMDALocalInfo const &info,
+                         DMDALocalInfo const &infou,
+                         DMDALocalInfo const &infop,
                          std::array<double, 2> const &h)
         {
             std::stringstream output;
@@ -61,7 +62,7 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx / 2 + 1 << " " << info.my / 2 + 1 << "\"/>\n";
+                   << infop.my << " " << infop.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -73,7 +74,7 @@ namespace cafes
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx / 2 << " " << info.my / 2 << "\">\n";
+                   << infop.my << " " << infop.mx << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -82,7 +83,7 @@ namespace cafes
                 << "    <Grid Name=\"velocity_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx << " " << info.my << "\"/>\n";
+                   << infou.my << " " << infou.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -94,7 +95,7 @@ namespace cafes
                       "AttributeType=\"Vector\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx << " " << info.my << " 2\">\n";
+                   << infou.my << " " << infou.mx << " 2\">\n";
             myfile << "          " << output_h5.str() << ":/velocity\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -155,7 +156,7 @@ namespace cafes
             MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
             if (rank == 0)
             {
-                create_xdmf(path, filename, infou, h);
+                create_xdmf(path, filename, infou, infop, h);
             }
 
             PetscFunctionReturn(0);
-- 
2.43.0


From 4f5ed265d0d5cdba1a6c8e221579c890e8e6064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 30/33] fix: interpolation of the pressure wrote and read past
 its single component

---
 cafes/posttraitement/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..32c9e54 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -111,14 +111,14 @@ namespace cafes
               auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
               auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
               auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
+              for (int d=0; d<solv_ref.dof_; d++)
               {
                 uref[d] = 0;
               }
               for (std::size_t k=0; k<bfunc.size(); k++)
               {
                 auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
+                for (int d=0; d<solv_ref.dof_; d++)
                 {
                   uref[d] += u[d]*bfunc[k];
                 }
-- 
2.43.0


From 864ebbcc7b7b76b179aff473ccf649ff0fe7b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 31/33] fix: interpolation swept each direction with the
 refinement factor of the other

---
 cafes/posttraitement/interpolation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index 32c9e54..ef08c59 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -103,9 +103,9 @@ namespace cafes
         auto const kernel_pos = [&](auto const &pos)
         {
           auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          for(std::size_t j=0; j<refine[1]+1; j++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            for(std::size_t i =0; i<refine[0]+1; i++)
             {
               auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
               auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-- 
2.43.0


From a5837601a4e5fc70e71e01110d84f8e0879e4bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:41 +0000
Subject: [PATCH 32/33] fix: the singular part added to the solution lost what
 neighbouring processes contribute at shared nodes

---
 cafes/particle/singularity/add_singularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 8afadc8..85e279e 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,7 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +635,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From c1c8a2a2d8f86db94353b7e906f57eed660065b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:36 +0000
Subject: [PATCH 33/33] fix: the vector behind the pressure null space was
 never given back

---
 cafes/problem/stokes.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index b91a20a..90a1ca0 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -374,7 +374,7 @@ namespace cafes
                 MatNullSpace nullSpacePres;
 
                 Vec tmp;
-                ierr = DMGetGlobalVector(mesh, &tmp);CHKERRQ(ierr);
+                ierr = DMCreateGlobalVector(mesh, &tmp);CHKERRQ(ierr);
                 ierr = VecSet(tmp, 0.);CHKERRQ(ierr);
 
                 auto lambda = [](const auto &dm, auto &v) {
@@ -389,6 +389,8 @@ namespace cafes
                                           PETSC_FALSE, 1, &tmp, &nullSpacePres);CHKERRQ(ierr);
 
                 ierr = MatSetNullSpace(A, nullSpacePres);CHKERRQ(ierr);
+                ierr = MatNullSpaceDestroy(&nullSpacePres);CHKERRQ(ierr);
+                ierr = VecDestroy(&tmp);CHKERRQ(ierr);
                 PetscFunctionReturn(0);
             }
 
-- 
2.43.0

