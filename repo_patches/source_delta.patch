From a6b8a199713422943d023a32d518a7dcfa8ac99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 01/36] fix: set up the DMDAs of 3D and Laplacian meshes before
 naming their fields

---
 cafes/fem/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..8b8539a 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -252,6 +252,7 @@ namespace cafes
         ierr = DMDACreate2d(PETSC_COMM_WORLD, b_type[0], b_type[1], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
@@ -275,6 +276,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mpres[0], mpres[1], mpres[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &DAPressure);CHKERRQ(ierr);
+        ierr = DMSetUp(DAPressure);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAPressure, 0, "p");CHKERRQ(ierr);
 
         ierr = DMDAGetInfo(DAPressure, NULL, NULL, NULL, NULL, &npx, &npy, &npz, NULL, NULL, NULL, NULL, NULL, NULL);CHKERRQ(ierr);
@@ -290,6 +292,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], npx, npy, npz,
                             3, 1, lxu, lyu, lzu, &DAVelocity);CHKERRQ(ierr);
+        ierr = DMSetUp(DAVelocity);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 0, "u");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 1, "v");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 2, "w");CHKERRQ(ierr);
@@ -319,6 +322,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 002403aaf54ad25d372f0368f1407948495f5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 02/36] fix: free the velocity ownership ranges one by one, as
 they were allocated

---
 cafes/fem/mesh.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index 8b8539a..6370086 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -234,7 +234,8 @@ namespace cafes
 
         ierr = DMDestroy(&DAPressure);CHKERRQ(ierr);
         ierr = DMDestroy(&DAVelocity);CHKERRQ(ierr);
-        ierr = PetscFree2(lxu, lyu);CHKERRQ(ierr);
+        ierr = PetscFree(lxu);CHKERRQ(ierr);
+        ierr = PetscFree(lyu);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
     }
@@ -304,7 +305,9 @@ namespace cafes
 
         ierr = DMDestroy(&DAPressure);CHKERRQ(ierr);
         ierr = DMDestroy(&DAVelocity);CHKERRQ(ierr);
-        ierr = PetscFree3(lxu, lyu, lzu);CHKERRQ(ierr);
+        ierr = PetscFree(lxu);CHKERRQ(ierr);
+        ierr = PetscFree(lyu);CHKERRQ(ierr);
+        ierr = PetscFree(lzu);CHKERRQ(ierr);
 
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 26d3f6e4ddc51b2db46ccfd2f3769431189330c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 03/36] fix: use the pressure mesh size in the pressure block
 of the mass operator

---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..2e4dc72 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -279,7 +279,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From 9a9aad710ad8683fddee780c8dc6f27536a842d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 04/36] fix: make the assembled strain tensor element matrix
 symmetric, as the matrix-free one

---
 cafes/fem/matElem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matElem.hpp b/cafes/fem/matElem.hpp
index 00f1609..c8afc3b 100644
--- a/cafes/fem/matElem.hpp
+++ b/cafes/fem/matElem.hpp
@@ -392,7 +392,7 @@ auto getMatElemStrainTensorA(std::array<double, 2> const &h)
         {
             MatElem[i + j * 8] =
                 2 * hyx * matElem2d_dxudxu[i][j] + hxy * matElem2d_dyudyu[i][j];
-            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[i][j];
+            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[j][i];
 
             MatElem[i + (j + 4) * 8] = matElem2d_dxudyu[i][j];
             MatElem[i + 4 + (j + 4) * 8] =
-- 
2.43.0


From fc2056c2cb196afecfa1d4e6d80ec4e4f0673312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 05/36] fix: number the Dirichlet rows with the ghosted sizes
 on one process too

---
 cafes/fem/bc.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..9ab3714 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,9 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      // the local numbering is the one of the ghosted points
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +227,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +243,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +263,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From 789f2c812a1ce2e5da6b2e53872f489f487d6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 06/36] fix: return an initialised error code from the
 Laplacian assembling

---
 cafes/fem/assembling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/assembling.hpp b/cafes/fem/assembling.hpp
index ed63c33..b4a98cf 100644
--- a/cafes/fem/assembling.hpp
+++ b/cafes/fem/assembling.hpp
@@ -476,7 +476,7 @@ namespace cafes
     PetscErrorCode laplacian_assembling(DM &dv, Mat &A,
                                         const std::array<double, Dimensions> &h)
     {
-        PetscErrorCode ierr;
+        PetscErrorCode ierr = 0;
 
         DMDALocalInfo info;
         DMDAGetLocalInfo(dv, &info);
-- 
2.43.0


From b4ba30cd544cc41c63adaa1a584cacb9066ef504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 07/36] fix: find the multigrid level from the coarsening depth
 instead of the grid size

---
 cafes/problem/stokes.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..2fd8294 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,18 +60,13 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
-            int level = 0;
-            // find the level in MG
-            while(nx_0 != nx)
-            {
-                level++;
-                nx_0 = (nx_0+1)/Dim;
-            }
+            // number of times the fine mesh was coarsened to get this level of MG
+            PetscInt level, level_0;
+            ierr = DMGetCoarsenLevel(dm, &level);CHKERRQ(ierr);
+            ierr = DMGetCoarsenLevel(ctx_->dm, &level_0);CHKERRQ(ierr);
+            level -= level_0;
 
             auto mg_h = ctx_->h;
             std::for_each(mg_h.begin(), mg_h.end(), [&](auto &x) {x *= (1 << level);});
-- 
2.43.0


From 1364d8cbf167635957278de1d6f2b54403e02ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 08/36] fix: leave the borders without Dirichlet condition free
 instead of reading uninitialised functions

---
 cafes/fem/bc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index 9ab3714..ef34fa5 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -48,7 +48,7 @@ namespace cafes
         std::copy(il.begin(), il.end(), conditions_.begin());
       }
 
-      std::array<std::array<condition_fn, Dimensions>, 2*Dimensions> conditions_;
+      std::array<std::array<condition_fn, Dimensions>, 2*Dimensions> conditions_{};
 
       dirichlet_conditions(dirichlet_conditions const&) = default;
       dirichlet_conditions(dirichlet_conditions&&)      = default;
-- 
2.43.0


From 95e26c50f89070a24e1fd4d213b1ff50061d4bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 09/36] fix: subtract the rigid velocity of the particles from
 the surface velocity

---
 cafes/problem/particle_operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..6f61f8f 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,8 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= particles[ipart].velocity_;
+          g[ipart][i] -= geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
         }
         ipart++;
       }
-- 
2.43.0


From 28ed54720a2fca5ef7d60a69a23fc2ba451a29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 10/36] fix: signs of the sums and differences of vectors and
 velocities

---
 cafes/particle/geometry/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..3668f8b 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -117,7 +117,7 @@ namespace cafes
 
       vector& operator+=(physics::velocity<Dimensions> const& v)
       {
-          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] -= v[i];
+          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] += v[i];
           return *this;
       }
 
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
-- 
2.43.0


From 1c3aa95a0e80e66dae45b1db8e9c69ae4e7e9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 11/36] fix: mirror the surface points of 3D shapes without
 growing the vector being visited

---
 cafes/particle/geometry/super_ellipsoid.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index e9adf10..77c880c 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -240,7 +240,10 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
-            std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
+            auto size = that.size();
+            that.reserve(2*size);
+            for(std::size_t i=0; i<size; ++i)
+              that.push_back({that[i][0], that[i][1], -that[i][2]});
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
-- 
2.43.0


From 1924e37fcbdd8b93b1b14acfc1524630409513f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 12/36] fix: sample 3D super-ellipsoids with the exponents of
 their parametrisation

---
 cafes/particle/geometry/super_ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 77c880c..a0e6bca 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -218,8 +218,8 @@ namespace cafes
         {
             std::vector<position_type> that;
             double omega1 = 0., omega2 = 0.;
-            double eps1 = n_;
-            double eps2 = e_;
+            double eps1 = e_;
+            double eps2 = n_;
 
             while (omega1 < M_PI/4){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
-- 
2.43.0


From d045c97cf7ce1c86086601038a1753d971ece862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 13/36] fix: honour the orientation of super-ellipsoids in
 their parametrisation and in 3D

---
 cafes/particle/geometry/super_ellipsoid.hpp | 41 ++++++++++++---------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index a0e6bca..3a963b0 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -244,7 +244,10 @@ namespace cafes
             that.reserve(2*size);
             for(std::size_t i=0; i<size; ++i)
               that.push_back({that[i][0], that[i][1], -that[i][2]});
-            std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
+            if (q_.is_rotate()){
+              std::for_each(that.begin(), that.end(),[&](auto& p){ p = q_.rotate(p);});
+            }
+            std::for_each(that.begin(), that.end(),[&](auto& p){p += center_;});
             return that;
         }
 
@@ -271,37 +274,36 @@ namespace cafes
         position_type at(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) + center_[0]
-                  , shape_factors_[1] * s(u,n_) + center_[1]
-                  };
+          position_type p = radial(u);
+          return p += center_;
         }
 
         position_type radial(double u) const
         {
           static_assert(Dimensions == 2, "Incompatible dimension for parametric representation");
-          return  { shape_factors_[0] * c(u,n_) 
-                  , shape_factors_[1] * s(u,n_) 
-                  };
+          position_type p{ shape_factors_[0] * c(u,n_)
+                         , shape_factors_[1] * s(u,n_)
+                         };
+          return q_.is_rotate() ? q_.rotate(p): p;
         }
 
         position_type at(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_) + center_[0]
-                  , shape_factors_[1] * c(v,n_) * s(u,e_) + center_[1]
-                  , shape_factors_[2] * s(v,n_) + center_[2]
-                  };
+          position_type p = radial(u, v);
+          return p += center_;
         }
 
         position_type radial(double u, double v) const
         {
           static_assert(Dimensions == 3, "Incompatible dimension for parametric representation");
 
-          return  { shape_factors_[0] * c(v,n_) * c(u,e_)
-                  , shape_factors_[1] * c(v,n_) * s(u,e_)
-                  , shape_factors_[2] * s(v,n_) 
-                  };
+          position_type p{ shape_factors_[0] * c(v,n_) * c(u,e_)
+                         , shape_factors_[1] * c(v,n_) * s(u,e_)
+                         , shape_factors_[2] * s(v,n_)
+                         };
+          return q_.is_rotate() ? q_.rotate(p): p;
         }
 
         double implicit(position_type const& p) const
@@ -332,12 +334,15 @@ namespace cafes
            auto r2 = e_/n_;
            auto r3 = 2./e_;
 
-           return std::pow( std::pow( std::abs((p[0]-center_[0])/shape_factors_[0]), r3)
-                          + std::pow( std::abs((p[1]-center_[1])/shape_factors_[1]), r3)
+           position_type pos = p-center_;
+           if (q_.is_rotate())
+            pos = q_.conj().rotate(pos);
+           return std::pow( std::pow( std::abs(pos[0]/shape_factors_[0]), r3)
+                          + std::pow( std::abs(pos[1]/shape_factors_[1]), r3)
                           , r2
                           )
 
-                + std::pow( std::abs((p[2]-center_[2])/shape_factors_[2]), r1);
+                + std::pow( std::abs(pos[2]/shape_factors_[2]), r1);
         }
 
         static double c(double w, double m)
-- 
2.43.0


From dde6c2b1b57b22be2fbb0ed19f241167b3c2e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 14/36] fix: normalise quaternions with their norm rather than
 its square

---
 cafes/particle/geometry/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/quaternion.hpp b/cafes/particle/geometry/quaternion.hpp
index 7d2e35a..7abad25 100644
--- a/cafes/particle/geometry/quaternion.hpp
+++ b/cafes/particle/geometry/quaternion.hpp
@@ -90,7 +90,7 @@ namespace cafes
       void normalize()
       {
         auto norm = std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.);
-        components_ /= norm;
+        components_ /= std::sqrt(norm);
       }
 
       quaternion conj() const
-- 
2.43.0


From 3467c0158a65ef875c55d8ff083d61092e006b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 15/36] fix: start the last problem of the SEM from a null
 right-hand side

---
 cafes/problem/sem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..4a42c5f 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -198,6 +198,8 @@ namespace cafes
         ierr = KSPSolve(ksp, rhs, sol);CHKERRQ(ierr);
 
         // solve the problem with the right control
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
+
         ctx->compute_rhs = true;
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
-- 
2.43.0


From 420f9ffdd3e33b2602388aa9746834ea295fd34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 16/36] fix: average the control over its own points in the
 forces of the SEM

---
 cafes/problem/sem.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 4a42c5f..bb2b7af 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -248,13 +248,23 @@ namespace cafes
         PetscFunctionBegin;
         auto box = fem::get_DM_bounds<Dimensions>(problem_.ctx->dm, 0);
         auto& h = problem_.ctx->h;
-       
+
+        // number of control points of each particle
+        std::vector<int> control_size(parts_.size(), 0);
+        for(std::size_t ipart=0; ipart<parts_.size(); ++ipart)
+        {
+          auto pbox = parts_[ipart].bounding_box(h);
+          if (geometry::intersect(box, pbox))
+            control_size[ipart] = find_fluid_points_insides(parts_[ipart], geometry::box_inside(box, pbox), h).size();
+        }
+        MPI_Allreduce(MPI_IN_PLACE, control_size.data(), control_size.size(), MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
+
         ierr = forces_torques_with_control(parts_,
                                            sol,
                                            box,
                                            forces,
                                            torques,
-                                           num_,
+                                           control_size,
                                            h,
                                            false);CHKERRQ(ierr);
 
-- 
2.43.0


From d7438aaa5beb591f79957aae9bf4d67bb3a284ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 17/36] fix: interpolate on the refined points each process
 owns, with the factor of each direction

---
 cafes/posttraitement/interpolation.hpp | 53 +++++++++++++-------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..64794b7 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -97,32 +97,37 @@ namespace cafes
     	ierr = solv.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
       ierr = solp.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
 
-      // INTERPOLATION KERNEL
+      // INTERPOLATION KERNEL (on the points of the refined mesh owned by the process)
       auto const kernel = [](const auto& solv, auto& solv_ref, const auto& refine, const auto& h)
       {
         auto const kernel_pos = [&](auto const &pos)
         {
-          auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          // pos is a point of the refined mesh: find its element and its place in it
+          geometry::position<int, Dimensions> coarse;
+          geometry::position<double, Dimensions> x;
+          for (std::size_t d=0; d<Dimensions; d++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            coarse[d] = pos[d]/refine[d];
+            x[d] = (pos[d] - coarse[d]*refine[d])*h[d]/refine[d];
+          }
+          auto ielem = fem::get_element(coarse);
+          auto bfunc = fem::P1_integration(x, h);
+          auto uref = solv_ref.at_g(pos);
+          for (int d=0; d<solv_ref.dof_; d++)
+          {
+            uref[d] = 0;
+          }
+          for (std::size_t k=0; k<bfunc.size(); k++)
+          {
+            // a null weight may belong to a point beyond the end of the mesh
+            if (bfunc[k] == 0)
             {
-              auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
-              auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-              auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
-              auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
-              {
-                uref[d] = 0;
-              }
-              for (std::size_t k=0; k<bfunc.size(); k++)
-              {
-                auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
-                {
-                  uref[d] += u[d]*bfunc[k];
-                }
-              }
+              continue;
+            }
+            auto u = solv.at(ielem[k]);
+            for (int d=0; d<solv_ref.dof_; d++)
+            {
+              uref[d] += u[d]*bfunc[k];
             }
           }
         };
@@ -130,17 +135,13 @@ namespace cafes
       };
 
       // VELOCITY INTERPOLATION
-      auto box = fem::get_DM_bounds<Dimensions>(dav);
+      auto box = fem::get_DM_bounds<Dimensions>(dav_refine, false);
       algorithm::iterate(box, kernel(solv, solv_ref, refine, h));
 
       // PRESSURE INTERPOLATION
-      auto boxp = fem::get_DM_bounds<Dimensions>(dap);
+      auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
       algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
 
-      // LOCAL TO GLOBAL
-      ierr = solv_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-      ierr = solp_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-
       PetscFunctionReturn(0);
     }
 
-- 
2.43.0


From 578da8a690d7df11233e0c1e96ca00da1c7354ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 18/36] fix: describe the saved arrays in XDMF with their true
 sizes, slowest index first

---
 cafes/io/hdf5.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index f042650..510f029 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -53,6 +53,11 @@ namespace cafes
             std::ofstream myfile;
             myfile.open(output.str());
 
+            // number of points of the pressure grid, twice coarser
+            int px = info.mx / 2 + (info.bx == DM_BOUNDARY_PERIODIC ? 0 : 1);
+            int py = info.my / 2 + (info.by == DM_BOUNDARY_PERIODIC ? 0 : 1);
+
+            // dimensions are given from the slowest to the fastest index
             myfile << "<Xdmf>\n";
             myfile << "<Domain>\n";
             myfile << "  <Grid CollectionType=\"Spatial\" "
@@ -61,7 +66,7 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx / 2 + 1 << " " << info.my / 2 + 1 << "\"/>\n";
+                   << py << " " << px << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -73,7 +78,7 @@ namespace cafes
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx / 2 << " " << info.my / 2 << "\">\n";
+                   << py << " " << px << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -82,7 +87,7 @@ namespace cafes
                 << "    <Grid Name=\"velocity_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx << " " << info.my << "\"/>\n";
+                   << info.my << " " << info.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
@@ -94,7 +99,7 @@ namespace cafes
                       "AttributeType=\"Vector\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx << " " << info.my << " 2\">\n";
+                   << info.my << " " << info.mx << " 2\">\n";
             myfile << "          " << output_h5.str() << ":/velocity\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
-- 
2.43.0


From 7822395ed70370c9f1dbf6e96d61fa673b34159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 19/36] fix: release the refined meshes of the interpolation

---
 cafes/posttraitement/interpolation.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index 64794b7..7494463 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -78,8 +78,6 @@ namespace cafes
       PetscInt localsize;
 
     	DMCompositeGetEntries(dm, &dav, &dap);
-      DMClone(dav, &dav_refine);
-      DMClone(dap, &dap_refine);
     	ierr = DMDASetRefinementFactor(dav, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
       ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);
       ierr = DMDASetRefinementFactor(dap, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
@@ -87,6 +85,9 @@ namespace cafes
       DMCompositeCreate(PETSC_COMM_WORLD, &dm_refine);
       DMCompositeAddDM(dm_refine, dav_refine);
       DMCompositeAddDM(dm_refine, dap_refine);
+      // the composite holds its own references
+      ierr = DMDestroy(&dav_refine);CHKERRQ(ierr);
+      ierr = DMDestroy(&dap_refine);CHKERRQ(ierr);
     	ierr = DMCreateGlobalVector(dm_refine, &sol_refine);CHKERRQ(ierr);
     	auto solv = petsc::petsc_vec<Dimensions>(dm, sol, 0);
       auto solv_ref = petsc::petsc_vec<Dimensions>(dm_refine, sol_refine, 0, false);
@@ -135,11 +136,11 @@ namespace cafes
       };
 
       // VELOCITY INTERPOLATION
-      auto box = fem::get_DM_bounds<Dimensions>(dav_refine, false);
+      auto box = fem::get_DM_bounds<Dimensions>(dm_refine, 0, false);
       algorithm::iterate(box, kernel(solv, solv_ref, refine, h));
 
       // PRESSURE INTERPOLATION
-      auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
+      auto boxp = fem::get_DM_bounds<Dimensions>(dm_refine, 1, false);
       algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
 
       PetscFunctionReturn(0);
-- 
2.43.0


From 360ddf813a8b66ec7fd359fbed9adddc7960bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 20/36] fix: require all directions to overlap when checking
 that a part of a box is inside another

---
 cafes/particle/geometry/box.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cafes/particle/geometry/box.hpp b/cafes/particle/geometry/box.hpp
index ac19c58..bf32df0 100644
--- a/cafes/particle/geometry/box.hpp
+++ b/cafes/particle/geometry/box.hpp
@@ -232,14 +232,7 @@ namespace cafes
     bool check_box_inside(box<T, Dimensions> const& b1, box<T, Dimensions> const& b2)
     // check if a part of box b2 is inside the box b1
     {
-      int count = 0;
-      for(std::size_t i=0; i<Dimensions; ++i){
-        if (b2.bottom_left[i] >= b1.bottom_left[i] && b2.bottom_left[i] <= b1.upper_right[i])
-          count++;
-        if (b2.upper_right[i] >= b1.bottom_left[i] && b2.upper_right[i] <= b1.upper_right[i])
-          count++;
-      }
-      return (count>0)?true:false;
+      return intersect(b1, b2);
     }
 
   }
-- 
2.43.0


From e7a191e8949e4e3f5950f69e62a169c8b4109cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 21/36] fix: forget the previous points when the particles are
 discretised again

---
 cafes/particle/particle.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..778fb42 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -253,10 +253,13 @@ namespace cafes
                      nb_type& nb_surf_points, num_type& num, box_type const& box,
                      std::array<double, Dimensions> const &h, dpart_type const& dpart, std::size_t const scale)
   {
+    // start from scratch: the particles could have moved since the last call
+    surf_points.clear();
+    radial_vec.clear();
     surf_points.resize(parts.size());
     radial_vec.resize(parts.size());
-    nb_surf_points.resize(parts.size());
-    num.resize(parts.size());
+    nb_surf_points.assign(parts.size(), 0);
+    num.assign(parts.size(), 0);
 
     std::size_t size = 0;
     std::size_t ipart = 0;
-- 
2.43.0


From c27347f751669075751d7416d341300db4e35438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 22/36] fix: compute the right-hand side of the SEM and DtoN
 with a null control

---
 cafes/problem/dton.hpp | 3 +++
 cafes/problem/sem.hpp  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 9ef3cc6..99dab45 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -189,6 +189,9 @@ namespace cafes
                     // ctx->compute_singularity = false;
                 }
 
+                // the right-hand side is computed with a null control
+                ierr = VecSet(sol, 0.);
+                CHKERRQ(ierr);
                 ierr = MatMult(A, sol, rhs);
                 CHKERRQ(ierr);
                 ierr = VecScale(rhs, -1.);
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index bb2b7af..d4e449b 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -161,6 +161,8 @@ namespace cafes
 
         ctx->compute_rhs = true;
 
+        // the right-hand side is computed with a null control
+        ierr = VecSet(sol, 0.);CHKERRQ(ierr);
         ierr = MatMult(A, sol, rhs);CHKERRQ(ierr);
         ierr = VecScale(rhs, -1.);CHKERRQ(ierr);
 
-- 
2.43.0


From 396f6b06946d2e6035484fa5a8a0e170fd1b2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 23/36] fix: derive the 2D singular normal velocity from the
 same stream function as its gradient

---
 cafes/particle/singularity/UandPNormal.hpp | 105 +++------------------
 1 file changed, 14 insertions(+), 91 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..550040e 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -82,100 +82,23 @@ namespace cafes
     //Attention : r cordonnee radial, donc z en 2D et donc z = x .....
     PetscScalar ux_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
     {
-      double mu = 1;
       double r  = X[1];
       double z  = X[0];
 
-      double t1 = r * r;
-      double t2 = H * t1;
-      double t3 = M * a;
-      double t4 = z * z;
-      double t5 = t3 * t4;
-      double t8 = a * a;
-      double t9 = t8 * M;
-      double t10 = t9 * z;
-      double t13 = t1 * t1;
-      double t14 = H * t13;
-      double t15 = M * M;
-      double t16 = t15 * a;
-      double t17 = t16 * z;
-      double t20 = H * H;
-      double t21 = t20 * t13;
-      double t22 = t3 * z;
-      double t31 = t15 * t1;
-      double t32 = a * t4;
-      double t35 = t13 * t1;
-      double t36 = H * t35;
-      double t37 = t15 * M;
-      double t41 = t20 * t1;
-      double t45 = t20 * H;
-      double t46 = t45 * t13;
-      double t51 = t45 * t35;
-      double t55 = t20 * t35;
-      double t59 = t15 * t15;
-      double t61 = t13 * t13;
-      double t64 = t8 * t45;
-      double t67 = t20 * t20;
-      double t68 = a * t67;
-      double t71 = t8 * a;
-      double t74 = t15 * t61;
-      double t89 = -24 * t51 * M * z - 48 * t55 * t15 * z - 5 * H * t59 * t61 + 96 * t64 * t13 + 8 * t68 * t35 - 32 * t41 * t71 + 4 * t74 * t45 - 4 * t37 * t61 * t20 + 5 * M * t61 * t67 - 32 * t71 * t15 * t1 - 24 * t8 * t37 * t13;
-      double t94 = t4 * z;
-      double t99 = H * a;
-      double t100 = t99 * t94;
-      double t102 = t3 * t94;
-      double t109 = H * t8;
-      double t110 = t109 * t4;
-      double t112 = t9 * t4;
-      double t114 = t8 * t8;
-      double t118 = t67 * H;
-      double t126 = a * t20;
-      double t133 = M * t1;
-      double t136 = t15 * t13;
-      double t139 = t37 * t35;
-      double t147 = t118 * t61 - 16 * M * t114 - t59 * M * t61 + 56 * t3 * t51 + 24 * t126 * t35 * t15 + 48 * t21 * t9 - 64 * H * t71 * t133 - 72 * t109 * t136 - 32 * t99 * t139 + 320 * t2 * M * t94 - 384 * t41 * t32;
-      double t155 = pow((2 * a + t133 + t2), 2);
-      double t156 = t155 * t155;
-      double t158 = 1. / (H + M) / t156;
-      double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      // distance between the two walls (times 2) and height above the first one
+      double r2 = r * r;
+      double t  = 2 * a + M * r2 + H * r2;
+      double w  = z + .5 * H * r2;
+
+      // uz = d(psi)/dz with psi = 8 U r chi(r) q/t^3, therefore ux = -d(psi)/dr
+      double q  = w * w * (2 * w - 1.5 * t);
+      double dq = 6 * w * (w - .5 * t) * H * r - 3 * w * w * (H + M) * r;
+
+      double chi  = chiTrunc(r, l, eps);
+      double dchi = dchiTrunc(r, l, eps);
+      double dpsi = (chi * (q + r * dq) + 2 * r2 * dchi * q - 6 * (H + M) * r2 * chi * q / t) / (t * t * t);
+
+      return -8 * U * dpsi - .5 * U * chi;
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From bee91bfde3d5bc3da9930d31f7ea778d863bd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 24/36] fix: build an orthonormal frame for the 3D singularity

---
 cafes/particle/singularity/singularity.hpp | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b3c6929..3ccd769 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -219,23 +219,25 @@ namespace cafes
         auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
+        // first tangent: direction of the tangential relative velocity
+        for(std::size_t d=0; d<3; ++d)
+          base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
+
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
+        auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
 
-        if (vector_space_[2]*vector_space_[2] == vel_norm)
+        if (norm <= 1e-12*vel_norm)
         {
-          base_[0][0]    = -sign(base_[2][2])*base_[2][2]
-                           -sign(base_[2][1])*base_[2][1];
-          base_[0][1]    =  sign(base_[2][1])*base_[2][0];
-          base_[0][2]    =  sign(base_[2][2])*base_[0][0];
-        }
-        else
-        {
-          // Check the formula to have dU - (dU.n)n ?
+          // no tangential motion: take any vector orthogonal to the normal
+          std::size_t dmin = 0;
+          for(std::size_t d=1; d<3; ++d)
+            if (std::abs(base_[2][d]) < std::abs(base_[2][dmin]))
+              dmin = d;
           for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d]*(1 - base_[2][d]);
+            base_[0][d] = (d == dmin) - base_[2][dmin]*base_[2][d];
+          norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
         }
 
-        auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
         base_[0] /= std::sqrt(norm);
 
         base_[1] = geometry::cross_product(base_[2], base_[0]);
-- 
2.43.0


From c4e18e0c2fed35ae5f751e721364214405283aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 25/36] fix: use the velocity of the second particle relative
 to the first in the 3D singularity

---
 cafes/particle/singularity/singularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index 3ccd769..c9fbe2c 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -216,7 +216,7 @@ namespace cafes
       {
         base_[2] = position_diff<Shape, Dimensions>(p2, p1)/distance<Shape, Dimensions>(p1, p2);
 
-        auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
+        auto vel_diff = velocity_diff<Shape, Dimensions>(p2, p1);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
         // first tangent: direction of the tangential relative velocity
-- 
2.43.0


From d4319f0ba92584db0397bb266ca5742adbaf0a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 26/36] fix: rotate the 3D singular force once instead of at
 every integration point

---
 cafes/particle/singularity/add_singularity.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..6bdaf45 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -804,12 +804,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -863,12 +863,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From d93ca41c5c1ba6611b352131a2c90b352ddb7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 27/36] fix: integrate the 2D singular forces over the surface
 of each particle

---
 .../particle/singularity/add_singularity.hpp  | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 6bdaf45..3363f5d 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -652,8 +652,9 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -663,7 +664,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -672,9 +673,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -690,8 +695,9 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -701,7 +707,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -710,9 +716,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -725,21 +735,23 @@ namespace cafes
             using position_type = geometry::position<double, 2>;
 
             double mu = 1.;
-            double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
+            double theta = std::asin(sing.cutoff_dist_ * sing.H2_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
                 std::array<std::array<double, 2>, 2> sigma;
 
-                position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
-                position_type normal{cos_t, sin_t};
+                position_type pos{sing.contact_length_ + (1. - cos_t) / sing.H2_,
+                                  sin_t / sing.H2_};
+                position_type normal{-cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -748,9 +760,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / N / sing.H2_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From 1b94490dd20e80a8436abfd504ec648d5564ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:27 +0000
Subject: [PATCH 28/36] fix: add the singular force to the force of the same
 particle

---
 cafes/particle/forces_torques.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..29659f7 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -114,7 +114,7 @@ namespace cafes
         for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
         {
           for(std::size_t d=0; d<Dimensions; ++d)
-            forces[ipart*Dimensions][d] += sing_forces[ipart][d];
+            forces[ipart][d] += sing_forces[ipart][d];
           // TODO: add singular torques if needed
         }
       }
-- 
2.43.0


From 48f9bf10afca1d1ab4e5f839fb7691eec2a15915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 29/36] fix: keep the singular source out of the linear DtoN
 operator

---
 cafes/problem/dton.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 99dab45..095bc4c 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -325,8 +325,7 @@ namespace cafes
                 {
                     ctx->compute_rhs = false;
                     ctx->add_rigid_motion = false;
-                    // ctx->compute_singularity = false;
-                    ctx->compute_singularity = use_sing;
+                    ctx->compute_singularity = false;
                 }
 
                 ierr = KSPSolve(ksp, rhs, sol);
-- 
2.43.0


From 716cadd68762d299b1a10de548027bf1a9897b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 30/36] fix: sum the singular velocity over the processes that
 share a node

---
 cafes/particle/singularity/add_singularity.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 3363f5d..a08d350 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,8 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            // contributions to the nodes shared with the neighbors are summed
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +636,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From f5bf9d950c63117bc5b13690d4c7a410c29b3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 31/36] fix: keep the radial derivatives of the 3D singular
 velocity on the axis

---
 cafes/particle/singularity/UandPNormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 550040e..e613983 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -662,7 +662,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dyux_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
@@ -709,7 +709,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dzuy_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 3bc3f6f3cd1aa01ec9012ec3c2f710fd8f85b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 32/36] fix: restrict the singular flow to the gap between the
 particles

---
 cafes/particle/singularity/add_singularity.hpp | 11 ++++++++---
 cafes/particle/singularity/singularity.hpp     |  7 +++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index a08d350..bab7751 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -94,7 +94,8 @@ namespace cafes
                                     sing.get_pos_in_part_ref(pts);
 
                                 if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                        sing.cutoff_dist_ &&
+                                    sing.is_between_centers(pos_ref_part))
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
@@ -234,7 +235,10 @@ namespace cafes
                                                          j * h[1] + js * hs[1],
                                                          k * h[2] + ks * hs[2]};
 
-                                    if (!p1.contains(pts) && !p2.contains(pts))
+                                    if (!p1.contains(pts) &&
+                                        !p2.contains(pts) &&
+                                        sing.is_between_centers(
+                                            sing.get_pos_in_part_ref(pts)))
                                     {
                                         position_type pts_loc = {
                                             is * hs[0], js * hs[1], ks * hs[2]};
@@ -462,7 +466,8 @@ namespace cafes
                                     sing.get_pos_in_part_ref(pts);
 
                                 if (std::abs(pos_ref_part[1]) <=
-                                    sing.cutoff_dist_)
+                                        sing.cutoff_dist_ &&
+                                    sing.is_between_centers(pos_ref_part))
                                 {
                                     position_type pts_loc = {is * hs[0],
                                                              js * hs[1]};
diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index c9fbe2c..eb65093 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -196,6 +196,13 @@ namespace cafes
                                       p2_up_back[2], p2_up_front[2], p2_down_back[2], p2_down_front[2]})/h[2])}};
       }
 
+      // the lubrication flow is only defined between the centers of the particles
+      bool is_between_centers(position_type const& pos_ref) const
+      {
+        double z = pos_ref[(Dimensions == 2)? 0: 2];
+        return -1./H1_ <= z && z <= contact_length_ + 1./H2_;
+      }
+
       void construct_base(particle<Shape> const& p1, particle<Shape> const& p2,
                           std::integral_constant<int, 2>)
       {
-- 
2.43.0


From a06aa893ba327921ffe70580be6f8d404867a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:42 +0000
Subject: [PATCH 33/36] fix: the plane triangulation returns the Delaunay
 triangles, not only those of split facets

---
 cafes/particle/geometry/triangulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/triangulation.hpp b/cafes/particle/geometry/triangulation.hpp
index 319d2b4..131e46d 100644
--- a/cafes/particle/geometry/triangulation.hpp
+++ b/cafes/particle/geometry/triangulation.hpp
@@ -60,7 +60,7 @@ namespace cafes
 
       std::size_t ind = 0;
       for(auto &f: qhull.facetList()){
-        if (f.isTriCoplanar()){
+        if (!f.isUpperDelaunay()){
           orgQhull::QhullVertexSet ps= f.vertices();
 
           orgQhull::QhullVertexSetIterator i = ps;
@@ -73,6 +73,7 @@ namespace cafes
           ind++;
         }
       }
+      triangles.resize(ind);
       return triangles;
     }
 
-- 
2.43.0


From c6e45e67819025538d9888c18852d463a65999c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:39 +0000
Subject: [PATCH 34/36] fix: preonly + lu factorizes the Stokes matrix with one
 pressure value prescribed

The assembled matrix is singular (constant pressure), so its parallel factorization could return velocities wrong by factors.
---
 cafes/problem/stokes.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 2fd8294..eed361f 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -349,7 +349,23 @@ namespace cafes
 
                     if (ksp_preonly && pc_lu)
                     {
-                        ierr = KSPSetOperators(ksp, A, A);CHKERRQ(ierr);
+                        // A is singular (the pressure is defined up to a constant):
+                        // factorize it with one pressure value prescribed
+                        Mat Apin;
+                        IS *is;
+                        PetscMPIInt rank;
+                        const PetscInt *rows;
+                        ierr = MPI_Comm_rank(PETSC_COMM_WORLD, &rank);CHKERRQ(ierr);
+                        ierr = MatDuplicate(A, MAT_COPY_VALUES, &Apin);CHKERRQ(ierr);
+                        ierr = DMCompositeGetGlobalISs(ctx->dm, &is);CHKERRQ(ierr);
+                        ierr = ISGetIndices(is[1], &rows);CHKERRQ(ierr);
+                        ierr = MatZeroRows(Apin, (rank == 0) ? 1 : 0, rows, 1., NULL, NULL);CHKERRQ(ierr);
+                        ierr = ISRestoreIndices(is[1], &rows);CHKERRQ(ierr);
+                        ierr = ISDestroy(&is[0]);CHKERRQ(ierr);
+                        ierr = ISDestroy(&is[1]);CHKERRQ(ierr);
+                        ierr = PetscFree(is);CHKERRQ(ierr);
+                        ierr = KSPSetOperators(ksp, A, Apin);CHKERRQ(ierr);
+                        ierr = MatDestroy(&Apin);CHKERRQ(ierr);
                         ierr = PCFactorSetShiftType(pc, MAT_SHIFT_NONZERO);CHKERRQ(ierr);
                     }
                 }
-- 
2.43.0


From abbe46d67323031c153343cd6e61da012d474fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:06 +0000
Subject: [PATCH 35/36] fix: singular corrections of an empty list of particles

The loops over the pairs ran up to size() - 1, which wraps around when
there is no particle, and read particles that do not exist.
---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index bab7751..6944af9 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -551,7 +551,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -614,7 +614,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -908,7 +908,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -949,7 +949,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -990,7 +990,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1041,7 +1041,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From 8118d94055c236473c1b1ec10539ee13ec5873bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:13 +0000
Subject: [PATCH 36/36] fix: the cut-off distance never exceeds the smaller
 radius

On coarse meshes the lower bound sqrt(2) h could exceed a radius; the
angle of the cap, asin(cutoff/radius), and with it the singular forces
were then not a number and the region of the gap was empty.
---
 cafes/particle/singularity/singularity.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index eb65093..b7c192f 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -90,6 +90,8 @@ namespace cafes
         cutoff_dist_ = (tmp < minr)? tmp : minr;
 
         cutoff_dist_ = (cutoff_dist_ <= std::sqrt(2)*h)? std::sqrt(2)*h : cutoff_dist_; 
+        // the cap of a particle ends at its equator, however coarse the mesh is
+        cutoff_dist_ = (cutoff_dist_ < minr)? cutoff_dist_ : minr;
         std::cout << "cutoff_dist " << cutoff_dist_ << "\n";
         param_ = .5*cutoff_dist_*cutoff_dist_;
         //is_singularity_ = contact_length_<threshold_*cutoff_dist_;
-- 
2.43.0

