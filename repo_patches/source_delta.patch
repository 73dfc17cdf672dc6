From a6c271970b7c00e6101bb69f76f317d21332bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 01/21] fix: filling_curve::conflict_depth starts from the
 member max_depth_, not the function max_depth

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index fc26638..c7099d9 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -106,7 +106,7 @@ public:
   }
   //! Search for the depth were two keys are in conflict
   int conflict_depth(filling_curve key_a, filling_curve key_b) {
-    int conflict = max_depth;
+    int conflict = max_depth_;
     while(key_a != key_b) {
       key_a.pop();
       key_b.pop();
-- 
2.43.0


From 96a9eef754f9c67301c1381da87f74a9c190350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:32 +0000
Subject: [PATCH 02/21] fix: ill-formed default argument (utils.h) and
 ill-formed static member definition (eos.h)

---
 include/physics/eos/eos.h | 1 -
 mpisph/utils.h            | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/physics/eos/eos.h b/include/physics/eos/eos.h
index 56c5510..a282f3b 100644
--- a/include/physics/eos/eos.h
+++ b/include/physics/eos/eos.h
@@ -419,7 +419,6 @@ public:
 };
 
 // declare static member of a templated class
-template<>
 double eos_t<param::eos_ppt>::rho_thr;
 
 template<>
diff --git a/mpisph/utils.h b/mpisph/utils.h
index 6efa050..23c0325 100644
--- a/mpisph/utils.h
+++ b/mpisph/utils.h
@@ -47,7 +47,7 @@ template<typename M>
 void
 mpi_allgatherv(const std::vector<M> & send,
   std::vector<M> & recv,
-  std::vector<int> & count = 0) {
+  std::vector<int> & count) {
   int size, rank;
   MPI_Comm_rank(MPI_COMM_WORLD, &rank);
   MPI_Comm_size(MPI_COMM_WORLD, &size);
-- 
2.43.0


From 4f749bfdc6493926f9456c5b78711806730957ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 03/21] fix: hilbert_curve_u::coordinates inverts the 3D
 encoding (digit decoding and inverse rotation)

---
 include/tree_topology/filling_curve.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index c7099d9..0809fec 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -313,9 +313,9 @@ public:
       std::array<int_t, dimension> bits = {};
       if constexpr (dimension == 3) {
         bits[0] = (key & 4) > 0;
-        bits[1] = ((key & 2) ^ bits[0]) > 0;
-        bits[2] = ((key & 1) ^ bits[0] ^ bits[1]) > 0;
-        rotation3d(mask, coords, bits);
+        bits[1] = ((key >> 1) & 1) ^ bits[0];
+        bits[2] = (key & 1) ^ bits[0] ^ bits[1];
+        unrotation3d(mask, coords, bits);
         coords[0] += bits[0] * mask;
         coords[1] += bits[1] * mask;
         coords[2] += bits[2] * mask;
-- 
2.43.0


From d8200f4faf0c12383ca884343ea6d86fd73fb988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 04/21] fix: hilbert_curve_u 1D keys keep every coordinate bit
 and decode back

---
 include/tree_topology/filling_curve.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 0809fec..138969a 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -279,7 +279,7 @@ public:
     // Handle 1D case
     if(dimension == 1) {
       assert(value_ & 1UL << max_depth_);
-      value_ |= coords[0] >> dimension;
+      value_ |= coords[0];
       value_ >>= (max_depth_ - depth);
       return;
     }
@@ -327,6 +327,9 @@ public:
         coords[0] += bits[0] * mask;
         coords[1] += bits[1] * mask;
       }
+      if constexpr (dimension == 1) {
+        coords[0] += (key & 1) * mask;
+      }
       key >>= dimension;
     }
     assert(key == int_t(1));
-- 
2.43.0


From cb7b0b62e00eb8b305155ca92e5613293453408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 05/21] fix: morton_curve_u places the root bit of a truncated
 key at its own depth

---
 include/tree_topology/filling_curve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 138969a..33b7663 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -506,8 +506,8 @@ public:
   morton_curve_u(const std::array<point_t, 2> & range,
     const point_t & p,
     const size_t depth) {
-    *this = filling_curve<DIM, T, morton_curve_u>::min();
     assert(depth <= max_depth_);
+    value_ = int_t(1) << depth * dimension;
     std::array<int_t, dimension> coords;
     const int_t max_val = (int_t(1) << (bits_ - 1) / dimension)-1;
     for(size_t i = 0; i < dimension; ++i) {
-- 
2.43.0


From 5e11af2b85e16f5dda2ad4d9ee9f4587ca1c9e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 06/21] fix: hilbert_curve_u encodes 3D cells with the inverse
 rotations, so that consecutive keys are adjacent cells

---
 include/tree_topology/filling_curve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tree_topology/filling_curve.h b/include/tree_topology/filling_curve.h
index 33b7663..143609d 100644
--- a/include/tree_topology/filling_curve.h
+++ b/include/tree_topology/filling_curve.h
@@ -295,7 +295,7 @@ public:
       }
       if constexpr (dimension == 3) {
         value_ += s * s * s * ((7 * bits[0]) ^ (3 * bits[1]) ^ bits[2]);
-        rotation3d(s, coords, bits);
+        unrotation3d(s, coords, bits);
       }
     }
     // Then truncate the key to the depth
@@ -315,7 +315,7 @@ public:
         bits[0] = (key & 4) > 0;
         bits[1] = ((key >> 1) & 1) ^ bits[0];
         bits[2] = (key & 1) ^ bits[0] ^ bits[1];
-        unrotation3d(mask, coords, bits);
+        rotation3d(mask, coords, bits);
         coords[0] += bits[0] * mask;
         coords[1] += bits[1] * mask;
         coords[2] += bits[2] * mask;
-- 
2.43.0


From 5a10e158c50d6ab7d546164f0f9348434f97d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 07/21] fix: tensor_u += and -= also act when both operands are
 the same object

---
 include/tensor.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tensor.h b/include/tensor.h
index 15921b7..8a57446 100644
--- a/include/tensor.h
+++ b/include/tensor.h
@@ -938,11 +938,9 @@ struct tensor_u<T, ST, D, Ds...> {
 
 #define def_operator(op)                                                       \
   tensor_u & operator op(tensor_u const & rhs) {                               \
-    if(this != &rhs) {                                                         \
-      for(size_t i{0}; i < size(); i++) {                                      \
-        data_[i] op rhs[i];                                                    \
-      } /* for */                                                              \
-    } /* if */                                                                 \
+    for(size_t i{0}; i < size(); i++) {                                        \
+      data_[i] op rhs[i];                                                      \
+    } /* for */                                                                \
                                                                                \
     return *this;                                                              \
   }
-- 
2.43.0


From 8ef82d174fefdb17f22451965d3c3c71f8adea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:45 +0000
Subject: [PATCH 08/21] fix: normalisation of the quintic spline kernel in 3D
 (81/(360 pi))

---
 include/physics/kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/kernels.h b/include/physics/kernels.h
index 32ac0ad..d7704e6 100644
--- a/include/physics/kernels.h
+++ b/include/physics/kernels.h
@@ -39,7 +39,7 @@ namespace kernels {
 // h depends of the dimension and is added in the kernel
 const double cubic_spline_sigma[3] = {4. / 3., 40. / (7. * M_PI), 8. / M_PI};
 const double quintic_spline_sigma[3] = {
-  1. / 40., 63. / (478. * M_PI), 81. / (359. * M_PI)};
+  1. / 40., 63. / (478. * M_PI), 81. / (360. * M_PI)};
 const double wendland_c2_sigma[3] = {1.25, 7. / M_PI, 21. / (2. * M_PI)};
 const double wendland_c4_sigma[3] = {1.5, 9. / M_PI, 495. / (32. * M_PI)};
 const double wendland_c6_sigma[3] = {
-- 
2.43.0


From d5b62a188acbe0fc6e86cdf98d01bdfb12863b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:54 +0000
Subject: [PATCH 09/21] fix: adaptive timestep neither exceeds the particles'
 limit nor passes output times

Matching the screen output stretched the step to the next output time by up
to a tenth of the output interval, whatever the particles allowed, and the
step restored after an output was not used for the time of the next step, so
an output time could be passed and time then ran backwards.
---
 include/physics/default_physics.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 0d5c93b..1613f9d 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -781,13 +781,15 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // if output to screen by time:
     // match the next screen output time
     if (totaltime == t_screen_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
+      if (dt_saved > 0) {
+        dt = std::min(dt_saved, dtmin);
+        totaltime_next = totaltime + dt;
+      }
       t_screen_output += out_screen_dt;
     }
     if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
       dt_saved = dt;
-      totaltime_next = t_screen_output;
+      totaltime_next = std::min(totaltime_next, t_screen_output);
     }
   }
 
@@ -795,8 +797,10 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // if output scalar by time:
     // match the next scalar output time
     if (totaltime == t_scalar_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
+      if (dt_saved > 0) {
+        dt = std::min(dt_saved, dtmin);
+        totaltime_next = std::min(totaltime_next, totaltime + dt);
+      }
       t_scalar_output += out_scalar_dt;
     }
     if (totaltime + dt > t_scalar_output - 0.1*out_scalar_dt) {
@@ -809,8 +813,10 @@ set_adaptive_timestep(std::vector<body> & bodies) {
     // if output h5data by time:
     // match the next h5data output time
     if (totaltime == t_h5data_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
+      if (dt_saved > 0) {
+        dt = std::min(dt_saved, dtmin);
+        totaltime_next = std::min(totaltime_next, totaltime + dt);
+      }
       t_h5data_output += out_h5data_dt;
     }
     if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {
-- 
2.43.0


From 8b3f9276e9d91afe7d93847cb178f66073f691ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:54 +0000
Subject: [PATCH 10/21] fix: cubic_interp returns zero outside its table

Below the first point it read in front of the arrays, above the last one it
extrapolated instead of returning zero as documented.
---
 include/physics/density_profiles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 6f89ac2..a3f8647 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -317,6 +317,8 @@ cubic_interp(const double x,
   const std::vector<double> & yp) {
   int i2 = get_interval_index(x, xp);
   const int N = xp.size();
+  if(i2 < 0 || i2 == N - 1)
+    return 0.0; // outside the range of xp
   if(i2 == 0)
     i2 = 1;
   if(i2 > N - 3)
-- 
2.43.0


From cf54bee9b34f99517420a8344a2f616f9065ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:54 +0000
Subject: [PATCH 11/21] fix: orbital force reads no third coordinate in two
 dimensions

---
 include/physics/eforce.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index f8004a2..1178009 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -289,13 +289,16 @@ acceleration_orbit(const body & particle) {
 
   point_t acc = 0.0;
 
-  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]);
+  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]);
+  if(gdimension > 2)
+    temp += SQ(rp[2]);
   temp = CU(temp);
   temp = sqrt(temp);
   double term1 = -grav * m_ns / temp;
   acc[0] += term1 * (rp[0] - a_sp);
   acc[1] += term1 * rp[1];
-  acc[2] += term1 * rp[2];
+  if(gdimension > 2)
+    acc[2] += term1 * rp[2];
 
   double term2 = grav * m_t / CU(a_sp);
   acc[0] += term2 * (rp[0] - a_sp * m_ns / m_t); // x-direction
@@ -311,8 +314,10 @@ potential_orbit(const point_t & rp) {
   static const double grav = gravitational_constant, a_sp = orbital_separation,
                       m_ns = mass_neutron_star, m_wd = mass_white_dwarf;
   const double m_t = m_ns + m_wd;
-  double term1 = sqrt(SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]));
-  term1 = -grav * m_ns / term1;
+  double term1 = SQ(rp[0] - a_sp) + SQ(rp[1]);
+  if(gdimension > 2)
+    term1 += SQ(rp[2]);
+  term1 = -grav * m_ns / sqrt(term1);
   double term2 = -0.5 * grav * m_t / CU(a_sp);
   term2 = term2 * (SQ(rp[0] - a_sp * m_ns / m_t) + SQ(rp[1]));
   phi = term1 + term2;
-- 
2.43.0


From d0dfe7568a86ec47c511f3084a96e7fcd0c65389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:20 +0000
Subject: [PATCH 12/21] fix: periodic boundaries write no second or third
 coordinate in lower dimensions

---
 include/physics/boundary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 5166c3e..b406050 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -133,11 +133,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // At least 1D
   min[0] = -half * box_length;
   max[0] = half * box_length;
-  if(gdimension >= 1) {
+  if(gdimension > 1) {
     min[1] = -half * box_width;
     max[1] = half * box_width;
   }
-  if(gdimension >= 2) {
+  if(gdimension > 2) {
     min[2] = -half * box_height;
     max[2] = half * box_height;
   }
-- 
2.43.0


From 5fc5a571396fd3faa68cbee33cf58a0d251dc167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:51 +0000
Subject: [PATCH 13/21] fix: share_nodes_ exchanged too few bytes of the key
 bounds for keys smaller than 64 bits

---
 include/tree_topology/tree_topology.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index bb5b266..fe2e10f 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1600,8 +1600,8 @@ private:
         s_keys.second[0] = lobound_;
         s_keys.second[1] = hibound_;
         std::pair<int[2], key_t[2]> s_rkeys;
-        MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
-          partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
+        MPI_Sendrecv(&s_keys, sizeof(s_keys), MPI_BYTE,
+          partner, 0, &s_rkeys, sizeof(s_rkeys), MPI_BYTE,
           partner, 0, MPI_COMM_WORLD, &status);
         lobound_ = std::min(s_rkeys.second[0], lobound_);
         hibound_ = std::max(s_rkeys.second[1], hibound_);
@@ -1694,8 +1694,8 @@ private:
           s_keys.second[0] = lobound_;
           s_keys.second[1] = hibound_;
           std::pair<int[2], key_t[2]> s_rkeys;
-          MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
-            partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
+          MPI_Sendrecv(&s_keys, sizeof(s_keys), MPI_BYTE,
+            partner, 0, &s_rkeys, sizeof(s_rkeys), MPI_BYTE,
             partner, 0, MPI_COMM_WORLD, &status);
           lobound_ = std::min(s_rkeys.second[0], lobound_);
           hibound_ = std::max(s_rkeys.second[1], hibound_);
-- 
2.43.0


From 0c6b1f83d0fe2863a5a79619413f02a6babcf5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:55 +0000
Subject: [PATCH 14/21] fix: share_nodes_ mixed up bounds and dropped entities
 when the number of ranks is not a power of two

---
 include/tree_topology/tree_topology.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index fe2e10f..77c3194 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1580,6 +1580,8 @@ private:
     // of the ghost rank represented.
     std::vector<share_entity_t> r_ghosts_entities_n2;
     std::vector<share_node_t> r_ghosts_nodes_n2;
+    // Bounds of the entities of the ghost rank, empty at first
+    key_t lobound_n2 = key_t::max(), hibound_n2 = key_t::min();
 
     // Communication for all channels
     for(int i = 0; i < dim; ++i) {
@@ -1642,8 +1644,6 @@ private:
         // Case already handled before
         if(ghosts_rank == rank && partner < size)
           continue;
-        if(ghosts_rank > size && partner > size)
-          continue;
         if(partner >= size) {
           partner -= (1 << (dim - 1));
         }
@@ -1670,6 +1670,8 @@ private:
                 r_ghosts_nodes_n2[j].key, r_ghosts_nodes_n2[j].owner);
             }
           }
+          lobound_ = std::min(lobound_n2, lobound_);
+          hibound_ = std::max(hibound_n2, hibound_);
           cofm_update_(root(), f_cc);
         }
         else {
@@ -1691,14 +1693,16 @@ private:
           std::pair<int[2], key_t[2]> s_keys;
           s_keys.first[0] = s_ge_size;
           s_keys.first[1] = s_gn_size;
-          s_keys.second[0] = lobound_;
-          s_keys.second[1] = hibound_;
+          key_t & lobound = rank == ghosts_rank ? lobound_ : lobound_n2;
+          key_t & hibound = rank == ghosts_rank ? hibound_ : hibound_n2;
+          s_keys.second[0] = lobound;
+          s_keys.second[1] = hibound;
           std::pair<int[2], key_t[2]> s_rkeys;
           MPI_Sendrecv(&s_keys, sizeof(s_keys), MPI_BYTE,
             partner, 0, &s_rkeys, sizeof(s_rkeys), MPI_BYTE,
             partner, 0, MPI_COMM_WORLD, &status);
-          lobound_ = std::min(s_rkeys.second[0], lobound_);
-          hibound_ = std::max(s_rkeys.second[1], hibound_);
+          lobound = std::min(s_rkeys.second[0], lobound);
+          hibound = std::max(s_rkeys.second[1], hibound);
           // Send entities
           r_ghosts_entities.resize(s_rkeys.first[0] / sz_entities);
           MPI_Sendrecv(&ghosts_entities[0], s_ge_size, MPI_BYTE, partner, 0,
@@ -1729,9 +1733,9 @@ private:
           }
           else {
             r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-              ghosts_entities.begin(), ghosts_entities.end());
+              r_ghosts_entities.begin(), r_ghosts_entities.end());
             r_ghosts_nodes_n2.insert(r_ghosts_nodes_n2.end(),
-              ghosts_nodes.begin(), ghosts_nodes.end());
+              r_ghosts_nodes.begin(), r_ghosts_nodes.end());
           }
         } // if
       } // if
-- 
2.43.0


From e97ca90c531d27a8e4e3e70f4f71486d047194fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 15/21] fix: psort read medians past the end of empty ranges

---
 mpisph/psort.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mpisph/psort.h b/mpisph/psort.h
index bd2b438..6e13f7b 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -84,9 +84,9 @@ public:
       _ValueType * mymedians = new _ValueType[n_act];
       _ValueType * medians = new _ValueType[size * n_act];
       for(int k = 0; k < n_act; ++k) {
-        _ValueType * ptr = &d_ranges[k].first[0];
-        int index = subdist[k][rank] / 2;
-        mymedians[k] = ptr[index];
+        // no median on the processors that have nothing left in this search
+        if(subdist[k][rank] > 0)
+          mymedians[k] = d_ranges[k].first[subdist[k][rank] / 2];
       } // for
       MPI_Allgather(mymedians, n_act, MPI_valueType, medians, n_act,
         MPI_valueType, MPI_COMM_WORLD);
@@ -96,17 +96,15 @@ public:
       std::vector<_ValueType> queries(n_act);
 
       for(int k = 0; k < n_act; ++k) {
-        std::vector<int> ms_perm_v(n_real);
-        int * ms_perm = &ms_perm_v.at(0);
+        std::vector<int> ms_perm;
         for(int i = 0; i < n_real; ++i)
-          ms_perm[i] = i * n_act + k;
-        std::sort(ms_perm, ms_perm + n_real,
+          if(subdist[k][i] > 0)
+            ms_perm.push_back(i * n_act + k);
+        std::sort(ms_perm.begin(), ms_perm.end(),
           PermCompare<_ValueType, _Compare>(medians, comp));
         int mid = accumulate(subdist[k].begin(), subdist[k].end(), 0) / 2;
         int query_ind = -1;
-        for(int i = 0; i < n_real; ++i) {
-          if(subdist[k][ms_perm[i] / n_act] == 0)
-            continue;
+        for(size_t i = 0; i < ms_perm.size(); ++i) {
           mid -= subdist[k][ms_perm[i] / n_act];
           if(mid <= 0) {
             query_ind = ms_perm[i];
-- 
2.43.0


From 6130fecec0736f9306f5f06a62cc18fd3755ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 16/21] fix: ranks raced on the existence of the output file

---
 mpisph/io.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 196190e..a035821 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -88,8 +88,15 @@ H5P_openFile(const char * filename, unsigned int flags) {
   hid_t plist_id = H5Pcreate(H5P_FILE_ACCESS);
   H5Pset_fapl_mpio(plist_id, comm, info);
 
+  // one rank decides: the file may appear while the others still check
+  int rank, exists = 0;
+  MPI_Comm_rank(comm, &rank);
+  if(rank == 0)
+    exists = access(filename, F_OK) != -1;
+  MPI_Bcast(&exists, 1, MPI_INT, 0, comm);
+
   hid_t file_id = 0;
-  if(access(filename, F_OK) != -1) {
+  if(exists) {
     file_id = H5Fopen(filename, flags, plist_id);
   }
   else {
-- 
2.43.0


From bafb4bad47ffb68c5b848d61a6782b8ba4cdc130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 17/21] fix: generated particle ids clashed when the ranks hold
 different numbers

---
 mpisph/io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index a035821..1cdeda9 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -342,11 +342,11 @@ H5P_bodiesReadDataset(std::vector<body> & bodies,
     else {
       // generate the ids
       log_one(trace) << "Setting ID for particles" << std::endl;
-      int64_t start = (IO_nparticles / size) * rank + 1;
+      int64_t start = IO_offset + 1;
       for(int64_t i = 0; i < IO_nparticlesproc; ++i) {
         bodies[i].set_id(start + i);
       }
-      if(rank == size - 1) // last rank
+      if(rank == size - 1 && !bodies.empty()) // last rank
         assert(IO_nparticles == bodies.back().id());
     }
   }
-- 
2.43.0


From 7dca03713b5f438aefb664debf758ae025a457fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 18/21] fix: short file names were indexed before their start

---
 mpisph/io.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpisph/io.h b/mpisph/io.h
index 1cdeda9..ac56206 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -489,6 +489,8 @@ H5P_isPrefixSnapshot(const char * fprefix, const char * filename) {
     return -1;
   if(strstr(filename, ".h5part") == NULL)
     return -1;
+  if(strlen(filename) < strlen("_00000.h5part"))
+    return -1;
   int imx = strlen(filename) - 8;
   int imn = imx - 5;
   int snum = 0, t = 1;
-- 
2.43.0


From 38ef8b27831fc19c97df39351b25cc46bc1fef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 19/21] fix: the snapshot search returned some other snapshot
 when none matched

---
 mpisph/io.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index ac56206..a96d2dc 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -530,7 +530,7 @@ H5P_fileExists(const char * prefix) {
  */
 int
 H5P_findIterationSnapshot(const char * prefix, const int iteration) {
-  int step = -1;
+  int step, found_step = -1;
   char fname[MAX_FNAME_LEN];
   char prefix_dirname[MAX_FNAME_LEN], buf[MAX_FNAME_LEN],
     prefix_basename[MAX_FNAME_LEN];
@@ -578,12 +578,14 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
       H5Fclose(file_id);
 
       // check if this is what we are looking for
-      if(file_iteration == iteration)
+      if(file_iteration == iteration) {
+        found_step = step;
         break;
+      }
     }
     closedir(d);
   }
-  return step;
+  return found_step;
 }
 
 /*
-- 
2.43.0


From ac8eddf7cff3f09158ab3e5060f24b861531edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 20/21] fix: old snapshots were deleted in the working
 directory instead of the output directory

---
 mpisph/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index a96d2dc..45bfdb8 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -625,8 +625,10 @@ H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
       while((dir = readdir(d)) != NULL) {
         int stepnum = H5P_isPrefixSnapshot(output_basename, dir->d_name);
         if(stepnum > threshold_stepnum and rank == 0) {
-          if(remove(dir->d_name) == 0) { // if successful
-            log_one(warn) << "deleting old output file: " << dir->d_name
+          sprintf(
+            output_filename, "%s_%05d.h5part", output_file_prefix, stepnum);
+          if(remove(output_filename) == 0) { // if successful
+            log_one(warn) << "deleting old output file: " << output_filename
                           << std::endl;
             ++n_deleted;
           }
-- 
2.43.0


From 2139480e8c3daced07d0a9842de633c31e93f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:44 +0000
Subject: [PATCH 21/21] fix: wall directions are read from a string that still
 exists

---
 include/physics/eforce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index 1178009..15ac8b8 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -402,8 +402,8 @@ select(const std::string & efstr) {
     else if(boost::iequals(it->substr(0, 6), "walls:")) {
       // parse in which directions to place the walls
       // this can be e.g. "walls:xyz" or "walls:y" etc.
-      const char * cxyz = it->substr(6).c_str();
-      char imx = min(3, (int)it->substr(6).length());
+      const std::string cxyz = it->substr(6);
+      char imx = min(3, (int)cxyz.length());
       for(int i = 0; i < imx; ++i) {
         switch(cxyz[i]) {
           case 'x':
-- 
2.43.0

