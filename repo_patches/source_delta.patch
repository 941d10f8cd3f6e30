From f1fc106360daf1f34861c1ce2124571a3209860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 01/16] fix: make the one-shot quadrature-cap warning flags
 thread safe

The flags are tested and set from inside OpenMP parallel regions
(per-element matrix elements, two-electron tables), an unsynchronised
read/write data race.
---
 libhelfem/src/FiniteElementBasis.cpp | 6 +++---
 libhelfem/src/RadialBasis.cpp        | 6 +++---
 src/diatomic/basis.cpp               | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/libhelfem/src/FiniteElementBasis.cpp b/libhelfem/src/FiniteElementBasis.cpp
index 80e686a..f8ce60f 100644
--- a/libhelfem/src/FiniteElementBasis.cpp
+++ b/libhelfem/src/FiniteElementBasis.cpp
@@ -17,6 +17,7 @@
 #include <sstream>
 #include <lobatto.h>
 #include <algorithm>
+#include <atomic>
 #include <cfloat>
 #include <iostream>
 // Scalar formatter that prints a T value at its own precision (no truncation
@@ -492,7 +493,7 @@ namespace helfem {
     // ----------------------------------------------------------------------
     namespace {
       // Warn at most once per process if a panel hits the order cap.
-      bool auto_matel_cap_warned = false;
+      std::atomic<bool> auto_matel_cap_warned(false);
 
       // Refine one smooth sub-panel [x_left,x_right] (reference coordinates in
       // [-1,1]) until the block is stable to 8*eps(T), doubling the Gauss-
@@ -540,8 +541,7 @@ namespace helfem {
           prev = cur;
           have = true;
           if (n >= nmax) {
-            if (!auto_matel_cap_warned) {
-              auto_matel_cap_warned = true;
+            if (!auto_matel_cap_warned.exchange(true)) {
               printf("Warning: FiniteElementBasis::matrix_element hit the Gauss-Lobatto"
                      " order cap (n=%d) without converging to eps(T); using best estimate.\n", nmax);
               fflush(stdout);
diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 1e1a020..783fba1 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -19,6 +19,7 @@
 #include <chebyshev.h>
 #include <lobatto.h>
 #include <limits>
+#include <atomic>
 // Scalar formatter that prints a T value at its own precision (no truncation
 // to double). Header-only, needs only Matrix.h + std; see src/general/eigen_io.h.
 #include "../../src/general/eigen_io.h"
@@ -79,7 +80,7 @@ namespace helfem {
         /// Order cap for the refinement loop.
         const int twoe_nmax = 512;
         /// Warn at most once per process if a primitive hits the order cap.
-        bool twoe_cap_warned = false;
+        std::atomic<bool> twoe_cap_warned(false);
 
         /// Refine `eval(n)` -- which must build its own n-point Lobatto
         /// rule -- by doubling n from nstart until the returned block is
@@ -148,8 +149,7 @@ namespace helfem {
             prev = cur;
             have = true;
             if (n >= twoe_nmax) {
-              if (!twoe_cap_warned) {
-                twoe_cap_warned = true;
+              if (!twoe_cap_warned.exchange(true)) {
                 printf("Warning: FEMRadialBasis::%s hit the Gauss-Lobatto order"
                        " cap (n=%d) without converging to eps(T); using best"
                        " estimate.\n", what, twoe_nmax);
diff --git a/src/diatomic/basis.cpp b/src/diatomic/basis.cpp
index 196946c..4418660 100644
--- a/src/diatomic/basis.cpp
+++ b/src/diatomic/basis.cpp
@@ -31,6 +31,7 @@
 #include "../general/timer.h"
 #include "../general/scf_helpers.h"
 #include <algorithm>
+#include <atomic>
 #include <sstream>
 #include <string>
 #include <cassert>
@@ -100,7 +101,7 @@ namespace helfem {
         /// Order cap for the refinement loop.
         const int twoe_nmax = 512;
         /// Warn at most once per process if the refinement hits the order cap.
-        bool twoe_cap_warned = false;
+        std::atomic<bool> twoe_cap_warned(false);
 
         /// Refine `probe(n)` -- which must rebuild its block using its own
         /// n-point Gauss-Chebyshev rule -- by doubling n from nstart until the
@@ -185,8 +186,7 @@ namespace helfem {
                 if(nconv) *nconv = std::max(nstart, 2);
                 return seed;
               }
-              if(!twoe_cap_warned) {
-                twoe_cap_warned = true;
+              if(!twoe_cap_warned.exchange(true)) {
                 printf("Warning: diatomic %s hit the quadrature order cap"
                        " (n=%d) without converging to eps(double); using best"
                        " estimate.\n", what, twoe_nmax);
-- 
2.43.0


From c805e360bbd7b4f241b50a387fb9d9e3858b2e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 02/16] fix: report failures of checkpoint reads, writes and
 deletions

The status of H5Dwrite, H5Dread and H5Ldelete was ignored, so a save on a
full disk (or a load of an unreadable dataset) appeared to succeed.
---
 src/general/checkpoint.cpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/general/checkpoint.cpp b/src/general/checkpoint.cpp
index b266376..dc5f1f4 100644
--- a/src/general/checkpoint.cpp
+++ b/src/general/checkpoint.cpp
@@ -155,7 +155,7 @@ void Checkpoint::remove(const std::string & name) {
 
   if(exist(name)) {
     // Remove the entry from the file.
-    H5Ldelete(file, name.c_str(), H5P_DEFAULT);
+    hdf5_check(H5Ldelete(file, name.c_str(), H5P_DEFAULT), "H5Ldelete", name);
   }
 
   if(cl) close();
@@ -193,7 +193,7 @@ void Checkpoint::write(const std::string & name, const helfem::Mat<T> & m) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -246,7 +246,7 @@ void Checkpoint::read(const std::string & name, helfem::Mat<T> & m) {
   // float-on-disk; HDF5 converts the disk type to the T memory type on
   // read, so a double .chk loads into a long double / _Float128 run.
   m=helfem::Mat<T>::Zero(dims[1],dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -307,7 +307,7 @@ void Checkpoint::write(const std::string & name, const Eigen::MatrixXi & m) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -347,7 +347,7 @@ void Checkpoint::read(const std::string & name, Eigen::MatrixXi & m) {
   // Allocate memory. dims are {n_rows, n_cols} (see write); the
   // column-major buffer is read straight into .data().
   m=Eigen::MatrixXi::Zero(dims[0],dims[1]);
-  H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data());
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, m.data()), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -388,7 +388,7 @@ void Checkpoint::write(const std::string & name, const std::vector<T> & v) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -438,7 +438,7 @@ void Checkpoint::read(const std::string & name, std::vector<T> & v) {
   // Allocate memory. HDF5 converts the disk float type to the T memory
   // type on read, so a double-on-disk array loads into any T.
   v.resize(dims[0]);
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -475,7 +475,7 @@ void Checkpoint::write(const std::string & name, const std::vector<hsize_t> & v)
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -523,7 +523,7 @@ void Checkpoint::read(const std::string & name, std::vector<hsize_t> & v) {
 
   // Allocate memory
   v.resize(dims[0]);
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0]));
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &(v[0])), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -709,7 +709,7 @@ void Checkpoint::write(const std::string & name, T val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -751,7 +751,7 @@ void Checkpoint::read(const std::string & name, T & v) {
 
   // Read. HDF5 converts the disk float type to the T memory type, so a
   // double-on-disk scalar loads into any T.
-  H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, h5_native_float<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -785,7 +785,7 @@ void Checkpoint::write(const std::string & name, int val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -822,7 +822,7 @@ void Checkpoint::read(const std::string & name, int & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -855,7 +855,7 @@ void Checkpoint::write(const std::string & name, hsize_t val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -892,7 +892,7 @@ void Checkpoint::read(const std::string & name, hsize_t & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HSIZE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -937,7 +937,7 @@ void Checkpoint::write_hbool(const std::string & name, hbool_t val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val);
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, &val), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -969,7 +969,7 @@ void Checkpoint::read_hbool(const std::string & name, hbool_t & v) {
     throw std::runtime_error("Error - dataspace is not of scalar type!\n");
 
   // Read
-  H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_HBOOL, H5S_ALL, H5S_ALL, H5P_DEFAULT, &v), "H5Dread", name);
 
   // Close dataspace
   H5Sclose(dataspace);
@@ -1007,7 +1007,7 @@ void Checkpoint::write(const std::string & name, const std::string & val) {
   hid_t dataset=hdf5_check(H5Dcreate(file,name.c_str(),datatype,dataspace,H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT), "H5Dcreate", name);
 
   // Write the data to the file.
-  H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str());
+  hdf5_check(H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL, H5P_DEFAULT, val.c_str()), "H5Dwrite", name);
 
   // Close everything.
   H5Dclose(dataset);
@@ -1055,7 +1055,7 @@ void Checkpoint::read(const std::string & name, std::string & val) {
 
   // Allocate work memory
   char *wrk=(char *)malloc(dims[0]*sizeof(char));
-  H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk);
+  hdf5_check(H5Dread(dataset, H5T_NATIVE_CHAR, H5S_ALL, H5S_ALL, H5P_DEFAULT, wrk), "H5Dread", name);
   val=std::string(wrk);
   free(wrk);
 
-- 
2.43.0


From b6d3c0a4dfeb0a421e5a62b7138fa6397fcc60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:48 +0000
Subject: [PATCH 03/16] fix: record the identifier of Chebyshev-node primitive
 bases

get_basis(100|101, n) labelled its result 4|5, so a checkpoint written with
Chebyshev nodes was silently reloaded with Gauss-Lobatto nodes.
---
 libhelfem/src/PolynomialBasis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhelfem/src/PolynomialBasis.cpp b/libhelfem/src/PolynomialBasis.cpp
index 8c148de..93f2d1b 100644
--- a/libhelfem/src/PolynomialBasis.cpp
+++ b/libhelfem/src/PolynomialBasis.cpp
@@ -73,7 +73,7 @@ namespace helfem {
           helfem::Vec<double> x(Nnodes);
           for(int i=0;i<Nnodes;i++)
             x(i) = std::cos(M_PI*(Nnodes-1-i)/(Nnodes-1));
-          poly=new polynomial_basis::LIPBasis(x, 4);
+          poly=new polynomial_basis::LIPBasis(x, primbas);
           if(helfem::verbose)
             printf("Basis set composed of %i-node LIPs with Chebyshev nodes.\n",Nnodes);
           break;
@@ -84,7 +84,7 @@ namespace helfem {
           helfem::Vec<double> x(Nnodes);
           for(int i=0;i<Nnodes;i++)
             x(i) = std::cos(M_PI*(Nnodes-1-i)/(Nnodes-1));
-          poly=new polynomial_basis::HIPBasis(x, 5);
+          poly=new polynomial_basis::HIPBasis(x, primbas);
           if(helfem::verbose)
             printf("Basis set composed of %i-node HIPs with Chebyshev nodes.\n",Nnodes);
           break;
-- 
2.43.0


From b69dc700a4879a01fa9a659be03544cfdefea00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:09 +0000
Subject: [PATCH 04/16] fix: Laplacian-dependent potentials in the unrestricted
 atomic Fock matrix

The gradient part of the vlapl term was only added for functionals that
also depend on tau, and the beta part was added even when the beta matrix
was not requested and hence not allocated.
---
 src/atomic/dftgrid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/atomic/dftgrid.cpp b/src/atomic/dftgrid.cpp
index ff7e7ae..57e8d13 100644
--- a/src/atomic/dftgrid.cpp
+++ b/src/atomic/dftgrid.cpp
@@ -418,7 +418,7 @@ namespace helfem {
         }
 
 
-        if(do_mgga_t) {
+        if(do_mgga_t || do_mgga_l) {
           helfem::Vector vtl_a=helfem::Vector::Zero(wtot.size());
           if(do_mgga_t)
             vtl_a += 0.5*vtau.row(0).transpose();
@@ -450,9 +450,11 @@ namespace helfem {
         }
         if(do_mgga_l) {
           helfem::Vector vl_a=vlapl.row(0).transpose().array()*wtot.array();
-          helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
           helfem::dftgrid_common::increment_mgga_lapl_split(Ha,vl_a,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
-          helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          if(beta) {
+            helfem::Vector vl_b=vlapl.row(1).transpose().array()*wtot.array();
+            helfem::dftgrid_common::increment_mgga_lapl_split(Hb,vl_b,bf_re,bf_im,bf_lapl_re,bf_lapl_im);
+          }
         }
 
         for(size_t i=0;i<bf_ind.size();i++)
-- 
2.43.0


From b0e58a08fff504e2a6e348ab23c837518597806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:36 +0000
Subject: [PATCH 05/16] fix: keep all shape functions in HIPBasis drop_last
 when no boundary condition is imposed

---
 libhelfem/include/HIPBasis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhelfem/include/HIPBasis.h b/libhelfem/include/HIPBasis.h
index 8c34c75..d387894 100644
--- a/libhelfem/include/HIPBasis.h
+++ b/libhelfem/include/HIPBasis.h
@@ -71,7 +71,7 @@ class HIPBasisT : public LIPBasisT<T> {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 2).eval();
     } else if (deriv) {
       this->enabled = this->enabled.segment(0, this->enabled.size() - 1).eval();
-    } else {
+    } else if (func) {
       IVec new_enabled(this->enabled.size() - 1);
       new_enabled.segment(0, this->enabled.size() - 2)
           = this->enabled.segment(0, this->enabled.size() - 2);
-- 
2.43.0


From e8474a58b425916aa1162a5cd12d6dac9f6ff142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 06/16] fix: polynomial confinement with a shift used
 ((r-s)/r)^2 (r-s)^N as the potential

---
 libhelfem/src/RadialBasis.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libhelfem/src/RadialBasis.cpp b/libhelfem/src/RadialBasis.cpp
index 783fba1..2b2ffe9 100644
--- a/libhelfem/src/RadialBasis.cpp
+++ b/libhelfem/src/RadialBasis.cpp
@@ -502,9 +502,12 @@ namespace helfem {
         // element there so each smooth sub-panel converges by order-refinement.
         return matrix_element(iel, BasisKind::R0, BasisKind::R0,
                               [N, shift_pot](T r) {
-                                return (r < shift_pot)
-                                    ? T(0)
-                                    : std::pow(r - shift_pot, N + 2);
+                                // R0 = B0/r, so the weight is r^2 V(r)
+                                if (r < shift_pot)
+                                  return T(0);
+                                return (shift_pot == T(0))
+                                    ? std::pow(r, N + 2)
+                                    : r * r * std::pow(r - shift_pot, N);
                               },
                               std::vector<T>{shift_pot}, -1);
       }
-- 
2.43.0


From abadc57e8c89e4b316b2679cd3637550c141092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 07/16] fix: carry the -|m| partners when saving and loading
 densities with --symmetry=3

---
 src/diatomic/main.cpp           | 11 +++++----
 src/general/scf_driver_common.h | 42 ++++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 9ed9424..86242cc 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -633,13 +633,16 @@ int main(int argc, char **argv) {
       const helfem::Matrix P_total = Pa_new + Pb_new;
       for (size_t k = 0; k < nsym; ++k)
         helfem::scf_driver::fill_block_from_density(
-            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k], max_occ_restr);
+            k, loaded_orbs, loaded_occs, P_total, dsym[k], Sinvh[k],
+            max_occ_restr * block_degeneracy[k], &dmirror[k]);
     } else {
       for (size_t k = 0; k < nsym; ++k) {
         helfem::scf_driver::fill_block_from_density(
-            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k], max_occ_open);
+            k,        loaded_orbs, loaded_occs, Pa_new, dsym[k], Sinvh[k],
+            max_occ_open * block_degeneracy[k], &dmirror[k]);
         helfem::scf_driver::fill_block_from_density(
-            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k], max_occ_open);
+            nsym + k, loaded_orbs, loaded_occs, Pb_new, dsym[k], Sinvh[k],
+            max_occ_open * block_degeneracy[k], &dmirror[k]);
       }
     }
     scfsolver.initialize_with_orbitals(loaded_orbs, loaded_occs);
@@ -659,7 +662,7 @@ int main(int argc, char **argv) {
     const auto final_occs = scfsolver.get_orbital_occupations();
     helfem::Matrix Pa_final, Pb_final;
     std::tie(Pa_final, Pb_final) = helfem::scf_driver::assemble_final_density<OOO_Real>(
-        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs);
+        Nbf, restricted, dsym, Sinvh, final_orbs, final_occs, &dmirror);
     // Densities written straight through the checkpoint's helfem::Matrix overloads.
     savechk.write("Pa", Pa_final);
     savechk.write("Pb", Pb_final);
diff --git a/src/general/scf_driver_common.h b/src/general/scf_driver_common.h
index a2ac755..38a1a3d 100644
--- a/src/general/scf_driver_common.h
+++ b/src/general/scf_driver_common.h
@@ -224,19 +224,27 @@ namespace helfem {
     ///
     ///   P_orth = Sinvh_k^T . Pspin(dsym[k], dsym[k]) . Sinvh_k
     ///          -> V, w  (descending); w clamped to [0, max_occ]
+    ///
+    /// A mirrored block carries the electrons of both partners (see
+    /// accumulate_density_block), so the partner's density is added in;
+    /// max_occ is the maximum occupation of the block, degeneracy
+    /// included.
     template <typename Real>
     inline void fill_block_from_density(
         size_t out_index,
         OpenOrbitalOptimizer::Orbitals<Real> & orbs,
         OpenOrbitalOptimizer::OrbitalOccupations<Real> & occs,
         const helfem::Matrix & Pspin, const std::vector<Eigen::Index> & idx,
-        const helfem::Matrix & Sinvh_block, double max_occ) {
+        const helfem::Matrix & Sinvh_block, double max_occ,
+        const std::vector<Eigen::Index> * mirror = nullptr) {
       if (idx.empty()) {
         orbs[out_index] = helfem::Matrix::Zero(0, 0);
         occs[out_index] = helfem::Vector::Zero(0);
         return;
       }
-      const helfem::Matrix Pblk  = Pspin(idx, idx);
+      helfem::Matrix Pblk = Pspin(idx, idx);
+      if (mirror != nullptr && !mirror->empty())
+        Pblk += helfem::Matrix(Pspin(*mirror, *mirror));
       const helfem::Matrix Porth = Sinvh_block.transpose() * Pblk * Sinvh_block;
       // SelfAdjointEigenSolver returns eigenvalues in ascending order;
       // reverse for descending (largest occupation first), matching the
@@ -259,14 +267,17 @@ namespace helfem {
     /// matrices from OOO's converged per-block orbitals + occupations.
     /// Restricted case: orbs[k] carries the closed-shell density
     /// (max occ 2); alpha and beta both get half of it. Unrestricted:
-    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym).
+    /// alpha in indices [0, nsym), beta in [nsym, 2*nsym). Mirrored
+    /// blocks share their occupation between the two partners, exactly
+    /// as in accumulate_density_block.
     template <typename Real>
     inline std::pair<helfem::Matrix, helfem::Matrix> assemble_final_density(
         size_t Nbf, bool restricted,
         const std::vector<std::vector<Eigen::Index>> & dsym,
         const std::vector<helfem::Matrix> & Sinvh,
         const OpenOrbitalOptimizer::Orbitals<Real> & final_orbs,
-        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs) {
+        const OpenOrbitalOptimizer::OrbitalOccupations<Real> & final_occs,
+        const std::vector<std::vector<Eigen::Index>> * dmirror = nullptr) {
       const size_t nsym = dsym.size();
       const Eigen::Index N = static_cast<Eigen::Index>(Nbf);
       helfem::Matrix Pa_final = helfem::Matrix::Zero(N, N);
@@ -275,16 +286,25 @@ namespace helfem {
         if (dsym[k].empty()) continue;
         const std::vector<Eigen::Index> & idx = dsym[k];
         const helfem::Matrix orb_a_ao = Sinvh[k] * final_orbs[k];
-        const helfem::Vector occ_a    = final_occs[k];
+        const bool paired = (dmirror != nullptr && !(*dmirror)[k].empty());
+        const double share = paired ? 0.5 : 1.0;
+        const helfem::Vector occ_a    = share * final_occs[k];
+        helfem::Matrix Pa_block = orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
+        helfem::Matrix Pb_block;
         if (restricted) {
-          const helfem::Matrix P_block = 0.5 * (orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose());
-          Pa_final(idx, idx) += P_block;
-          Pb_final(idx, idx) += P_block;
+          Pa_block *= 0.5;
+          Pb_block = Pa_block;
         } else {
           const helfem::Matrix orb_b_ao = Sinvh[k] * final_orbs[nsym + k];
-          const helfem::Vector occ_b    = final_occs[nsym + k];
-          Pa_final(idx, idx) += orb_a_ao * occ_a.asDiagonal() * orb_a_ao.transpose();
-          Pb_final(idx, idx) += orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+          const helfem::Vector occ_b    = share * final_occs[nsym + k];
+          Pb_block = orb_b_ao * occ_b.asDiagonal() * orb_b_ao.transpose();
+        }
+        Pa_final(idx, idx) += Pa_block;
+        Pb_final(idx, idx) += Pb_block;
+        if (paired) {
+          const std::vector<Eigen::Index> & midx = (*dmirror)[k];
+          Pa_final(midx, midx) += Pa_block;
+          Pb_final(midx, midx) += Pb_block;
         }
       }
       return {Pa_final, Pb_final};
-- 
2.43.0


From 584861d529e64a0838b8302e4597afe1312df135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 08/16] fix: do not impose the +-m degeneracy in a magnetic
 field

---
 src/diatomic/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diatomic/main.cpp b/src/diatomic/main.cpp
index 86242cc..d12a3cf 100644
--- a/src/diatomic/main.cpp
+++ b/src/diatomic/main.cpp
@@ -237,6 +237,12 @@ int main(int argc, char **argv) {
     printf("Warning - asked for full orbital symmetry in presence of magnetic field. Relaxing restriction.\n");
     symm = 1;
   }
+  // symm=3 (per-|m|) solves only the +|m| problem, but the magnetic field
+  // shifts +|m| and -|m| apart.
+  if (symm == 3 && Bz != 0.0) {
+    printf("Warning - asked for +-m degeneracy in presence of magnetic field. Relaxing to symmetry=1.\n");
+    symm = 1;
+  }
 
   diatomic::basis::TwoDBasis basis(Z1, Z2, Rhalf, poly, Nquad, bval, lval, mval);
   const size_t Nbf = basis.Nbf();
-- 
2.43.0


From 1e62dc61a54d2f32cde864fd37195971ad404202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:21 +0000
Subject: [PATCH 09/16] fix: evaluate midpoint functions at the midpoint's
 polar angle on the 2D grid

---
 src/diatomic/twodquadrature.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diatomic/twodquadrature.cpp b/src/diatomic/twodquadrature.cpp
index 56f34f0..0717517 100644
--- a/src/diatomic/twodquadrature.cpp
+++ b/src/diatomic/twodquadrature.cpp
@@ -275,7 +275,10 @@ namespace helfem {
           for(size_t ia=0;ia<wang.size();ia++)
             for(size_t ir=0;ir<wrad.size();ir++) {
               size_t idx=ia*wrad.size()+ir;
-              double cthval = cth(ia);
+              // z/r measured from the bond midpoint, where z = Rhalf
+              // cosh(mu) cos(nu) and r is as in ao_projection.
+              double rc = std::sqrt(std::max(chmu(ir)*chmu(ir) + cth(ia)*cth(ia) - 1.0, 0.0));
+              double cthval = (rc > 0.0) ? chmu(ir)*cth(ia)/rc : 0.0;
               double Plm = eval_Plm(cthval);
               for(size_t ix=0;ix<itg.rows();ix++)
                 itg(ix,idx)*=Plm;
-- 
2.43.0


From a9d101cb0f41e29acab225575678102958be9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:41 +0000
Subject: [PATCH 10/16] fix: GGA screening potential counted the 2/r term twice
 and mixed sigma derivatives

---
 src/general/atomdb.cpp | 29 +++++++++++++++++------------
 src/sadatom/basis.cpp  | 24 ++++++++++++++++--------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/general/atomdb.cpp b/src/general/atomdb.cpp
index 6c8fc3b..e7939b2 100644
--- a/src/general/atomdb.cpp
+++ b/src/general/atomdb.cpp
@@ -384,30 +384,35 @@ namespace helfem {
         // and for a spherically symmetric density the divergence is
         // d/dr + 2/r. Expanding d/dr of the vsigma terms by the chain
         // rule brings in the second derivatives of the functional and the
-        // Laplacian of the density. Mirrors the grid implementation in
+        // second radial derivative of the density. Mirrors the grid implementation in
         // sadatom::basis::TwoDBasis::xc_screening.
         double corr[2] = {0.0, 0.0};
 
+        // Second radial derivative of the density: the 2/r part of the
+        // divergence is added separately below.
+        const double d2[2] = {lapl[0] - 2.0 * grad[0] / r,
+                              lapl[1] - 2.0 * grad[1] / r};
+
         // g(t) (d^2 E / d n(t) d sigma(ss')) g(s')
         corr[0] += 2.0 * (grad[0] * v2rhosigma[0] + grad[1] * v2rhosigma[3]) * grad[0];
         corr[0] += (grad[0] * v2rhosigma[1] + grad[1] * v2rhosigma[4]) * grad[1];
         corr[1] += 2.0 * (grad[1] * v2rhosigma[5] + grad[0] * v2rhosigma[2]) * grad[1];
         corr[1] += (grad[0] * v2rhosigma[1] + grad[1] * v2rhosigma[4]) * grad[0];
 
-        // (l(t) g(t') + g(t) l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
-        const double lg = lapl[0] * grad[1] + grad[0] * lapl[1];
-        const double d2Edsaa = lapl[0] * grad[0] * v2sigma2[0] + lg * v2sigma2[1] +
-                               lapl[1] * grad[1] * v2sigma2[2];
-        const double d2Edsab = lapl[0] * grad[0] * v2sigma2[1] + lg * v2sigma2[3] +
-                               lapl[1] * grad[1] * v2sigma2[4];
-        const double d2Edsbb = lapl[0] * grad[0] * v2sigma2[2] + lg * v2sigma2[4] +
-                               lapl[1] * grad[1] * v2sigma2[5];
+        // (n''(t) g(t') + g(t) n''(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s')
+        const double lg = 0.5 * (d2[0] * grad[1] + grad[0] * d2[1]);
+        const double d2Edsaa = d2[0] * grad[0] * v2sigma2[0] + lg * v2sigma2[1] +
+                               d2[1] * grad[1] * v2sigma2[2];
+        const double d2Edsab = d2[0] * grad[0] * v2sigma2[1] + lg * v2sigma2[3] +
+                               d2[1] * grad[1] * v2sigma2[4];
+        const double d2Edsbb = d2[0] * grad[0] * v2sigma2[2] + lg * v2sigma2[4] +
+                               d2[1] * grad[1] * v2sigma2[5];
         corr[0] += 4.0 * d2Edsaa * grad[0] + 2.0 * d2Edsab * grad[1];
         corr[1] += 4.0 * d2Edsbb * grad[1] + 2.0 * d2Edsab * grad[0];
 
-        // dE/dsigma(ss') l(s')
-        corr[0] += 2.0 * vsigma[0] * lapl[0] + vsigma[1] * lapl[1];
-        corr[1] += vsigma[1] * lapl[0] + 2.0 * vsigma[2] * lapl[1];
+        // dE/dsigma(ss') n''(s')
+        corr[0] += 2.0 * vsigma[0] * d2[0] + vsigma[1] * d2[1];
+        corr[1] += vsigma[1] * d2[0] + 2.0 * vsigma[2] * d2[1];
 
         // The 2/r piece of the radial divergence
         corr[0] += 2.0 / r * (2.0 * vsigma[0] * grad[0] + vsigma[1] * grad[1]);
diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index a6fd2de..61df27c 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1128,6 +1128,14 @@ namespace helfem {
         if(do_gga) {
           helfem::Matrix corr = helfem::Matrix::Zero(2,vxc.cols());
 
+          // Second radial derivative of the density: the 2/r part of
+          // the divergence is added separately below.
+          helfem::Vector d2a(lapla), d2b(laplb);
+          for(size_t ip=1;ip<Npoints;ip++) {
+            d2a(ip) -= 2.0*grada(ip)/r(ip);
+            d2b(ip) -= 2.0*gradb(ip)/r(ip);
+          }
+
           // Loop over points: skip nucleus since there's no laplacian there for now
           for(size_t ip=1;ip<Npoints;ip++) {
             // First term: g(t) ( d^2 E / d n(t) d sigma(ss') ) g(s')
@@ -1144,23 +1152,23 @@ namespace helfem {
           }
 
           for(size_t ip=1;ip<Npoints;ip++) {
-            // Second term: (l(t)g(t') + g(t)l(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
-            double d2Edsaa = lapla(ip)*grada(ip)*v2sigma2(0,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(1,ip) + laplb(ip)*gradb(ip)*v2sigma2(2,ip);
-            double d2Edsab = lapla(ip)*grada(ip)*v2sigma2(1,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(3,ip) + laplb(ip)*gradb(ip)*v2sigma2(4,ip);
-            double d2Edsbb = lapla(ip)*grada(ip)*v2sigma2(2,ip) + (lapla(ip)*gradb(ip) + grada(ip)*laplb(ip))*v2sigma2(4,ip) + laplb(ip)*gradb(ip)*v2sigma2(5,ip);
+            // Second term: (n''(t)g(t') + g(t)n''(t')) (d^2 E / d sigma(tt') d sigma(ss')) g(s'). Contract t and t' first, put in factor two later
+            double d2Edsaa = d2a(ip)*grada(ip)*v2sigma2(0,ip) + 0.5*(d2a(ip)*gradb(ip) + grada(ip)*d2b(ip))*v2sigma2(1,ip) + d2b(ip)*gradb(ip)*v2sigma2(2,ip);
+            double d2Edsab = d2a(ip)*grada(ip)*v2sigma2(1,ip) + 0.5*(d2a(ip)*gradb(ip) + grada(ip)*d2b(ip))*v2sigma2(3,ip) + d2b(ip)*gradb(ip)*v2sigma2(4,ip);
+            double d2Edsbb = d2a(ip)*grada(ip)*v2sigma2(2,ip) + 0.5*(d2a(ip)*gradb(ip) + grada(ip)*d2b(ip))*v2sigma2(4,ip) + d2b(ip)*gradb(ip)*v2sigma2(5,ip);
             // and now we can contract this with the gradient
             corr(0,ip) += 4.0*d2Edsaa*grada(ip) + 2.0*d2Edsab*gradb(ip);
             corr(1,ip) += 4.0*d2Edsbb*gradb(ip) + 2.0*d2Edsab*grada(ip);
           }
 
           for(size_t ip=1;ip<Npoints;ip++) {
-            // Third term: dE/dsigma(ss') l(s')
-            corr(0,ip) += 2.0*vsigma(0,ip)*lapla(ip) + vsigma(1,ip)*laplb(ip);
-            corr(1,ip) += vsigma(1,ip)*lapla(ip) + 2.0*vsigma(2,ip)*laplb(ip);
+            // Third term: dE/dsigma(ss') n''(s')
+            corr(0,ip) += 2.0*vsigma(0,ip)*d2a(ip) + vsigma(1,ip)*d2b(ip);
+            corr(1,ip) += vsigma(1,ip)*d2a(ip) + 2.0*vsigma(2,ip)*d2b(ip);
           }
 
           for(size_t ip=1;ip<Npoints;ip++) {
-            // Second term in the divergence: div A = dA/dr + 2 r A
+            // Second term in the divergence: div A = dA/dr + 2/r A
             corr(0,ip) += 2.0/r(ip)*(2.0*vsigma(0,ip)*grada(ip) + vsigma(1,ip)*gradb(ip));
             corr(1,ip) += 2.0/r(ip)*(vsigma(1,ip)*grada(ip) + 2.0*vsigma(2,ip)*gradb(ip));
           }
-- 
2.43.0


From c91f8238a082c3872e28313a5cdd55473a4bd316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:02 +0000
Subject: [PATCH 11/16] fix: release the correlation functional in xc_screening

---
 src/sadatom/basis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 61df27c..9cc8306 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -1120,6 +1120,7 @@ namespace helfem {
           } else {
             xc_lda_vxc(&func, rhoa.size(), rho_libxc.data(), vxc_wrk.data());
           }
+          xc_func_end(&func);
 
           vxc+=vxc_wrk;
         }
-- 
2.43.0


From db5ca1e8f881cd83f517fe262d077b60c7bf3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 12/16] fix: bisect for the van der Waals threshold, not the
 convergence tolerance

---
 src/sadatom/basis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 9cc8306..1fff243 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -840,11 +840,11 @@ namespace helfem {
             helfem::Vector m = a + (b-a)/2.0;
             double density_m = angfac*electron_density(m, iel, Prad, rsqweight)(0);
 
-            if(density_m < eps) {
+            if(density_m < vdw_threshold) {
               b = m;
-            } else if(density_m > eps) {
+            } else if(density_m > vdw_threshold) {
               a = m;
-            } else if(density_m == eps)
+            } else if(density_m == vdw_threshold)
               break;
 
             ibisect++;
-- 
2.43.0


From 0bb5e7ab417ed306e7182b3c8d12d9e7358894b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 13/16] fix: reject nuclear charges beyond the end of the GSZ
 parameter table

---
 src/general/gsz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index a77c686..8b43681 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -21,7 +21,7 @@ static const double d_Z_GSZ[]={1.00, 0.215, 0.563, 0.858, 0.979, 0.880, 0.776, 0
 namespace helfem {
   namespace GSZ {
     void GSZ_parameters(int Z, double & d, double & H) {
-      if((size_t) Z>sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
+      if(Z<0 || (size_t) Z>=sizeof(d_Z_GSZ)/sizeof(d_Z_GSZ[0])) {
 	std::ostringstream oss;
 	oss << "No GSZ parameters for Z = " << Z << "!\n";
 	throw std::logic_error(oss.str());
-- 
2.43.0


From 8869a5b2160d125de5d6046649eee537ff7e5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:07 +0000
Subject: [PATCH 14/16] fix: regularized nucleus read outside its search table
 when the parameter was at an end

---
 libhelfemqc/src/RegularizedNucleus.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libhelfemqc/src/RegularizedNucleus.cpp b/libhelfemqc/src/RegularizedNucleus.cpp
index 9a0cee8..ce5a222 100644
--- a/libhelfemqc/src/RegularizedNucleus.cpp
+++ b/libhelfemqc/src/RegularizedNucleus.cpp
@@ -114,10 +114,13 @@ namespace helfem {
       Eigen::Index idx;
       dnorm.minCoeff(&idx);
 
+      // The closest value can be at either end of the table
+      if((size_t) idx+1 >= Npts)
+        throw std::logic_error("Could not right bracket normalized wf!\n");
       T b_right=norm(idx+1,0);
       if(phi_normalization<T>(a,b_right,N) > target)
         throw std::logic_error("Could not right bracket normalized wf!\n");
-      T b_left=norm(idx-1,0);
+      T b_left=(idx>0) ? norm(idx-1,0) : T(0);
       if(phi_normalization<T>(a,b_left,N) < target)
         throw std::logic_error("Could not left bracket normalized wf!\n");
 
-- 
2.43.0


From 7e6ab826e6e5d95f6dd62a7faf2029e6dbda7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:13 +0000
Subject: [PATCH 15/16] fix: GSZ potential of a dummy centre was not a number

---
 src/general/gsz.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general/gsz.cpp b/src/general/gsz.cpp
index 8b43681..a21cefa 100644
--- a/src/general/gsz.cpp
+++ b/src/general/gsz.cpp
@@ -28,7 +28,8 @@ namespace helfem {
       }
 
       d=d_Z_GSZ[Z];
-      H=d*std::pow(Z-1,0.4);
+      // A dummy centre (Z=0) has no charge; the power would not be a number
+      H=(Z>0) ? d*std::pow(Z-1,0.4) : 0.0;
     }
 
     double Z_GSZ(double r, double Z, double d_Z, double H_Z) {
-- 
2.43.0


From 7bc24c6c3d851a297e5bb75aa4e394a8cc5dd5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 16/16] fix: van der Waals radius missed crossings just beyond
 an element boundary

---
 src/sadatom/basis.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sadatom/basis.cpp b/src/sadatom/basis.cpp
index 1fff243..e4516e3 100644
--- a/src/sadatom/basis.cpp
+++ b/src/sadatom/basis.cpp
@@ -794,7 +794,14 @@ namespace helfem {
         size_t iel;
         for(iel=radial.Nel()-1;iel<radial.Nel();iel--) {
           helfem::Vector den(angfac*electron_density(iel, Prad, rsqweight));
-          if(den.maxCoeff()>vdw_threshold) {
+          // The density may also cross the threshold between the
+          // element boundary and its first quadrature point
+          bool above = den.maxCoeff()>vdw_threshold;
+          if(!above && iel>0) {
+            const helfem::Vector xl(helfem::Vector::Constant(1,-1.0));
+            above = angfac*electron_density(xl, iel, Prad, rsqweight)(0)>vdw_threshold;
+          }
+          if(above) {
             // We found the element
             break;
           }
-- 
2.43.0

