From c6dc8cb9302524c065eeefc0914844504e8e5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 01/44] fix: keep the latitude hit map of
 distribute_colatitudes within its bounds

A sample at theta = pi/2 was counted one past the end of the histogram and
the search for the next rank boundary read past its end.
---
 src/conviqt_math.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 4d3c729..d6d953e 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -291,6 +291,10 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
             beta = pi - beta;
         }
         long ibin = beta / wbin;
+        if (ibin >= nbin) {
+            // beta == pi / 2 belongs to the last bin
+            ibin = nbin - 1;
+        }
         ++my_hits[ibin];
     }
 
@@ -308,6 +312,10 @@ void convolver::distribute_colatitudes(levels::arr<double> &pntarr,
         long bin_hit = 0;
         while (ibin < nbin) {
             ++ibin;
+            if (ibin == nbin) {
+                // No more hits
+                break;
+            }
             // Skip over isolatitudes that have no hits
             if (hits[ibin] != 0) {
                 bin_hit += hits[ibin];
-- 
2.43.0


From 190aa217ccd625cbedee6a00c16a148b288b9108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 02/44] fix: wrap the longitude stencil when it is wider than
 the grid

With order + 1 > nphi the interpolation loop read past the end of (or before)
the ring because the longitude index was only ever shifted by one turn.
---
 src/conviqt_math.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index d6d953e..dcd200f 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1409,9 +1409,9 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             frac = levels::fmodulo(frac, double(nphi));
             int iphi0 = int(frac) - ioffset;
             frac -= iphi0;
-            if (iphi0 >= nphi) {
-                iphi0 -= nphi;
-            } else if (iphi0 < 0) {
+            // Wrap the first node, possibly more than once
+            iphi0 %= nphi;
+            if (iphi0 < 0) {
                 iphi0 += nphi;
             }
             weight_ncm(frac, wgt2);
@@ -1430,9 +1430,7 @@ void convolver::conviqt_tod_loop(levels::arr<long> &lowerIndex,
             for (int iphi = 0; iphi < npoints; ++iphi) {
                 const double weight = wgt2[iphi] * weight1;
                 long iphinew = iphi0 + iphi;
-                if (iphinew >= nphi) {
-                    iphinew -= nphi;
-                }
+                iphinew %= nphi;
                 const xcomplex<double> *ca = &(conviqtarr[iphinew][0]);
                 double x = 0;
                 for (long ipsi = 0; ipsi < npsi; ++ipsi) {
-- 
2.43.0


From 6a9ac4feab8a27a83300ec73533b806d8210aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 03/44] fix: honour the beam mmax requested from beam::read

A positive beammmax was validated and then replaced with beamlmax.
---
 src/conviqt_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index ebd7413..3e687f8 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -45,7 +45,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beamlmax;
+        mmax = beammmax;
     } else {
         mmax = std::min((int)lmax, mmax_file);
     }
-- 
2.43.0


From d727401677e3bc50f868abd5d1a4c47394ccb351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 04/44] fix: limit the automatic convolver lmax to what both
 inputs support

With lmax < 0 the larger of the two expansion orders was used and the
coefficients of the other input were read out of bounds.
---
 src/conviqt_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index dcd200f..fe26ab0 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -121,7 +121,7 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     const int lmax_sky = s->get_lmax();
     const int lmax_beam = b->get_lmax();
     if (lmax < 0) {
-        this->lmax = std::max(lmax_beam, lmax_sky);
+        this->lmax = std::min(lmax_beam, lmax_sky);
     } else if (lmax > lmax_sky || lmax > lmax_beam) {
         throw std::runtime_error("Convolver lmax exceeds input expansion order.");
     }
-- 
2.43.0


From ebbff9915e29e9f3d2af3970d3f91666eddf6902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 05/44] fix: make every task take part in the collective
 redistribution

Tasks that neither own nor receive samples skipped the barriers and
all-to-all exchanges, which left the other tasks blocked in them.
---
 src/conviqt_math.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index fe26ab0..a273dfd 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1561,14 +1561,14 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Redistribute the data from pntarr2 to outpntarr
 
-    if (totsize != 0 || outBetaSegSize != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
-                        outpntarr, outBetaSeg, outOffset, outBetaSegSize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    // These calls are collective: tasks without samples must participate.
+
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(pntarr2, inBetaSeg, inOffset,
+                    outpntarr, outBetaSeg, outOffset, outBetaSegSize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (totsize > 0) {
         pntarr2.dealloc();
@@ -1626,14 +1626,12 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     // Communicate the pointing and TOD to the original owners
 
-    if (totsize != 0 || ntod != 0) {
-        mpiMgr.barrier();
-        t1 = mpiMgr.Wtime();
-        mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
-                        inBetaSeg, inOffset, 5 * totsize);
-        t_alltoall += mpiMgr.Wtime() - t1;
-        ++n_alltoall;
-    }
+    mpiMgr.barrier();
+    t1 = mpiMgr.Wtime();
+    mpiMgr.all2allv(outpntarr, outBetaSeg, outOffset, pntarr,
+                    inBetaSeg, inOffset, 5 * totsize);
+    t_alltoall += mpiMgr.Wtime() - t1;
+    ++n_alltoall;
 
     if (ntod != 0) {
         outpntarr.dealloc();
-- 
2.43.0


From ec68cc32f6bd4d206f41f46634d814947a78dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 06/44] fix: validate the convolver limits and interpolation
 order

A beam mmax above lmax, an lmax of zero and a negative order all led to
out-of-bounds accesses or to an exception inside a parallel region.
---
 src/conviqt_math.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index a273dfd..35a3e27 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -132,6 +132,15 @@ convolver::convolver(sky *s, beam *b, detector *d, bool pol,
     } else if (beammmax > mmax_beam) {
         throw std::runtime_error("Convolver mmax exceeds input expansion order.");
     }
+    // There are no expansion coefficients with m > l
+    this->beammmax = std::min(this->beammmax, this->lmax);
+
+    if (this->lmax < 1) {
+        throw std::runtime_error("Convolver lmax must be at least 1.");
+    }
+    if (order < 0) {
+        throw std::runtime_error("Convolver interpolation order must not be negative.");
+    }
 
     // data cube gridding
 
-- 
2.43.0


From 5eeeb765b5947d9004d8f5fc9bd12480cbdab77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 07/44] fix: reject illegal sample angles on every task

Only the task with the illegal colatitude threw an exception and the others
blocked in the following collective call.  Non-finite angles were not caught
and indexed the data cube with undefined values.
---
 src/conviqt.hpp      |  2 ++
 src/conviqt_math.cpp | 51 +++++++++++++++++++++++++++++++++++---------
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index c73594f..f27dcf7 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -257,6 +257,8 @@ private :
                               levels::arr<int> &inOffset, levels::arr<int> &outOffset,
                               const double ratiodeltas, levels::arr<double> &corethetaarr);
 
+    void check_inputs(pointing &pntarr, const long totsize);
+
     void todgen(const long ntod1,
                 const long ntod2,
                 levels::arr<double> &outpntarr);
diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 35a3e27..30e881e 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -2,6 +2,7 @@
 
 #include <sstream>
 
+#include <cmath>
 #include <cstring>
 
 #ifdef _OPENMP
@@ -1491,6 +1492,30 @@ void convolver::arrFillingcm(long ntod,
 }
 
 
+void convolver::check_inputs(pointing &pntarr, const long totsize) {
+    /*
+      Throw an exception if the inputs cannot be convolved
+     */
+
+    // Check the angles for conformity
+
+    for (long i = 0; i < totsize; ++i) {
+        const double phi = pntarr[5 * i];
+        const double theta = pntarr[5 * i + 1];
+        const double psi = pntarr[5 * i + 2];
+        if (!(theta >= 0 && theta <= pi)) {
+            throw std::runtime_error("convolver::convolve: Illegal theta: " +
+                                     std::to_string(theta) + " not in 0..pi");
+        }
+        if (!std::isfinite(phi * inv_delta_phi) || !std::isfinite(psi)) {
+            throw std::runtime_error("convolver::convolve: Illegal angles: phi = " +
+                                     std::to_string(phi) + ", psi = " +
+                                     std::to_string(psi));
+        }
+    }
+}
+
+
 int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     mpiMgr.barrier();
@@ -1508,6 +1533,22 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
 
     const long totsize = pntarr.size() / 5;
 
+    // Check the inputs.  The outcome must be the same on every task or the
+    // others will wait for this one.
+
+    int failed = 0, any_failed = 0;
+    std::string message = "convolver::convolve: Illegal inputs on another task";
+    try {
+        check_inputs(pntarr, totsize);
+    } catch (std::exception &e) {
+        failed = 1;
+        message = e.what();
+    }
+    mpiMgr.allreduceRaw<int>(&failed, &any_failed, 1, mpiMgr.Max);
+    if (any_failed) {
+        throw std::runtime_error(message);
+    }
+
     // Assign a running index across the communicator to the last column of pntarr
     // It is needed to collect the convolved data.
     long my_offset = 0;
@@ -1518,16 +1559,6 @@ int convolver::convolve(pointing &pntarr, bool calibrate) {
         pntarr[5 * ii + 4] = my_offset + ii;
     }
 
-    // Check the angles for conformity
-
-    for (long i = 0; i < totsize; ++i) {
-        double theta = pntarr[5 * i + 1];
-        if (theta < 0 || theta > pi) {
-            throw std::runtime_error("convolver::convolve: Illegal theta: " +
-                                     std::to_string(theta) + " not in 0..pi");
-        }
-    }
-
     // distribute the co-latitudes.
 
     levels::arr<double> corethetaarr(cores);
-- 
2.43.0


From 97966fceaa580db62b5efd3d042f35690f733aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/44] fix: check the current sky and beam before each
 convolution

Replacing an input with one of a lower expansion order read its coefficients
out of bounds, and missing polarized components were only noticed inside a
parallel region, after the pointing had been released.
---
 src/conviqt_math.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index 30e881e..f1bbed4 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -1497,6 +1497,20 @@ void convolver::check_inputs(pointing &pntarr, const long totsize) {
       Throw an exception if the inputs cannot be convolved
      */
 
+    // The sky and the beam may have been replaced or read again
+
+    if (lmax > s->get_lmax() || lmax > b->get_lmax()) {
+        throw std::runtime_error("Convolver lmax exceeds input expansion order.");
+    }
+    if (beammmax > b->get_mmax()) {
+        throw std::runtime_error("Convolver mmax exceeds input expansion order.");
+    }
+    if (pol) {
+        // These throw if there are no polarized components
+        s->slmG();
+        b->blmG();
+    }
+
     // Check the angles for conformity
 
     for (long i = 0; i < totsize; ++i) {
-- 
2.43.0


From c3c323f72fd7143cbd72000593754b41e9fb5eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 09/44] fix: a beam read from file is not normalized

Reading into a normalized beam kept the flag, so that the new beam could not be
normalized and its convolutions were not calibrated.
---
 src/conviqt_io.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index 3e687f8..b2cf12c 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -75,6 +75,7 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         mpiMgr.bcastRaw(&blmG_(0, 0).re, blmsize, 0);
         mpiMgr.bcastRaw(&blmC_(0, 0).re, blmsize, 0);
     }
+    normalized_ = false;
 
     return 0;
 }
-- 
2.43.0


From 5be1effd84142e8bb9a1e6ba7621098141ae6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 10/44] fix: do not let exceptions escape from the C interface

Creating a convolver with unsupported limits and a failing convolution threw
at the C caller instead of returning NULL and an error code.
---
 src/cconviqt.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cconviqt.cpp b/src/cconviqt.cpp
index ee7e044..89af52a 100644
--- a/src/cconviqt.cpp
+++ b/src/cconviqt.cpp
@@ -314,9 +314,18 @@ extern "C" {
         conviqt::beam *beamref = reinterpret_cast< conviqt::beam * >(beamptr);
         conviqt::detector *detref = reinterpret_cast< conviqt::detector * >(detptr);
 
-        return new(std::nothrow) conviqt::convolver(skyref, beamref, detref, pol,
-                                                    lmax, beammmax, order,
-                                                    verbosity, comm);
+        try {
+            return new conviqt::convolver(skyref, beamref, detref, pol,
+                                          lmax, beammmax, order,
+                                          verbosity, comm);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_new threw an exception: " << e.what()
+                      << std::endl;
+            return NULL;
+        } catch (...) {
+            std::cerr << "conviqt_convolver_new threw an exception." << std::endl;
+            return NULL;
+        }
     }
 
     int conviqt_convolver_del(void *ptr) {
@@ -376,9 +385,12 @@ extern "C" {
 #endif
 
             cnvref->convolve(*pntref, calibrate);
+        } catch (std::exception &e) {
+            std::cerr << "conviqt_convolver_convolve threw an exception: " << e.what()
+                      << std::endl;
+            return -1;
         } catch (...) {
-            std::cout << "convolve threw an exception:" << std::endl;
-            throw;
+            std::cerr << "conviqt_convolver_convolve threw an exception." << std::endl;
             return -1;
         }
         return 0;
-- 
2.43.0


From 92f4dd0d0f8822b43614ea389f89451f29a51ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 11/44] fix: initialize the members of default-constructed
 inputs

The limits and polarization flag of a beam or sky that has not been read and the
polarization leakage of a detector that has not been set were indeterminate.
---
 src/conviqt.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/conviqt.hpp b/src/conviqt.hpp
index f27dcf7..3c4641e 100644
--- a/src/conviqt.hpp
+++ b/src/conviqt.hpp
@@ -37,7 +37,7 @@ namespace conviqt {
 
 class beam {
 public :
-    beam() { normalized_ = false; }
+    beam() : normalized_(false), lmax(-1), mmax(-1), pol(false) {}
     beam(long beamlmax, long beammmax, bool pol,
          std::string infile_beam, MPI_Comm comm);
     int read(long beamlmax, long beammmax, bool pol,
@@ -61,7 +61,7 @@ private :
 
 class sky {
 public :
-    sky() {}
+    sky() : lmax(-1), pol(false), fwhm_deconv(0) {}
     sky(long skylmax, bool pol,
         std::string infile_sky,
         double fwhm_deconv_sky,
@@ -103,8 +103,8 @@ class detector {
 
 public :
 
-    detector() {};
-    detector(std::string det_id) : det_id_(det_id) {};
+    detector() : epsilon_(0) {};
+    detector(std::string det_id) : det_id_(det_id), epsilon_(0) {};
     void set_epsilon(double epsilon) { epsilon_ = epsilon; };
     double get_epsilon() {return epsilon_;};
     void set_id(std::string det_id) { det_id_ = det_id; };
-- 
2.43.0


From 3c283740988a97eed774087202b50a2decf84239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 12/44] fix: do not normalize a beam that has not been read

The guard tested the size of the default expansion, which has one uninitialized
coefficient.
---
 src/conviqt_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conviqt_math.cpp b/src/conviqt_math.cpp
index f1bbed4..240921b 100644
--- a/src/conviqt_math.cpp
+++ b/src/conviqt_math.cpp
@@ -71,7 +71,7 @@ double beam::normalize() {
         return 1.0;
     }
     double scale = 0;
-    if (blmT_.Lmax() >= 0) {
+    if (lmax >= 0) {
         double b00 = blmT_(0, 0).re;
         double current_norm = 2 * sqrt(pi) * b00;
         scale = 1.0 / current_norm;
-- 
2.43.0


From 7424b42c4612a72a842aa91d0f6b8ea855935e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 13/44] fix: report a failed beam or sky read on every task

Only the root process noticed an unreadable file; the other tasks blocked in the
broadcast.  A failed read also left the object with new limits and polarization
flag but without matching coefficients.
---
 src/conviqt_io.cpp | 160 ++++++++++++++++++++++++++++++---------------
 1 file changed, 107 insertions(+), 53 deletions(-)

diff --git a/src/conviqt_io.cpp b/src/conviqt_io.cpp
index b2cf12c..f1de94f 100644
--- a/src/conviqt_io.cpp
+++ b/src/conviqt_io.cpp
@@ -19,15 +19,24 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         std::cout << "Reading " << infile_beam << " on task = " << rank << std::endl;
     }
 
-    pol = beampol;
-    int lmax_file, mmax_file;
+    // Only the root process accesses the file but all of them must
+    // learn about a failure
+    int lmax_file, mmax_file, failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_beam, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_beam, lmax_file, mmax_file);
+        try {
+            if (beampol) {
+                get_almsize_pol(infile_beam, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_beam, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read beam expansion order from " + infile_beam);
+    }
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // Ensure that the beam in the file has a high enough expansion order.
@@ -38,43 +47,62 @@ int beam::read(long beamlmax, long beammmax, bool beampol,
         throw std::runtime_error("Beam mmax exceeds available expansion order.");
     }
     // lmax
+    long new_lmax, new_mmax;
     if (beamlmax > 0) {
-        lmax = beamlmax;
+        new_lmax = beamlmax;
     } else {
-        lmax = lmax_file;
+        new_lmax = lmax_file;
     }
     // mmax
     if (beammmax > 0) {
-        mmax = beammmax;
+        new_mmax = beammmax;
     } else {
-        mmax = std::min((int)lmax, mmax_file);
+        new_mmax = std::min((int)new_lmax, mmax_file);
     }
-    fname = infile_beam;
 
-    blmT_.Set(lmax, mmax);
-    if (pol) {
-        blmG_.Set(lmax, mmax);
-        blmC_.Set(lmax, mmax);
+    // The current beam is replaced only after the read has succeeded
+    Alm< xcomplex<float> > almT, almG, almC;
+    almT.Set(new_lmax, new_mmax);
+    if (beampol) {
+        almG.Set(new_lmax, new_mmax);
+        almC.Set(new_lmax, new_mmax);
     }
 
-    long blmsize = (mmax + 1) * (mmax + 2) + 2 * (mmax + 1) * (lmax - mmax);
+    long blmsize = (new_mmax + 1) * (new_mmax + 2)
+        + 2 * (new_mmax + 1) * (new_lmax - new_mmax);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_beam, blmT_, blmG_, blmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits(infile_beam, blmT_, lmax, mmax);
+        try {
+            if (beampol) {
+                read_Alm_from_fits(infile_beam, almT, almG, almC, new_lmax, new_mmax);
+            } else {
+                read_Alm_from_fits(infile_beam, almT, new_lmax, new_mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading beam alms on task = " << rank << std::endl;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read beam expansion from " + infile_beam);
+    }
 
-    mpiMgr.bcastRaw(&blmT_(0, 0).re, blmsize, 0);
-    if (pol) {
-        mpiMgr.bcastRaw(&blmG_(0, 0).re, blmsize, 0);
-        mpiMgr.bcastRaw(&blmC_(0, 0).re, blmsize, 0);
+    mpiMgr.bcastRaw(&almT(0, 0).re, blmsize, 0);
+    if (beampol) {
+        mpiMgr.bcastRaw(&almG(0, 0).re, blmsize, 0);
+        mpiMgr.bcastRaw(&almC(0, 0).re, blmsize, 0);
     }
+
+    blmT_.swap(almT);
+    blmG_.swap(almG);
+    blmC_.swap(almC);
+    lmax = new_lmax;
+    mmax = new_mmax;
+    pol = beampol;
+    fname = infile_beam;
     normalized_ = false;
 
     return 0;
@@ -113,15 +141,24 @@ int sky::read(long skylmax, bool skypol,
         std::cout << "Reading " << infile_sky << " on task = " << rank << std::endl;
     }
 
-    pol = skypol;
-    int lmax_file, mmax_file;
+    // Only the root process accesses the file but all of them must
+    // learn about a failure
+    int lmax_file, mmax_file, failed = 0;
     if (rank == 0) {
-        if (pol) {
-            get_almsize_pol(infile_sky, lmax_file, mmax_file);
-        } else {
-            get_almsize(infile_sky, lmax_file, mmax_file);
+        try {
+            if (skypol) {
+                get_almsize_pol(infile_sky, lmax_file, mmax_file);
+            } else {
+                get_almsize(infile_sky, lmax_file, mmax_file);
+            }
+        } catch (...) {
+            failed = 1;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read sky expansion order from " + infile_sky);
+    }
     mpiMgr.bcast(lmax_file);
     mpiMgr.bcast(mmax_file);
     // If user provided skylmax, ensure that the file has high enough
@@ -129,51 +166,68 @@ int sky::read(long skylmax, bool skypol,
     if (lmax_file < skylmax) {
         throw std::runtime_error("Sky lmax exceeds available expansion order.");
     }
+    long new_lmax;
     if (skylmax > 0) {
-        lmax = skylmax;
+        new_lmax = skylmax;
     } else {
-        lmax = lmax_file;
+        new_lmax = lmax_file;
     }
     // We require equal lmax and mmax
-    if (mmax_file < lmax) {
+    if (mmax_file < new_lmax) {
         throw std::runtime_error("Sky mmax exceeds available expansion order.");
     }
-    int mmax = lmax;
-    fname = infile_sky;
-    fwhm_deconv = fwhm_deconv_sky;
+    int mmax = new_lmax;
 
-    slmT_.Set(lmax, lmax);
-    if (pol) {
-        slmG_.Set(lmax, mmax);
-        slmC_.Set(lmax, mmax);
+    // The current sky is replaced only after the read has succeeded
+    Alm< xcomplex<float> > almT, almG, almC;
+    almT.Set(new_lmax, mmax);
+    if (skypol) {
+        almG.Set(new_lmax, mmax);
+        almC.Set(new_lmax, mmax);
     }
 
-    long slmsize = (lmax + 1) * (lmax + 2);
+    long slmsize = (new_lmax + 1) * (new_lmax + 2);
 
     if (rank == 0) {
-        if (pol) {
-            read_Alm_from_fits(infile_sky, slmT_, slmG_, slmC_, lmax, mmax);
-        } else {
-            read_Alm_from_fits (infile_sky, slmT_, lmax, mmax);
+        try {
+            if (skypol) {
+                read_Alm_from_fits(infile_sky, almT, almG, almC, new_lmax, mmax);
+            } else {
+                read_Alm_from_fits (infile_sky, almT, new_lmax, mmax);
+            }
+        } catch (...) {
+            failed = 1;
         }
         if (verbosity > 5) {
             std::cout << "Done reading sky alms on task = " << rank << std::endl;
         }
     }
+    mpiMgr.bcast(failed);
+    if (failed) {
+        throw std::runtime_error("Failed to read sky expansion from " + infile_sky);
+    }
 
-    mpiMgr.bcastRaw(&slmT_(0, 0).re, slmsize, 0);
-    if (pol) {
-        mpiMgr.bcastRaw(&slmG_(0, 0).re, slmsize, 0);
-        mpiMgr.bcastRaw(&slmC_(0, 0).re, slmsize, 0);
+    mpiMgr.bcastRaw(&almT(0, 0).re, slmsize, 0);
+    if (skypol) {
+        mpiMgr.bcastRaw(&almG(0, 0).re, slmsize, 0);
+        mpiMgr.bcastRaw(&almC(0, 0).re, slmsize, 0);
     }
 
-    double fwhm = arcmin2rad * fwhm_deconv;
-    if (pol) {
-        smoothWithGauss(slmT_, slmG_, slmC_, -fwhm);
+    double fwhm = arcmin2rad * fwhm_deconv_sky;
+    if (skypol) {
+        smoothWithGauss(almT, almG, almC, -fwhm);
     } else {
-        smoothWithGauss (slmT_, -fwhm);
+        smoothWithGauss (almT, -fwhm);
     }
 
+    slmT_.swap(almT);
+    slmG_.swap(almG);
+    slmC_.swap(almC);
+    lmax = new_lmax;
+    pol = skypol;
+    fname = infile_sky;
+    fwhm_deconv = fwhm_deconv_sky;
+
     return 0;
 }
 
-- 
2.43.0


From 2bc3e085c434ec01912458a1c11ebf506c796203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 14/44] fix: accept empty contributions in the MPI helper
 operations

The buffers of two empty arrays are both null and were mistaken for identical
buffers, so that a task without data threw while the others waited for it.
---
 levels/cxxsupport/mpi_support.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 21ee6b5..7d0897b 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -53,7 +53,11 @@ using namespace std;
 namespace {
 
 void assert_unequal (const void *a, const void *b)
-  { levels_assert (a!=b,"input and output buffers must not be identical"); }
+  {
+  // empty arrays have no buffer
+  levels_assert ((a!=b)||(a==0),
+    "input and output buffers must not be identical");
+  }
 
 } // unnamed namespace
 
-- 
2.43.0


From 353d31312c3a7206084f1892be1d5c70d82d2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 15/44] fix: perform the exchange in sendrecv and
 sendrecv_replace

Both returned without communicating unless the calling task was its own source
and destination.
---
 levels/cxxsupport/mpi_support.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/levels/cxxsupport/mpi_support.cc b/levels/cxxsupport/mpi_support.cc
index 7d0897b..119395d 100644
--- a/levels/cxxsupport/mpi_support.cc
+++ b/levels/cxxsupport/mpi_support.cc
@@ -211,7 +211,6 @@ void MPI_Manager::recvRawVoid (void *data, NDT type, tsize num, tsize src) const
 void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
   tsize dest, void *recvbuf, tsize recvcnt, tsize src, NDT type) const
   {
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
   assert_unequal(sendbuf,recvbuf);
 
   MPI_Datatype dtype = ndt2mpi(type);
@@ -221,9 +220,6 @@ void MPI_Manager::sendrecvRawVoid (const void *sendbuf, tsize sendcnt,
 void MPI_Manager::sendrecv_replaceRawVoid (void *data, NDT type, tsize num,
   tsize dest, tsize src) const
   {
-  if (dest==src) return;
-  if ((rank_!=int(src)) || (rank_!=int(dest))) return;
-
   MPI_Sendrecv_replace (data,num,ndt2mpi(type),dest,0,src,0,LS_COMM,
     MPI_STATUS_IGNORE);
   }
-- 
2.43.0


From 8decec3c46f7911c8ec6316f84ee650a52ad151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 16/44] fix: reject file names that overflow the name buffer of
 fitshandle::open

---
 levels/cxxsupport/fitshandle.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index bf770f7..a51c066 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -306,6 +306,7 @@ void fitshandle::open (const string &fname)
   fitsfile *ptr=NULL;
   // Fixed a Valgrind error by using a fixed length char array for the file name
   char fn[FLEN_FILENAME];
+  levels_assert(fname.length()<FLEN_FILENAME,"file name is too long");
   std::copy(fname.begin(), fname.end(), fn);
   fn[ fname.length() ] = '\0';
   //fits_open_file(&ptr, fname.c_str(), READONLY, &status);
-- 
2.43.0


From 5070b16c13f2cf861e084930d880527be6db3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 17/44] fix: count rows rather than elements when writing
 vector columns

After writing a column with a repeat count above one, fitshandle reported that
many times too many rows.
---
 levels/cxxsupport/fitshandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index a51c066..3911616 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -279,7 +279,7 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   int64 felem = offset%repc+1;
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
     const_cast<void *>(data), &status);
-  nrows_ = max(nrows_,offset+ndata);
+  nrows_ = max(nrows_,(offset+ndata+repc-1)/repc);
   check_errors();
   }
 
-- 
2.43.0


From 5590e4e12392e2ec2f7d580c4731697068da70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 18/44] fix: survive a failing close of a FITS file

The exception escaped from the destructor and terminated the program, and the
file pointer that cfitsio had already released was closed again.
---
 levels/cxxsupport/fitshandle.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 3911616..35e3d43 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -180,8 +180,8 @@ void fitshandle::clean_all()
   if (!fptr) return;
   clean_data();
   fits_close_file (FPTR, &status);
+  fptr=0; // released even if there was an error
   check_errors();
-  fptr=0;
   }
 
 bool fitshandle::table_hdu (tsize col) const
@@ -298,7 +298,12 @@ fitshandle::fitshandle ()
   : status(0), fptr(0), hdutype_(INVALID), bitpix_(INVALID), nrows_(0) {}
 
 fitshandle::~fitshandle()
-  { clean_all(); }
+  {
+  try
+    { clean_all(); }
+  catch (LEVELSError &)
+    {} // already reported; destructors must not throw
+  }
 
 void fitshandle::open (const string &fname)
   {
-- 
2.43.0


From 89eaaa7e1d3bcc90a6ef0350eeb304769e604d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 19/44] fix: detect that a convolver could not be created in
 the Python wrapper

ctypes returns None instead of 0 for a null pointer.
---
 python/libconviqt_wrapper/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index fd55395..d11854e 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -451,7 +451,7 @@ if available:
                 verbosity,
                 encode_comm(comm),
             )
-            if self._conv == 0:
+            if not self._conv:
                 raise RuntimeError("Failed to instantiate convolver")
 
         def __del__(self):
-- 
2.43.0


From 26d18c333330c345e2340f5b705e04ceff791fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 20/44] fix: keep the inputs of a Python convolver alive

Dropping the last reference to the sky, beam or detector freed objects the
convolver still points to.
---
 python/libconviqt_wrapper/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index d11854e..f691b83 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -453,6 +453,8 @@ if available:
             )
             if not self._conv:
                 raise RuntimeError("Failed to instantiate convolver")
+            # The library only stores pointers to the inputs
+            self._inputs = (sky, beam, detector)
 
         def __del__(self):
             try:
-- 
2.43.0


From 715188291ffd0867c283664f1fd69df5c7262a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 21/44] fix: provide enough space for the detector ID in the
 Python wrapper

---
 python/libconviqt_wrapper/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index f691b83..3486a5a 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -325,9 +325,11 @@ if available:
         """
 
         def __init__(self, name=None, epsilon=None):
+            self._idlen = 1024
             if name is None:
                 self._det = _conviqt.conviqt_detector_new()
             else:
+                self._idlen = max(self._idlen, len(name.encode()) + 1)
                 self._det = _conviqt.conviqt_detector_new_with_id(name.encode())
             if epsilon is not None:
                 self.set_epsilon(epsilon)
@@ -356,7 +358,7 @@ if available:
             return eps.value
 
         def get_id(self):
-            s = ct.create_string_buffer(1024)
+            s = ct.create_string_buffer(self._idlen)
             _conviqt.conviqt_detector_get_id(self._det, s)
             return s.value
 
-- 
2.43.0


From f717f9a511486116fdfc9cabb35590283f4f1a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 22/44] fix: declare conviqt_detector_set_id in the C header

The function was exported but could not be called without an implicit declaration.
---
 src/cconviqt.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cconviqt.h b/src/cconviqt.h
index 7016b11..ff6bf09 100644
--- a/src/cconviqt.h
+++ b/src/cconviqt.h
@@ -60,6 +60,8 @@ extern "C" {
 
   int conviqt_detector_get_epsilon(void *ptr, double *epsilon);
 
+  int conviqt_detector_set_id(void *ptr, char *det_id);
+
   int conviqt_detector_get_id(void *ptr, char *det_id);
 
   // Pointing
-- 
2.43.0


From 01a7de36fcfd12946dcee43e33b291b453f05d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 23/44] fix: keep arrays and expansions consistent when an
 allocation fails

---
 levels/Healpix_cxx/ls_alm.h |  4 +++-
 levels/cxxsupport/ls_arr.h  | 19 +++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/levels/Healpix_cxx/ls_alm.h b/levels/Healpix_cxx/ls_alm.h
index d3b6ad8..d847e01 100644
--- a/levels/Healpix_cxx/ls_alm.h
+++ b/levels/Healpix_cxx/ls_alm.h
@@ -100,8 +100,10 @@ template<typename T> class Alm: public Alm_Base
         \a lmax and \a mmax. */
     void Set (int lmax_, int mmax_)
       {
+      tsize num = Num_Alms(lmax_, mmax_);
+      Alm_Base::Set(-1,-1); // empty if the allocation fails
+      alm.alloc(num);
       Alm_Base::Set(lmax_, mmax_);
-      alm.alloc(Num_Alms(lmax,mmax));
       }
 
     /*! Deallocates the old coefficients and uses the content of \a data
diff --git a/levels/cxxsupport/ls_arr.h b/levels/cxxsupport/ls_arr.h
index 1caf44a..109c8b5 100644
--- a/levels/cxxsupport/ls_arr.h
+++ b/levels/cxxsupport/ls_arr.h
@@ -219,10 +219,9 @@ template <typename T, typename storageManager> class arrT: public arr_ref<T>
     void alloc (tsize sz)
       {
       if (sz==this->s) return;
-      if (own) stm.dealloc(this->d);
-      this->s = sz;
+      dealloc(); // leaves a valid array if the allocation fails
       this->d = stm.alloc(sz);
-      own = true;
+      this->s = sz;
       }
     /*! Allocates space for \a sz elements. If \a sz is the
         same as the current size, no reallocation is performed.
@@ -384,7 +383,10 @@ template <typename T, typename storageManager> class arr2T
     void alloc (tsize sz1, tsize sz2)
       {
       if (sz1*sz2 != d.size())
+        {
+        dealloc();
         d.alloc(sz1*sz2);
+        }
       s1=sz1; s2=sz2;
       }
     /*! Allocates space for an array with \a sz1*sz2 elements.
@@ -540,9 +542,10 @@ template <typename T> class arr2b
     void alloc (tsize sz1, tsize sz2)
       {
       if ((s1==sz1) && (s2==sz2)) return;
+      dealloc();
+      d.alloc(sz1*sz2);
+      d1.alloc(sz1);
       s1=sz1; s2=sz2;
-      d.alloc(s1*s2);
-      d1.alloc(s1);
       fill_d1();
       }
     /*! Deallocates the space and makes the array zero-sized. */
@@ -605,7 +608,11 @@ template <typename T> class arr3
         The content of the array is undefined on exit. */
     void alloc (tsize sz1, tsize sz2, tsize sz3)
       {
-      d.alloc(sz1*sz2*sz3);
+      if (sz1*sz2*sz3 != d.size())
+        {
+        dealloc();
+        d.alloc(sz1*sz2*sz3);
+        }
       s1=sz1; s2=sz2; s3=sz3; s2s3=s2*s3;
       }
     /*! Deallocates the space and makes the array zero-sized. */
-- 
2.43.0


From a460ff44c0a7690d177a297334a5bbf85b9da971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 24/44] fix: reject illegal indices and limits in expansion
 files

---
 levels/Healpix_cxx/alm.cc        | 4 +++-
 levels/Healpix_cxx/alm_fitsio.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/levels/Healpix_cxx/alm.cc b/levels/Healpix_cxx/alm.cc
index fcd3749..afe61a6 100644
--- a/levels/Healpix_cxx/alm.cc
+++ b/levels/Healpix_cxx/alm.cc
@@ -41,7 +41,9 @@ namespace levels {
 tsize Alm_Base::Num_Alms (int l, int m)
   {
   levels_assert(m<=l,"mmax must not be larger than lmax");
-  return ((m+1)*(m+2))/2 + (m+1)*(l-m);
+  levels_assert(m>=-1,"mmax must not be negative");
+  tsize nm = tsize(m)+1;
+  return (nm*(nm+1))/2 + nm*(tsize(l)-tsize(m));
   }
 
 void Alm_Base::swap (Alm_Base &other)
diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index efc8fc5..f97b7eb 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -62,6 +62,7 @@ void get_almsize(fitshandle &inp, int &lmax, int &mmax)
 
     for (tsize i=0; i<ppix; ++i)
       {
+      levels_assert(index[i]>0,"illegal coefficient index");
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
       if (l>lmax) lmax=l;
@@ -102,7 +103,7 @@ template<typename T> void read_Alm_from_fits
 
   alms.Set(lmax, mmax);
   alms.SetToZero();
-  int max_index = lmax*lmax + lmax + mmax + 1;
+  int64 max_index = int64(lmax)*lmax + lmax + mmax + 1;
   chunkMaker cm(n_alms,inp.efficientChunkSize(1));
   uint64 offset,ppix;
   while(cm.getNext(offset,ppix))
@@ -117,6 +118,7 @@ template<typename T> void read_Alm_from_fits
       {
       if (index[i]>max_index) continue;
 
+      levels_assert(index[i]>0,"illegal coefficient index");
       int l = isqrt(index[i]-1);
       int m = index[i] - l*l - l - 1;
       levels_assert(m>=0,"negative m encountered");
-- 
2.43.0


From 0c01cea0ca58b08c9c6421e3d45cdbec6b69bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 25/44] fix: do not multiply the placeholder indices of an
 unprepared Wigner generator

---
 levels/cxxsupport/wigner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/wigner.cc b/levels/cxxsupport/wigner.cc
index 75b806d..57cf2a5 100644
--- a/levels/cxxsupport/wigner.cc
+++ b/levels/cxxsupport/wigner.cc
@@ -317,7 +317,7 @@ void wignergen_scalar::prepare (int m1_, int m2_)
   int mlo_=std::abs(m1_), mhi_=std::abs(m2_);
   if (mhi_<mlo_) swap(mhi_,mlo_);
   bool ms_similar = ((mhi==mhi_) && (mlo==mlo_));
-  bool flip_m_sign = ((m1*m2)!=(m1_*m2_));
+  bool flip_m_sign = ms_similar && ((m1*m2)!=(m1_*m2_));
 
   m1=m1_; m2=m2_;
   mlo=am1=std::abs(m1); mhi=am2=std::abs(m2);
-- 
2.43.0


From efe6e34c7a32c4e2eb17da59d9a7cdd35ad071b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 26/44] fix: write every nonzero coefficient and nothing else
 to compressed expansion files

---
 levels/Healpix_cxx/alm_fitsio.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/levels/Healpix_cxx/alm_fitsio.cc b/levels/Healpix_cxx/alm_fitsio.cc
index f97b7eb..e732f28 100644
--- a/levels/Healpix_cxx/alm_fitsio.cc
+++ b/levels/Healpix_cxx/alm_fitsio.cc
@@ -211,10 +211,14 @@ template<typename T> void write_compressed_Alm_to_fits
   arr<int> index;
   arr<double> re, im;
 
+  // coefficients beyond those of alms are zero
+  if (lmax>alms.Lmax()) lmax=alms.Lmax();
+  if (mmax>alms.Mmax()) mmax=alms.Mmax();
+
   int n_alms = 0;
   for (int m=0; m<=mmax; ++m)
     for (int l=m; l<=lmax; ++l)
-      if (alms(l,m).norm()>0) ++n_alms;
+      if ((alms(l,m).re!=0) || (alms(l,m).im!=0)) ++n_alms;
 
   int l=0, m=0;
   int real_lmax=0, real_mmax=0;
@@ -226,7 +230,7 @@ template<typename T> void write_compressed_Alm_to_fits
     re.alloc(ppix); im.alloc(ppix);
     for (tsize i=0; i<ppix; ++i)
       {
-      while (alms(l,m).norm()==0)
+      while ((alms(l,m).re==0) && (alms(l,m).im==0))
         {
         ++m;
         if ((m>l) || (m>mmax)) { ++l; m=0; }
-- 
2.43.0


From c5d78e689695f67f381647ddee99175600d5fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 27/44] fix: make the reduction of arrays in the MPI helper
 usable

---
 levels/cxxsupport/ls_mpi_support.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/ls_mpi_support.h b/levels/cxxsupport/ls_mpi_support.h
index f8872af..789603d 100644
--- a/levels/cxxsupport/ls_mpi_support.h
+++ b/levels/cxxsupport/ls_mpi_support.h
@@ -198,7 +198,7 @@ class MPI_Manager
       }
     template<typename T> void reduce_s (const arr<T> &in, redOp op, int root=0)
       const
-      { reduceRaw (&in[0], 0, in.size(), op, root); }
+      { reduceRaw (&in[0], (T *)0, in.size(), op, root); }
 
     void allgatherRawVoid (const void *in, void *out, NDT type, tsize num)
       const;
-- 
2.43.0


From c635af4c269b3cbe369bbd44389b3ca61f8b07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 28/44] fix: reject modifications of FITS files opened for
 reading instead of losing them

---
 levels/cxxsupport/fitshandle.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 35e3d43..c5fb621 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -137,6 +137,16 @@ string fixkey (const string &key)
 
   return key;
   }
+
+/*! Makes sure that \a ptr belongs to a file which may be modified; cfitsio
+    itself notices this only when it flushes its buffers. */
+void assert_writable (fitsfile *ptr)
+  {
+  levels_assert (ptr,"handle not connected to a file");
+  int mode=READONLY, stat=0;
+  fits_file_mode (ptr, &mode, &stat);
+  levels_assert ((stat==0)&&(mode==READWRITE),"file is not writable");
+  }
 } // unnamed namespace
 
 fitscolumn::fitscolumn()
@@ -273,6 +283,7 @@ void fitshandle::read_col (int colnum, void *data, int64 ndata, PDT type,
 void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   PDT type, int64 offset)
   {
+  assert_writable(FPTR);
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
   int64 frow = offset/repc+1;
@@ -383,6 +394,7 @@ int fitshandle::num_hdus () const
 void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  assert_writable(FPTR);
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
@@ -404,6 +416,7 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
 void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
   const string &extname)
   {
+  assert_writable(FPTR);
   clean_data();
   int ncol=cols.size();
   arr2b<char> ttype(ncol,81), tform(ncol,81), tunit(ncol,81);
@@ -432,6 +445,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
 
 void fitshandle::insert_image (PDT type, const vector<int64> &Axes)
   {
+  assert_writable(FPTR);
   clean_data();
   arr<LONGLONG> tmpax(Axes.size());
   for (long m=0; m<long(Axes.size()); m++) tmpax[m]=Axes[Axes.size()-1-m];
@@ -443,6 +457,7 @@ void fitshandle::insert_image (PDT type, const vector<int64> &Axes)
 template<typename T>
   void fitshandle::insert_image (PDT type, const arr2<T> &data)
   {
+  assert_writable(FPTR);
   clean_data();
   arr<LONGLONG> tmpax(2);
   tmpax[0] = data.size2(); tmpax[1] = data.size1();
@@ -460,6 +475,7 @@ template void fitshandle::insert_image (PDT type, const arr2<float> &data);
 void fitshandle::write_checksum()
   {
   levels_assert(connected(),"handle not connected to a file");
+  assert_writable(FPTR);
   fits_write_chksum (FPTR, &status);
   check_errors();
   }
@@ -546,6 +562,7 @@ void fitshandle::set_key_void (const string &key, const void *value,
   PDT type, const string &comment)
   {
   levels_assert(connected(),"handle not connected to a file");
+  assert_writable(FPTR);
   string key2 = fixkey(key);
   switch (type)
     {
@@ -625,6 +642,7 @@ void fitshandle::get_key_void (const string &name, void *value, PDT type) const
 void fitshandle::delete_key (const string &name)
   {
   levels_assert(connected(),"handle not connected to a file");
+  assert_writable(FPTR);
   fits_delete_key (FPTR, const_cast<char *>(name.c_str()), &status);
   check_errors();
   }
@@ -632,6 +650,7 @@ void fitshandle::delete_key (const string &name)
 void fitshandle::add_comment(const string &comment)
   {
   levels_assert(connected(),"handle not connected to a file");
+  assert_writable(FPTR);
   fits_write_comment(FPTR,const_cast<char *>(comment.c_str()),&status);
   check_errors();
   }
@@ -709,6 +728,7 @@ void fitshandle::write_column_raw_void
       {
       const string *data2 = static_cast<const string *> (data);
       levels_assert(table_hdu(colnum),"incorrect FITS table access");
+      assert_writable(FPTR);
       tsize stringlen = safe_cast<tsize>(columns_[colnum-1].repcount()+1);
       arr2b<char> tdata(safe_cast<tsize>(num), stringlen);
       for (long m=0;m<num;++m)
@@ -731,6 +751,7 @@ void fitshandle::write_image2D_void (const void *data, PDT type, tsize s1,
   tsize s2)
   {
   levels_assert(image_hdu(),"not connected to an image");
+  assert_writable(FPTR);
   levels_assert (axes_.size()==2, "wrong number of dimensions");
   levels_assert (axes_[0]==int64(s1), "wrong size of dimension 1");
   levels_assert (axes_[1]==int64(s2), "wrong size of dimension 2");
@@ -744,6 +765,7 @@ void fitshandle::write_subimage_void (const void *data, PDT type, tsize sz,
   int64 offset)
   {
   levels_assert(image_hdu(),"not connected to an image");
+  assert_writable(FPTR);
   fits_write_img (FPTR, type2ftc(type), 1+offset, sz, const_cast<void *>(data),
     &status);
   check_errors();
-- 
2.43.0


From a5a3274cc7dab4adf67254fe75d6a31db797e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 29/44] fix: make goto_hdu and num_hdus safe on closed handles
 and after a failed insertion

---
 levels/cxxsupport/fitshandle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index c5fb621..d1059fd 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -373,9 +373,10 @@ string fitshandle::fileName() const
 
 void fitshandle::goto_hdu (int hdu)
   {
+  levels_assert(FPTR,"handle not connected to a file");
   int curhdu;
   fits_get_hdu_num(FPTR,&curhdu);
-  if (curhdu!=hdu)
+  if ((curhdu!=hdu) || (!connected()))
     {
     fits_movabs_hdu(FPTR, hdu, &hdutype_, &status);
     check_errors();
@@ -385,6 +386,7 @@ void fitshandle::goto_hdu (int hdu)
 
 int fitshandle::num_hdus () const
   {
+  levels_assert(FPTR,"handle not connected to a file");
   int result;
   fits_get_num_hdus (FPTR, &result, &status);
   check_errors();
-- 
2.43.0


From d348f99186e90ab2fa9598822ec427e4017ddcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 30/44] fix: do not deliver wrong pixels for sections reaching
 outside a FITS image

---
 levels/cxxsupport/fitshandle.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index d1059fd..9e63cde 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -805,6 +805,8 @@ template<typename T> void fitshandle::read_subimage
   {
   levels_assert(image_hdu(),"not connected to an image");
   levels_assert (axes_.size()==2, "wrong number of dimensions");
+  levels_assert ((xl>=0) && (yl>=0) && (xl+int64(data.size1())<=axes_[0])
+    && (yl+int64(data.size2())<=axes_[1]), "section is not inside the image");
   for (tsize m=0; m<data.size1(); ++m)
     fits_read_img (FPTR, fitsType<T>(), (xl+m)*axes_[1]+yl+1,
       data.size2(), 0, &data[m][0], 0, &status);
-- 
2.43.0


From 3aceabe916aa16c28cee51dacf2275e599735541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 31/44] fix: reject column names and units that do not fit into
 their buffers

---
 levels/cxxsupport/fitshandle.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 9e63cde..dd02aa4 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -403,6 +403,8 @@ void fitshandle::insert_bintab (const vector<fitscolumn> &cols,
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert ((cols[m].name().size()<81) && (cols[m].unit().size()<81),
+      "column name or unit is too long");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
@@ -425,6 +427,8 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
 
   for (long m=0; m<ncol; ++m)
     {
+    levels_assert ((cols[m].name().size()<81) && (cols[m].unit().size()<81),
+      "column name or unit is too long");
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
-- 
2.43.0


From 079752e7b067abe238a1869d66142230caf71fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 32/44] fix: reject access to FITS columns without elements
 instead of dividing by zero

---
 levels/cxxsupport/fitshandle.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index dd02aa4..481cd74 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -273,6 +273,7 @@ void fitshandle::read_col (int colnum, void *data, int64 ndata, PDT type,
   {
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
+  levels_assert (repc>0,"column has no elements");
   levels_assert (ndata<=(repc*nrows_-offset),"read_column(): array too large");
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
@@ -286,6 +287,7 @@ void fitshandle::write_col (int colnum, const void *data, int64 ndata,
   assert_writable(FPTR);
   levels_assert(table_hdu(colnum),"incorrect FITS table access");
   int64 repc = columns_[colnum-1].repcount();
+  levels_assert (repc>0,"column has no elements");
   int64 frow = offset/repc+1;
   int64 felem = offset%repc+1;
   fits_write_col (FPTR, type2ftc(type), colnum, frow, felem, ndata,
-- 
2.43.0


From ff5fda20d4b0f0a4305d8ba69be778e2cea6c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:36 +0000
Subject: [PATCH 33/44] fix: store and read back string columns of ASCII tables
 in FITS files

---
 levels/cxxsupport/fitshandle.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/levels/cxxsupport/fitshandle.cc b/levels/cxxsupport/fitshandle.cc
index 481cd74..c86b82c 100644
--- a/levels/cxxsupport/fitshandle.cc
+++ b/levels/cxxsupport/fitshandle.cc
@@ -219,6 +219,7 @@ void fitshandle::init_asciitab()
   {
   char ttype[81], tunit[81], tform[81];
   int ncol, typecode;
+  long width;
   fits_get_num_cols (FPTR, &ncol, &status);
   { LONGLONG tmp; fits_get_num_rowsll (FPTR, &tmp, &status); nrows_=tmp; }
   check_errors();
@@ -226,9 +227,11 @@ void fitshandle::init_asciitab()
     {
     fits_get_acolparms (FPTR, m, ttype, 0, tunit, tform,
                         0, 0, 0, 0, &status);
-    fits_ascii_tform (tform, &typecode, 0,0, &status);
+    fits_ascii_tform (tform, &typecode, &width, 0, &status);
     check_errors();
-    columns_.push_back (fitscolumn (ttype,tunit,1,ftc2type(typecode)));
+    // as in binary tables, the repetition count of a string is its length
+    columns_.push_back (fitscolumn (ttype,tunit,
+      (typecode==TSTRING) ? width : 1,ftc2type(typecode)));
     }
   }
 
@@ -434,7 +437,7 @@ void fitshandle::insert_asctab (const vector<fitscolumn> &cols,
     strcpy (ttype[m], cols[m].name().c_str());
     strcpy (tunit[m], cols[m].unit().c_str());
     ostringstream x;
-    if (cols[m].type()!=TSTRING)
+    if (cols[m].type()!=LEVELS_STRING)
       {
       levels_assert (cols[m].repcount()==1,"bad repcount for ASCII table");
       x << type2asciiform(cols[m].type());
-- 
2.43.0


From 2ecb3051f33bb4c2046145f7053f29a76cb7128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 34/44] fix: report errors of closing the file when writing
 expansions by name

---
 levels/Healpix_cxx/ls_alm_fitsio.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/Healpix_cxx/ls_alm_fitsio.h b/levels/Healpix_cxx/ls_alm_fitsio.h
index aa462a1..c03234a 100644
--- a/levels/Healpix_cxx/ls_alm_fitsio.h
+++ b/levels/Healpix_cxx/ls_alm_fitsio.h
@@ -97,6 +97,7 @@ template<typename T> inline void write_Alm_to_fits
   fitshandle out;
   out.create(outfile);
   write_Alm_to_fits (out, alms, lmax, mmax, datatype);
+  out.close(); // reports errors, which the destructor cannot
   }
 
 template<typename T> inline void write_Alm_to_fits
@@ -109,6 +110,7 @@ template<typename T> inline void write_Alm_to_fits
   write_Alm_to_fits (out, almT, lmax, mmax, datatype);
   write_Alm_to_fits (out, almG, lmax, mmax, datatype);
   write_Alm_to_fits (out, almC, lmax, mmax, datatype);
+  out.close(); // reports errors, which the destructor cannot
   }
 
 /*! Inserts a new binary table into \a out, which contains three columns
-- 
2.43.0


From 8c0678bc26546e9997a9f3a59cdd3773d19963f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 35/44] fix: raise an exception on every library failure in the
 Python wrapper

---
 python/libconviqt_wrapper/__init__.py | 44 +++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 3486a5a..8610460 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -45,6 +45,43 @@ if available:
         comm_ptr = MPI._addressof(comm)
         return MPI_Comm.from_address(comm_ptr)
 
+    # Library failures that would otherwise go unnoticed raise an exception
+
+    def check_pointer(result, func, arguments):
+        if not result:
+            raise RuntimeError("{} failed".format(func.__name__))
+        return result
+
+    def check_status(result, func, arguments):
+        if result < 0:
+            raise RuntimeError("{} failed: {}".format(func.__name__, result))
+        return result
+
+    for name in [
+        "beam_new",
+        "beam_Tdata",
+        "beam_Gdata",
+        "beam_Cdata",
+        "sky_new",
+        "sky_Tdata",
+        "sky_Gdata",
+        "sky_Cdata",
+        "detector_new",
+        "detector_new_with_id",
+        "pointing_new",
+    ]:
+        getattr(_conviqt, "conviqt_" + name).errcheck = check_pointer
+
+    for name in [
+        "beam_lmax",
+        "beam_mmax",
+        "sky_lmax",
+        "sky_remove_monopole",
+        "sky_remove_dipole",
+        "detector_get_id",
+    ]:
+        getattr(_conviqt, "conviqt_" + name).errcheck = check_status
+
     # Beam functions
 
     _conviqt.conviqt_beam_new.restype = ct.c_void_p
@@ -89,6 +126,8 @@ if available:
         Conviqt beam expansion object
         """
 
+        _beam = None
+
         def __init__(self, lmax, mmax, pol, beamfile, comm):
             self._beam = _conviqt.conviqt_beam_new()
             self._pol = pol
@@ -221,6 +260,8 @@ if available:
         Conviqt sky expansion object
         """
 
+        _sky = None
+
         def __init__(self, lmax, pol, skyfile, fwhm, comm):
             self._sky = _conviqt.conviqt_sky_new()
             self._pol = pol
@@ -324,6 +365,8 @@ if available:
         Conviqt detector object
         """
 
+        _det = None
+
         def __init__(self, name=None, epsilon=None):
             self._idlen = 1024
             if name is None:
@@ -381,6 +424,7 @@ if available:
         Conviqt pointing object
         """
 
+        _pnt = None
         _nrow = 0
         _ncol = 5
 
-- 
2.43.0


From 8e6ff9b4cad4963b0a68423d3fafec4ae53995c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 36/44] fix: give access to empty and failed pointing
 allocations in the Python wrapper

---
 python/libconviqt_wrapper/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/libconviqt_wrapper/__init__.py b/python/libconviqt_wrapper/__init__.py
index 8610460..8be21d2 100644
--- a/python/libconviqt_wrapper/__init__.py
+++ b/python/libconviqt_wrapper/__init__.py
@@ -445,14 +445,17 @@ if available:
                 )
 
         def alloc(self, nrow):
-            self._nrow = nrow
-            err = _conviqt.conviqt_pointing_alloc(self._pnt, self._nrow * self._ncol)
+            self._nrow = 0
+            err = _conviqt.conviqt_pointing_alloc(self._pnt, nrow * self._ncol)
             if err != 0:
                 raise RuntimeError(
                     "Failed to allocate {} rows to pointing".format(nrow)
                 )
+            self._nrow = nrow
 
         def data(self):
+            if self._nrow == 0:
+                return np.zeros((0, self._ncol))
             buf = _conviqt.conviqt_pointing_data(self._pnt)
             arr = np.ctypeslib.as_array(buf, shape=(self._nrow, self._ncol))
             return arr
-- 
2.43.0


From 2befafad34fd366089ff9c711def87ae85fb3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:15 +0000
Subject: [PATCH 37/44] fix: decompose singular matrices correctly in svd_init

The cancellation loop neither scaled rv1[i] nor stopped at a negligible f.
---
 levels/c_utils/svd_c.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/levels/c_utils/svd_c.c b/levels/c_utils/svd_c.c
index aa3fecc..e42c895 100644
--- a/levels/c_utils/svd_c.c
+++ b/levels/c_utils/svd_c.c
@@ -239,21 +239,20 @@ void svd_init (double **matrix, double epsilon, int m, int n,
         for (i=l; i<=k; ++i)
           {
           f = s*rv1[i];
-          if (fabs(f) + anorm != anorm)
+          rv1[i] = c*rv1[i];
+          if (fabs(f) + anorm == anorm) break;
+          g = w[i];
+          h = pythag(f, g);
+          w[i] = h;
+          h = 1.0/h;
+          c = g*h;
+          s = (-f*h);
+          for (j=0; j<m; ++j)
             {
-            g = w[i];
-            h = pythag(f, g);
-            w[i] = h;
-            h = 1.0/h;
-            c = g*h;
-            s = (-f*h);
-            for (j=0; j<m; ++j)
-              {
-              y = u[nm][j];
-              z = u[i][j];
-              u[nm][j] = y*c + z*s;
-              u[i][j]  = z*c - y*s;
-              }
+            y = u[nm][j];
+            z = u[i][j];
+            u[nm][j] = y*c + z*s;
+            u[i][j]  = z*c - y*s;
             }
           }
         }
-- 
2.43.0


From 1d8a186583292a6edaef03fbcf26e5e6e06f2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:15 +0000
Subject: [PATCH 38/44] fix: avoid overflow in isqrt near the limits of 64-bit
 integers

---
 levels/cxxsupport/ls_math_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/ls_math_utils.h b/levels/cxxsupport/ls_math_utils.h
index 1f0bc5d..720d138 100644
--- a/levels/cxxsupport/ls_math_utils.h
+++ b/levels/cxxsupport/ls_math_utils.h
@@ -110,9 +110,10 @@ template<typename I> struct isqrt_helper__ <I, true>
     using namespace std;
     I res = sqrt(double(arg)+0.5);
     if (arg<(int64(1)<<50)) return uint32(res);
-    if (res*res>arg)
+    // divide instead of multiplying: the squares may overflow
+    if (res>arg/res)
       --res;
-    else if ((res+1)*(res+1)<=arg)
+    else if ((res+1)<=arg/(res+1))
       ++res;
     return uint32(res);
     }
-- 
2.43.0


From daf6f047da20cd436ab8efcc72c83d7ef9d8585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:15 +0000
Subject: [PATCH 39/44] fix: keep all information when converting
 floating-point numbers to text

---
 levels/cxxsupport/string_utils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index 72160c2..6a9b84a 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -65,13 +65,13 @@ template<> string dataToString (const string &x)
 template<> string dataToString (const float &x)
   {
   ostringstream strstrm;
-  strstrm << setprecision(8) << x;
+  strstrm << setprecision(9) << x;
   return trim(strstrm.str());
   }
 template<> string dataToString (const double &x)
   {
   ostringstream strstrm;
-  strstrm << setprecision(16) << x;
+  strstrm << setprecision(17) << x;
   return trim(strstrm.str());
   }
 template<> string dataToString (const long double &x)
-- 
2.43.0


From fc031b88121eb42b6f516ead584ac27104511c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:15 +0000
Subject: [PATCH 40/44] fix: avoid overflow in intToString for the most
 negative integer

---
 levels/cxxsupport/string_utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/cxxsupport/string_utils.cc b/levels/cxxsupport/string_utils.cc
index 6a9b84a..1da547b 100644
--- a/levels/cxxsupport/string_utils.cc
+++ b/levels/cxxsupport/string_utils.cc
@@ -96,7 +96,7 @@ string intToString(int64 x, tsize width)
   {
   ostringstream strstrm;
   (x>=0) ? strstrm << setw(width) << setfill('0') << x
-         : strstrm << "-" << setw(width-1) << setfill('0') << -x;
+         : strstrm << "-" << setw(width-1) << setfill('0') << -uint64(x);
   string res = strstrm.str();
   levels_assert(res.size()==width,"number too large");
   return trim(res);
-- 
2.43.0


From 4f67bd825caf87234eea068576fcefc83126970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 41/44] fix: create_alm_pol must not drop G and C power where T
 has none

---
 levels/Healpix_cxx/alm_powspec_tools.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/levels/Healpix_cxx/alm_powspec_tools.cc b/levels/Healpix_cxx/alm_powspec_tools.cc
index 82fe4fc..3a70c46 100644
--- a/levels/Healpix_cxx/alm_powspec_tools.cc
+++ b/levels/Healpix_cxx/alm_powspec_tools.cc
@@ -105,20 +105,18 @@ template<typename T> void create_alm_pol
 
   for (int l=0; l<=lmax; ++l)
     {
-    double rms_g2 = 0;
-    double rms_cc = 0;
+    // without temperature power, G and C still have power of their own
+    double rms_g2 = powspec.gg(l);
     if (powspec.tt(l) != 0)
+      rms_g2 -= (powspec.tg(l)/powspec.tt(l))*powspec.tg(l);
+    if (rms_g2 <= 0)
       {
-      rms_g2 = powspec.gg(l) - (powspec.tg(l)/powspec.tt(l))*powspec.tg(l);
-      if (rms_g2 <= 0)
-        {
-          levels_assert (::abs(rms_g2) <= 1e-8*::abs(powspec.gg(l)),
-          "Inconsistent TT, GG and TG spectra at l="+dataToString(l));
-        rms_g2 = 0;
-        }
-      rms_g2 = ::sqrt(rms_g2);
-      rms_cc = ::sqrt(powspec.cc(l));
+      levels_assert (::abs(rms_g2) <= 1e-8*::abs(powspec.gg(l)),
+        "Inconsistent TT, GG and TG spectra at l="+dataToString(l));
+      rms_g2 = 0;
       }
+    rms_g2 = ::sqrt(rms_g2);
+    double rms_cc = ::sqrt(powspec.cc(l));
     almG(l,0) += T(rng.rand_gauss()*rms_g2);
     almC(l,0)  = T(rng.rand_gauss()*rms_cc);
 
-- 
2.43.0


From 8eabd2c51e2c36f667bcf8c3eea81324a37ad9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 42/44] fix: PowSpec::Set(nspec,lmax) must drop spectra which
 are no longer present

---
 levels/Healpix_cxx/powspec.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/levels/Healpix_cxx/powspec.cc b/levels/Healpix_cxx/powspec.cc
index a9ab576..4f3aa69 100644
--- a/levels/Healpix_cxx/powspec.cc
+++ b/levels/Healpix_cxx/powspec.cc
@@ -93,6 +93,8 @@ bool PowSpec::consistentAutoPowspec() const
 
 void PowSpec::Set(int nspec, int lmax)
   {
+  // drop spectra which are no longer part of the object
+  dealloc();
   num_specs=nspec;
   levels_assert ((num_specs==1) || (num_specs==4) || (num_specs==6),
     "wrong number of spectrums");
-- 
2.43.0


From 2769082f0ddc4e4322b55a07cb671ab30f648d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 43/44] fix: residentSetSize treated a successful read as a
 failure

---
 levels/c_utils/memusage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/levels/c_utils/memusage.c b/levels/c_utils/memusage.c
index a1c25c0..ef4bed5 100644
--- a/levels/c_utils/memusage.c
+++ b/levels/c_utils/memusage.c
@@ -38,7 +38,7 @@ double residentSetSize(void)
   FILE *statm = fopen("/proc/self/statm","r");
   double res;
   if (!statm) return -1.0;
-  if (fscanf(statm,"%*f %lf",&res))
+  if (fscanf(statm,"%*f %lf",&res)!=1)
       { fclose(statm); return -1.0; }
   fclose(statm);
   return (res*4096);
-- 
2.43.0


From 1ea011b9c931d76d3c84eb5cc9edaab95e71973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 44/44] fix: dateandtime2planck must accept 1969-12-31 23:59:59

---
 levels/c_utils/time_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/levels/c_utils/time_utils.c b/levels/c_utils/time_utils.c
index 065ce4b..7a67349 100644
--- a/levels/c_utils/time_utils.c
+++ b/levels/c_utils/time_utils.c
@@ -95,8 +95,9 @@ long long dateandtime2planck (int yr, int mth, int day, int hr, int min,
   mytime.tm_mon = mth-1;
   mytime.tm_year = yr-1900;
   mytime.tm_isdst=0;
+  mytime.tm_wday=-1; /* -1 is also the time 1969-12-31 23:59:59 */
   tplanck = my_timegm(&mytime);
-  UTIL_ASSERT(tplanck!=-1,"error in mktime()");
+  UTIL_ASSERT((tplanck!=-1)||(mytime.tm_wday!=-1),"error in mktime()");
   return tplanck-unixzero+SECS_1958_TO_1970;
   }
 
-- 
2.43.0

