From d8843a939f74ac006e76886871589345ae39cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 01/44] fix: make the splitting of degenerate sbottom masses
 idempotent

Validating a point twice must not change it.  The lighter sbottom mass was
divided by (1 + eps) again on every validation for masses below 1 (e.g.
when masses are given in TeV), in contrast to the stop case.
---
 source/himalaya/Himalaya_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/Himalaya_interface.cpp b/source/himalaya/Himalaya_interface.cpp
index 62d110e..0924306 100644
--- a/source/himalaya/Himalaya_interface.cpp
+++ b/source/himalaya/Himalaya_interface.cpp
@@ -276,7 +276,7 @@ void Parameters::validate(bool verbose)
    }
 
    if (std::abs(MSb(0) - MSb(1)) < eps) {
-      MSb(0) = MSb(0) / (1. + eps);
+      MSb(0) = MSb(1) / (1. + eps);
    }
 
    if (std::abs(mq2(2, 2) - mu2(2, 2)) < eps) {
-- 
2.43.0


From 4352259601d38df5c5da045d1b3ad34d9245d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 02/44] fix: print the start-up information once, without a
 data race

Calculators may be constructed concurrently; the flag that remembers whether
the information has been printed was a plain global bool.
---
 source/himalaya/HierarchyCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..c3922d4 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cmath>
 #include <iostream>
 #include <numeric>
@@ -39,7 +40,7 @@
 
 namespace himalaya {
 
-static bool isInfoPrinted; ///< if true, no info will be printed
+static std::atomic_flag isInfoPrinted = ATOMIC_FLAG_INIT; ///< if set, no info will be printed
 
 namespace {
 
@@ -153,9 +154,8 @@ void printInfo()
 HierarchyCalculator::HierarchyCalculator(const Parameters& p_, bool verbose_)
    : p(p_), verbose(verbose_)
 {
-   if (!isInfoPrinted && verbose) {
+   if (verbose && !isInfoPrinted.test_and_set()) {
       printInfo();
-      isInfoPrinted = true;
    }
 
    p.validate(verbose);
-- 
2.43.0


From 3ce4e3112ce0216d76c48525a6f9c38f02316dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 03/44] fix: complex dilogarithm reads its argument through a
 reference

A function with attribute const must not read memory through a reference: the
compiler drops the stores to the argument and the function sees garbage.
---
 source/himalaya/misc/Li2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/misc/Li2.hpp b/source/himalaya/misc/Li2.hpp
index 030a170..1246ea4 100644
--- a/source/himalaya/misc/Li2.hpp
+++ b/source/himalaya/misc/Li2.hpp
@@ -38,7 +38,7 @@ namespace himalaya {
 double dilog(double) noexcept ATTR(const);
 
 /// complex dilogarithm
-std::complex<double> dilog(const std::complex<double>&) noexcept ATTR(const);
+std::complex<double> dilog(const std::complex<double>&) noexcept ATTR(pure);
 
 /// Clausen function Cl_2(x)
 double clausen_2(double) noexcept ATTR(const);
-- 
2.43.0


From 8cf32455e5d8406bf487f5f07dea704711e3a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 04/44] fix: truncate in the stop mass difference with its own
 flag

The hierarchies h3, h32q2g, h3q22g, h9 and h9q2 read the truncation of the
Dmst12 expansion from the flag of the gluino mass difference, so that this
truncation did not contribute to their expansion uncertainty.
---
 source/himalaya/hierarchies/H3.cpp     | 2 +-
 source/himalaya/hierarchies/H32q2g.cpp | 2 +-
 source/himalaya/hierarchies/H3q22g.cpp | 2 +-
 source/himalaya/hierarchies/H9.cpp     | 2 +-
 source/himalaya/hierarchies/H9q2.cpp   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/hierarchies/H3.cpp b/source/himalaya/hierarchies/H3.cpp
index 2c7bfec..602a23e 100644
--- a/source/himalaya/hierarchies/H3.cpp
+++ b/source/himalaya/hierarchies/H3.cpp
@@ -65,7 +65,7 @@ H3::H3 (const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H32q2g.cpp b/source/himalaya/hierarchies/H32q2g.cpp
index fc5bf95..2c32daf 100644
--- a/source/himalaya/hierarchies/H32q2g.cpp
+++ b/source/himalaya/hierarchies/H32q2g.cpp
@@ -62,7 +62,7 @@ H32q2g::H32q2g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H3q22g.cpp b/source/himalaya/hierarchies/H3q22g.cpp
index 66c8f1f..6e2ca59 100644
--- a/source/himalaya/hierarchies/H3q22g.cpp
+++ b/source/himalaya/hierarchies/H3q22g.cpp
@@ -64,7 +64,7 @@ H3q22g::H3q22g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H9.cpp b/source/himalaya/hierarchies/H9.cpp
index 0a6719f..524496f 100644
--- a/source/himalaya/hierarchies/H9.cpp
+++ b/source/himalaya/hierarchies/H9.cpp
@@ -64,7 +64,7 @@ H9::H9(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, double
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
diff --git a/source/himalaya/hierarchies/H9q2.cpp b/source/himalaya/hierarchies/H9q2.cpp
index 748610e..43e78f3 100644
--- a/source/himalaya/hierarchies/H9q2.cpp
+++ b/source/himalaya/hierarchies/H9q2.cpp
@@ -66,7 +66,7 @@ H9q2::H9q2(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, dou
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
-- 
2.43.0


From 0928f2f56ba61821583d5a920d6b39993149408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 05/44] fix: prefer any hierarchy with a defined error

If the error of the first suitable hierarchy is NaN (its expanded mass matrix
is not positive), no other hierarchy could be selected any more, as all
comparisons with NaN are false.
---
 source/himalaya/HierarchyCalculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index c3922d4..bd60353 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -369,8 +369,9 @@ int HierarchyCalculator::compareHierarchies(himalaya::HierarchyObject& ho)
          // If the error is negative, it is the first iteration and
          // there is no hierarchy which fits better.  Otherwise,
          // compare the current error with the last error and choose
-         // the hierarchy which fits best (lowest error).
-         if (error < 0 || currError < error) {
+         // the hierarchy which fits best (lowest error).  An undefined
+         // error (NaN) is worse than any other.
+         if (error < 0 || std::isnan(error) || currError < error) {
             error = currError;
             suitableHierarchy = hierarchy;
             ho.setAbsDiff2L(twoLoopError);
-- 
2.43.0


From 5ea7a61ab1b9eecafc8723d619566e0f414d4770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 06/44] fix: keep the sign of cos(theta) in the O((at+ab)^2)
 corrections

The guard against vanishing sin(theta) recomputed cos(theta) as a positive
root, which flips the sign of the squark mixing if theta is in (pi/2, pi)
(right-handed squark lighter), and it did not guard against a vanishing
cos(theta).
---
 source/himalaya/mh2l/DSZHiggs.f | 48 ++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 937522d..5928709 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -62,7 +62,13 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             st = -eps_st
          endif
       endif
-      ct = sqrt(1.d0-st*st)
+c     guard against NANs when cos theta is zero
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st, ct)
+         st = sign(dsqrt(1d0-ct*ct), st)
+      else
+         ct = sign(dsqrt(1d0-st*st), ct)
+      endif
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -83,7 +89,13 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             sb = -eps_sb
          endif
       endif
-      cb = sqrt(1.d0-sb*sb)
+c     guard against NANs when cos theta is zero
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb, cb)
+         sb = sign(dsqrt(1d0-cb*cb), sb)
+      else
+         cb = sign(dsqrt(1d0-sb*sb), cb)
+      endif
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
@@ -221,7 +233,13 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             st = -eps_st
          endif
       endif
-      ct = sqrt(1.d0-st*st)
+c     guard against NANs when cos theta is zero
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st, ct)
+         st = sign(dsqrt(1d0-ct*ct), st)
+      else
+         ct = sign(dsqrt(1d0-st*st), ct)
+      endif
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -242,7 +260,13 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             sb = -eps_sb
          endif
       endif
-      cb = sqrt(1.d0-sb*sb)
+c     guard against NANs when cos theta is zero
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb, cb)
+         sb = sign(dsqrt(1d0-cb*cb), sb)
+      else
+         cb = sign(dsqrt(1d0-sb*sb), cb)
+      endif
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
@@ -365,7 +389,13 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             st = -eps_st
          endif
       endif
-      ct = sqrt(1.d0-st*st)
+c     guard against NANs when cos theta is zero
+      if (dabs(ct).lt.eps_st) then
+         ct = sign(eps_st, ct)
+         st = sign(dsqrt(1d0-ct*ct), st)
+      else
+         ct = sign(dsqrt(1d0-st*st), ct)
+      endif
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -386,7 +416,13 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             sb = -eps_sb
          endif
       endif
-      cb = sqrt(1.d0-sb*sb)
+c     guard against NANs when cos theta is zero
+      if (dabs(cb).lt.eps_sb) then
+         cb = sign(eps_sb, cb)
+         sb = sign(dsqrt(1d0-cb*cb), sb)
+      else
+         cb = sign(dsqrt(1d0-sb*sb), cb)
+      endif
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
-- 
2.43.0


From 2aefeedf4211677ef27ef36928a7fdc5d0fa4056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 07/44] fix: O(at^2) correction to the CP-odd Higgs mass for
 vanishing bottom Yukawa

hb*FAp is finite for hb -> 0, because FAp is proportional to 1/mb.
Dropping it left an uncancelled pole at vanishing stop mixing.
---
 source/himalaya/mh2l/DSZHiggs.f | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 5928709..c47839b 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -210,7 +210,7 @@ c     end of addition by ALEX
       double precision c2t,s2t,c2b,s2b,At,Ab,Xt,Xb,mt,mb,cbe,sbe,ht,hb
      $     ,k
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
-     $     ,FAp
+     $     ,FAp,hbFAp
       integer atat
       double precision, parameter :: eps_st = 1d-5
       double precision, parameter :: eps_t1 = 1d-5
@@ -344,8 +344,14 @@ c     end of addition by ALEX
       call makefuncs(t,b,A0,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb,
      $     F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb,FAp,atat)
       
+      if (atat.eq.1) then
+         hbFAp = dsqrt(2d0/vv)/cbe*FAp
+      else
+         hbFAp = hb*FAp
+      endif
+      
       DMA = -(ht**2*mu*At/(T1-T2)*Ft + hb**2*mu*Ab/(B1-B2)*Fb
-     $     + 2d0*ht*hb*FAp)/sbe/cbe
+     $     + 2d0*ht*hbFAp)/sbe/cbe
       
       DMA = k*DMA
       
@@ -633,6 +639,12 @@ c     end of addition by ALEX
      $     *(At*tanb*Dspbmptbspbptt + Ab/tanb*Dsptmpttsptptb
      $     + mu*Dsptmpttspbmptb)
       
+c     hb -> 0: return Sqrt(b)*FAp, because hb/Sqrt(b) is finite and
+c     multiplied by the only part of Sqrt(b)*FAp that remains
+      if (atat.eq.1) then
+         FAp = Sqrt(t)/s2t**2/(T1-T2)**2*mu**2/tanb**2*Dcptmptt
+      endif
+      
       return
       end
       
-- 
2.43.0


From 1399bd2c2b12d896cbb11c7bd3ca2fc058193c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 08/44] fix: sign of the 4th-order term of the expansion of F6
 around x = 1

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e53cc78..e1fb435 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -184,7 +184,7 @@ double F6(double x) noexcept
 
    if (is_equal(x2, 1., 0.01)) {
       const double d = (x - 1)*(x + 1);
-      return d*(1/3. + d*(-1/8. + d*(1/15. + d/24.)));
+      return d*(1/3. + d*(-1/8. + d*(1/15. - d/24.)));
    }
 
    return (x2 - 3)/(4*(1 - x2)) + x2*(x2 - 2)/(2*sqr(1 - x2))*std::log(x2);
-- 
2.43.0


From f4a14712d39d1d70d719010ea3ffd5b8c036b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 09/44] fix: sign of the linear term of F9(x1,x2) for x1 -> 1,
 x2 -> 0

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e1fb435..2fa6f5c 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -369,7 +369,7 @@ static double F9_1_x2(double x1, double x2) noexcept
    const double lx22 = std::log(x22);
 
    if (is_zero(x2, 0.01)) {
-      return 2 + d;
+      return 2 - d;
    }
 
    return
-- 
2.43.0


From ccc2a8804216c8a941190a764418c62b244e0c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 10/44] fix: F8 and F9 if both arguments are small

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 2fa6f5c..9993eb4 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -311,7 +311,7 @@ double F8(double x1, double x2) noexcept
       return F8_1_x2(x2, x1);
    }
 
-   if (is_zero(x1, 0.00001)) {
+   if (is_zero(x1, 0.00001) && ax1 <= ax2) {
       return F8_0_x2(x1, x2);
    }
 
@@ -426,15 +426,16 @@ double F9(double x1, double x2) noexcept
       return F9_1_x2(x2, x1);
    }
 
-   if (is_zero(x1, 0.0001)) {
+   // note: x1 -> 0 and x2 -> 0 do not commute
+   if (is_zero(x1, 0.0001*std::fmin(ax2, 1.))) {
       return F9_0_x2(x1, x2);
    }
 
-   if (is_zero(x2, 0.0001)) {
+   if (is_zero(x2, 0.0001*std::fmin(ax1, 1.))) {
       return F9_0_x2(x2, x1);
    }
 
-   if (is_equal(ax1, ax2, 0.00001)) {
+   if (is_equal(ax1, ax2, 0.00001*std::fmin(ax2, 1.))) {
       return F9_x1_x2(x1, x2);
    }
 
-- 
2.43.0


From 3b3b3b83dc3e26bc396b052b2a2985e7e880a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 11/44] fix: f5 and f6 for two small arguments, one negative or
 zero

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 9993eb4..9b44979 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -568,8 +568,8 @@ static double f5_0_0(double r1, double r2) noexcept
 
    const double r12 = sqr(r1);
    const double r22 = sqr(r2);
-   const double r2lr2 = xlogx(r2);
-   const double lr2 = logx(r2);
+   const double lr2 = logx(std::abs(r2));
+   const double r2lr2 = r2*lr2;
 
    // expansion of f5 in
    //   r1 up to (including) r1^2
@@ -726,6 +726,10 @@ static double f6_0_0(double r1, double r2) noexcept
       return 0.;
    }
 
+   if (std::abs(r1) > std::abs(r2)) {
+      std::swap(r1, r2);
+   }
+
    const double r22 = sqr(r2);
    const double lr22 = std::log(r22);
 
-- 
2.43.0


From bece108393ac3851414579b55e4277c11db95a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 12/44] fix: f5, f6, f7 and f8 if one argument is -1

---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 112 +++++++++++++++++-
 1 file changed, 111 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 9b44979..184c79a 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -671,6 +671,17 @@ static double f5_r1_r2(double r1, double r2) noexcept
    );
 }
 
+/// f5(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f5_1_m1(double r1, double r2) noexcept
+{
+   const double d = r1 - 1;
+   const double e = r2 + 1;
+   const double de = d*e;
+   const double s = sqr(d) + sqr(e);
+
+   return 3./4 + (d - e)/8 + (s + de)/8 - (d - e)*(s + de)/20 - de*s/40;
+}
+
 double f5(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -688,6 +699,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f5_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f5_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., eps_one)) {
       return f5_1_r2(r1, r2);
    }
@@ -696,6 +715,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f5_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f5_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f5_0_r2(r1, r2);
    }
@@ -842,6 +869,18 @@ static double f6_r1_r2(double r1, double r2) noexcept
       );
 }
 
+/// f6(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f6_1_m1(double r1, double r2) noexcept
+{
+   const double d = r1 - 1;
+   const double e = r2 + 1;
+   const double de = d*e;
+   const double s = sqr(d) + sqr(e);
+
+   return 3./7 + 2*(d - e)/7 + (s + 2*de)/7 - (d - e)*(7*s + 12*de)/70
+      + (3*sqr(s) - de*(s + 11*de))/70;
+}
+
 double f6(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -858,6 +897,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., 0.02) && is_equal(r2, -1., 0.02)) {
+      return f6_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., 0.02) && is_equal(r2, 1., 0.02)) {
+      return f6_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., 0.001)) {
       return f6_1_r2(r1, r2);
    }
@@ -866,6 +913,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., 0.001)) {
+      return f6_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., 0.001)) {
+      return f6_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f6_0_r2(r1, r2);
    }
@@ -1012,6 +1067,18 @@ static double f7_r1_r2(double r1, double r2) noexcept
    return 6*res;
 }
 
+/// f7(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f7_1_m1(double r1, double r2) noexcept
+{
+   const double d = r1 - 1;
+   const double e = r2 + 1;
+   const double de = d*e;
+   const double s = sqr(d) + sqr(e);
+
+   return 3 - (d - e) - de + (d - e)*(3*s + 8*de)/10
+      - (3*sqr(s) + de*(s - 11*de))/10;
+}
+
 double f7(double r1, double r2) noexcept
 {
    const double eps_zero = 1e-4;
@@ -1029,6 +1096,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_1(-r1, -r2);
    }
 
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f7_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f7_1_m1(r2, r1);
+   }
+
    if (is_equal(r1, 1., eps_one)) {
       return f7_1_r2(r1, r2);
    }
@@ -1037,6 +1112,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f7_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f7_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f7_0_r2(r1, r2);
    }
@@ -1188,6 +1271,17 @@ static double f8_r1_r2(double r1, double r2) noexcept
       + d4*(-3 + r22*(-285 - 90*lr22 + r22*(-570 - 630*lr22 + r22*(570 - 630*lr22 + r22*(285 - 90*lr22 + 3*r22)))))/(5.*r2*y7);
 }
 
+/// f8(r1,r2) in the limit r1 -> 1 and r2 -> -1
+static double f8_1_m1(double r1, double r2) noexcept
+{
+   const double d = r1 - 1;
+   const double e = r2 + 1;
+   const double de = d*e;
+   const double s = sqr(d) + sqr(e);
+
+   return (d + e)*(0.5 - (d - e)/4 + (3*s - 8*de)/40 + de*(d - e)/10);
+}
+
 double f8(double r1, double r2) noexcept
 {
    const double eps_zero = 5e-5;
@@ -1202,7 +1296,15 @@ double f8(double r1, double r2) noexcept
    }
 
    if (is_equal(r1, -1., eps_one) && is_equal(r2, -1., eps_one)) {
-      return -1.;
+      return -f8_1_1(-r1, -r2);
+   }
+
+   if (is_equal(r1, 1., eps_one) && is_equal(r2, -1., eps_one)) {
+      return f8_1_m1(r1, r2);
+   }
+
+   if (is_equal(r1, -1., eps_one) && is_equal(r2, 1., eps_one)) {
+      return f8_1_m1(r2, r1);
    }
 
    if (is_equal(r1, 1., eps_one)) {
@@ -1213,6 +1315,14 @@ double f8(double r1, double r2) noexcept
       return f8_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return -f8_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return -f8_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f8_0_r2(r1, r2);
    }
-- 
2.43.0


From 846bd9793b82916dcb300585c0bbe6814fa12a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 13/44] fix: B0 function for non-zero momentum and one massless
 particle

---
 source/himalaya/mh2_fo/PV.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 2174a38..453a000 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -156,7 +156,7 @@ double b0(double p2, double m12, double m22, double q2) noexcept
       return b0xx(p2, m12, q2);
    }
 
-   if (p2 <= 1e-11 * m12) {
+   if (p2 <= 1e-11 * m12 || p2 < EPSTOL * EPSTOL * m22) {
       if (m12 < EPSTOL * m22) {
          return 1 - std::log(m22 / q2);
       }
@@ -165,8 +165,12 @@ double b0(double p2, double m12, double m22, double q2) noexcept
    }
 
    if (m12 < EPSTOL * EPSTOL * m22) {
+      if (p2 <= 1e-3 * m22) {
+         const double r = p2 / m22;
+         return 2 - std::log(m22 / q2) + (1 - r) / r * std::log1p(-r);
+      }
       const double del = std::hypot(m22 - p2, EPSTOL * m22);
-      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / p2);
+      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / m22);
    }
 
    const double s = p2 - m22 + m12;
-- 
2.43.0


From c1e77309ccfd0a8621fcf597bd6de7a5a9a9b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 14/44] fix: numerical cancellation in B0(0,m1,m2) for nearly
 equal masses

---
 source/himalaya/mh2_fo/PV.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 453a000..0b63044 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -161,7 +161,9 @@ double b0(double p2, double m12, double m22, double q2) noexcept
          return 1 - std::log(m22 / q2);
       }
 
-      return 1 - std::log(m22 / q2) + m12 * std::log(m22 / m12) / (m12 - m22);
+      const double d = (m22 - m12) / m12;
+
+      return 1 - std::log(m22 / q2) - std::log1p(d) / d;
    }
 
    if (m12 < EPSTOL * EPSTOL * m22) {
-- 
2.43.0


From 9672f2b5c6ff32876b31f69010cf2ef63be4c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 15/44] fix: range of the small-mass expansion in phi_xyz

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 184c79a..3abe715 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1391,7 +1391,7 @@ namespace {
    {
       if (v < qdrt_eps) {
          return std::make_tuple(l00(u, v), l00(v, u));
-      } else if (u < qdrt_eps) {
+      } else if (u < qdrt_eps*sqr(1 - v)) {
          return std::make_tuple(l0v(u, v), lv0(u, v));
       }
       return std::make_tuple(0.5*(1 - lambda + u - v),
-- 
2.43.0


From 5138f505f86eb8e5a2769a8be613a0de201343da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 16/44] fix: compare mass ratios in phi_xyz relative to their
 size

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 3abe715..e119082 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1408,7 +1408,7 @@ namespace {
       const double pi23 = 3.2898681336964529; // Pi^2/3
       const auto lambda = std::sqrt(lambda_2(u,v));
 
-      if (is_equal(u, v, eps)) {
+      if (is_equal(u, v, eps*v)) {
          const double x = u < qdrt_eps ? u*(1 + u*(1 + u*(2 + 5*u))) : 0.5*(1 - lambda);
 
          return (- sqr(std::log(u)) + 2*sqr(std::log(x))
-- 
2.43.0


From ad6597d6ca7340090fe28a4a413d6540b9b4b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 17/44] fix: normalisation of Phi(x,y,z) in the 2-loop
 threshold corrections

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f26414e..3b8f477 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -14,6 +14,7 @@
 #include "himalaya/misc/Numerics.hpp"
 #include "himalaya/misc/Powers.hpp"
 #include "himalaya/misc/RAII.hpp"
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <limits>
@@ -107,10 +108,15 @@ double deltaxyz(double x, double y, double z) noexcept
 
 /**
  * \f$\Phi(x,y,z)\f$ function.  The arguments x, y and z are
- * interpreted as squared masses. Taken from FlexibleSUSY.
+ * interpreted as squared masses.
  *
  * Davydychev and Tausk, Nucl. Phys. B397 (1993) 23
  *
+ * @note In contrast to threshold_loop_functions::phi_xyz(), which is
+ * symmetric and of mass dimension 2, this function is dimensionless
+ * and depends only on x/z and y/z:
+ * phi_xyz(x,y,z) = phixyz(x,y,z)*delta_xyz(x,y,z)/(2*z)
+ *
  * @param x squared mass
  * @param y squared mass
  * @param z squared mass
@@ -119,7 +125,19 @@ double deltaxyz(double x, double y, double z) noexcept
  */
 double phixyz(double x, double y, double z) noexcept
 {
-   return threshold_loop_functions::phi_xyz(x, y, z);
+   const auto phi = [y, z] (double xi) {
+      return 2*z*threshold_loop_functions::phi_xyz(xi, y, z)/deltaxyz(xi, y, z);
+   };
+
+   // phixyz is finite for delta_xyz = 0
+   const double m = std::max(std::max(std::abs(x), std::abs(y)), std::abs(z));
+
+   if (std::abs(deltaxyz(x, y, z)) < 1e-10*pow2(m)) {
+      constexpr double h = 1e-5;
+      return 0.5*(phi(x*(1 + h)) + phi(x*(1 - h)));
+   }
+
+   return phi(x);
 }
 
 } // anonymous namespace
-- 
2.43.0


From a5fa8647c3022e35896f0915f5e37005513af30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:14 +0000
Subject: [PATCH 18/44] fix: order of the matrix elements returned by taubot

---
 source/himalaya/mh2l/DSZHiggs.cpp | 2 +-
 source/himalaya/mh2l/DSZHiggs.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index c36674d..1530e3d 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -399,7 +399,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
            &mstau12, &mstau22, &msb12, &msb22,
            &sintau, &costau, &sxb, &cxb,
            &scale2, &mu, &tanb, &vev2,
-           &result(0,0), &result(1,1), &result(0,1));
+           &result(0,0), &result(0,1), &result(1,1));
 
    result(1,0) = result(0,1);
 
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index 6f4b677..cc62d7d 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -102,7 +102,7 @@ int taubot_(double * t, double * b,
             double * T1, double * T2, double * B1, double * B2,
             double * st, double * ct, double * sb, double * cb,
             double * q, double * mu, double * tanb, double * vv,
-            double * S11, double * S22, double * S12);
+            double * S11, double * S12, double * S22);
 
 /**
  * Two-loop O(a_t a_s) corrections to the CP-odd Higgs mass in the
-- 
2.43.0


From 63001aa217462e57a56fd2b16f6502aac73f15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 19/44] fix: use the same squark mass in all terms of the
 O(at^2) threshold correction

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 3b8f477..511e41f 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1408,7 +1408,6 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt4 = pow2(Xt2);
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
-   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
 
    if (is_equal_rel(mQ32, mU32, 0.1) &&
        (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
@@ -1417,6 +1416,7 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
 
    mQ32 = p.mq2(2,2) * (1.02);
    mU32 = p.mu2(2,2) * (0.98);
+   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
    const double Mu = p.mu * std::sqrt(1.03);
-- 
2.43.0


From 63b49b6ce777de395021fd1e501ef99adf9257f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 20/44] fix: scale dependence of the threshold corrections
 O(ab*as) and O(atau^2) without logarithms

The logarithm of the (dimensionful) squared renormalization scale was set
to zero, so that logarithms of dimensionful masses remained.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 511e41f..5246e3b 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -932,8 +932,9 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
-   const double MR2 = pow2(p.scale);
-   const double lMR = omitLogs*log(MR2);
+   // omitting log(MSb(0)/scale) is the same as setting scale = MSb(0)
+   const double MR2 = pow2(omitLogs != 0 ? p.scale : p.MSb(0));
+   const double lMR = log(MR2);
    const double mQ32 = p.mq2(2,2);
    const double mD32 = p.md2(2,2);
    const double m32 = pow2(p.MG);
@@ -1793,8 +1794,9 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
-   const double MR2 = pow2(p.scale);
-   const double lMR = omitLogs*log(MR2);
+   // omitting log(MStau(0)/scale) is the same as setting scale = MStau(0)
+   const double MR2 = pow2(omitLogs != 0 ? p.scale : p.MStau(0));
+   const double lMR = log(MR2);
    const double mL32 = p.ml2(2,2);
    const double mE32 = p.me2(2,2);
    const double mL3 = std::sqrt(mL32);
-- 
2.43.0


From fe632854f679f71be0c6cdead1209ef6337289ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 21/44] fix: O(y^6) threshold corrections for (nearly) equal
 masses

The expressions for the O(yb^6), O(yt^6), O(ytau^6), O(yt^2*yb^4) and
O(yt^4*yb^2) corrections are numerically unstable for (nearly) equal
masses.  The limits for fully degenerate masses were wrong (overall
factors of sin(beta) and cos(beta), dependence on the scale and on mA)
and were applied even if mA or mu were not degenerate, and there was no
treatment if only some of the masses were equal.  Extrapolate from
points with separated masses instead.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 342 ++++++++----------
 .../himalaya/mh2_eft/ThresholdCalculator.hpp  |  25 +-
 2 files changed, 166 insertions(+), 201 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 5246e3b..42a9a14 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -19,6 +19,7 @@
 #include <complex>
 #include <limits>
 #include <stdexcept>
+#include <vector>
 
 /**
  * @file ThresholdCalculator.cpp
@@ -32,52 +33,6 @@ namespace himalaya {
 namespace mh2_eft {
 namespace {
 
-/// threshold loop functions from [1504.05200] Eq.(14)
-double f1HD(double x) noexcept
-{
-   const double x2 = pow2(x);
-   const double den = 1 - x2;
-
-   if (std::abs(den) < 1e-5)
-      return -1;
-
-   return x2/den * std::log(x2);
-}
-
-/// threshold loop functions from [1504.05200] Eq.(15)
-double f2HD(double x) noexcept
-{
-   const double x2 = pow2(x);
-   const double den = 1 - x2;
-
-   if (std::abs(den) < 1e-5)
-      return 0.5;
-
-   return (1 + x2/den * std::log(x2))/den;
-}
-
-/// threshold loop functions from [1504.05200] Eq.(17)
-double f3HD(double x) noexcept
-{
-   using himalaya::dilog;
-
-   const double x2 = pow2(x);
-   const double den = 1 - x2;
-   const std::complex<double> cden = den;
-
-   if (std::abs(den) < 1e-5)
-      return -9./4;
-
-   const double logx2 = std::log(x2);
-
-   const std::complex<double> result =
-      (-1 + x2*(2 + 2*x2))/pow2(den) * (
-         logx2*std::log(cden) + dilog(x2) - z2 - x2*logx2);
-
-   return result.real();
-}
-
-
 /**
  * Checks if the difference of the shifted general mass case result to
  * the exact limit result is smaller than the difference of the
@@ -391,19 +346,19 @@ double ThresholdCalculator::getThresholdCorrection(
          return getDeltaLambdaYb4G32(omitLogs);
       }
       case ThresholdCouplingOrders::LAMBDA_YB6:{
-         return getDeltaLambdaYb6(omitLogs);
+         return evaluateSquark(&ThresholdCalculator::getDeltaLambdaYb6, omitLogs);
       }
       case ThresholdCouplingOrders::LAMBDA_YT6:{
-         return getDeltaLambdaYt6(omitLogs);
+         return evaluateSquark(&ThresholdCalculator::getDeltaLambdaYt6, omitLogs);
       }
       case ThresholdCouplingOrders::LAMBDA_YTAU6:{
-         return getDeltaLambdaYtau6(omitLogs);
+         return evaluateSlepton(&ThresholdCalculator::getDeltaLambdaYtau6, omitLogs);
       }
       case ThresholdCouplingOrders::LAMBDA_YT2_YB4:{
-         return getDeltaLambdaYt2Yb4(omitLogs);
+         return evaluateSquark(&ThresholdCalculator::getDeltaLambdaYt2Yb4, omitLogs);
       }
       case ThresholdCouplingOrders::LAMBDA_YT4_YB2:{
-         return getDeltaLambdaYt4Yb2(omitLogs);
+         return evaluateSquark(&ThresholdCalculator::getDeltaLambdaYt4Yb2, omitLogs);
       }
       case ThresholdCouplingOrders::LAMBDA_YTAU4_YB2:{
         return getDeltaLambdaYtau4Yb2(omitLogs);
@@ -433,6 +388,142 @@ double ThresholdCalculator::getThresholdCorrection(
    return thresholdCorrection;
 }
 
+/**
+ * Shifts the soft-breaking masses of the 3rd generation and
+ * \f$m_A\f$ by different relative amounts.
+ * @param eps relative shift
+ */
+void ThresholdCalculator::shiftMasses(double eps)
+{
+   p.mq2(2,2) *= pow2(1 - eps);
+   p.mu2(2,2) *= pow2(1 + eps);
+   p.md2(2,2) *= pow2(1 + 2*eps);
+   p.ml2(2,2) *= pow2(1 - eps);
+   p.me2(2,2) *= pow2(1 + eps);
+   p.MA *= 1 - 0.3*eps;
+}
+
+/**
+ * Returns the distance of the masses to the closest (removable)
+ * singularity of the expressions for the O(y^6) threshold
+ * corrections, which are located at equal masses of the doublet and
+ * the singlet sfermions, at \f$|\mu| = m_i\f$ and at
+ * \f$\Delta(m_A^2,m_i^2,m_j^2) = 0\f$, i.e. \f$m_A = |m_i \pm m_j|\f$.
+ * @param mD mass of the doublet sfermion
+ * @param mS masses of the singlet sfermions
+ * @return relative distance
+ */
+double ThresholdCalculator::calcMassSeparation(
+   double mD, const std::vector<double>& mS) const
+{
+   const double mu = std::abs(p.mu);
+   const double mA = p.MA;
+   double separation = std::abs(mD - mu)/mD;
+
+   // the expressions are less sensitive to small Delta(mA^2,mi^2,mj^2)
+   const auto delta = [mA] (double mi, double mj) {
+      return 30*std::min(std::abs(mi + mj - mA), std::abs(std::abs(mi - mj) - mA))/std::max(mi, mj);
+   };
+
+   for (std::size_t i = 0; i < mS.size(); ++i) {
+      separation = std::min({separation, std::abs(mS[i] - mu)/mS[i],
+                             std::abs(mS[i] - mD)/mD, delta(mS[i], mD)});
+      for (std::size_t j = i + 1; j < mS.size(); ++j)
+         separation = std::min(separation, delta(mS[i], mS[j]));
+   }
+
+   return separation;
+}
+
+/**
+ * Evaluates an O(y^6) threshold correction.  The corrections are
+ * finite, but their expressions are numerically unstable close to
+ * equal masses.  There, the correction is extrapolated from points
+ * with separated masses.
+ *
+ * @param correction threshold correction
+ * @param separation distance of the masses to the closest singularity
+ * @param minSeparation distance at which the correction is numerically stable
+ * @param omitLogs an integer key to omit all log mu terms
+ * @return threshold correction
+ */
+double ThresholdCalculator::evaluateSeparated(
+   Correction correction,
+   Separation separation,
+   double minSeparation, int omitLogs) const
+{
+   if ((this->*separation)() >= minSeparation)
+      return (this->*correction)(omitLogs);
+
+   constexpr std::size_t nPoints = 6;
+   std::vector<double> eps, values;
+
+   // collect points with separated masses on both sides
+   for (double minSep = minSeparation; minSep > 1e-3*minSeparation; minSep /= 2) {
+      eps.clear();
+      values.clear();
+
+      for (int k = 2; k < 12 && eps.size() < nPoints; ++k) {
+         for (double e: {0.25*k*minSeparation, -0.25*k*minSeparation}) {
+            ThresholdCalculator tc(*this);
+            tc.shiftMasses(e);
+            if ((tc.*separation)() >= minSep) {
+               eps.push_back(e);
+               values.push_back((tc.*correction)(omitLogs));
+            }
+         }
+      }
+
+      if (eps.size() >= nPoints)
+         break;
+   }
+
+   if (eps.empty())
+      return (this->*correction)(omitLogs);
+
+   // polynomial extrapolation to eps = 0
+   double result = 0;
+
+   for (std::size_t i = 0; i < eps.size(); ++i) {
+      double weight = 1;
+      for (std::size_t j = 0; j < eps.size(); ++j) {
+         if (j != i)
+            weight *= eps[j]/(eps[j] - eps[i]);
+      }
+      result += weight*values[i];
+   }
+
+   return result;
+}
+
+/// returns distance to the closest singularity of the squark corrections
+double ThresholdCalculator::calcSquarkMassSeparation() const
+{
+   return calcMassSeparation(std::sqrt(p.mq2(2,2)), {std::sqrt(p.mu2(2,2)), std::sqrt(p.md2(2,2))});
+}
+
+/// returns distance to the closest singularity of the slepton corrections
+double ThresholdCalculator::calcSleptonMassSeparation() const
+{
+   return calcMassSeparation(std::sqrt(p.ml2(2,2)), {std::sqrt(p.me2(2,2))});
+}
+
+/// evaluates O(y^6) squark correction
+double ThresholdCalculator::evaluateSquark(
+   Correction correction, int omitLogs) const
+{
+   return evaluateSeparated(
+      correction, &ThresholdCalculator::calcSquarkMassSeparation, 0.02, omitLogs);
+}
+
+/// evaluates O(y^6) slepton correction
+double ThresholdCalculator::evaluateSlepton(
+   Correction correction, int omitLogs) const
+{
+   return evaluateSeparated(
+      correction, &ThresholdCalculator::calcSleptonMassSeparation, 0.05, omitLogs);
+}
+
 double ThresholdCalculator::getDeltaLambdaYb2G12(int omitLogs) const
 {
    const double MR2 = pow2(p.scale);
@@ -1109,19 +1200,6 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    const double Mu2 = pow2(Mu);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mD3 - mQ3) < eps && std::abs(mA - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (30.*pow4(cbeta)*(Xb2*pow2(M)*(Xb2*(0.2 + 0.7*pow2(cbeta) - 0.1*pow2(
-        sbeta)) + 0.17495808000000004*Xb*Yb*pow2(sbeta) - 0.004229546666666551*
-        pow2(sbeta)*pow2(Yb)) + (Xb2*(-0.4 - 2.8*pow2(cbeta) + 
-        0.5375628799999999*pow2(sbeta)) + 0.10016767999999983*Xb*Yb*pow2(sbeta)
-        + 0.025041919999999957*pow2(sbeta)*pow2(Yb))*pow4(M) - 
-        0.0041457066666666705*pow2(sbeta)*pow2(Yb)*pow4(Xb) + (0.8 + pow2(
-        cbeta) - 0.6699863197821283*pow2(sbeta))*pow6(M) - 0.06666666666666667*
-        pow2(cbeta)*pow6(Xb)))/pow6(M);
-   }
 
    return 3*(10 - 5/pow2(cbeta) - (2*mD32)/(mQ32*pow2(cbeta)) - (4*mQ32)/(mD32*
         pow2(cbeta)) + (2*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (8*Mu2)/(mD32*
@@ -1350,56 +1428,14 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
  *
  * @return 2-loop threshold correction O(at^2)
  */
-double ThresholdCalculator::getDeltaLambdaYt6_SUSYHD(int omitLogs) const
-{
-   const double mQ32 = p.mq2(2,2);
-   const double mU32 = p.mu2(2,2);
-   const double mQ3 = std::sqrt(mQ32);
-   const double mU3 = std::sqrt(mU32);
-   const double Xt = calcXt();
-   const double mst2 = mQ3 * mU3;
-   const double mst = std::sqrt(mst2);
-   const double xt = Xt/mst;
-   const double muhat = p.mu/mst;
-   const double beta = calcBeta();
-   const double cb2 = pow2(calcCosBeta());
-   const double sb2 = pow2(calcSinBeta());
-   const double s2b = std::sin(2*beta);
-   const double Q2 = pow2(p.scale);
-   const double lmst2Q2 = omitLogs*std::log(mst2/Q2);
-
-   const double dlam =
-      (3*(0.5 - 8.34993159891064*cb2 - 4*lmst2Q2 + 13*cb2*lmst2Q2 +
-       12.*cb2*(0.04173653333333327 + lmst2Q2)*xt*((2*muhat)/s2b + xt) -
-       8*f1HD(muhat) + 4*f3HD(muhat) + 3*pow2(lmst2Q2) -
-       3*cb2*pow2(lmst2Q2) + 6*pow2(muhat) - 6*lmst2Q2*pow2(muhat) -
-       2*f1HD(muhat)*pow2(muhat) + 3*f2HD(muhat)*pow2(muhat) +
-       3.*cb2*(0.04173653333333327 + lmst2Q2)*pow2((2*muhat)/s2b + xt) +
-       pow2(xt)*(-7 + 19.6878144*cb2 + 27*lmst2Q2 - 24*cb2*lmst2Q2 +
-          4*f1HD(muhat) - 4*f2HD(muhat) - 6*pow2(muhat) +
-          6*lmst2Q2*pow2(muhat) - 6*f1HD(muhat)*pow2(muhat) -
-          6*f2HD(muhat)*pow2(muhat) -
-          3.*cb2*(0.007049244444444251 + lmst2Q2)*pow2((2*muhat)/s2b + xt))
-        - 2.*cb2*(-0.4373952000000001 + lmst2Q2)*((2*muhat)/s2b + xt)*
-        pow3(xt) + ((22 - 25*cb2 - 26*lmst2Q2 + 24*cb2*lmst2Q2 -
-            2*f1HD(muhat) + 2*f2HD(muhat) + 4*pow2(muhat) -
-            4*lmst2Q2*pow2(muhat) + 4*f1HD(muhat)*pow2(muhat) +
-            2*f2HD(muhat)*pow2(muhat) +
-            (2.*cb2*(-0.04145706666666671 + lmst2Q2)*
-               pow2(2.*muhat + s2b*xt))/pow2(s2b))*pow4(xt))/4. -
-       ((-1 + cb2)*(-1 + lmst2Q2)*pow6(xt))/2.))/sb2;
-
-   return 2*dlam;
-}
-
 double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
 {
    using std::log;
    using himalaya::dilog;
 
    const double MR2 = pow2(p.scale);
-   double mQ32 = p.mq2(2,2);
-   double mU32 = p.mu2(2,2);
+   const double mQ32 = p.mq2(2,2);
+   const double mU32 = p.mu2(2,2);
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
@@ -1410,19 +1446,12 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
 
-   if (is_equal_rel(mQ32, mU32, 0.1) &&
-       (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
-      return getDeltaLambdaYt6_SUSYHD(omitLogs);
-   }
-
-   mQ32 = p.mq2(2,2) * (1.02);
-   mU32 = p.mu2(2,2) * (0.98);
-   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
+   const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
-   const double Mu = p.mu * std::sqrt(1.03);
+   const double Mu = p.mu;
    const double Mu2 = pow2(Mu);
-   const double lmUMR = omitLogs*std::log(Mu2 / MR2);
+   const double lmUMR = omitLogs*log(Mu2 / MR2);
 
    return (18*pow2(cbeta)*pow2(log(mA2/MR2)))/pow2(sbeta) - (288*Yt*pow2(cbeta)*
         pow3(Xt))/(pow2(mQ32 - mU32)*pow2(sbeta)) - (6*Xt6*(11*mQ32*mU32 + 2*
@@ -1810,24 +1839,6 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    const double Ytau = calcYtau();
    const double Mu = p.mu;
 
-   if (std::abs(mE3 - mL3) < 0.1*mE3) {
-     const double lMS = log(mL32/MR2);
-     const double M = mL3;
-     const double Xtau2 = pow2(Xtau);
-     return (pow2(cbe)*(cbe*(4.994969600000008 - 48.*lMS)*sbe*pow3(M)*pow3(Xtau)
-     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(99. - 40.5*pow2(sbe))
-     + 25.88317440000001*pow2(sbe)) + (-96. + 6.75*lMS)*pow4(cbe) + lMS*(74.25
-     - 99.*pow2(sbe) + 6.75*pow4(sbe))) + pow2(M)*(-0.12437120000000013
-     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-22.5 + 4.5*pow2(sbe)))
-     + (39. - 0.75*lMS)*pow4(cbe) + lMS*(-18.75 + 22.5*pow2(sbe)
-     - 0.75*pow4(sbe)))*pow4(Xtau) + cbe*(4.507545599999993 + 108.*lMS)*sbe
-     *Xtau*pow5(M) + cbe*(-0.24874240000000025 + 6.*lMS)*M*sbe*pow5(Xtau)
-     + (0.7512575999999989 + pow2(cbe)*(3.9004104065361593*pow2(sbe)
-     + lMS*(-30. + 58.5*pow2(sbe))) + (54. - 9.75*lMS + 18.*pow2(lMS))
-     *pow4(cbe) + lMS*(-2.25 + 30.*pow2(sbe) - 9.75*pow4(sbe)))*pow6(M)
-     + (lMS*(1.5 - 1.5*pow2(sbe)) + pow2(cbe)*(1.5*lMS - 0.12437120000000013
-     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau)))/pow6(M);
-   }
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
         pow2(mE3)*(pow2(mE3) - pow2(mL3))*pow2(mL3)*pow2(log(mE3)) - 4*pow2(
@@ -2232,36 +2243,6 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (2.675765602178715*pow2(cbeta)*(cbeta*(1.4948992530373513*sbeta*pow3(M)*
-        pow3(Xb) - 8.96939551822411*sbeta*Xt*pow5(M)) + pow4(cbeta)*(Xb2*pow2(
-        M)*(-0.3737248132593378*Xb2 - 0.34273774426277803*Xb*Yt - 
-        0.514106616394167*pow2(Yt)) + (3.5039051224688698*Xb2 + 
-        5.046224971651371*Xb*Yt + 1.2615562429128429*pow2(Yt))*pow4(M) + 
-        0.05195844587770295*pow2(Yt)*pow4(Xb) + 1.*pow6(M)) + pow2(sbeta)*(-
-        0.20235594112794902*Xb2*Xt2*pow2(sbeta)*pow2(Yb) + pow2(M)*(
-        1.4948992530373513*Xb*Xt2*Yb*pow2(sbeta) + 0.7474496265186756*Xt2*pow2(
-        sbeta)*pow2(Yb) + Xb2*(1.1211744397780137*Xt2 + 1.4948992530373513*Xt*
-        Yb*pow2(sbeta) + 0.7474496265186756*pow2(sbeta)*pow2(Yb))) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb)*pow2(sbeta) - 
-        7.0078102449377395*Xt*Yb*pow2(sbeta) + Xb2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) + Xt2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) - 3.5039051224688698*pow2(sbeta)*pow2(
-        Yb))*pow4(M) + (-17.93879103644822 - 10.511715367406609*pow2(sbeta))*
-        pow6(M)) + pow2(cbeta)*(Xt*(0.7474496265186756*Xb*Xt - 
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xb) + Xb*pow2(M)*(Xb2*(-
-        0.342737744262778*Yb - 0.34273774426277803*Yt)*pow2(sbeta) + 
-        2.9897985060747025*Xt*Yb*Yt*pow2(sbeta) + Xb*Xt*(-6.727046638668082*Xt
-        + 1.4948992530373513*Yb + 1.4948992530373513*Yt)*pow2(sbeta) + (
-        0.3737248132593378 + 0.3737248132593378*pow2(sbeta))*pow3(Xb)) + (-
-        8.407868305684794*Xb2 + Xt*(8.96939551822411*Xt - 7.0078102449377395*Yb
-        - 7.0078102449377395*Yt) + Xb*(-7.0078102449377395*Xt + 
-        5.0462249716513705*Yb + 5.0462249716513705*Yt))*pow2(sbeta)*pow4(M) + (
-        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
-   }
 
    return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
         mD32 - mQ32)*sbeta) + (48*Xt*std::abs(Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
@@ -2633,35 +2614,6 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR  = omitLogs*std::log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
-
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mU3);
-     return (2.675765602178715*pow2(sbeta)*(cbeta*M*sbeta*(-0.7474496265186756*Xb*Xt4
-        + (8.96939551822411*Xb + 1.4948992530373513*Xt)*Xt2*pow2(M) - 
-        8.96939551822411*Xb*pow4(M)) + pow4(cbeta)*(Yt*(1.4948992530373513*Xb*
-        Xt2 + Xb2*(1.4948992530373513*Xt + 0.7474496265186756*Yt) + 
-        0.7474496265186756*Xt2*Yt)*pow2(M) - 0.20235594112794902*Xb2*Xt2*pow2(
-        Yt) + (1.2615562429128426*Xb2 - 7.0078102449377395*Xb*Xt + 
-        1.2615562429128426*Xt2 - 7.0078102449377395*Xb*Yt - 7.0078102449377395*
-        Xt*Yt - 3.5039051224688698*pow2(Yt))*pow4(M) - 10.511715367406609*pow6(
-        M)) + pow2(sbeta)*(0.05195844587770295*Xt4*pow2(sbeta)*pow2(Yb) + Xt2*
-        pow2(M)*(Xt2*(0.3737248132593378 - 0.560587219889007*pow2(sbeta)) - 
-        0.342737744262778*Xt*Yb*pow2(sbeta) - 0.514106616394167*pow2(sbeta)*
-        pow2(Yb)) + pow2(sbeta)*(5.746254002024897*Xt2 + 5.046224971651371*Xt*
-        Yb + 1.2615562429128429*pow2(Yb))*pow4(M) + (8.969395518224111 + 1.*
-        pow2(sbeta))*pow6(M)) + pow2(cbeta)*(Xt*pow2(M)*(Xb2*Xt*(
-        1.1211744397780137 - 2.2423488795560274*pow2(sbeta)) + Xt2*(-
-        1.1211744397780137*Xt - 0.342737744262778*Yb - 0.342737744262778*Yt)*
-        pow2(sbeta) + Xb*(1.4948992530373513*Xt*Yb + 1.4948992530373513*Xt*Yt +
-        2.9897985060747025*Yb*Yt)*pow2(sbeta)) + Xb*(0.3737248132593378*Xb*Xt -
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xt) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb - 7.0078102449377395*Yt)*
-        pow2(sbeta) + Xb2*(-2.2423488795560274 + 8.96939551822411*pow2(sbeta))
-        + Xt*((5.0462249716513705*Yb + 5.0462249716513705*Yt)*pow2(sbeta) + Xt*
-        (-2.2423488795560274 + 9.530922730763425*pow2(sbeta))))*pow4(M) + (-
-        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
-   }
 
    return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index 6bd3eea..bfdf561 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -9,6 +9,7 @@
 
 #include "himalaya/Himalaya_interface.hpp"
 #include "himalaya/mh2_eft/EFTFlags.hpp"
+#include <vector>
 
 /**
  * @file ThresholdCalculator.hpp
@@ -68,6 +69,24 @@ public:
     */
    void setXtOrderOfDeltaLambdaAtAs2(int xtOrder);
 private:
+   /// function pointer to a threshold correction
+   using Correction = double (ThresholdCalculator::*)(int) const;
+   /// function pointer to a separation of masses
+   using Separation = double (ThresholdCalculator::*)() const;
+   /// shifts the 3rd generation soft-breaking masses and mA by different relative amounts
+   void shiftMasses(double eps);
+   /// returns the relative distance of the masses to the closest singularity of the O(y^6) threshold corrections
+   double calcMassSeparation(double mD, const std::vector<double>& mS) const;
+   /// returns the distance to the closest singularity of the squark corrections
+   double calcSquarkMassSeparation() const;
+   /// returns the distance to the closest singularity of the slepton corrections
+   double calcSleptonMassSeparation() const;
+   /// evaluates an O(y^6) threshold correction, extrapolating to (nearly) equal masses
+   double evaluateSeparated(Correction correction, Separation separation, double minSeparation, int omitLogs) const;
+   /// evaluates an O(y^6) threshold correction which depends on the squark masses
+   double evaluateSquark(Correction correction, int omitLogs) const;
+   /// evaluates an O(y^6) threshold correction which depends on the slepton masses
+   double evaluateSlepton(Correction correction, int omitLogs) const;
    /**
     * Returns delta g3_as in the MSbar scheme for a given mass limit
     * @param omitLogs an integer key to omit all mu terms
@@ -306,12 +325,6 @@ private:
     * @return delta_lambda_yt6
     */
    double getDeltaLambdaYt6(int omitLogs) const;
-   /**
-    * Returns delta_lambda_yt6 from SUSYHD
-    * @param omitLogs an integer key to omit all mu terms
-    * @return delta_lambda_yt6
-    */
-   double getDeltaLambdaYt6_SUSYHD(int omitLogs) const;
    /**
     * Returns delta_lambda_ytau6
     * @param omitLogs an integer key to omit all mu terms
-- 
2.43.0


From 25ac5c2e628452de8754a3343de92df2ba94ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 22/44] fix: sign of mu in the mixed O(yt^2*yb^4) and
 O(yt^4*yb^2) threshold corrections

The terms linear in mu and mu^3 used |mu|, so that the corrections were
not invariant under the simultaneous flip of the signs of mu and of all
trilinear couplings and did not agree with the fixed-order result.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 103 +++++++++---------
 1 file changed, 50 insertions(+), 53 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 42a9a14..746a5c7 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2244,8 +2244,8 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
 
-   return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
-        mD32 - mQ32)*sbeta) + (48*Xt*std::abs(Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
+   return -6 + (48*Xb*(-Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
+        mD32 - mQ32)*sbeta) + (48*Xt*(-Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
         - Mu2/mQ32) + (mQ32 - Mu2)*(Mu2 + mU32)*dilog(1 - Mu2/mU32)))/(cbeta*(-
         mQ32 + Mu2)*(mQ32 - mU32)*(Mu2 - mU32)*sbeta) - (24*dilog(1 - Mu2/mD32)
         )/pow2(cbeta) + 8*pow2(Pi) + 12*dilog(1 - Mu2/mQ32)*(-2/pow2(cbeta) +
@@ -2254,15 +2254,15 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         - Mu2/mU32))/pow2(sbeta) + (3*pow2(cbeta))/pow2(sbeta) - (6*mA2*pow2(
         cbeta))/(mQ32*pow2(sbeta)) + (2*pow2(cbeta)*pow2(Pi))/pow2(sbeta) - (6*
         pow2(cbeta)*pow2(Yt))/(mQ32*pow2(sbeta)) + (24 + (6*pow2(cbeta))/pow2(
-        sbeta))*pow2(log(mA2/MR2)) + (48*((-mD32 - mQ32 + 2*Mu2)*sbeta*std::abs(Mu)*
-        dilog(1 - Mu2/mD32) + (mD32 + mQ32 - 2*Mu2)*sbeta*std::abs(Mu)*dilog(1 -
-        Mu2/mQ32) - 2*(mD32 - mQ32)*(2*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(
+        sbeta))*pow2(log(mA2/MR2)) + (48*((-mD32 - mQ32 + 2*Mu2)*sbeta*(-Mu)*
+        dilog(1 - Mu2/mD32) + (mD32 + mQ32 - 2*Mu2)*sbeta*(-Mu)*dilog(1 -
+        Mu2/mQ32) - 2*(mD32 - mQ32)*(2*sbeta*(-Mu) + cbeta*(Yb + Yt)*pow2(
         sbeta) + Yt*pow3(cbeta)))*pow3(Xb))/(cbeta*pow2(sbeta)*pow3(mD32 -
         mQ32)) - (24*dilog(1 - Mu2/mU32)*pow4(Mu))/(pow2(Mu2 - mU32)*pow2(
-        sbeta)) + pow2(log(mU32/mQ32))*((24*(Mu2 + mU32)*Xt*std::abs(Mu))/(cbeta*(
+        sbeta)) + pow2(log(mU32/mQ32))*((24*(Mu2 + mU32)*Xt*(-Mu))/(cbeta*(
         Mu2 - mU32)*(-mQ32 + mU32)*sbeta) - (6*Xt2*(2*mU32 + 3*(mQ32 - mU32 +
         Xb2)*pow2(cbeta)))/(pow2(cbeta)*pow2(mQ32 - mU32)) + (6 - (12*pow4(Mu))
-        /pow2(Mu2 - mU32))/pow2(sbeta)) + 6*pow2(lmQ3MR)*(3 + (8*pow(Mu2,1.5)
+        /pow2(Mu2 - mU32))/pow2(sbeta)) + 6*pow2(lmQ3MR)*(3 + (8*(-pow3(Mu))
         *Xt)/(cbeta*(-mQ32 + Mu2)*(Mu2 - mU32)*sbeta) + (2*(-1 + pow2(sbeta)))/
         pow2(cbeta) + pow2(cbeta)/pow2(sbeta) + (2 - (2*pow4(Mu))/pow2(Mu2 -
         mU32))/pow2(sbeta)) + (12*Xb2*(3*mD32*mQ32*pow2(cbeta) - 2*mD32*Mu2*
@@ -2282,10 +2282,10 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         (mD32 - Mu2)*pow2(cbeta)) + 1/(mQ32*pow2(sbeta))))/(mD32 - mQ32) - (2/
         mQ32 + (Mu2 + 2*mU32)/pow2(Mu2 - mU32))/pow2(sbeta) + (2*(mD32 + 2*
         mQ32)*pow4(Xb))/(mQ32*pow2(sbeta)*pow3(-mD32 + mQ32))) + 6*pow2(log(
-        mD32/mQ32))*((4*Xb*std::abs(Mu))/(cbeta*mD32*sbeta - cbeta*mQ32*sbeta) - 2/
+        mD32/mQ32))*((4*Xb*(-Mu))/(cbeta*mD32*sbeta - cbeta*mQ32*sbeta) - 2/
         pow2(cbeta) + (2*Xb2*((mD32 - Mu2)*pow2(cbeta) + mQ32*pow2(sbeta)))/(
         pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) - (4*(mD32 + mQ32 - 2*Mu2)*
-        std::abs(Mu)*pow3(Xb))/(cbeta*sbeta*pow3(mD32 - mQ32)) - ((mD32 + 2*mQ32 -
+        (-Mu)*pow3(Xb))/(cbeta*sbeta*pow3(mD32 - mQ32)) - ((mD32 + 2*mQ32 -
         3*Mu2)*(mD32 - Mu2)*pow4(Xb))/(pow2(sbeta)*pow4(mD32 - mQ32))) + (6*
         phixyz(mA2,mU32,mD32)*((2*Xb*Yt*(pow2(cbeta) + pow2(sbeta))*(-3*mD32*
         mU32 - mA2*(3*mD32 + 2*mU32) + pow4(mA) + 2*pow4(mD3) + pow4(mU3)))/((
@@ -2392,13 +2392,13 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         pow2(cbeta)*pow3(-mD32 + mQ32)))))/pow4(mQ3) + lmQ3MR*((-6*(mD32 - mQ32
         + Xb2)*(mQ32 - mU32 + Xt2)*pow2(mA2 + mD32 - mQ32)*pow2(sbeta)*pow2(Yb)
         )/(mD32*(mD32 - mQ32)*(mQ32 - mU32)*deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)
-        ) + (48*(2*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)
+        ) + (48*(2*sbeta*(-Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)
         )*pow3(Xb))/(cbeta*pow2(mD32 - mQ32)*pow2(sbeta)) + (6*Xb2*(4 + (-4 - (
         2*mU32)/mQ32)/pow2(sbeta) + (-(Mu2*pow2(sbeta)*pow2(Yb)) + mD32*(-2*
         Mu2*(1 + pow2(sbeta)) + pow2(sbeta)*pow2(Yb)) + 2*(-1 + pow2(sbeta))*
         pow4(mD3))/(mD32*(mD32 - Mu2)*pow2(cbeta)) + (pow2(cbeta)*((mA2 - mU32)
         *pow2(Yt) + 2*pow4(mQ3)))/(pow2(sbeta)*pow4(mQ3))))/(mD32 - mQ32) + (
-        12*lmUMR*((-4*pow(Mu2,1.5)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-mQ32 +
+        12*lmUMR*((-4*(-pow3(Mu))*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-mQ32 +
         Mu2)) + pow4(Mu)))/(pow2(Mu2 - mU32)*pow2(sbeta)) + 3*((8*Mu2*(1/(-mD32
         + Mu2) + 1/(-mQ32 + Mu2)) + 2*pow2(sbeta)*(-4 + pow2(Yb)/mD32))/pow2(
         cbeta) - (pow2(cbeta)*((mA2 - mU32)*pow2(Yt) + 4*pow4(mQ3)))/(pow2(
@@ -2422,12 +2422,12 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         sbeta))*pow6(mQ3))/(mQ32*(mQ32 - Mu2))))/(pow2(cbeta)*pow2(mQ32 - mU32)
         ))) + log(mU32/mQ32)*((6*Xb2*((-mA2 + mU32)*pow2(cbeta)*pow2(Yt) + 2*
         mQ32*(mU32 + pow2(cbeta)*pow2(Yt))))/((-mD32 + mQ32)*pow2(sbeta)*pow4(
-        mQ3)) + (12*lmUMR*((-4*pow(Mu2,1.5)*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-
+        mQ3)) + (12*lmUMR*((-4*(-pow3(Mu))*(Mu2 - mU32)*sbeta*Xt)/(cbeta*(-
         mQ32 + mU32)) + pow4(Mu)))/(pow2(Mu2 - mU32)*pow2(sbeta)) + (3*((2*(
         mU32 + pow2(cbeta)*pow2(Yt)))/mQ32 + ((-mA2 + mU32)*pow2(cbeta)*pow2(
         Yt))/pow4(mQ3) + (2*(2*Mu2*mU32 + pow4(mU3)))/pow2(Mu2 - mU32)))/pow2(
         sbeta) + 6*lmQ3MR*(2 + pow2(sbeta)/pow2(cbeta) + (2*Xt*(4*cbeta*(Mu2 +
-        mU32)*std::abs(Mu) + (Mu2 - mU32)*sbeta*(Xb + Yb + Yt)*pow2(cbeta) + (Mu2 -
+        mU32)*(-Mu) + (Mu2 - mU32)*sbeta*(Xb + Yb + Yt)*pow2(cbeta) + (Mu2 -
         mU32)*(Xb + Yb)*pow3(sbeta)))/((mQ32 - mU32)*(-Mu2 + mU32)*sbeta*pow2(
         cbeta)) + (2 + pow2(cbeta) - (4*pow4(Mu))/pow2(Mu2 - mU32))/pow2(sbeta)
         - (Xt2*(mQ32*(2*mU32*(1 + 5*pow2(cbeta)) + (mA2 - Yb*(2*Xb + Yb))*pow2(
@@ -2454,15 +2454,15 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         cbeta) - pow2(cbeta)/pow2(sbeta)) - (12*(mA2 + mD32 - mQ32)*(mD32 -
         mQ32 + Xb2)*(mQ32 - mU32 + Xt2)*pow2(sbeta)*pow2(Yb))/((mD32 - mQ32)*(
         mQ32 - mU32)*deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)) - (24*Xb*(2*sbeta*
-        std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)))/(cbeta*(mD32 -
-        mQ32)*pow2(sbeta)) + (24*(3*mD32 + mQ32)*(2*sbeta*std::abs(Mu) + cbeta*(Yb +
+        (-Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)))/(cbeta*(mD32 -
+        mQ32)*pow2(sbeta)) + (24*(3*mD32 + mQ32)*(2*sbeta*(-Mu) + cbeta*(Yb +
         Yt)*pow2(sbeta) + Yt*pow3(cbeta))*pow3(Xb))/(cbeta*pow2(sbeta)*pow3(
         mD32 - mQ32)) - (12*Xb2*(-((mD32 - Mu2)*pow2(cbeta)*(2*Mu2 - mU32 + 3*
         mD32*(-1 + pow2(sbeta)) + mQ32*pow2(sbeta))) + (mD32 - Mu2)*(mA2 - mD32
         - mQ32 + pow2(Yt))*pow4(cbeta) + pow2(sbeta)*(mQ32*Mu2*(-2 + pow2(
         sbeta)) + mD32*(-mQ32 + Mu2)*pow2(sbeta) - (-2 + pow2(sbeta))*pow4(mD3)
         )))/((mD32 - Mu2)*pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) + (12*
-        lmUMR*pow3(Xb)*(-8*mD32*pow(Mu2,1.5)*sbeta + 8*mQ32*pow(Mu2,1.5)*
+        lmUMR*pow3(Xb)*(-8*mD32*(-pow3(Mu))*sbeta + 8*mQ32*(-pow3(Mu))*
         sbeta + 3*cbeta*Xb*pow4(Mu)))/(cbeta*pow2(sbeta)*pow4(mD32 - mQ32)) + (
         12*(mQ32*(-2*Mu2 + mU32 + mQ32*pow2(sbeta)) + mD32*(-7*Mu2 + 2*mU32 +
         mQ32*(3 + 6*pow2(sbeta))) + pow2(cbeta)*(mA2*(2*mD32 + mQ32) + (5*mD32
@@ -2483,13 +2483,13 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
         sbeta)*pow4(mD32 - mQ32)) + (6*lmQ3MR*(2*(mD32 - mQ32)*Xb*Xt*pow2(
         sbeta)*(-2*Xb2*Yb*Yt*pow2(cbeta) + pow2(mD32 - mQ32)*(pow2(cbeta) +
         pow2(sbeta)) - (mD32 - mQ32)*Xb*((Yb - Yt)*pow2(cbeta) + Yb*pow2(sbeta)
-        )) + 2*cbeta*(mD32 - mQ32)*(8*pow(Mu2,1.5)*sbeta + 2*cbeta*(-(mU32*
+        )) + 2*cbeta*(mD32 - mQ32)*(8*(-pow3(Mu))*sbeta + 2*cbeta*(-(mU32*
         Yt) + mA2*(Yb + Yt))*pow2(sbeta) + 2*(mA2 - mU32)*Yt*pow3(cbeta) -
-        mD32*(4*sbeta*std::abs(Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)) -
-        mQ32*(4*sbeta*std::abs(Mu) + cbeta*(3*Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))
+        mD32*(4*sbeta*(-Mu) + cbeta*(Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta)) -
+        mQ32*(4*sbeta*(-Mu) + cbeta*(3*Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))
         )*pow3(Xb) + pow4(mD32 - mQ32)*(-2*pow2(sbeta) + 2*pow2(cbeta)*pow2(
         sbeta) + pow4(cbeta) + pow4(sbeta)) + 2*Xb*pow3(mD32 - mQ32)*(4*cbeta*
-        sbeta*std::abs(Mu) + (Yb + Yt)*pow2(cbeta)*pow2(sbeta) + Yt*pow4(cbeta) +
+        sbeta*(-Mu) + (Yb + Yt)*pow2(cbeta)*pow2(sbeta) + Yt*pow4(cbeta) +
         Yb*pow4(sbeta)) - Xb2*pow2(mD32 - mQ32)*(mQ32*(-2 + pow2(sbeta))*pow2(
         sbeta) + 2*pow2(cbeta)*(2*Mu2 - mU32 - 2*mQ32*pow2(sbeta) + mU32*pow2(
         sbeta) + mD32*(-2 + 3*pow2(sbeta))) + (-mA2 + mQ32 + mU32 - pow2(Yt))*
@@ -2615,9 +2615,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR  = omitLogs*std::log(Mu2 / MR2);
 
-   return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
+   return -4 + (48*Xb*(-Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
-        mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*std::abs(Mu)*(dilog(1 - Mu2/mQ32) -
+        mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*(-Mu)*(dilog(1 - Mu2/mQ32) -
         dilog(1 - Mu2/mU32)))/(cbeta*(mQ32 - mU32)*sbeta) - 9/pow2(cbeta) - (6*
         mD32)/(mQ32*pow2(cbeta)) + (6*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (12*
         Mu2)/(mQ32*pow2(cbeta)) + 8*pow2(Pi) + 12*dilog(1 - Mu2/mQ32)*(1/pow2(
@@ -2626,9 +2626,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(Pi)*pow2(sbeta))/pow2(cbeta) + 6*pow2(lmQ3MR)*(3 + (2*(-1 + pow2(
         cbeta)))/pow2(sbeta) + pow2(sbeta)/pow2(cbeta)) - (6*pow2(sbeta)*pow2(
         Yb))/(mQ32*pow2(cbeta)) + (24 + (6*pow2(sbeta))/pow2(cbeta))*pow2(log(
-        mA2/MR2)) + (48*(cbeta*(-mQ32 + 2*Mu2 - mU32)*std::abs(Mu)*dilog(1 - Mu2/
-        mQ32) + cbeta*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu)*dilog(1 - Mu2/mU32) - 2*(
-        mQ32 - mU32)*(2*cbeta*std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(
+        mA2/MR2)) + (48*(cbeta*(-mQ32 + 2*Mu2 - mU32)*(-Mu)*dilog(1 - Mu2/
+        mQ32) + cbeta*(mQ32 - 2*Mu2 + mU32)*(-Mu)*dilog(1 - Mu2/mU32) - 2*(
+        mQ32 - mU32)*(2*cbeta*(-Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(
         sbeta)))*pow3(Xt))/(sbeta*pow2(cbeta)*pow3(mQ32 - mU32)) - (6*Xb2*(4*
         mD32*mQ32 + 4*mD32*mQ32*dilog(1 - Mu2/mD32) - 4*mD32*mQ32*dilog(1 -
         Mu2/mQ32) - 4*mD32*mQ32*pow2(cbeta) - 6*mD32*mQ32*pow2(sbeta) + 6*(mD32
@@ -2654,7 +2654,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Xb2*pow2(cbeta)*pow2(Yt) - (mD32 - mQ32)*(-(mA2*pow2(cbeta)*pow2(Yt)) +
         mQ32*(-2*mU32*pow2(sbeta) + 5*pow2(cbeta)*pow2(Yt)) + 2*pow2(sbeta)*
         pow4(mQ3))))/((mD32 - mQ32)*pow2(mQ32 - mU32)*pow2(sbeta)*pow4(mQ3))) +
-        6*pow2(log(mD32/mQ32))*((-4*(mD32 + Mu2)*Xb*std::abs(Mu))/(cbeta*(mD32 -
+        6*pow2(log(mD32/mQ32))*((-4*(mD32 + Mu2)*Xb*(-Mu))/(cbeta*(mD32 -
         mQ32)*(mD32 - Mu2)*sbeta) - (2*mD32*Xb2)/(pow2(mD32 - mQ32)*pow2(sbeta)
         ) + (-2*mD32*Mu2 + pow4(mD3) - pow4(Mu))/(pow2(cbeta)*pow2(mD32 - Mu2))
         ) + (12*dilog(1 - Mu2/mD32)*(-2*mD32*Mu2 + pow4(mD3) - pow4(Mu)))/(
@@ -2662,15 +2662,14 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Mu2)/pow2(mD32 - Mu2))/pow2(cbeta)) + (4*(1/(mQ32 - Mu2) + 1/(-Mu2 +
         mU32)))/pow2(sbeta)) + (4*Mu2*Xb2)/((mD32 - mQ32)*(-mQ32 + Mu2)*pow2(
         sbeta)) + 4*Mu2*Xt2*(1/((mQ32 - mU32)*(Mu2 - mU32)*pow2(sbeta)) - 1/(
-        pow2(cbeta)*(-(mQ32*mU32) + pow4(mQ3)))) + (2*Xt4*((4*cbeta*pow(Mu2,
-        1.5)*(-mD32 + Mu2)*(mQ32 - mU32)*Xb)/((-mQ32 + Mu2)*sbeta) + (Mu2*(2*
+        pow2(cbeta)*(-(mQ32*mU32) + pow4(mQ3)))) + (2*Xt4*((4*cbeta*(-pow3(Mu))*(-mD32 + Mu2)*(mQ32 - mU32)*Xb)/((-mQ32 + Mu2)*sbeta) + (Mu2*(2*
         mQ32 + mU32)*pow4(mD3) - 2*mD32*(2*mQ32 + mU32)*pow4(Mu) + (Mu2*mU32 +
         mQ32*(2*Mu2 + mU32) - pow4(mQ3))*pow4(Mu))/mQ32))/(pow2(cbeta)*pow2(
-        mD32 - Mu2)*pow3(mQ32 - mU32))) + 6*pow2(log(mU32/mQ32))*((-4*Xt*std::abs(
+        mD32 - Mu2)*pow3(mQ32 - mU32))) + 6*pow2(log(mU32/mQ32))*((-4*Xt*(-
         Mu))/(cbeta*mQ32*sbeta - cbeta*mU32*sbeta) - 2/pow2(sbeta) + (Xt2*(2*(-
         Mu2 + mU32)*pow2(sbeta) + pow2(cbeta)*(3*(-2*mU32 + Xb2)*pow2(sbeta) +
         mQ32*(2 + 6*pow2(sbeta)))))/(pow2(cbeta)*pow2(mQ32 - mU32)*pow2(sbeta))
-        + (4*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu)*pow3(Xt))/(cbeta*sbeta*pow3(mQ32 -
+        + (4*(mQ32 - 2*Mu2 + mU32)*(-Mu)*pow3(Xt))/(cbeta*sbeta*pow3(mQ32 -
         mU32)) + (Xt4*((Mu2 - mU32)*(2*mQ32 - 3*Mu2 + mU32) + 3*pow2(cbeta)*(
         mD32*Xb2 - 2*mU32*Xb2 + mQ32*(-2*mU32 + Xb2) + pow4(mQ3) + pow4(mU3))))
         /(pow2(cbeta)*pow4(mQ32 - mU32))) + 3*phixyz(mA2,mQ32,mD32)*((2*Xt2*Yb*
@@ -2773,7 +2772,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         /pow2(sbeta) - (2*(-mD32 + mQ32 + Xb2)*(mQ32 - mU32 - Xt2)*pow2(cbeta)*
         pow2(mA2 + mQ32 - mU32)*pow2(Yt))/(mQ32*(-mD32 + mQ32)*(mQ32 - mU32)*
         deltaxyz(mA2,mU32,mQ32)*pow2(sbeta)) + (2*pow2(cbeta)*(-4 + pow2(Yt)/
-        mQ32))/pow2(sbeta) + (16*(2*cbeta*std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta)
+        mQ32))/pow2(sbeta) + (16*(2*cbeta*(-Mu) + sbeta*(Yb + Yt)*pow2(cbeta)
         + Yb*pow3(sbeta))*pow3(Xt))/(sbeta*pow2(cbeta)*pow2(mQ32 - mU32)) + (2*
         Xt2*((Xb2*(2*mD32*pow2(sbeta) - 2*mQ32*pow2(sbeta) + pow2(cbeta)*pow2(
         Yt)))/(mD32 - mQ32) + (2*mQ32*pow2(cbeta)*(mU32*(1 - 2*pow2(sbeta)) +
@@ -2787,8 +2786,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         cbeta) + (2*Xb2*(Mu2*(mD32*pow2(sbeta) - pow2(cbeta)*pow2(Yt)) - mQ32*(
         mD32*pow2(sbeta) + Mu2*(2 + 2*pow2(cbeta) + 3*pow2(sbeta)) - pow2(
         cbeta)*pow2(Yt)) + (-2 + 2*pow2(cbeta) + 3*pow2(sbeta))*pow4(mQ3)))/(
-        mQ32*(-mD32 + mQ32)*(mQ32 - Mu2)*pow2(sbeta)) + (Xt4*((-16*pow(Mu2,
-        1.5)*(mQ32 - mU32)*Xb)/(cbeta*(-mD32 + Mu2)*(-mQ32 + Mu2)*sbeta) - (2*(
+        mQ32*(-mD32 + mQ32)*(mQ32 - Mu2)*pow2(sbeta)) + (Xt4*((-16*(-pow3(Mu))*(mQ32 - mU32)*Xb)/(cbeta*(-mD32 + Mu2)*(-mQ32 + Mu2)*sbeta) - (2*(
         5*mQ32 + mU32)*Xb2)/mQ32 - (pow4(mD3)*(mU32*(-4*Mu2 + pow2(sbeta)*pow2(
         Yb)) + mQ32*(-32*Mu2 + mU32*(6 - 16*pow2(cbeta)) + 11*pow2(sbeta)*pow2(
         Yb)) + 2*(3 + 8*pow2(cbeta))*pow4(mQ3)) - 2*mD32*Mu2*(mU32*(-Mu2 +
@@ -2801,8 +2799,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         sbeta))/pow2(cbeta) + (24*Mu2)/((Mu2 - mU32)*pow2(sbeta)) - (6*pow2(
         cbeta)*(2*mQ32 - pow2(Yt)))/(mQ32*pow2(sbeta)) + (6*Xb2*(2*mQ32 + pow2(
         cbeta)*pow2(Yt)))/(mQ32*(-mD32 + mQ32)*pow2(sbeta)) + (24*Xt*(2*cbeta*
-        std::abs(Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(sbeta)))/((mQ32 - mU32)
-        *sbeta*pow2(cbeta)) - (24*(mQ32 + 3*mU32)*(2*cbeta*std::abs(Mu) + sbeta*(Yb
+        (-Mu) + sbeta*(Yb + Yt)*pow2(cbeta) + Yb*pow3(sbeta)))/((mQ32 - mU32)
+        *sbeta*pow2(cbeta)) - (24*(mQ32 + 3*mU32)*(2*cbeta*(-Mu) + sbeta*(Yb
         + Yt)*pow2(cbeta) + Yb*pow3(sbeta))*pow3(Xt))/(sbeta*pow2(cbeta)*pow3(
         mQ32 - mU32)) - (6*(-mD32 + mQ32 + Xb2)*(mQ32 - mU32 - Xt2)*pow2(cbeta)
         *pow2(Yt)*(-2*mA2*mU32 + pow4(mA) - pow4(mQ3) + pow4(mU3)))/(mQ32*(-
@@ -2826,12 +2824,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         pow2(sbeta)*(2*mA2 + 5*pow2(Yb))) - (3 + 12*pow2(cbeta) + pow2(sbeta))*
         pow4(mQ3)))/((mD32 - Mu2)*pow2(cbeta)) + (4*Xb2*(-7*mQ32*mU32 + mD32*(
         mQ32 + 5*mU32) + pow4(mU3)))/(mD32 - mQ32)))/pow4(mQ32 - mU32) + (6*
-        lmUMR*(16*cbeta*(mQ32 - Mu2)*pow(Mu2,1.5)*(mQ32 - mU32)*pow2(mD32 -
-        Mu2)*pow3(Xt) + 2*Xt2*pow3(mQ32 - mU32)*(4*cbeta*pow(Mu2,1.5)*(-mD32
+        lmUMR*(16*cbeta*(mQ32 - Mu2)*(-pow3(Mu))*(mQ32 - mU32)*pow2(mD32 -
+        Mu2)*pow3(Xt) + 2*Xt2*pow3(mQ32 - mU32)*(4*cbeta*(-pow3(Mu))*(-mD32
         + Mu2)*Xb + (mQ32 - Mu2)*sbeta*pow4(Mu)) + Xt4*(4*cbeta*(mD32 - Mu2)*
-        pow(Mu2,1.5)*(mQ32 - mU32)*(mQ32 + mU32)*Xb + (mQ32 - Mu2)*sbeta*
+        (-pow3(Mu))*(mQ32 - mU32)*(mQ32 + mU32)*Xb + (mQ32 - Mu2)*sbeta*
         pow4(Mu)*(-12*mD32*Mu2 + 6*pow4(mD3) - pow4(mQ3) + 6*pow4(Mu) + pow4(
-        mU3))) + 4*cbeta*(mD32 - Mu2)*pow(Mu2,1.5)*Xb*pow4(mQ32 - mU32) + (-
+        mU3))) + 4*cbeta*(mD32 - Mu2)*(-pow3(Mu))*Xb*pow4(mQ32 - mU32) + (-
         mQ32 + Mu2)*sbeta*pow4(Mu)*pow4(mQ32 - mU32)))/((mQ32 - Mu2)*sbeta*
         pow2(cbeta)*pow2(mD32 - Mu2)*pow4(mQ32 - mU32)) + 6*log(mA2/MR2)*(-2 +
         pow2(cbeta)/pow2(sbeta) + (2*((-2*mD32*Yb + mQ32*Yb + mU32*Yb - mQ32*Yt
@@ -2845,19 +2843,18 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mD32 + 2*mQ32 - 3*mU32 - Xb*Yb + Xb*Yt)*pow2(cbeta)*pow2(sbeta) + (mA2
         - mD32 + mQ32 - 2*Xb*Yt - pow2(Yt))*pow4(cbeta) - (mA2 + mD32 + mQ32 -
         2*mU32 + pow2(Yb))*pow4(sbeta)))/(pow2(cbeta)*pow2(mQ32 - mU32)*pow2(
-        sbeta))) + 6*lmQ3MR*(2 - (4*pow(Mu2,1.5)*Xb)/(cbeta*(-mD32 + Mu2)*(-
+        sbeta))) + 6*lmQ3MR*(2 - (4*(-pow3(Mu))*Xb)/(cbeta*(-mD32 + Mu2)*(-
         mQ32 + Mu2)*sbeta) - 2/pow2(sbeta) + pow2(cbeta)/pow2(sbeta) + (2*(4*
-        cbeta*(mQ32 - 2*Mu2 + mU32)*std::abs(Mu) + sbeta*(2*mD32*Yb + mQ32*Yb +
+        cbeta*(mQ32 - 2*Mu2 + mU32)*(-Mu) + sbeta*(2*mD32*Yb + mQ32*Yb +
         mU32*Yb + 3*mQ32*Yt + mU32*Yt + 2*Xb*Yb*Yt - 2*mA2*(Yb + Yt))*pow2(
         cbeta) + (-2*mA2 + 2*mD32 + mQ32 + mU32)*Yb*pow3(sbeta))*pow3(Xt))/(
         sbeta*pow2(cbeta)*pow3(mQ32 - mU32)) + ((2*mD32*Mu2)/pow2(mD32 - Mu2) +
         pow2(sbeta) - pow4(mD3)/pow2(mD32 - Mu2))/pow2(cbeta) - (2*Xt*(4*cbeta*
-        sbeta*std::abs(Mu) + (Xb + Yb + Yt)*pow2(cbeta)*pow2(sbeta) + (Xb + Yt)*
+        sbeta*(-Mu) + (Xb + Yb + Yt)*pow2(cbeta)*pow2(sbeta) + (Xb + Yt)*
         pow4(cbeta) + Yb*pow4(sbeta)))/((mQ32 - mU32)*pow2(cbeta)*pow2(sbeta))
         + (Xt2*(-2*mD32 - 6*mU32 + 2*Xb2 + mQ32*(4 + 2/pow2(sbeta)) - (pow2(
-        cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt)))/pow2(sbeta) + (2*Xb*(4*pow(
-        Mu2,1.5)*mU32*sbeta + cbeta*Mu2*(-mD32 + Mu2)*(Yt*pow2(cbeta) + (-Yb +
-        Yt)*pow2(sbeta)) - mQ32*(4*pow(Mu2,1.5)*sbeta + cbeta*(mD32 - Mu2)*(
+        cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt)))/pow2(sbeta) + (2*Xb*(4*(-pow3(Mu))*mU32*sbeta + cbeta*Mu2*(-mD32 + Mu2)*(Yt*pow2(cbeta) + (-Yb +
+        Yt)*pow2(sbeta)) - mQ32*(4*(-pow3(Mu))*sbeta + cbeta*(mD32 - Mu2)*(
         Yb - Yt)*pow2(sbeta) + (-mD32 + Mu2)*Yt*pow3(cbeta))))/(cbeta*(mD32 -
         Mu2)*(-mQ32 + Mu2)*pow2(sbeta)) + (-(mD32*Mu2*(4*mU32 + Mu2*(-10 +
         pow2(sbeta)) - 2*mQ32*(-2 + pow2(sbeta)) + 2*pow2(sbeta)*(mA2 + pow2(
@@ -2865,7 +2862,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mA2*pow2(sbeta) + pow2(sbeta)*pow2(Yb))*pow4(mD3) + (-4*Mu2 + 4*mU32 +
         pow2(sbeta)*(mA2 - mQ32 + pow2(Yb)))*pow4(Mu) - (-2 + pow2(sbeta))*
         pow6(mD3))/(pow2(cbeta)*pow2(mD32 - Mu2))))/pow2(mQ32 - mU32) + (Xt4*((
-        -4*pow(Mu2,1.5)*(mQ32 - mU32)*(mQ32 + mU32)*Xb)/(cbeta*(-mD32 + Mu2)*
+        -4*(-pow3(Mu))*(mQ32 - mU32)*(mQ32 + mU32)*Xb)/(cbeta*(-mD32 + Mu2)*
         (-mQ32 + Mu2)*sbeta) - 2*(mQ32 + 2*mU32)*Xb2 - (pow4(Mu)*(-8*Mu2*mU32 -
         3*mA2*pow2(sbeta)*pow2(Yb) + 2*mU32*pow2(sbeta)*pow2(Yb) + mQ32*(-4*Mu2
         + 4*mU32 + pow2(sbeta)*pow2(Yb)) + 6*pow4(Mu) + 4*pow2(cbeta)*(pow4(
@@ -2887,12 +2884,12 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         mD32 - mQ32)*pow2(sbeta)) - (3*pow2(sbeta)*pow2(mQ32 - mU32 + Xt2)*
         pow2(Yb)*(-2*mA2*mQ32 + pow4(mA) - pow4(mD3) + pow4(mQ3)))/(mQ32*
         deltaxyz(mA2,mQ32,mD32)*pow2(cbeta)*pow2(mQ32 - mU32)) + (12*lmUMR*((4*
-        cbeta*(mD32 - Mu2)*pow(Mu2,1.5)*Xb)/((mD32 - mQ32)*sbeta) + pow4(Mu))
+        cbeta*(mD32 - Mu2)*(-pow3(Mu))*Xb)/((mD32 - mQ32)*sbeta) + pow4(Mu))
         )/(pow2(cbeta)*pow2(mD32 - Mu2)) + 6*lmQ3MR*(2 + pow2(cbeta)/pow2(
         sbeta) + (2*Xb*Xt*((mD32 - mQ32 + Xb*Yt)*pow2(cbeta) + (mD32 - mQ32)*
         pow2(sbeta)))/(pow2(mD32 - mQ32)*pow2(sbeta)) + (Xb2*(2*mD32*(-1 +
         pow2(sbeta)) + pow2(cbeta)*(-mA2 + mD32 + mQ32 + pow2(Yt))))/(pow2(mD32
-        - mQ32)*pow2(sbeta)) + (2*Xb*(-4*pow(Mu2,1.5)*sbeta + cbeta*(mD32 -
+        - mQ32)*pow2(sbeta)) + (2*Xb*(-4*(-pow3(Mu))*sbeta + cbeta*(mD32 -
         Mu2)*(Yb + Yt)*pow2(sbeta) + (mD32 - Mu2)*Yt*pow3(cbeta)))/(cbeta*(mD32
         - mQ32)*(mD32 - Mu2)*pow2(sbeta)) + (pow2(sbeta) - (2*pow4(Mu))/pow2(
         mD32 - Mu2))/pow2(cbeta)) - (6*log(mA2/MR2)*(2*(mD32 - mQ32)*(mD32 -
@@ -2900,7 +2897,7 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Xb*(Xb - 2*(Xt + Yt)) + Xb2*(-mA2 + Yt*(2*Xt + Yt)) - mD32*(2*mQ32 +
         Xb*(Xb - 2*(Xt + Yt))) + pow4(mD3) + pow4(mQ3)) + pow2(mD32 - mQ32)*
         pow4(sbeta)))/(pow2(cbeta)*pow2(mD32 - mQ32)*pow2(sbeta)) + Xt4*((48*
-        mD32*Xb*std::abs(Mu))/(cbeta*(mD32 - mQ32)*(mD32 - Mu2)*sbeta*pow2(mQ32 -
+        mD32*Xb*(-Mu))/(cbeta*(mD32 - mQ32)*(mD32 - Mu2)*sbeta*pow2(mQ32 -
         mU32)) + (6*mD32*Xb2)/((mD32 - mQ32)*pow2(-(mQ3*mU32) + pow3(mQ3))) - (
         3*(2*mD32*Mu2*(mU32*(Mu2 - pow2(sbeta)*pow2(Yb)) + mQ32*(5*Mu2 + 4*mU32
         + pow2(sbeta)*pow2(Yb)) - 4*pow4(mQ3)) + pow4(mD3)*(mU32*(-4*Mu2 +
@@ -2914,13 +2911,13 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         Mu2)*pow2(sbeta)*(Xb*Yt*pow2(cbeta) + (mD32 - mQ32)*(pow2(cbeta) +
         pow2(sbeta)))*pow3(Xt) + Xb2*pow2(cbeta)*pow2(mD32 - Mu2)*(2*mD32 +
         pow2(cbeta)*pow2(Yt))*pow4(mQ32 - mU32) - 2*cbeta*(mD32 - mQ32)*(mD32 -
-        Mu2)*Xb*(cbeta*Mu2*Yt*(pow2(cbeta) + pow2(sbeta)) - mD32*(2*sbeta*std::abs(
+        Mu2)*Xb*(cbeta*Mu2*Yt*(pow2(cbeta) + pow2(sbeta)) - mD32*(2*sbeta*(-
         Mu) + cbeta*Yt*pow2(sbeta) + Yt*pow3(cbeta)))*pow4(mQ32 - mU32) + pow2(
         mD32 - mQ32)*(2*pow2(cbeta)*pow2(mD32 - Mu2)*pow2(sbeta) + pow2(mD32 -
         Mu2)*pow4(cbeta) + pow2(sbeta)*(-2*mD32*Mu2*(-1 + pow2(sbeta)) + (-1 +
         pow2(sbeta))*pow4(mD3) + pow2(sbeta)*pow4(Mu)))*pow4(mQ32 - mU32) +
         sbeta*Xt4*(4*cbeta*mD32*(mD32 - mQ32)*(mD32 - Mu2)*(mQ32 - mU32)*(mQ32
-        + mU32)*Xb*std::abs(Mu) - 2*mD32*(mD32 - mU32)*(3*mD32 - 2*mQ32 - mU32)*
+        + mU32)*Xb*(-Mu) - 2*mD32*(mD32 - mU32)*(3*mD32 - 2*mQ32 - mU32)*
         sbeta*Xb2*pow2(cbeta)*pow2(mD32 - Mu2) - sbeta*pow2(mD32 - mQ32)*((-3*
         mA2 + mQ32 + 2*mU32)*pow2(sbeta)*pow2(Yb)*pow4(Mu) + pow4(mD3)*(-3*mA2*
         pow2(sbeta)*pow2(Yb) + 2*mU32*pow2(sbeta)*pow2(Yb) + mQ32*(-4*Mu2 +
@@ -2934,8 +2931,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
         sbeta)*pow4(mD3))) - 2*cbeta*(mD32 - mQ32)*(mD32 - Mu2)*Xb*(-(cbeta*
         Mu2*(-(mU32*Yb*pow2(sbeta)) + mQ32*Yt*(pow2(cbeta) + pow2(sbeta)) +
         mA2*(-(Yt*pow2(cbeta)) + (Yb - Yt)*pow2(sbeta)))) - mD32*(mU32*sbeta*(
-        cbeta*sbeta*Yb + 4*std::abs(Mu)) + cbeta*(mA2 + Mu2)*(Yt*pow2(cbeta) + (-Yb
-        + Yt)*pow2(sbeta)) - mQ32*(4*sbeta*std::abs(Mu) + cbeta*Yt*pow2(sbeta) + Yt*
+        cbeta*sbeta*Yb + 4*(-Mu)) + cbeta*(mA2 + Mu2)*(Yt*pow2(cbeta) + (-Yb
+        + Yt)*pow2(sbeta)) - mQ32*(4*sbeta*(-Mu) + cbeta*Yt*pow2(sbeta) + Yt*
         pow3(cbeta))) + (cbeta*(-Yb + Yt)*pow2(sbeta) + Yt*pow3(cbeta))*pow4(
         mD3)) + pow2(mD32 - mQ32)*(2*(mA2 - mD32 - mQ32)*pow2(cbeta)*pow2(mD32
         - Mu2)*pow2(sbeta) + (mA2 - mD32 - mQ32)*pow2(mD32 - Mu2)*pow4(cbeta) -
-- 
2.43.0


From 29c35c7689ad5750bdd5e2e8d93dabd3ce746cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 23/44] fix: squark mixing contribution to mixed Yukawa
 coupling thresholds

The only O(Xq^2) contribution to the O(yq^2) correction to a fermion
Yukawa coupling of another or the same generation stems from the wave
function renormalisation of the Higgs, i.e. is proportional to
cos(beta)^2*Xb^2 (sin(beta)^2*Xt^2) for the bottom (top) Yukawa
coupling, as in the O(yt^2) and O(ytau^2) corrections.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 746a5c7..396460c 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -867,7 +867,7 @@ double ThresholdCalculator::getDeltaYbYb(int omitLogs) const
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
    return (6*lmUMR + 4*F6(mD3/p.mu) + 8*F6(mQ3/p.mu) - (2*Xb2*F5(mQ3/mD3)*pow2(cbeta))/
-        (mD3*mQ3*pow2(sbeta)) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
+        (mD3*mQ3) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
 }
 
 double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
@@ -879,8 +879,6 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    const double MR2 = pow2(p.scale);
    const double mU3 = std::sqrt(p.mu2(2,2));
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mD3 = std::sqrt(p.md2(2,2));
-   const double Xb2 = pow2(calcXb());
    const double Xt = calcXt();
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
    const double lmAMR = omitLogs*std::log(mA2/MR2);
@@ -888,8 +886,7 @@ double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
    return (2 * lmUMR + 4 * F6(mU3 / p.mu) +
            (4 * tbe * Xt * F9(mQ3 / p.mu, mU3 / p.mu)) / p.mu +
            (-1 + 2 * lmAMR) * pow2(cbeta) -
-           (2 * Xb2 * F5(mQ3 / mD3) * pow2(cbeta)) / (mD3 * mQ3 * pow2(sbeta)) -
-           (4 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
+           (2 * pow2(Xt) * F5(mQ3 / mU3) * pow2(sbeta)) / (mQ3 * mU3) +
            8 * (-1 + lmAMR) * pow2(sbeta)) /
           8.;
 }
@@ -913,17 +910,14 @@ double ThresholdCalculator::getDeltaYtYb(int omitLogs) const
    const double sbeta = calcSinBeta();
    const double mD3 = std::sqrt(p.md2(2,2));
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
    const double Xb = calcXb();
-   const double Xt = calcXt();
    const double lmAMR = omitLogs*std::log(pow2(p.MA) / MR2);
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
-   return (-2*p.mu*mU3*pow2(Xb)*F5(mQ3/mD3)*pow2(cbeta)*(1 + pow2(sbeta)) + mD3*pow2(
-        sbeta)*(-2*p.mu*pow2(Xt)*F5(mQ3/mU3)*pow2(sbeta) + mQ3*mU3*(4*p.mu*F6(mD3/p.mu) +
-        4*p.vd/p.vu*Xb*F9(mQ3/p.mu,mD3/p.mu) + p.mu*(2*lmUMR - 8*pow2(cbeta) - pow2(
-        sbeta) + 2*lmAMR*(4*pow2(cbeta) + pow2(sbeta))))))/(8.*mD3*mQ3*
-        p.mu*mU3*pow2(sbeta));
+   return (-2*pow2(cbeta)*pow2(Xb)*F5(mQ3/mD3)/(mD3*mQ3) + 4*F6(mD3/p.mu) +
+           4*Xb*F9(mQ3/p.mu,mD3/p.mu)/(p.mu*calcTanBeta()) + 2*lmUMR -
+           8*pow2(cbeta) - pow2(sbeta) +
+           2*lmAMR*(4*pow2(cbeta) + pow2(sbeta)))/8.;
 }
 
 double ThresholdCalculator::getDeltaVevYt2(Limits limit) const
@@ -1010,12 +1004,12 @@ double ThresholdCalculator::getDeltaVevG22(int /* omitLogs */) const
 
 double ThresholdCalculator::getDeltaYtauYb() const
 {
-   const double Xt2 = pow2(calcXt());
+   const double Xb2 = pow2(calcXb());
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
-   const double sbeta = calcSinBeta();
+   const double mD3 = std::sqrt(p.md2(2,2));
+   const double cbeta = calcCosBeta();
 
-   return -(pow2(sbeta)*Xt2*F5(mQ3/mU3))/(4*mQ3*mU3);
+   return -(pow2(cbeta)*Xb2*F5(mQ3/mD3))/(4*mQ3*mD3);
 }
 
 double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
-- 
2.43.0


From 05203bd59572ae9d0a18a58181310bde06fb7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 24/44] fix: tan(beta) dependence and mass windows of the
 O(ytau^4*yb^2), O(ytau^2*yb^4) thresholds

The stau-sbottom quartic coupling is proportional to yb*ytau, hence the
correction contains 1/cos(beta)^2 after factoring out cos(beta)^6, and
not 1/(sin(beta)*cos(beta)).  Use threshold loop functions, which are
regular for equal masses, instead of a mass window given by the squark
mass for the sleptons.  Without logarithms all of them are treated alike.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 82 +++----------------
 1 file changed, 12 insertions(+), 70 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 396460c..48bccbc 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2969,92 +2969,34 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
 
 double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
 {
-   using std::log;
-
    const double Xb = calcXb();
    const double Xtau = calcXtau();
-   const double Xtau2 = pow2(Xtau);
-   const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
-   const double mD3 = std::sqrt(mD32);
-   const double mQ3 = std::sqrt(mQ32);
+   const double mD3 = std::sqrt(p.md2(2,2));
+   const double mQ3 = std::sqrt(p.mq2(2,2));
    const double mL3 = std::sqrt(p.ml2(2,2));
    const double mE3 = std::sqrt(p.me2(2,2));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
-   const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
-   const double eps = mQ3*0.01;
+   const double lmQ3MR = omitLogs*std::log(pow2(mQ3) / pow2(p.scale));
 
-   if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(cbeta*sbeta*pow4(mL3));
-   }
-
-   if (std::abs(mE3 - mL3) < eps) {
-      return (-4*Xb*Xtau*(-6*pow2(mL3) + Xtau2)*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(
-        mD32/mQ32)))/(cbeta*(mD32 - mQ32)*sbeta*pow4(mL3));
-   }
-
-   if (std::abs(mD3 - mQ3) < eps) {
-      const double mE32 = pow2(mE3);
-      const double mL32 = pow2(mL3);
-      return (-24*lmQ3MR*Xb*Xtau*(2*(-mE32 + mL32)*Xtau2 + log(mE32/mL32)*(mL32*Xtau2
-        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(cbeta*sbeta*pow3(
-        mE32 - mL32));
-   }
-
-   const double exact
-      = (-24*Xb*Xtau*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(mD32/mQ32))*(2*
-        Xtau2*(-pow2(mE3) + pow2(mL3)) + log(pow2(mE3)/pow2(mL3))*(Xtau2*pow2(
-        mL3) + pow2(mE3)*(Xtau2 + 2*pow2(mL3)) - pow4(mE3) - pow4(mL3))))/(
-        cbeta*(mD32 - mQ32)*sbeta*pow3(pow2(mE3) - pow2(mL3)));
-
-   return exact;
+   return 24*Xb*Xtau*(lmQ3MR - 1 + mD3/mQ3*F1(mD3/mQ3))*(
+        F1(mE3/mL3)/(mE3*mL3) - pow2(Xtau)*F2(mE3/mL3)/(6*pow2(mE3*mL3)))/
+        pow2(cbeta);
 }
 
 double ThresholdCalculator::getDeltaLambdaYtau2Yb4(int omitLogs) const
 {
    const double Xb = calcXb();
    const double Xtau = calcXtau();
-   const double Xb2 = pow2(Xb);
+   const double mD3 = std::sqrt(p.md2(2,2));
+   const double mQ3 = std::sqrt(p.mq2(2,2));
    const double mL3 = std::sqrt(p.ml2(2,2));
    const double mE3 = std::sqrt(p.me2(2,2));
-   const double mQ32 = p.mq2(2,2);
-   const double mD32 = p.md2(2,2);
-   const double mD3 = std::sqrt(mD32);
-   const double mQ3 = std::sqrt(mQ32);
-   const double lmE3MR = omitLogs*std::log(pow2(mE3)/pow2(p.scale));
-   const double lmL3MR = omitLogs*std::log(pow2(mL3)/pow2(p.scale));
-   const double lmD3MR = omitLogs*std::log(pow2(mD3)/pow2(p.scale));
-   const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
-   const double eps = mQ3*0.01;
+   const double lmL3MR = omitLogs*std::log(pow2(mL3) / pow2(p.scale));
 
-   if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(cbeta*sbeta*pow4(mQ3));
-   }
-
-   if (std::abs(mE3 - mL3) < eps) {
-      return (24*lmL3MR*Xb*Xtau*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*Xb2 + mD32*(2*mQ32
-        + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR*(-(mQ32*Xb2) - mD32*(2*mQ32 +
-        Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*sbeta*pow3(mD32 - mQ32));
-   }
-
-   if (std::abs(mD3 - mQ3) < eps) {
-      const double mE32 = pow2(mE3);
-      const double mL32 = pow2(mL3);
-      return (-4*(-mE32 + lmE3MR*mE32 + mL32 - lmL3MR*mL32)*Xb*(-6*mQ32 + Xb2)*Xtau)/(
-        cbeta*(mE32 - mL32)*sbeta*pow4(mQ3));
-   }
-
-   const double exact
-      = (24*Xb*Xtau*(-pow2(mE3) + lmE3MR*pow2(mE3) + pow2(mL3) -
-        lmL3MR*pow2(mL3))*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*
-        Xb2 + mD32*(2*mQ32 + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR
-        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*
-        sbeta*(pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
-
-   return exact;
+   return 24*Xb*Xtau*(lmL3MR - 1 + mE3/mL3*F1(mE3/mL3))*(
+        F1(mD3/mQ3)/(mD3*mQ3) - pow2(Xb)*F2(mD3/mQ3)/(6*pow2(mD3*mQ3)))/
+        pow2(cbeta);
 }
 
 //        at*as^n threshold corrections with limits and DR' -> MS shifts                //
-- 
2.43.0


From 889d66d3cf345f9d2eea02d2bee15743fd94eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 25/44] fix: missing correction to the bottom Yukawa coupling
 at O(yb^4*ytau^2)

The contribution of the stau mixing to the wave function renormalisation
of the Higgs enters yb, as the sbottom mixing enters ytau at
O(ytau^4*yb^2).  With it the EFT agrees with the fixed-order result.
---
 source/himalaya/mh2_eft/EFTFlags.hpp            |  1 +
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp    | 17 ++++++++++++-----
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 13 +++++++++++++
 source/himalaya/mh2_eft/ThresholdCalculator.hpp |  5 +++++
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/mh2_eft/EFTFlags.hpp b/source/himalaya/mh2_eft/EFTFlags.hpp
index 78deef8..aafb02b 100644
--- a/source/himalaya/mh2_eft/EFTFlags.hpp
+++ b/source/himalaya/mh2_eft/EFTFlags.hpp
@@ -77,6 +77,7 @@ enum class ThresholdCouplingOrders : int {
    YB_YT,
    YB_AS,
    YB_YB,
+   YB_YTAU,            ///< yb_ytau threshold correction
    NUMBER_OF_THRESHOLD_VARIALES
 };
 
diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index b966552..b10886c 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -565,6 +565,11 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
                                       ThresholdCouplingOrders::YTAU_YB,
                                       RenSchemes::DRBARPRIME, omitMSSMLogs));
 
+    const double dybytau = CALC_IF(orders.at(CouplingOrders::YTAU2YB4),
+                                   thresholdCalculator.getThresholdCorrection(
+                                      ThresholdCouplingOrders::YB_YTAU,
+                                      RenSchemes::DRBARPRIME, omitMSSMLogs));
+
     const double dlambdayb4ytau2 =
        CALC_IF(orders.at(CouplingOrders::YTAU2YB4),
                thresholdCalculator.getThresholdCorrection(
@@ -631,11 +636,13 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
        "dmh2yt6"));
 
     const double dmh2yb4ytau2 = CALC_IF(orders.at(CouplingOrders::YTAU2YB4), discardNaN(
-          (((dlambdayb4ytau2 - 96 * B00DR * lmMt -
-             dlambdayb4 * (-1 + B00DR + lmMt) +
-             2 * dvytau2 * (-12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
-             48 * pow2(lmMt)) *
-            v2 * pow6(cbeta)) /
+          (((4 * dybytau * (12 * B00DR + dlambdayb4 + 12 * lmMt) +
+             pow2(cbeta) *
+                (dlambdayb4ytau2 - 96 * B00DR * lmMt -
+                 dlambdayb4 * (-1 + B00DR + lmMt) +
+                 2 * dvytau2 * (-12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
+                 48 * pow2(lmMt))) *
+            v2 * pow4(cbeta)) /
            2.),
        "dmh2yb4ytau2"));
 
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 48bccbc..d991049 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -381,6 +381,9 @@ double ThresholdCalculator::getThresholdCorrection(
       case ThresholdCouplingOrders::YTAU_YB:{
          return getDeltaYtauYb();
       }
+      case ThresholdCouplingOrders::YB_YTAU:{
+         return getDeltaYbYtau();
+      }
       default:
          break;
    };
@@ -1012,6 +1015,16 @@ double ThresholdCalculator::getDeltaYtauYb() const
    return -(pow2(cbeta)*Xb2*F5(mQ3/mD3))/(4*mQ3*mD3);
 }
 
+double ThresholdCalculator::getDeltaYbYtau() const
+{
+   const double Xtau2 = pow2(calcXtau());
+   const double mL3 = std::sqrt(p.ml2(2,2));
+   const double mE3 = std::sqrt(p.me2(2,2));
+   const double cbeta = calcCosBeta();
+
+   return -(pow2(cbeta)*Xtau2*F5(mL3/mE3))/(12*mE3*mL3);
+}
+
 double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
 {
    using std::log;
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index bfdf561..5e0fc29 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -271,6 +271,11 @@ private:
     * @return delta_ytau_yb
     */
    double getDeltaYtauYb() const;
+   /**
+    * Returns delta_yb_ytau
+    * @return delta_yb_ytau
+    */
+   double getDeltaYbYtau() const;
    /**
     * Returns delta_yt_yt
     * @param omitLogs an integer key to omit all mu terms
-- 
2.43.0


From 5e3f116284e129d0aeaf62c3eb819e8e7b3b4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 26/44] fix: choice of the mass limit of the threshold
 corrections

The general mass case was sometimes chosen for (nearly) degenerate
masses, although it is dominated by rounding errors there.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 88 ++++++++++++-------
 .../himalaya/mh2_eft/ThresholdCalculator.hpp  |  2 +
 2 files changed, 57 insertions(+), 33 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index d991049..a5ae536 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -125,52 +125,74 @@ ThresholdCalculator::ThresholdCalculator(
       const double shifted_msq2 = pow2(mQ3 + std::abs(std::sqrt(msq2) - mQ3)/2);
       const double shifted_m3   = mQ3 + std::abs(m3 - mQ3)/2;
 
+      Limits limit = Limits::GENERAL;
+
       if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps &&
           std::abs(m3 - std::sqrt(msq2)) < eps) {
-         const double lim = pref * getDeltaYtAlphas2(Limits::DEGENERATE, 1);
-         const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
-         const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
-         const Temporarily_set<double> tmp_set_msq2(msq2, shifted_msq2);
-         const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
-            p.massLimit3LThreshold = static_cast<int>(Limits::DEGENERATE);
+         limit = Limits::DEGENERATE;
       } else if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps) {
-         const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3_EQ_M3, 1);
-         const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
-         const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
-         const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
-            p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_MU3_EQ_M3);
+         limit = Limits::MQ3_EQ_MU3_EQ_M3;
       } else if (std::abs(mQ3 - mU3) < eps) {
-         const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3, 1);
-         const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
-         const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
-         const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
-            p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_MU3);
+         limit = Limits::MQ3_EQ_MU3;
       } else if (std::abs(mQ3 - m3) < eps) {
-         const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_M3, 1);
-         const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
-         const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
-         const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
-            p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_M3);
+         limit = Limits::MQ3_EQ_M3;
       } else if (std::abs(mU3 - m3) < eps2) {
-         const double lim = pref*getDeltaYtAlphas2(Limits::MU3_EQ_M3, 1);
+         limit = Limits::MU3_EQ_M3;
+      }
+
+      // use the general mass case, if it is numerically stable
+      const auto useGeneral = [&] {
+         if (isGeneralNoisy(limit))
+            return false;
+         const double lim = pref*getDeltaYtAlphas2(limit, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
+         const Temporarily_set<double> tmp_set_msq2(
+            msq2, limit == Limits::DEGENERATE ? shifted_msq2 : msq2);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
-            p.massLimit3LThreshold = static_cast<int>(Limits::MU3_EQ_M3);
-      }
+         return isGeneralStable(exact, exactShifted, lim);
+      };
+
+      if (limit != Limits::GENERAL && !useGeneral())
+         p.massLimit3LThreshold = static_cast<int>(limit);
    }
 }
 
+/**
+ * Estimates the rounding errors of the general mass case by means of
+ * tiny variations of the masses.
+ *
+ * @param limit the limit that is close to the parameter point
+ *
+ * @return true if the rounding errors of the general mass case are
+ * not small compared to the difference between the general mass case
+ * and the limit
+ */
+bool ThresholdCalculator::isGeneralNoisy(Limits limit)
+{
+   constexpr double delta = 1e-7;
+
+   const double lim_yt = getDeltaYtAlphas2(limit, 1);
+   const double lim_la = getDeltaLambdaAlphatAlphas2(limit, 1);
+   const double gen_yt = getDeltaYtAlphas2(Limits::GENERAL, 1);
+   const double gen_la = getDeltaLambdaAlphatAlphas2(Limits::GENERAL, 1);
+
+   for (int i = 1; i <= 4; i++) {
+      const Temporarily_set<double> tmp_set_mQ32(p.mq2(2,2), p.mq2(2,2)*(1 + i*delta));
+      const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), p.mu2(2,2)*(1 - i*delta));
+      const Temporarily_set<double> tmp_set_m3(p.MG, p.MG*(1 + i*i*delta));
+      const double dyt = std::abs(getDeltaYtAlphas2(Limits::GENERAL, 1) - gen_yt);
+      const double dla = std::abs(getDeltaLambdaAlphatAlphas2(Limits::GENERAL, 1) - gen_la);
+
+      // note: false if any of the numbers is NaN
+      if (!(dyt < 0.25*std::abs(gen_yt - lim_yt) && dla < 0.25*std::abs(gen_la - lim_la)))
+         return true;
+   }
+
+   return false;
+}
+
 /**
  * Returns a specific threshold correction
  * @param couplingOrder coupling order of threshold correction
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index 5e0fc29..b66a4bd 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -73,6 +73,8 @@ private:
    using Correction = double (ThresholdCalculator::*)(int) const;
    /// function pointer to a separation of masses
    using Separation = double (ThresholdCalculator::*)() const;
+   /// checks if the general mass case is spoiled by rounding errors near a given mass limit
+   bool isGeneralNoisy(Limits limit);
    /// shifts the 3rd generation soft-breaking masses and mA by different relative amounts
    void shiftMasses(double eps);
    /// returns the relative distance of the masses to the closest singularity of the O(y^6) threshold corrections
-- 
2.43.0


From 13b96f0884e418f31bab074ae3a25f64eaca2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 27/44] fix: light squark mass of threshold corrections for
 incomplete parameters

The average squark mass was calculated before the missing parameters
were calculated by Parameters::validate().
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index a5ae536..bd6d512 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -107,9 +107,10 @@ using namespace threshold_loop_functions;
  */
 ThresholdCalculator::ThresholdCalculator(
    const Parameters& p_, bool verbose, bool check)
-   : p(p_), msq2(p.calculateMsq2())
+   : p(p_)
 {
    p.validate(verbose);
+   msq2 = p.calculateMsq2();
 
    if (!check) {
       // Set mass limit for threshold corrections
-- 
2.43.0


From e7c86aaf2b2c0b309ed1ee3d043b42e265be9226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 28/44] fix: two-loop corrections of the stau sector for
 vanishing mixing or equal masses

The O(ytau^2*yb^4), O(ytau^4*yb^2) and O(ytau^6) corrections were NaN for
s2tau = 0, s2b = 0 or equal masses of the sfermions.
---
 source/himalaya/mh2l/DSZHiggs.f | 177 ++++++++++++++++++++++++++------
 1 file changed, 145 insertions(+), 32 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index c47839b..9826464 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5352,12 +5352,18 @@ c
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
       double precision, parameter :: pi = 3.1415926535897932d0
+      double precision, parameter :: eps_s2 = 1d-30
       
       mt = dsqrt(t)
       mb = dsqrt(b)
       
       s2t = 2d0*ct*st
       s2b = 2d0*cb*sb
+
+c     the products with the functions below are finite for s2t,s2b -> 0
+      if(dabs(s2t).lt.eps_s2) s2t = sign(eps_s2,s2t)
+      if(dabs(s2b).lt.eps_s2) s2b = sign(eps_s2,s2b)
+
       c2t = ct**2 - st**2
       c2b = cb**2 - sb**2
       
@@ -5412,10 +5418,9 @@ c
       implicit none
       
       double precision t,b,T1,T2,B1,B2,st,ct,sb,cb,q,mu,tanb,vv,DMA
-      double precision c2t,s2t,c2b,s2b,At,Ab,Xt,Xb,mt,mb,cbe,sbe,ht,hb
+      double precision s2t,s2b,At,Ab,Xt,Xb,mt,mb,cbe,sbe,ht,hb
      $     ,k
-      double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
-     $     ,FAp
+      double precision dT,dB,r,taudpip,taudlog3
       double precision, parameter :: pi = 3.1415926535897932d0
       
       mt = dsqrt(t)
@@ -5423,8 +5428,6 @@ c
       
       s2t = 2d0*ct*st
       s2b = 2d0*cb*sb
-      c2t = ct**2 - st**2
-      c2b = cb**2 - sb**2
       
       Xt = (T1-T2)*s2t/2d0/mt    
       Xb = (B1-B2)*s2b/2d0/mb    
@@ -5438,12 +5441,16 @@ c
       hb = dsqrt(2d0/vv)*mb/cbe
 
       k = 3d0/(16d0*Pi**2)**2 
-      
-      call makefuncstau(t,b,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb,
-     $     F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb,FAp)
-      
-      DMA = -(ht**2*mu*At/(T1-T2)*Ft + hb**2*mu*Ab/(B1-B2)*Fb
-     $     + 2d0*ht*hb*FAp)/sbe/cbe
+
+      dT = taudpip(T1,T2,q)
+      dB = taudpip(B1,B2,q)
+
+c     Note: all poles in s2t, s2b, T1-T2 and B1-B2 cancel.
+      r = .5d0*s2t*s2b*(T1-T2)*(B1-B2)
+
+      DMA = -(ht*hb)**2*mu*(dT*dB*(Xt + Xb - 2d0*mu*tanb)
+     $     - r*mt/mb*At*dB*taudlog3(T1,T2)
+     $     - r*mb/mt*Ab*dT*taudlog3(B1,B2))/sbe/cbe
       
       DMA = k*DMA
       
@@ -5544,6 +5551,72 @@ c
       return
       end
       
+*     
+***********************************************************************
+*     
+      
+      function taudlog(T1,T2)
+
+c     Log(T1/T2)/(T1-T2), also for T1 -> T2
+
+      implicit none
+
+      double precision taudlog,T1,T2,d
+
+      d = (T1-T2)/(T1+T2)
+
+      if(dabs(d).lt.0.05d0) then
+         taudlog = 2d0/(T1+T2)*(1d0 + d**2*(1d0/3d0 + d**2*(1d0/5d0
+     $        + d**2*(1d0/7d0 + d**2*(1d0/9d0 + d**2/11d0)))))
+      else
+         taudlog = Log(T1/T2)/(T1-T2)
+      endif
+
+      return
+      end
+
+*
+***********************************************************************
+*
+
+      function taudlog3(T1,T2)
+
+c     ((T1+T2)*Log(T1/T2) - 2*(T1-T2))/(T1-T2)**3, also for T1 -> T2
+
+      implicit none
+
+      double precision taudlog3,T1,T2,d
+
+      d = (T1-T2)/(T1+T2)
+
+      if(dabs(d).lt.0.05d0) then
+         taudlog3 = 2d0/(T1+T2)**2*(1d0/3d0 + d**2*(1d0/5d0
+     $        + d**2*(1d0/7d0 + d**2*(1d0/9d0 + d**2*(1d0/11d0
+     $        + d**2/13d0)))))
+      else
+         taudlog3 = ((T1+T2)*Log(T1/T2) - 2d0*(T1-T2))/(T1-T2)**3
+      endif
+
+      return
+      end
+
+*
+***********************************************************************
+*
+
+      function taudpip(T1,T2,q)
+
+c     (T1*(Log(T1/q)-1) - T2*(Log(T2/q)-1))/(T1-T2), also for T1 -> T2
+
+      implicit none
+
+      double precision taudpip,T1,T2,q,taudlog
+
+      taudpip = Log(T2/q) - 1d0 + T1*taudlog(T1,T2)
+
+      return
+      end
+
 *     
 ***********************************************************************
 *     
@@ -5577,7 +5650,7 @@ c
       
       double precision tauF2q
       double precision t,b,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb
-      double precision ht,hb,pippob,pippot
+      double precision ht,hb,pippob,pippot,taudlog
       
       pippob = B1*(Log(B1/q)-1d0) - B2*(Log(B2/q)-1d0)
       pippot = T1*(Log(T1/q)-1d0) - T2*(Log(T2/q)-1d0)
@@ -5585,8 +5658,8 @@ c
       ht = dsqrt(2d0*t/vv)/cos(atan(tanb))
       hb = dsqrt(2d0*b/vv)/cos(atan(tanb))
       
-      tauF2q = .5d0*ht*hb*s2b/s2t/T1/T2/(T1-T2)*pippob*
-     $     (s2t**2*(T1**2-T2**2) + 2d0*c2t**2*T1*T2*Log(T1/T2))
+      tauF2q = .5d0*ht*hb*s2b/s2t/T1/T2*pippob*
+     $     (s2t**2*(T1+T2) + 2d0*c2t**2*T1*T2*taudlog(T1,T2))
       
       return
       end
@@ -5601,7 +5674,7 @@ c
       
       double precision tauF3q
       double precision t,b,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb
-      double precision ht,hb,pippob,pippot
+      double precision ht,hb,pippob,pippot,d,F3s,taudlog3
       
       pippob = B1*(Log(B1/q)-1d0) - B2*(Log(B2/q)-1d0)
       pippot = T1*(Log(T1/q)-1d0) - T2*(Log(T2/q)-1d0)
@@ -5609,9 +5682,20 @@ c
       ht = dsqrt(2d0*t/vv)/cos(atan(tanb))
       hb = dsqrt(2d0*b/vv)/cos(atan(tanb))
       
-      tauF3q = -.5d0*ht*hb*s2b/s2t/T1/T2/(T1-T2)**2*pippob*
-     $     ((T1-T2)*(s2t**2*(T1+T2)**2 - 8d0*c2t**2*T1*T2)
-     $     -2d0*(3d0*s2t**2 - 2d0)*T1*T2*(T1+T2)*Log(T1/T2))
+      d = (T1-T2)/(T1+T2)
+
+      if(dabs(d).lt.0.05d0) then
+c     expansion for T1 -> T2
+         F3s = (T1+T2)*d**3*(2d0/5d0 + d**2*(6d0/35d0
+     $        + d**2*(2d0/21d0 + d**2*(2d0/33d0 + d**2*(6d0/143d0
+     $        + d**2*2d0/65d0)))))
+      else
+         F3s = ((T1-T2)*((T1+T2)**2 + 8d0*T1*T2)
+     $        - 6d0*T1*T2*(T1+T2)*Log(T1/T2))/(T1-T2)**2
+      endif
+
+      tauF3q = -.5d0*ht*hb*s2b/s2t/T1/T2*pippob*
+     $     (s2t**2*F3s + 4d0*T1*T2*(T1-T2)*taudlog3(T1,T2))
       
       return
       end
@@ -5626,7 +5710,7 @@ c
       
       double precision tauF4q
       double precision t,b,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb
-      double precision ht,hb,pippob,pippot
+      double precision ht,hb,pippob,pippot,taudpip
       
       pippob = B1*(Log(B1/q)-1d0) - B2*(Log(B2/q)-1d0)
       pippot = T1*(Log(T1/q)-1d0) - T2*(Log(T2/q)-1d0)
@@ -5634,8 +5718,8 @@ c
       ht = dsqrt(2d0*t/vv)/cos(atan(tanb))
       hb = dsqrt(2d0*b/vv)/cos(atan(tanb))
       
-      tauF4q = .5d0*ht*hb*s2b/s2t/(T1-T2)*Log(B1/B2)*
-     $     (2d0*c2t**2*pippot + s2t**2*(T1-T2)*Log(T1*T2/q**2))
+      tauF4q = .5d0*ht*hb*s2b/s2t*Log(B1/B2)*
+     $     (2d0*c2t**2*taudpip(T1,T2,q) + s2t**2*Log(T1*T2/q**2))
       
       return
       end
@@ -5650,18 +5734,18 @@ c
       
       double precision tauF5q
       double precision t,b,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb
-      double precision ht,hb,pippob,pippot
+      double precision ht,hb,dB,dT,taudpip
       
-      pippob = B1*(Log(B1/q)-1d0) - B2*(Log(B2/q)-1d0)
-      pippot = T1*(Log(T1/q)-1d0) - T2*(Log(T2/q)-1d0)
+      dB = taudpip(B1,B2,q)
+      dT = taudpip(T1,T2,q)
       
       ht = dsqrt(2d0*t/vv)/cos(atan(tanb))
       hb = dsqrt(2d0*b/vv)/cos(atan(tanb))
       
       tauF5q = .5d0*hb*ht/s2b/s2t* 
-     $     (-4d0*pippob*pippot/(B1-B2)/(T1-T2)*(1d0-c2b**2*c2t**2)
-     $     + 2d0*pippot*s2b**2*c2t**2/(T1-T2)*Log(B1*B2/q**2)
-     $     + 2d0*pippob*s2t**2*c2b**2/(B1-B2)*Log(T1*T2/q**2)
+     $     (-4d0*dB*dT*(s2b**2 + c2b**2*s2t**2)
+     $     + 2d0*dT*s2b**2*c2t**2*Log(B1*B2/q**2)
+     $     + 2d0*dB*s2t**2*c2b**2*Log(T1*T2/q**2)
      $     + s2t**2*s2b**2*(Log(B1/q)*Log(T1/q) + Log(B1/q)*Log(T2/q)
      $     + Log(B2/q)*Log(T1/q) + Log(B2/q)*Log(T2/q)))
       
@@ -5801,6 +5885,8 @@ C     .
       double precision DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3,F2_s
       double precision S11,S22,S12,osdr,DMom,ShiftB,ShiftB2,ShiftB3,sw
       double precision, parameter :: pi = 3.1415926535897932d0
+      double precision, parameter :: eps_t1 = 1d-5
+      double precision, parameter :: eps_deg = 1d-9
       
       tanb = 1d0/tb             ! swap H1 <-> H2 !!!
       
@@ -5808,7 +5894,14 @@ C     .
       
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
-      
+
+c     staus of the same mass do not mix
+      if(dabs(T1-T2).lt.eps_deg*T2) then
+         T1 = T2 / (1d0 - eps_t1)
+         s2t = 0d0
+         c2t = 1d0
+      endif
+
       X = (T1-T2)*s2t/2d0/mt    
       A = X - mu/tanb           
       
@@ -5823,10 +5916,21 @@ c$$$  k = 3d0*ht**2/(16d0*Pi**2)**2
       call taufuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,F1,F2,F3)
       call tausfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,ht,
      $     dmuF2,dmuF3,dAtF2,dAtF3,DM12,DM22)
-      call taudfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,v2,
-     $     DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3)
-      
+
       osdr = 1d0*OS
+
+      if(OS.ne.0) then
+         call taudfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,v2,
+     $        DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3)
+      else
+         DF1 = 0d0
+         DF2 = 0d0
+         DF3 = 0d0
+         DdmuF2 = 0d0
+         DdmuF3 = 0d0
+         DdAtF2 = 0d0
+         DdAtF3 = 0d0
+      endif
       
       if(s2t.ne.0d0.and.A.ne.0d0) then
          
@@ -6566,6 +6670,8 @@ c     DMA = 2-loop corrections to the CP-odd Higgs mass.
      $     ,c2t
       double precision FA,FA_A,DMA
       double precision, parameter :: pi = 3.1415926535897932d0
+      double precision, parameter :: eps_t1 = 1d-5
+      double precision, parameter :: eps_deg = 1d-9
       
       tanb = 1d0/tb             ! swap H1 <-> H2 !!!
       
@@ -6573,7 +6679,14 @@ c     DMA = 2-loop corrections to the CP-odd Higgs mass.
       
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
-      
+
+c     staus of the same mass do not mix
+      if(dabs(T1-T2).lt.eps_deg*T2) then
+         T1 = T2 / (1d0 - eps_t1)
+         s2t = 0d0
+         c2t = 1d0
+      endif
+
       X = (T1-T2)*s2t/2d0/mt  
       A = X - mu/tanb         
       
-- 
2.43.0


From 2b25181bb3fe47f3065313906589d1d09942cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 29/44] fix: rounding errors of the two-loop O((at+ab)^2)
 corrections for small sbottom mixing

Terms ~ 1/sin(theta_b) cancel; for |sin(theta_b)| = 1e-8 the rounding
errors amounted to up to 1e-2 of the correction.
---
 source/himalaya/mh2l/DSZHiggs.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 9826464..0ef4d0f 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -43,7 +43,7 @@ c
       integer atat
       double precision, parameter :: eps_st = 1d-5
       double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-8
+      double precision, parameter :: eps_sb = 1d-6
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
@@ -214,7 +214,7 @@ c     end of addition by ALEX
       integer atat
       double precision, parameter :: eps_st = 1d-5
       double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-8
+      double precision, parameter :: eps_sb = 1d-6
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
-- 
2.43.0


From f1f4bb93eb1031b45a0ad4ed44813c3833080b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 30/44] fix: sign of the sbottom mixing in the threshold
 correction of O(ab^2*as)

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index bd6d512..a4ec00b 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1062,7 +1062,8 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
    const double mQ3 = std::sqrt(mQ32);
    const double mD3 = std::sqrt(mD32);
    const double m3 = std::sqrt(m32);
-   const double Xb = calcXb();
+   // the formulas below are written in terms of -Xb
+   const double Xb = -calcXb();
    const double Xb2 = pow2(Xb);
    const double eps = 0.01*mQ3;
    const double lmQ3MR = log(mQ32) - lMR;
-- 
2.43.0


From 44a51897a98b50d654dafd7d9df6ca80b0d47625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 31/44] fix: logarithms of the two-loop effective-theory
 corrections involving yb and ytau

The dependence of the one- plus two-loop corrections on the renormalization
scale must cancel, which determines the coefficients of log(mt).
---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index b10886c..dd3aa5e 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -606,8 +606,8 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
        "dmh2yt4g32"));
 
     const double dmh2yb4g32 = CALC_IF(orders.at(CouplingOrders::G32YB4), discardNaN(
-          ((dlambdayb4g32 + 16 * (3 * B00DR * (dybas + 16 * lmMt) +
-                                  lmMt * (-2 + 3 * dybas + 24 * lmMt))) *
+          ((dlambdayb4g32 + 16 * (3 * B00DR * (dybas + 4 * lmMt) +
+                                  lmMt * (-2 + 3 * dybas + 6 * lmMt))) *
            v2 * pow4(cbeta)) /
           2.,
        "dmh2yb4g32"));
@@ -616,10 +616,10 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
           (-((-144 * dybyb * (B00DR + lmMt) +
               pow2(cbeta) *
                  (-49 - 3 * dlambdayb6 + 72 * dvyb2 - 72 * B00DR * dvyb2 -
-                  60 * lmbMt + 234 * lmMt + 1296 * B00DR * lmMt -
+                  60 * lmbMt + 72 * lmMt + 324 * B00DR * lmMt -
                   72 * dvyb2 * lmMt +
                   dlambdayb4 * (-9 + 9 * B00DR - 6 * dvyb2 + 9 * lmMt) +
-                  36 * pow2(lmbMt) + 648 * pow2(lmMt) - 6 * pow2(Pi))) *
+                  36 * pow2(lmbMt) + 162 * pow2(lmMt) - 6 * pow2(Pi))) *
              v2 * pow4(cbeta)) /
            6.),
        "dmh2yb6"));
@@ -638,10 +638,10 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
     const double dmh2yb4ytau2 = CALC_IF(orders.at(CouplingOrders::YTAU2YB4), discardNaN(
           (((4 * dybytau * (12 * B00DR + dlambdayb4 + 12 * lmMt) +
              pow2(cbeta) *
-                (dlambdayb4ytau2 - 96 * B00DR * lmMt -
+                (dlambdayb4ytau2 + 12 * lmMt - 24 * B00DR * lmMt -
                  dlambdayb4 * (-1 + B00DR + lmMt) +
                  2 * dvytau2 * (-12 + 12 * B00DR + dlambdayb4 + 12 * lmMt) -
-                 48 * pow2(lmMt))) *
+                 12 * pow2(lmMt))) *
             v2 * pow4(cbeta)) /
            2.),
        "dmh2yb4ytau2"));
@@ -650,8 +650,8 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
           (((4 * dytauyb * (4 * B00DR + dlambdaytau4 + 4 * lmMt) +
              pow2(cbeta) *
                 (dlambdayb2ytau4 - 8 * dvyb2 + 8 * B00DR * dvyb2 +
-                 dlambdaytau4 * (3 - 3 * B00DR + 2 * dvyb2 - 3 * lmMt) -
-                 6 * lmMt - 24 * B00DR * lmMt + 8 * dvyb2 * lmMt -
+                 dlambdaytau4 * (3 - 3 * B00DR + 2 * dvyb2 - 3 * lmMt) +
+                 12 * lmMt - 24 * B00DR * lmMt + 8 * dvyb2 * lmMt -
                  12 * pow2(lmMt))) *
             v2 * pow4(cbeta)) /
            2.),
@@ -662,7 +662,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
               pow2(cbeta) *
                  (-3 * dlambdaytau6 +
                   3 * dlambdaytau4 * (-1 + B00DR - 2 * dvytau2 + lmMt) +
-                  2 * (6 + 30 * (1 + B00DR) * lmMt -
+                  2 * (6 + (24 + 30 * B00DR) * lmMt -
                        12 * dvytau2 * (-1 + B00DR + lmMt) + 15 * pow2(lmMt) +
                        pow2(Pi)))) *
              v2 * pow4(cbeta)) /
@@ -672,8 +672,8 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
     const double dmh2yt2yb4 = CALC_IF(orders.at(CouplingOrders::YT2YB4), discardNaN(
           (((48 * dybyt * lmMt +
              (dlambdayt2yb4 + dlambdayb4 * (2 + 2 * dvyt2 - 3 * lmMt) +
-              3 * (-15 + 8 * lmbMt + 8 * dvyt2 * (-1 + lmMt) + 18 * lmMt -
-                   24 * pow2(lmMt) - 2 * pow2(Pi))) *
+              3 * (-15 + 8 * lmbMt + 8 * dvyt2 * (-1 + lmMt) + 12 * lmMt -
+                   6 * pow2(lmMt) - 2 * pow2(Pi))) *
                 pow2(sbeta) +
              12 * B00DR * (4 * dybyt + (2 * dvyt2 - 9 * lmMt) * pow2(sbeta))) *
             v2 * pow4(cbeta)) /
@@ -685,7 +685,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
              pow2(cbeta) *
                 (dlambdayt4yb2 +
                  dlambdayt4 * (3 - 3 * B00DR + 2 * dvyb2 - 3 * lmMt) -
-                 6 * (4 * dvyb2 + lmMt + 6 * B00DR * lmMt - 4 * dvyb2 * lmMt +
+                 6 * (4 * dvyb2 - 5 * lmMt + 6 * B00DR * lmMt - 4 * dvyb2 * lmMt +
                       3 * pow2(lmMt) - pow2(Pi)))) *
             v2 * pow4(sbeta)) /
            2.),
-- 
2.43.0


From a68aee441bced9b71f605bfe4458a638bcc36cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 32/44] fix: single logarithm in the effective-theory
 correction of O(ab^2*as)

The logarithm of the running of lambda between the matching and the top
mass scale has the coefficient of the two-loop beta function, so that the
one- plus two-loop correction does not depend on the matching scale.
---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index dd3aa5e..f84e41a 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -607,7 +607,7 @@ double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int omitSMLogs, int omitMSSMLogs) c
 
     const double dmh2yb4g32 = CALC_IF(orders.at(CouplingOrders::G32YB4), discardNaN(
           ((dlambdayb4g32 + 16 * (3 * B00DR * (dybas + 4 * lmMt) +
-                                  lmMt * (-2 + 3 * dybas + 6 * lmMt))) *
+                                  lmMt * (4 + 3 * dybas + 6 * lmMt))) *
            v2 * pow4(cbeta)) /
           2.,
        "dmh2yb4g32"));
-- 
2.43.0


From 7eab6280921c614564672293915d8ae20ae3995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 33/44] fix: O(ab*as^n) corrections of HierarchyCalculator

The hierarchy expansions are written for the top sector.  For the bottom
sector tan(beta) has to be replaced by cot(beta), vu by vd and the diagonal
elements of the mass matrix have to be exchanged; besides, Au and Mt entered
in place of Ad and Mb.
---
 include/himalaya/HierarchyCalculator.hpp |  14 ++-
 source/himalaya/HierarchyCalculator.cpp  | 107 +++++++++++++----------
 2 files changed, 64 insertions(+), 57 deletions(-)

diff --git a/include/himalaya/HierarchyCalculator.hpp b/include/himalaya/HierarchyCalculator.hpp
index 23c7648..06c4293 100644
--- a/include/himalaya/HierarchyCalculator.hpp
+++ b/include/himalaya/HierarchyCalculator.hpp
@@ -139,20 +139,16 @@ namespace himalaya {
        * @param omitXtOrders a bool to omit xtOrders of delta_lambda_EFT
        */
       void calcDeltaLambda3L(HierarchyObject& ho, bool omitXtOrders) const;
-      /// calculate sin(beta)
-      double calcSinBeta() const;
-      /// calculate cos(beta)
-      double calcCosBeta() const;
-      /// calculate tan(beta)
-      double calcTanBeta() const;
-      /// calculate beta from tan(beta)
-      double calcBeta() const;
+      /// calculate tan(beta) = vu/vd (cot(beta) for corrections ~ alpha_b)
+      double calcTanBeta(bool isAlphab) const;
+      /// calculate beta from tan(beta) (Pi/2 - beta for corrections ~ alpha_b)
+      double calcBeta(bool isAlphab) const;
       /// calculate v = sqrt(vu^2 + vd^2)
       double calcV() const;
       /// calculate v^2 = vu^2 + vd^2
       double calcV2() const;
       /// calculate prefactor of the Higgs mass matrix
-      double calcHiggsMassMatrixPrefactor() const;
+      double calcHiggsMassMatrixPrefactor(bool isAlphab) const;
       /// calculate prefactor as/(4 Pi)
       double calcAsOver4Pi() const;
       /// mean (non-squared) light squark mass
diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index bd60353..62d5c5e 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -124,6 +124,25 @@ int getMotherHierarchy(int hierarchy)
    return hierarchyMap.at(hierarchy);
 }
 
+/**
+ * Brings a Higgs mass matrix calculated with the formulas of the top
+ * sector into the (Hd, Hu) basis.  The corrections from the bottom
+ * sector follow from those of the top sector by exchanging Hd and Hu.
+ * @param m Higgs mass matrix, (1,1) element belongs to the doublet coupling to the quark
+ * @param isAlphab true, if the matrix contains corrections from the bottom sector
+ * @return Higgs mass matrix in the (Hd, Hu) basis
+ */
+Eigen::Matrix2d reorder(const Eigen::Matrix2d& m, bool isAlphab)
+{
+   Eigen::Matrix2d result(m);
+
+   if (isAlphab) {
+      std::swap(result(0,0), result(1,1));
+   }
+
+   return result;
+}
+
 /**
  * Prints out some information about Himalaya.
  */
@@ -315,8 +334,8 @@ int HierarchyCalculator::compareHierarchies(himalaya::HierarchyObject& ho)
    double error = -1.;
    int suitableHierarchy = -1;
 
-   const double s2b = std::sin(2*calcBeta());
-   const double tb = calcTanBeta();
+   const double s2b = std::sin(2*calcBeta(false));
+   const double tb = calcTanBeta(false);
 
    // tree level Higgs mass matrix
    Eigen::Matrix2d treelvl;
@@ -490,6 +509,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
    const double s2f = ho.getIsAlphab() ? p.s2b : p.s2t;
    const double Msq = calcMeanMsq();
    const double lmMf = std::log(pow2(p.scale / Mf));
+   const double beta = calcBeta(ho.getIsAlphab());
    const bool onlyThreeLoop = oneLoopFlagIn == 0 && twoLoopFlagIn == 0 && threeLoopFlagIn == 1;
 
    // calculates contributions to Delta lambda and stores them in ho
@@ -546,7 +566,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double Dmsqst1 = pow2(Msq) - pow2(Msf1);
             const double Dmsf12 = pow2(Msf1) - pow2(Msf2);
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
-            const H3 hier(expansionDepth, calcAsOver4Pi(), calcBeta(),
+            const H3 hier(expansionDepth, calcAsOver4Pi(), beta,
                Dmglst1, Dmsf12, Dmsqst1, lmMf, lmMsf1,
                p.MG, Mf, Msf1, Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -564,7 +584,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double Dmsqst1 = pow2(Msq) - pow2(Msf1);
             const double Dmsf12 = pow2(Msf1) - pow2(Msf2);
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
-            const H32q2g hier(expansionDepth, calcAsOver4Pi(), calcBeta(),
+            const H32q2g hier(expansionDepth, calcAsOver4Pi(), beta,
                Dmglst1, Dmsf12, Dmsqst1, lmMf, lmMsf1,
                Mf, Msf1, Msf2, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -582,7 +602,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double Dmsqst1 = pow2(Msq) - pow2(Msf1);
             const double Dmsf12 = pow2(Msf1) - pow2(Msf2);
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
-            const H3q22g hier(expansionDepth, calcAsOver4Pi(), calcBeta(),
+            const H3q22g hier(expansionDepth, calcAsOver4Pi(), beta,
                Dmglst1, Dmsf12, Dmsqst1, lmMf, lmMsf1,
                Mf, Msf1, Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -601,7 +621,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsq = std::log(pow2(p.scale / calcMeanMsq()));
             const double At = ho.getIsAlphab() ? p.Ad(2,2) : p.Au(2,2);
-            const H4 hier(expansionDepth, calcAsOver4Pi(), At, calcBeta(),
+            const H4 hier(expansionDepth, calcAsOver4Pi(), At, beta,
                lmMf, lmMsq, lmMsusy, Mf, Msusy, Msq,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
             selfEnergy11 += hier.getS1();
@@ -618,7 +638,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
             const double lmMsq = std::log(pow2(p.scale / calcMeanMsq()));
-            const H5 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst1,
+            const H5 hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst1,
                lmMf, lmMsf1, lmMsf2, lmMsq, Mf, Msf1,
                Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -636,7 +656,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
             const double lmMsq = std::log(pow2(p.scale / calcMeanMsq()));
-            const H5g1 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst1,
+            const H5g1 hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst1,
                lmMf, lmMsf1, lmMsf2, lmMsq, p.MG, Mf, Msf1,
                Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -654,7 +674,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
             const double lmMsq = std::log(pow2(p.scale / calcMeanMsq()));
-            const H6 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst2,
+            const H6 hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst2,
                lmMf, lmMsf1, lmMsf2, lmMsq,
                Mf, Msf1, Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -672,7 +692,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
             const double lmMsq = std::log(pow2(p.scale / calcMeanMsq()));
-            const H6g2 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst2,
+            const H6g2 hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst2,
                lmMf, lmMsf1, lmMsf2, lmMsq,
                p.MG, Mf, Msf1, Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -690,7 +710,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double Dmsqst2 = Msq - Msf2;
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
-            const H6b hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst2,
+            const H6b hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst2,
                Dmsqst2, lmMf, lmMsf1, lmMsf2,
                Mf, Msf1, Msf2, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -708,7 +728,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double Dmsqst2 = Msq - Msf2;
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
-            const H6b2qg2 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst2,
+            const H6b2qg2 hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst2,
                Dmsqst2, lmMf, lmMsf1, lmMsf2,
                p.MG, Mf, Msf1, Msf2, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -726,7 +746,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double Dmsqst2 = Msq - Msf2;
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
-            const H6bq22g hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst2,
+            const H6bq22g hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst2,
                Dmsqst2, lmMf, lmMsf1, lmMsf2,
                Mf, Msf1, Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -744,7 +764,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double Dmsqst2 = Msq - Msf2;
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double lmMsf2 = std::log(pow2(p.scale / Msf2));
-            const H6bq2g2 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmglst2,
+            const H6bq2g2 hier(expansionDepth, calcAsOver4Pi(), beta, Dmglst2,
                Dmsqst2, lmMf, lmMsf1, lmMsf2,
                p.MG, Mf, Msf1,Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -762,7 +782,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double Dmsf12 = pow2(Msf1) - pow2(Msf2);
             const double Dmsqst1 = pow2(Msq) - pow2(Msf1);
-            const H9 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmsf12, Dmsqst1,
+            const H9 hier(expansionDepth, calcAsOver4Pi(), beta, Dmsf12, Dmsqst1,
                lmMf, lmMgl, lmMsf1,
                p.MG, Mf, Msf1, Msf2, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -780,7 +800,7 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
             const double lmMsf1 = std::log(pow2(p.scale / Msf1));
             const double Dmsf12 = pow2(Msf1) - pow2(Msf2);
             const double Dmsqst1 = pow2(Msq) - pow2(Msf1);
-            const H9q2 hier(expansionDepth, calcAsOver4Pi(), calcBeta(), Dmsf12, Dmsqst1,
+            const H9q2 hier(expansionDepth, calcAsOver4Pi(), beta, Dmsf12, Dmsqst1,
                lmMf, lmMgl, lmMsf1,
                p.MG, Mf, Msf1, Msf2, Msq, p.mu, s2f,
                ho.getMDRFlag(), loopFlags.oneLoop, loopFlags.twoLoop, loopFlags.threeLoop);
@@ -812,7 +832,8 @@ Eigen::Matrix2d HierarchyCalculator::calculateHierarchy(
    Eigen::Matrix2d higgsMassMatrix;
    higgsMassMatrix << selfEnergy11, selfEnergy12, selfEnergy12, selfEnergy22;
 
-   return calcHiggsMassMatrixPrefactor() * higgsMassMatrix;
+   return calcHiggsMassMatrixPrefactor(ho.getIsAlphab())
+      * reorder(higgsMassMatrix, ho.getIsAlphab());
 }
 
 /**
@@ -944,14 +965,14 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
       || suitableHierarchy == himalaya::hierarchies::Hierarchies::h9q2)
      ? 0 : 1;
 
-   const double tb = calcTanBeta();
+   const double tb = calcTanBeta(ho.getIsAlphab());
 
-   // stop masses
+   // stop (sbottom) masses
    const double Mst1 = shiftMst1ToMDR(ho, ho.getMDRFlag(), ho.getMDRFlag());
    const double Mst2 = shiftMst2ToMDR(ho, ho.getMDRFlag(), ho.getMDRFlag());
    // Hierarchy h4 only covers O(Xt^0)
    const double Xt = suitableHierarchy == himalaya::hierarchies::Hierarchies::h4
-     ? 0 : p.Au(2,2) - p.mu / tb;
+     ? 0 : (ho.getIsAlphab() ? p.Ad(2,2) : p.Au(2,2)) - p.mu / tb;
 
    // threshold for degenerate squark mass case is 1% of the stop mass
    const double eps = Mst1 * 0.01;
@@ -1035,10 +1056,11 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    }
 
    // pre-factor of shift -> checked normalization against H3m normalization and they coincide
-   const double yt = sqrt2 * p.Mt / p.vu;
-   const double prefac = threeLoop * pow2(pow2(p.g3) * p.Mt * yt);
+   const double Mf = ho.getIsAlphab() ? p.Mb : p.Mt;
+   const double yf = sqrt2 * Mf / (ho.getIsAlphab() ? p.vd : p.vu);
+   const double prefac = threeLoop * pow2(pow2(p.g3) * Mf * yf);
 
-   return prefac * shift;
+   return prefac * reorder(shift, ho.getIsAlphab());
 }
 
 /**
@@ -1068,7 +1090,7 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
 
    // Hierarchy h4 only covers O(Xt^0)
    const double Xt = suitableHierarchy == himalaya::hierarchies::Hierarchies::h4
-     ? 0 : p.Au(2,2) - p.mu / calcTanBeta();
+     ? 0 : p.Au(2,2) - p.mu / calcTanBeta(false);
 
    // threshold for degenerate squark mass case is 1% of the stop mass
    const double eps = Mst1 * 0.01;
@@ -1153,11 +1175,11 @@ Eigen::Matrix2d HierarchyCalculator::getMt41L(
    using std::log;
 
    Eigen::Matrix2d Mt41L;
-   const double beta = calcBeta();
+   const double beta = calcBeta(ho.getIsAlphab());
    const double Mst1 = shiftMst1ToMDR(ho, shiftOneLoop, shiftTwoLoop);
    const double Mst2 = shiftMst2ToMDR(ho, shiftOneLoop, shiftTwoLoop);
-   const double sbeta = calcSinBeta();
-   const double cbeta = calcCosBeta();
+   const double sbeta = std::sin(beta);
+   const double cbeta = std::cos(beta);
    const double Mt = ho.getIsAlphab() ? p.Mb : p.Mt;
    const double s2t = ho.getIsAlphab() ? p.s2b : p.s2t;
 
@@ -1206,7 +1228,8 @@ Eigen::Matrix2d HierarchyCalculator::getMt41L(
       pow2(Mst2) * log(Mst1) - pow2(Mst1) * log(Mst2) -
       pow2(Mst2) * log(Mst2)) * pow4(s2t)) / 16.);
 
-   return calcHiggsMassMatrixPrefactor() * Mt41L;
+   return calcHiggsMassMatrixPrefactor(ho.getIsAlphab())
+      * reorder(Mt41L, ho.getIsAlphab());
 }
 
 /**
@@ -1230,7 +1253,7 @@ HierarchyCalculator::getMt42L(const himalaya::HierarchyObject& ho,
    const double MG = p.MG;
    const double scale2 = pow2(p.scale);
    const double mu = - p.mu; // note the sign difference in mu
-   const double tanb = calcTanBeta();
+   const double tanb = calcTanBeta(ho.getIsAlphab());
    const double v2 = calcV2();
    const double g3 = p.g3;
    const int include_heavy_higgs = 0;
@@ -1239,7 +1262,7 @@ HierarchyCalculator::getMt42L(const himalaya::HierarchyObject& ho,
       Mt2, MG, Mst12, Mst22, st, ct, scale2, mu, tanb, v2, g3,
       include_heavy_higgs);
 
-   return Mt42L;
+   return reorder(Mt42L, ho.getIsAlphab());
 }
 
 /**
@@ -1269,27 +1292,15 @@ HierarchyCalculator::calcDRbarToMDRbarShift(const himalaya::HierarchyObject& ho,
 }
 
 
-double HierarchyCalculator::calcSinBeta() const
-{
-   return p.vu / calcV();
-}
-
-
-double HierarchyCalculator::calcCosBeta() const
-{
-   return p.vd / calcV();
-}
-
-
-double HierarchyCalculator::calcTanBeta() const
+double HierarchyCalculator::calcTanBeta(bool isAlphab) const
 {
-   return p.vu / p.vd;
+   return isAlphab ? p.vd / p.vu : p.vu / p.vd;
 }
 
 
-double HierarchyCalculator::calcBeta() const
+double HierarchyCalculator::calcBeta(bool isAlphab) const
 {
-   return std::atan(calcTanBeta());
+   return std::atan(calcTanBeta(isAlphab));
 }
 
 
@@ -1313,9 +1324,9 @@ double HierarchyCalculator::calcV2() const
  *
  * @return 3 Sqrt[2] GF / (2 Pi^2 Sin[beta]^2)
  */
-double HierarchyCalculator::calcHiggsMassMatrixPrefactor() const
+double HierarchyCalculator::calcHiggsMassMatrixPrefactor(bool isAlphab) const
 {
-   return 3. / (2 * pow2(Pi * p.vu));
+   return 3. / (2 * pow2(Pi * (isAlphab ? p.vd : p.vu)));
 }
 
 
-- 
2.43.0


From 554e96d0b6ca772e377fd78837726a7da64350f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 34/44] fix: O(y^6) thresholds with omitted logarithms

Omitting the logarithms log(MSt(0)/scale) is the same as setting the scale to
MSt(0) (MSb(0) for O(yb^6)).  The formulas removed only a part of the
logarithms, had poles at equal masses and still depended on the scale.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index a4ec00b..984f95e 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1215,7 +1215,8 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
-   const double MR2 = pow2(p.scale);
+   // omitting log(MSb(0)/scale) is the same as setting scale = MSb(0)
+   const double MR2 = pow2(omitLogs != 0 ? p.scale : p.MSb(0));
    const double mQ32 = p.mq2(2,2);
    const double mD32 = p.md2(2,2);
    const double mQ3 = std::sqrt(mQ32);
@@ -1229,8 +1230,8 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    const double Xb2 = pow2(Xb);
    const double mA2 = pow2(mA);
    const double Mu2 = pow2(Mu);
-   const double lmQ3MR = omitLogs*log(mQ32 / MR2);
-   const double lmUMR = omitLogs*log(Mu2 / MR2);
+   const double lmQ3MR = log(mQ32 / MR2);
+   const double lmUMR = log(Mu2 / MR2);
 
    return 3*(10 - 5/pow2(cbeta) - (2*mD32)/(mQ32*pow2(cbeta)) - (4*mQ32)/(mD32*
         pow2(cbeta)) + (2*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (8*Mu2)/(mD32*
@@ -1464,7 +1465,8 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
-   const double MR2 = pow2(p.scale);
+   // omitting log(MSt(0)/scale) is the same as setting scale = MSt(0)
+   const double MR2 = pow2(omitLogs != 0 ? p.scale : p.MSt(0));
    const double mQ32 = p.mq2(2,2);
    const double mU32 = p.mu2(2,2);
    const double mA = p.MA;
@@ -1477,12 +1479,12 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
 
-   const double lmQ3MR = omitLogs*log(mQ32 / MR2);
+   const double lmQ3MR = log(mQ32 / MR2);
    const double mQ3 = std::sqrt(mQ32);
    const double mU3 = std::sqrt(mU32);
    const double Mu = p.mu;
    const double Mu2 = pow2(Mu);
-   const double lmUMR = omitLogs*log(Mu2 / MR2);
+   const double lmUMR = log(Mu2 / MR2);
 
    return (18*pow2(cbeta)*pow2(log(mA2/MR2)))/pow2(sbeta) - (288*Yt*pow2(cbeta)*
         pow3(Xt))/(pow2(mQ32 - mU32)*pow2(sbeta)) - (6*Xt6*(11*mQ32*mU32 + 2*
@@ -2253,7 +2255,8 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
-   const double MR2 = pow2(p.scale);
+   // omitting log(MSt(0)/scale) is the same as setting scale = MSt(0)
+   const double MR2 = pow2(omitLogs != 0 ? p.scale : p.MSt(0));
    const double mQ32 = p.mq2(2,2);
    const double mD32 = p.md2(2,2);
    const double mU32 = p.mu2(2,2);
@@ -2272,8 +2275,8 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double Xt2 = pow2(Xt);
    const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
-   const double lmQ3MR = omitLogs*log(mQ32 / MR2);
-   const double lmUMR = omitLogs*log(Mu2 / MR2);
+   const double lmQ3MR = log(mQ32 / MR2);
+   const double lmUMR = log(Mu2 / MR2);
 
    return -6 + (48*Xb*(-Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
         mD32 - mQ32)*sbeta) + (48*Xt*(-Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
@@ -2623,7 +2626,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
-   const double MR2 = pow2(p.scale);
+   // omitting log(MSt(0)/scale) is the same as setting scale = MSt(0)
+   const double MR2 = pow2(omitLogs != 0 ? p.scale : p.MSt(0));
    const double mQ32 = p.mq2(2,2);
    const double mD32 = p.md2(2,2);
    const double mU32 = p.mu2(2,2);
@@ -2643,8 +2647,8 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double Xt4 = pow2(Xt2);
    const double mA2 = pow2(mA);
    const double Xb2 = pow2(Xb);
-   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
-   const double lmUMR  = omitLogs*std::log(Mu2 / MR2);
+   const double lmQ3MR = std::log(mQ32 / MR2);
+   const double lmUMR  = std::log(Mu2 / MR2);
 
    return -4 + (48*Xb*(-Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
-- 
2.43.0


From 72b79b47dfed0faf9f1c24c4051a26bd42969f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 35/44] fix: O(ab*as) threshold of lambda for gluino close to
 light right sbottom

The window in which the gluino and right sbottom mass are considered equal was
given by the left sbottom mass, although it has nothing to do with it.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 984f95e..029661c 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1066,6 +1066,7 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
    const double Xb = -calcXb();
    const double Xb2 = pow2(Xb);
    const double eps = 0.01*mQ3;
+   const double eps2 = 0.01*mD3;
    const double lmQ3MR = log(mQ32) - lMR;
    const double lmD3MR = log(mD32) - lMR;
 
@@ -1130,7 +1131,7 @@ double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
         4*Xb*pow3(mQ3) - 2*mQ3*pow3(Xb) + 4*pow4(mQ3) - 2*pow4(Xb)) + pow4(mQ3)
         *(-2*mQ32*Xb2 - 8*Xb*pow3(mQ3) - 4*mQ3*pow3(Xb) + 3*pow4(mQ3) + 2*pow4(
         Xb)) + (-4*mQ32 + 6*Xb2)*pow6(mD3) + pow8(mD3)))/pow4(mD32 - mQ32);
-   } else if (std::abs(m3 - mD3) < eps) {
+   } else if (std::abs(m3 - mD3) < eps2) {
      return 12 - 8*lmQ3MR + (8*(-13*mD32 + 13*mQ32 + 2*lmQ3MR*(3*mD32 - 3*mQ32 + 8*
         mD3*Xb) - 8*Xb2))/(mD32 - mQ32) - (2*pow2(lmQ3MR)*(-54*mD32*mQ32 - 80*
         mD3*mQ32*Xb + 16*Xb*pow3(mD3) + 43*pow4(mD3) + 27*pow4(mQ3)))/pow2(mD32
-- 
2.43.0


From fef5b0fdd3b3b1d7e9ba54ea3d75949773835c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 36/44] fix: two-loop O((at+ab)^2) corrections for (nearly)
 vanishing squark mixing

The smallest mixing angle 10^-5 used for the stops changed the corrections by
several percent for heavy stops without mixing.  The rounding errors, which
are to be avoided, are of the order 1/(angle * relative mass splitting), so the
smallest angle is chosen according to the mass splitting.
---
 source/himalaya/mh2l/DSZHiggs.f | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 0ef4d0f..7d4bfc2 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -28,6 +28,16 @@ c     in term of the "resummed" bottom Yukawa coupling.
 c     
 c     
       
+      double precision function eps_angle(m1, m2, eps_m)
+c     smallest mixing angle in DDSHiggs and DDSodd: terms of the order
+c     1/(angle * relative mass splitting) cancel, the rounding errors
+c     must not become larger than the effect of the changed mixing
+      implicit none
+      double precision m1, m2, eps_m
+      eps_angle = min(1d-4, max(1d-8,
+     $     1d-9/max(dabs((m1-m2)/m1), eps_m)))
+      end function eps_angle
+
       subroutine DDSHiggs(t,b,A0,T1,T2,B1,B2,st,ct,sb,cb,q,mu,tanb,vv,
      $     S11,S12,S22,atat) 
      $ bind(C, name="ddshiggs_")
@@ -41,9 +51,8 @@ c
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
       integer atat
-      double precision, parameter :: eps_st = 1d-5
+      double precision eps_angle, eps_st, eps_sb
       double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-6
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
@@ -53,6 +62,8 @@ c
       
       mt = dsqrt(t)
       mb = dsqrt(b)
+      eps_st = eps_angle(T1, T2, eps_t1)
+      eps_sb = eps_angle(B1, B2, eps_b1)
 
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
@@ -212,9 +223,8 @@ c     end of addition by ALEX
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp,hbFAp
       integer atat
-      double precision, parameter :: eps_st = 1d-5
+      double precision eps_angle, eps_st, eps_sb
       double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_sb = 1d-6
       double precision, parameter :: eps_b1 = 1d-5
       double precision, parameter :: eps_b1t1 = 1d-6
       double precision, parameter :: eps_b1t2 = 1d-7
@@ -224,6 +234,8 @@ c     end of addition by ALEX
       
       mt = dsqrt(t)
       mb = dsqrt(b)
+      eps_st = eps_angle(T1, T2, eps_t1)
+      eps_sb = eps_angle(B1, B2, eps_b1)
       
 c     ADDED by ALEX: guards against NANs when sin theta is zero!
       if (dabs(st).lt.eps_st) then
-- 
2.43.0


From b41877cce0305fb77c2e4ad0db4ece4f38a0010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:03 +0000
Subject: [PATCH 37/44] fix: two-loop corrections of the stau sector for nearly
 equal stau masses

Rounding errors of the order 1/(m1^2 - m2^2)^2 amounted to several percent.
Staus of nearly the same mass are separated without changing Xtau.
---
 source/himalaya/mh2l/DSZHiggs.f | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 7d4bfc2..6bfe708 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5897,8 +5897,8 @@ C     .
       double precision DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3,F2_s
       double precision S11,S22,S12,osdr,DMom,ShiftB,ShiftB2,ShiftB3,sw
       double precision, parameter :: pi = 3.1415926535897932d0
-      double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_deg = 1d-9
+      double precision, parameter :: eps_deg = 5d-5
+      double precision dT
       
       tanb = 1d0/tb             ! swap H1 <-> H2 !!!
       
@@ -5907,11 +5907,14 @@ C     .
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
 
-c     staus of the same mass do not mix
+c     the rounding errors are of the order 1/(T1-T2)**2: separate staus of
+c     (nearly) the same mass without changing their mixing parameter X
       if(dabs(T1-T2).lt.eps_deg*T2) then
-         T1 = T2 / (1d0 - eps_t1)
-         s2t = 0d0
-         c2t = 1d0
+         dT = sign(eps_deg*T2, T1-T2)
+         s2t = s2t*(T1-T2)/dT
+         c2t = sign(dsqrt(1d0-s2t**2), c2t)
+         T1 = (T1+T2+dT)/2d0
+         T2 = T1 - dT
       endif
 
       X = (T1-T2)*s2t/2d0/mt    
@@ -6682,8 +6685,8 @@ c     DMA = 2-loop corrections to the CP-odd Higgs mass.
      $     ,c2t
       double precision FA,FA_A,DMA
       double precision, parameter :: pi = 3.1415926535897932d0
-      double precision, parameter :: eps_t1 = 1d-5
-      double precision, parameter :: eps_deg = 1d-9
+      double precision, parameter :: eps_deg = 5d-5
+      double precision dT
       
       tanb = 1d0/tb             ! swap H1 <-> H2 !!!
       
@@ -6692,11 +6695,14 @@ c     DMA = 2-loop corrections to the CP-odd Higgs mass.
       s2t = 2d0*ct*st
       c2t = ct**2 - st**2
 
-c     staus of the same mass do not mix
+c     the rounding errors are of the order 1/(T1-T2)**2: separate staus of
+c     (nearly) the same mass without changing their mixing parameter X
       if(dabs(T1-T2).lt.eps_deg*T2) then
-         T1 = T2 / (1d0 - eps_t1)
-         s2t = 0d0
-         c2t = 1d0
+         dT = sign(eps_deg*T2, T1-T2)
+         s2t = s2t*(T1-T2)/dT
+         c2t = sign(dsqrt(1d0-s2t**2), c2t)
+         T1 = (T1+T2+dT)/2d0
+         T2 = T1 - dT
       endif
 
       X = (T1-T2)*s2t/2d0/mt  
-- 
2.43.0


From 48219dde30d7ccc913c55adcc5000d75d6374c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 38/44] fix: pass verbose setting on for loopOrder < 3 in
 LibraryLink

---
 source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 178bb44..14550be 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -400,7 +400,7 @@ Results calculate_results(const Data& data)
          std::make_tuple(dmh2_fo_0l_at, dmh2_fo_1l_at, dmh2_fo_2l_at, dmh2_fo_3l_at);
    } else {
       // calculate fixed-order corrections for v^2 << MS^2
-      himalaya::mh2_eft::Mh2EFTCalculator meft(data.pars);
+      himalaya::mh2_eft::Mh2EFTCalculator meft(data.pars, data.verbose);
       const auto dmh2_eft_0l = meft.getDeltaMh2EFT0Loop();
       const auto dmh2_eft_1l = meft.getDeltaMh2EFT1Loop(1,1);
       const auto dmh2_eft_2l = meft.getDeltaMh2EFT2Loop(1,1);
-- 
2.43.0


From 536bfb16dd487d8bc7bad7db2ef8759a1c5c924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 39/44] fix: name of MDR' masses for bottom and loopOrder < 3
 in LibraryLink

---
 source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 14550be..af35702 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -372,6 +372,7 @@ struct Results {
 Results calculate_results(const Data& data)
 {
    Results res;
+   res.ho = himalaya::HierarchyObject(data.bottom);
 
    if (data.loopOrder > 2) {
       himalaya::HierarchyCalculator hc(data.pars, data.verbose);
-- 
2.43.0


From 8ecafcfa490def208f1fce1e1acfdbdba0b8199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:39 +0000
Subject: [PATCH 40/44] fix: skip corrections beyond loopOrder in LibraryLink
 as documented

---
 .../LibraryLink/Himalaya_LibraryLink.cpp      | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index af35702..83697f8 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -369,6 +369,19 @@ struct Results {
 
 /******************************************************************/
 
+/// skips all corrections beyond given loop order
+Results::Loop_corrections truncate(
+   const std::tuple<double,double,double>& corr, int loopOrder)
+{
+   return std::make_tuple(
+      std::get<0>(corr),
+      loopOrder > 0 ? std::get<1>(corr) : 0.,
+      loopOrder > 1 ? std::get<2>(corr) : 0.,
+      0.);
+}
+
+/******************************************************************/
+
 Results calculate_results(const Data& data)
 {
    Results res;
@@ -405,9 +418,9 @@ Results calculate_results(const Data& data)
       const auto dmh2_eft_0l = meft.getDeltaMh2EFT0Loop();
       const auto dmh2_eft_1l = meft.getDeltaMh2EFT1Loop(1,1);
       const auto dmh2_eft_2l = meft.getDeltaMh2EFT2Loop(1,1);
-      const auto zero = 0.;
 
-      res.eft = std::make_tuple(dmh2_eft_0l, dmh2_eft_1l, dmh2_eft_2l, 0.);
+      res.eft = truncate(
+         std::make_tuple(dmh2_eft_0l, dmh2_eft_1l, dmh2_eft_2l), data.loopOrder);
 
       // calculate fixed-order corrections
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo(data.pars);
@@ -417,8 +430,8 @@ Results calculate_results(const Data& data)
       himalaya::mh2_fo::MSSM_mass_eigenstates mfo_dom(data.pars, true);
       const auto dmh2_fo_dom = mfo_dom.calculate_Mh2(); // 0L, 1L, 2L
 
-      res.fo = std::tuple_cat(dmh2_fo, std::tie(zero));
-      res.fo_dom = std::tuple_cat(dmh2_fo_dom, std::tie(zero));
+      res.fo = truncate(dmh2_fo, data.loopOrder);
+      res.fo_dom = truncate(dmh2_fo_dom, data.loopOrder);
    }
 
    return res;
-- 
2.43.0


From 3cc96f37e9300c371332939ddb00f12a0852d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:00 +0000
Subject: [PATCH 41/44] fix: reject non-finite input parameters and sfermion
 mass matrices

---
 source/himalaya/Himalaya_interface.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/himalaya/Himalaya_interface.cpp b/source/himalaya/Himalaya_interface.cpp
index 0924306..c4b4c7d 100644
--- a/source/himalaya/Himalaya_interface.cpp
+++ b/source/himalaya/Himalaya_interface.cpp
@@ -77,6 +77,10 @@ void sort_ev(V2& ev, double& theta) noexcept
 /// calculates mass eigenvalues (in GeV), sin(2*theta) and theta
 std::tuple<V2,double,double> calculate_MSf_s2f(const RM22& M)
 {
+   if (!M.allFinite()) {
+      throw std::runtime_error("Sfermion mass matrix is not finite!");
+   }
+
    const Eigen::SelfAdjointEigenSolver<RM22> es(M);
    RM22 ev = es.eigenvectors().real();
    V2 ew = es.eigenvalues();
@@ -151,6 +155,17 @@ double Parameters::calculateMsq2() const
  */
 void Parameters::validate(bool verbose)
 {
+   // the diagonalisation routines require finite input
+   if (!mq2.allFinite() || !md2.allFinite() || !mu2.allFinite() ||
+       !ml2.allFinite() || !me2.allFinite() || !Au.allFinite() ||
+       !Ad.allFinite() || !Ae.allFinite() || !Yu.allFinite() ||
+       !Yd.allFinite() || !Ye.allFinite() || !std::isfinite(scale) ||
+       !std::isfinite(mu) || !std::isfinite(g1) || !std::isfinite(g2) ||
+       !std::isfinite(g3) || !std::isfinite(M1) || !std::isfinite(M2) ||
+       !std::isfinite(MG) || !std::isfinite(MA)) {
+      throw std::runtime_error("Input parameters must be finite!");
+   }
+
    // check if soft-breaking parameters are greater than zero
    if (mq2.minCoeff() < 0. || md2.minCoeff() < 0. || mu2.minCoeff() < 0. ||
        ml2.minCoeff() < 0. || me2.minCoeff() < 0.) {
-- 
2.43.0


From b4c72eeac54f0846b9e9168267cbbaa3978d5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:37 +0000
Subject: [PATCH 42/44] fix: reject vanishing or negative renormalization scale

For scale = 0 (the default) all corrections were NaN without any error.
---
 source/himalaya/Himalaya_interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/himalaya/Himalaya_interface.cpp b/source/himalaya/Himalaya_interface.cpp
index c4b4c7d..6002643 100644
--- a/source/himalaya/Himalaya_interface.cpp
+++ b/source/himalaya/Himalaya_interface.cpp
@@ -166,6 +166,10 @@ void Parameters::validate(bool verbose)
       throw std::runtime_error("Input parameters must be finite!");
    }
 
+   if (scale <= 0.) {
+      throw std::runtime_error("Renormalization scale must be greater than zero!");
+   }
+
    // check if soft-breaking parameters are greater than zero
    if (mq2.minCoeff() < 0. || md2.minCoeff() < 0. || mu2.minCoeff() < 0. ||
        ml2.minCoeff() < 0. || me2.minCoeff() < 0.) {
-- 
2.43.0


From 5c8d88aa6cddaf2be9cad9b6178c84cec7356cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:33 +0000
Subject: [PATCH 43/44] fix: reject infinite VEVs, masses and mixing angles

A given infinite W boson or sfermion mass was accepted and led to
infinite corrections.
---
 source/himalaya/Himalaya_interface.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/himalaya/Himalaya_interface.cpp b/source/himalaya/Himalaya_interface.cpp
index 6002643..8d02e6f 100644
--- a/source/himalaya/Himalaya_interface.cpp
+++ b/source/himalaya/Himalaya_interface.cpp
@@ -279,6 +279,17 @@ void Parameters::validate(bool verbose)
       }
    }
 
+   // VEVs, masses and mixing angles may also be infinite if they have
+   // been provided
+   if (!std::isfinite(vu) || !std::isfinite(vd) || !std::isfinite(MW) ||
+       !std::isfinite(MZ) || !std::isfinite(Mt) || !std::isfinite(Mb) ||
+       !std::isfinite(Mtau) || !MSt.allFinite() || !MSb.allFinite() ||
+       !MStau.allFinite() || !std::isfinite(s2t) || !std::isfinite(s2b) ||
+       !std::isfinite(s2tau) || !std::isfinite(theta_t) ||
+       !std::isfinite(theta_b) || !std::isfinite(theta_tau)) {
+      throw std::runtime_error("Input parameters must be finite!");
+   }
+
    // sort sfermion masses
    sort_ev(MSt, theta_t, s2t);
    sort_ev(MSb, theta_b, s2b);
-- 
2.43.0


From 93d35820da33c61d576a02ce0a3b6c0ed3bcd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 44/44] fix: two-loop O(at*as), O(ab*as) corrections for widely
 split masses

The shift to the on-shell scheme was calculated (and multiplied with
zero) also in the DR' scheme.  It is not-a-number if one squark is
much heavier than the gluino and the other squark.
---
 source/himalaya/mh2l/DSZHiggs.f | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 6bfe708..f92838c 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -4365,10 +4365,19 @@ C     .
       
       call strfuncs(t,mg,T1,T2,s2t,c2t,q,F1,F2,F3)
       call strsfuncs(mg,T1,T2,q,A,sF2,sF3)
-      call strdfuncs(t,mg,T1,T2,s2t,c2t,q,A,X,
-     $     DF1,DF2,DF3,DsF2,DsF3)
-      
+
       osdr = 1d0*OS
+
+      if(OS.ne.0) then
+         call strdfuncs(t,mg,T1,T2,s2t,c2t,q,A,X,
+     $        DF1,DF2,DF3,DsF2,DsF3)
+      else
+         DF1 = 0d0
+         DF2 = 0d0
+         DF3 = 0d0
+         DsF2 = 0d0
+         DsF3 = 0d0
+      endif
       
       if(s2t.ne.0.and.A.ne.0) then
          
-- 
2.43.0

