From eb6e49cdd050020342f3007d7d7cc840573092d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:30 +0000
Subject: [PATCH 01/41] fix: ic2par returned NaN angles when rounding pushed an
 acos argument out of [-1, 1]

---
 src/core_astro/ic2par2ic.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core_astro/ic2par2ic.cpp b/src/core_astro/ic2par2ic.cpp
index ae0b091..32505c2 100644
--- a/src/core_astro/ic2par2ic.cpp
+++ b/src/core_astro/ic2par2ic.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 
@@ -22,6 +23,16 @@ namespace kep3
 using xt::linalg::cross;
 using xt::linalg::dot;
 
+namespace
+{
+// Arc cosine of a normalized dot product. Rounding may push the argument slightly outside of [-1, 1] (e.g. at the
+// apsides, or when the apse line and the node line are aligned), where std::acos would return a NaN.
+double acos_normalized(double x)
+{
+    return std::acos(std::clamp(x, -1., 1.));
+}
+} // namespace
+
 // r,v,mu -> keplerian osculating elements [a,e,i,W,w,f]. The last
 // is the true anomaly. The semi-major axis a is positive for ellipses, negative
 // for hyperbolae. The anomalies W, w, f are in [0, 2pi]. Inclination is in [0,
@@ -61,25 +72,25 @@ std::array<double, 6> ic2par(const std::array<std::array<double, 3>, 2> &pos_vel
 
     // Inclination is calculated and stored as the third orbital element
     // i = acos(hy/h) in [0, pi]
-    retval[2] = std::acos(h(2) / xt::linalg::norm(h));
+    retval[2] = acos_normalized(h(2) / xt::linalg::norm(h));
 
     // Argument of pericentrum is calculated and stored as the fifth orbital
     // element. w = acos(n.e)\|n||e| in [0, 2pi]
     auto temp = dot(n, evett);
-    retval[4] = std::acos(temp(0) / retval[1]);
+    retval[4] = acos_normalized(temp(0) / retval[1]);
     if (evett(2) < 0) {
         retval[4] = 2 * pi - retval[4];
     }
     // Argument of longitude is calculated and stored as the fourth orbital
     // element in [0, 2pi]
-    retval[3] = std::acos(n(0));
+    retval[3] = acos_normalized(n(0));
     if (n(1) < 0) {
         retval[3] = 2 * pi - retval[3];
     }
 
     // 4 - We compute ni: the true anomaly in [0, 2pi]
     temp = dot(evett, r0);
-    auto f = std::acos(temp(0) / retval[1] / R0);
+    auto f = acos_normalized(temp(0) / retval[1] / R0);
 
     temp = dot(r0, v0);
     if (temp(0) < 0.0) {
-- 
2.43.0


From 005dc5916fa3e4ce5f623ad98e8fa254f12a0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 02/41] fix: propagate_lagrangian_u bracketed the universal
 anomaly with unit-dependent bounds

---
 src/core_astro/propagate_lagrangian.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/core_astro/propagate_lagrangian.cpp b/src/core_astro/propagate_lagrangian.cpp
index 902be8e..9e9becf 100644
--- a/src/core_astro/propagate_lagrangian.cpp
+++ b/src/core_astro/propagate_lagrangian.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <optional>
@@ -201,11 +202,18 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
     // initial radial velocity (see we use the inverted vf = +-v0 according to dt)
     double const VR0 = (rf[0] * vf[0] + rf[1] * vf[1] + rf[2] * vf[2]) / R0;
 
-    // solve kepler's equation in the universal anomaly DS
-    double IG = 0;
-    alpha > 0. ? IG = std::sqrt(mu) * dt_copy * std::abs(alpha)
-               : IG = 3.; // TODO(darioizzo): initial guess for the universal
-                          // anomaly. For hyperbolas is 3 .... can be better?
+    // solve kepler's equation in the universal anomaly DS. DS has the units of sqrt(length): the initial guess and its
+    // bounds must scale accordingly.
+    double const sqrta = 1. / std::sqrt(std::abs(alpha));
+    double IG = 0., IG_min = 0., IG_max = 0.;
+    if (alpha > 0.) { // DS = sqrt(a) DE and |DE - DM| <= 2 ecc
+        IG = std::sqrt(mu) * dt_copy * alpha;
+        IG_min = IG - 2 * pi * sqrta;
+        IG_max = IG + 2 * pi * sqrta;
+    } else { // DS = sqrt(-a) DH, and sqrt(mu) dt >= DS^3 / 24 (also for parabolas)
+        IG_max = std::min(50. * sqrta, std::cbrt(24. * std::sqrt(mu) * dt_copy));
+        IG = std::min(sqrta, IG_max);
+    }
 
     // Solve Kepler Equation in DS (univrsal anomaly difference)
     const int digits = std::numeric_limits<double>::digits;
@@ -216,9 +224,7 @@ propagate_lagrangian_u(const std::array<std::array<double, 3>, 2> &pos_vel0, con
         [dt_copy, R0, VR0, alpha, mu](double DS) {
             return std::make_tuple(kepDS(DS, dt_copy, R0, VR0, alpha, mu), d_kepDS(DS, R0, VR0, alpha, mu));
         },
-        IG, IG - 2 * pi, IG + 2 * pi, digits,
-        max_iter); // limiting the IG error within
-                   // only pi will not work.
+        IG, IG_min, IG_max, digits, max_iter);
     if (max_iter == 100u) {
         throw std::domain_error("Maximum number of iterations exceeded when solving Kepler's "
                                 "equation for the universal anomaly in propagate_lagrangian_u.");
-- 
2.43.0


From 9eb075f7230e49dde47179905ae25613c5ca52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 03/41] fix: lambert_problem returned NaN for an (exactly)
 parabolic transfer

The derivatives of the time of flight and the multi-revolution term are 0/0 at x = 1; use their limits there.
---
 src/lambert_problem.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 77b4a19..38965c6 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -211,6 +211,13 @@ void lambert_problem::dTdx(double &DT, double &DDT, double &DDDT, double x, doub
     double const y = std::sqrt(1.0 - l2 * umx2);
     double const y2 = y * y;
     double const y3 = y2 * y;
+    if (std::abs(umx2) < 1e-8) { // Parabolic, the expressions below become 0/0: we use their limits for x -> 1.
+        double const l5 = l2 * l3;
+        DT = -2.0 / 5.0 * (1.0 - l5);
+        DDT = -(8.0 * DT - 6.0 * (1.0 - l2) * l5) / 7.0;
+        DDDT = -(15.0 * DDT - 6.0 * (1.0 - l2) * l5 * (1.0 - 5.0 * l2)) / 9.0;
+        return;
+    }
     DT = 1.0 / umx2 * (3.0 * T * x - 2.0 + 2.0 * l3 * x / y);
     DDT = 1.0 / umx2 * (3.0 * T + 5.0 * x * DT + 2.0 * (1.0 - l2) * l3 / y3);
     DDDT = 1.0 / umx2 * (7.0 * x * DDT + 8.0 * DT - 6.0 * (1.0 - l2) * l2 * l3 * x / y3 / y2);
@@ -256,7 +263,10 @@ void lambert_problem::x2tof(double &tof, double x, unsigned N) const
         double const S1 = 0.5 * (1.0 - m_lambda - x * eta);
         double Q = hypergeometricF(S1, 1e-11);
         Q = 4.0 / 3.0 * Q;
-        tof = (eta * eta * eta * Q + 4.0 * m_lambda * eta) / 2.0 + N * kep3::pi / std::pow(rho, 1.5);
+        tof = (eta * eta * eta * Q + 4.0 * m_lambda * eta) / 2.0;
+        if (N > 0u) {
+            tof += N * kep3::pi / std::pow(rho, 1.5);
+        }
         return;
     } else { // We use Lancaster tof expresion
         double const y = std::sqrt(rho);
-- 
2.43.0


From 117ccff51c95896c272207fcff58c8c160892f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 04/41] fix: lambert_problem missed transfer planes containing
 the z axis when rounding made the z component of the normal non zero

---
 src/lambert_problem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 38965c6..f7be860 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -65,7 +65,8 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
     auto ih = cross(irs, irf);
     ih = ih / xt::linalg::norm(ih);
 
-    if (ih(2) == 0) {
+    // The second condition catches the cases where ih(2) is only rounding noise.
+    if (ih(2) == 0 || r0_a[0] * r1_a[1] == r0_a[1] * r1_a[0]) {
         throw std::domain_error("lambert_problem: The angular momentum vector has no z component, "
                                 "impossible to define automatically clock or "
                                 "counterclockwise");
-- 
2.43.0


From 2690e703aa2c224b6a7fb738863b9e48f94c1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 05/41] fix: lambert_problem lost all accuracy (down to NaN) on
 fast transfers

z - lambda * x and y + lambda * x cancel for large x, that is for times of flight much shorter than parabolic.
---
 src/lambert_problem.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index f7be860..b3ce1a2 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -171,7 +171,10 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
         y = std::sqrt(1.0 - lambda2 + lambda2 * m_x[i] * m_x[i]);
         vrs = gamma * ((m_lambda * y - m_x[i]) - rho * (m_lambda * y + m_x[i])) / Rs;
         vrf = -gamma * ((m_lambda * y - m_x[i]) + rho * (m_lambda * y + m_x[i])) / Rf;
-        double const vt = gamma * sigma * (y + m_lambda * m_x[i]);
+        // y + lambda * x, avoiding the cancellation when the two terms have opposite sign.
+        double const ylx
+            = m_lambda * m_x[i] < 0. ? (1.0 - lambda2) / (y - m_lambda * m_x[i]) : y + m_lambda * m_x[i];
+        double const vt = gamma * sigma * ylx;
         vts = vt / Rs;
         vtf = vt / Rf;
         for (auto j = 0lu; j < 3lu; ++j) {
@@ -271,14 +274,15 @@ void lambert_problem::x2tof(double &tof, double x, unsigned N) const
         return;
     } else { // We use Lancaster tof expresion
         double const y = std::sqrt(rho);
-        double const g = x * z - m_lambda * E;
         double d = 0.0;
         if (E < 0) {
+            double const g = x * z - m_lambda * E;
             double const l = std::acos(g);
             d = N * kep3::pi + l;
         } else {
-            double const f = y * (z - m_lambda * x);
-            d = std::log(f + g);
+            // f + g, written so as to avoid the cancellation of z and lambda * x for large x.
+            double const zlx = m_lambda > 0. ? (1.0 - K) / (z + m_lambda * x) : z - m_lambda * x;
+            d = std::log((y + x) * zlx + m_lambda);
         }
         tof = (x - m_lambda * z - d / y) / E;
         return;
-- 
2.43.0


From 01132ad1d61839516abe8fd423230b9e868140dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:34 +0000
Subject: [PATCH 06/41] fix: lambert_problem missed or duplicated solutions
 close to the minimum time of flight

For lambda close to -1 the (unguarded) Householder and Halley iterations could leave the branch they were
started on. The iterations are unchanged as long as they stay in a bracket of the solution sought.
---
 include/kep3/lambert_problem.hpp |  2 +-
 src/lambert_problem.cpp          | 29 +++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/kep3/lambert_problem.hpp b/include/kep3/lambert_problem.hpp
index 3c64cab..ad8223d 100644
--- a/include/kep3/lambert_problem.hpp
+++ b/include/kep3/lambert_problem.hpp
@@ -65,7 +65,7 @@ public:
     [[nodiscard]] unsigned get_Nmax() const;
 
 private:
-    unsigned householder(double, double &, unsigned, double, unsigned) const;
+    unsigned householder(double, double &, unsigned, double, unsigned, bool = true) const;
     void dTdx(double &, double &, double &, double, double) const;
     void x2tof(double &tof, double x0, unsigned N) const;
     void x2tof2(double &tof, double x0, unsigned N) const;
diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index b3ce1a2..1f1d495 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -9,6 +9,7 @@
 
 #include <array>
 #include <cmath>
+#include <limits>
 
 #include <fmt/core.h>
 #include <fmt/ranges.h>
@@ -109,10 +110,15 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
             double err = 1.0;
             double T_min = T0;
             double x_old = 0.0, x_new = 0.0;
+            double lb = -1.0, ub = 1.0; // bracket for xM, where DT changes sign from negative to positive.
             while (true) {
                 dTdx(DT, DDT, DDDT, x_old, T_min);
                 if (DT != 0.0) {
                     x_new = x_old - DT * DDT / (DDT * DDT - DT * DDDT / 2.0);
+                    (DT < 0.0 ? lb : ub) = x_old;
+                    if (!(x_new >= lb && x_new <= ub)) {
+                        x_new = (lb + ub) / 2.0;
+                    }
                 }
                 err = std::abs(x_old - x_new);
                 if ((err < 1e-13) || (it > 12)) {
@@ -155,11 +161,11 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
         // 3.2.1 left Householder iterations
         tmp = std::pow((static_cast<double>(i) * kep3::pi + kep3::pi) / (8.0 * T), 2.0 / 3.0);
         m_x[2 * i - 1] = (tmp - 1) / (tmp + 1);
-        m_iters[2 * i - 1] = householder(T, m_x[2 * i - 1], static_cast<unsigned>(i), 1e-8, 15);
+        m_iters[2 * i - 1] = householder(T, m_x[2 * i - 1], static_cast<unsigned>(i), 1e-8, 15, true);
         // 3.2.1 right Householder iterations
         tmp = std::pow((8.0 * T) / (static_cast<double>(i) * kep3::pi), 2.0 / 3.0);
         m_x[2 * i] = (tmp - 1) / (tmp + 1);
-        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 15);
+        m_iters[2ul * i] = householder(T, m_x[2 * i], static_cast<unsigned>(i), 1e-8, 15, false);
     }
 
     // 4 - For each found x value we reconstruct the terminal velocities
@@ -188,12 +194,15 @@ lambert_problem::lambert_problem(const std::array<double, 3> &r0_a, const std::a
 
 unsigned lambert_problem::householder(double T, double &x0,
                                       unsigned N, // NOLINT
-                                      double eps, unsigned iter_max) const
+                                      double eps, unsigned iter_max, bool left) const
 {
     unsigned it = 0;
     double err = 1.0;
     double xnew = 0.0;
     double tof = 0.0, delta = 0.0, DT = 0.0, DDT = 0.0, DDDT = 0.0;
+    // The solution sought is kept bracketed in (lb, ub): the time of flight decreases with x along the left branch
+    // (and for N = 0) and increases along the right one.
+    double lb = -1.0, ub = (N > 0u) ? 1.0 : std::numeric_limits<double>::infinity();
     while ((err > eps) && (it < iter_max)) {
         x2tof(tof, x0, N);
         dTdx(DT, DDT, DDDT, x0, tof);
@@ -201,8 +210,20 @@ unsigned lambert_problem::householder(double T, double &x0,
         double const DT2 = DT * DT;
         xnew = x0 - delta * (DT2 - delta * DDT / 2.0) / (DT * (DT2 - delta * DDT) + DDDT * delta * delta / 6.0);
         err = std::abs(x0 - xnew);
+        bool const other_branch = (N > 0u) && (left ? DT >= 0.0 : DT <= 0.0);
+        if (left ? (other_branch || delta < 0.0) : !(other_branch || delta < 0.0)) {
+            ub = x0;
+        } else {
+            lb = x0;
+        }
+        if (other_branch || (!(err <= eps) && !(xnew > lb && xnew < ub))) {
+            // The step leaves the bracket: we bisect, which is not counted as an iteration.
+            xnew = std::isinf(ub) ? 2.0 * lb + 3.0 : (lb + ub) / 2.0;
+            err = (xnew > lb && xnew < ub) ? 1.0 : 0.0;
+        } else {
+            it++;
+        }
         x0 = xnew;
-        it++;
     }
     return it;
 }
-- 
2.43.0


From e00096516113b39ae2e7e3696c3b964461eded7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 07/41] fix: sims_flanagan::set() validated the old members
 instead of its arguments

---
 src/leg/sims_flanagan.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 604e459..15754b5 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -123,7 +123,10 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
                         const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                         double isp, double mu, double cut)
 {
-    kep3::leg::_sanity_checks(m_throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_nseg, m_nseg_fwd, m_nseg_bck);
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    const auto nseg_bck = nseg - nseg_fwd;
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, nseg, nseg_fwd, nseg_bck);
     m_rvs = rvs;
     m_ms = ms;
     m_throttles = throttles;
@@ -134,9 +137,9 @@ void sims_flanagan::set(const std::array<std::array<double, 3>, 2> &rvs, double
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
-    m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
-    m_nseg_bck = m_nseg - m_nseg_fwd;
+    m_nseg = nseg;
+    m_nseg_fwd = nseg_fwd;
+    m_nseg_bck = nseg_bck;
 }
 
 // Getters
-- 
2.43.0


From 2566851287d2732242d52c3483fff6d491f8a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 08/41] fix: sims_flanagan gradients were NaN whenever a
 segment had zero throttle

---
 src/leg/sims_flanagan.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan.cpp b/src/leg/sims_flanagan.cpp
index 15754b5..b48f80b 100644
--- a/src/leg/sims_flanagan.cpp
+++ b/src/leg/sims_flanagan.cpp
@@ -335,7 +335,9 @@ std::pair<std::array<double, 49>, std::vector<double>> sims_flanagan::gradients_
         double Dvn = c / m[i] * un;
         dDv[i] = c / m[i] * du[i] - c / m[i] / m[i] * xt::linalg::dot(xt::transpose(u[i]), dm[i])
                  + m_max_thrust / m[i] * xt::linalg::dot(xt::transpose(u[i]), dtof) / nseg;
-        auto dDvn = c / m[i] / un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
+        // The norm is not differentiable at zero throttle: its (sub)gradient w.r.t. the throttle is there taken as zero.
+        const double inv_un = un > 0. ? 1. / un : 0.;
+        auto dDvn = c / m[i] * inv_un * xt::linalg::dot(u[i], du[i]) - c / m[i] / m[i] * un * dm[i]
                     + m_max_thrust / m[i] * un * dtof / nseg;
         m[i + 1] = m[i] * std::exp(-Dvn * a);
         dm[i + 1] = -m[i + 1] * a * dDvn + std::exp(-Dvn * a) * dm[i];
-- 
2.43.0


From 86a3db2faf1cf3dc017b729fad24d67d3c0430a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 09/41] fix: epoch constructed from a duration was offset by 30
 years (Unix epoch instead of the documented MJD2000)

---
 include/kep3/epoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kep3/epoch.hpp b/include/kep3/epoch.hpp
index 2bde48d..3a6ad94 100644
--- a/include/kep3/epoch.hpp
+++ b/include/kep3/epoch.hpp
@@ -124,7 +124,7 @@ public:
      */
     template <typename Rep, typename Period>
     explicit epoch(std::chrono::duration<Rep, Period> duration)
-        : m_tp{std::chrono::duration_cast<microseconds>(duration)}
+        : m_tp{y2k + std::chrono::duration_cast<microseconds>(duration)}
     {
     }
 
-- 
2.43.0


From 7c66f9e3995168a31142ad36ab80241fad1963ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:21 +0000
Subject: [PATCH 10/41] fix: epoch parsed strings with non numeric fields by
 silently truncating them

---
 src/epoch.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/epoch.cpp b/src/epoch.cpp
index cb857e8..db770ba 100644
--- a/src/epoch.cpp
+++ b/src/epoch.cpp
@@ -90,21 +90,29 @@ epoch::epoch(const std::string &in, string_format sf)
             "Malformed input string when constructing an epoch. Must be 'YYYY-MM-DD HH:MM:SS:XXXXXX'. "
             "D,H,M,S and X can be missing incrementally.");
     }
+    // Converts a field to an integer, requiring that it contains only digits (std::stoi alone would be more lax).
+    const auto to_int = [](const std::string &field) {
+        if (field.find_first_not_of("0123456789") != std::string::npos) {
+            throw std::logic_error("Malformed input string when constructing an epoch: the field '" + field
+                                   + "' is not a number.");
+        }
+        return std::stoi(field);
+    };
     unsigned d = 1;
     std::int32_t h = 0, min = 0, s = 0, us = 0;
-    int const y = std::stoi(in.substr(0, 4));
-    auto mon = boost::numeric_cast<unsigned>(std::stoi(in.substr(5, 2)));
+    int const y = (in[0] == '-') ? -to_int(in.substr(1, 3)) : to_int(in.substr(0, 4));
+    auto mon = boost::numeric_cast<unsigned>(to_int(in.substr(5, 2)));
     if (len >= 10) {
-        d = boost::numeric_cast<unsigned>(std::stoi(in.substr(8, 2)));
+        d = boost::numeric_cast<unsigned>(to_int(in.substr(8, 2)));
         if (len >= 13) {
-            h = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(11, 2)));
+            h = boost::numeric_cast<std::int32_t>(to_int(in.substr(11, 2)));
             if (len >= 16) {
-                min = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(14, 2)));
+                min = boost::numeric_cast<std::int32_t>(to_int(in.substr(14, 2)));
                 if (len >= 19) {
-                    s = boost::numeric_cast<std::int32_t>(std::stoi(in.substr(17, 2)));
+                    s = boost::numeric_cast<std::int32_t>(to_int(in.substr(17, 2)));
                     if (len >= 21) {
                         std::string rest = in.substr(20);
-                        us = boost::numeric_cast<std::int32_t>(std::stoi(rest));
+                        us = boost::numeric_cast<std::int32_t>(to_int(rest));
                         for (decltype(rest.size()) i = 0; i < 6u - rest.size(); ++i) {
                             us *= 10;
                         }
-- 
2.43.0


From 84b714f86ae0c1102a91b1c1a4f7a8f45d2de485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:13 +0000
Subject: [PATCH 11/41] fix: mean anomalies were refused to planets on ellipses
 with a semi-major axis smaller than one (length unit)

---
 src/planet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index dd45724..05b3d57 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -47,7 +47,7 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
         case kep3::elements_type::KEP_F:
             break;
         case kep3::elements_type::KEP_M:
-            if (retval[0] < 1) {
+            if (retval[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             retval[5] = kep3::f2m(retval[5], retval[1]);
-- 
2.43.0


From 13e55935eb83a05f933f5e7c361d869a1a36e6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 12/41] fix: equinoctial elements of planets on circular or
 equatorial orbits were NaN

---
 src/planet.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/planet.cpp b/src/planet.cpp
index 05b3d57..f4fe69b 100644
--- a/src/planet.cpp
+++ b/src/planet.cpp
@@ -15,7 +15,7 @@
 
 #include <kep3/core_astro/constants.hpp>
 #include <kep3/core_astro/convert_anomalies.hpp>
-#include <kep3/core_astro/eq2par2eq.hpp>
+#include <kep3/core_astro/ic2eq2ic.hpp>
 #include <kep3/core_astro/ic2par2ic.hpp>
 #include <kep3/epoch.hpp>
 #include <kep3/exceptions.hpp>
@@ -53,10 +53,11 @@ std::array<double, 6> elements_from_posvel(const std::array<std::array<double, 3
             retval[5] = kep3::f2m(retval[5], retval[1]);
             break;
         case kep3::elements_type::MEQ:
-            retval = kep3::par2eq(retval, false);
+            // Not through the Keplerian elements, singular on circular and equatorial orbits.
+            retval = kep3::ic2eq(pos_vel, mu, false);
             break;
         case kep3::elements_type::MEQ_R:
-            retval = kep3::par2eq(retval, true);
+            retval = kep3::ic2eq(pos_vel, mu, true);
             break;
         // LCOV_EXCL_START
         default:
-- 
2.43.0


From 63f7d5b9940e7242cdfeff9dd74adb6c0169dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 13/41] fix: eq2par returned NaN angles for circular or
 equatorial orbits

---
 src/core_astro/eq2par2eq.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_astro/eq2par2eq.cpp b/src/core_astro/eq2par2eq.cpp
index 6892478..8cb23da 100644
--- a/src/core_astro/eq2par2eq.cpp
+++ b/src/core_astro/eq2par2eq.cpp
@@ -25,7 +25,7 @@ std::array<double, 6> eq2par(const std::array<double, 6> &eq, bool retrogade)
     }
     double ecc = std::sqrt(eq[1] * eq[1] + eq[2] * eq[2]);
     double tmp = std::sqrt(eq[3] * eq[3] + eq[4] * eq[4]);
-    double zita = std::atan2(eq[2] / ecc, eq[1] / ecc); // [-pi, pi]
+    double zita = std::atan2(eq[2], eq[1]); // [-pi, pi] (0 for circular orbits)
     if (zita < 0) {
         zita += 2 * pi; // [0, 2*pi]
     }
@@ -33,7 +33,7 @@ std::array<double, 6> eq2par(const std::array<double, 6> &eq, bool retrogade)
     retval[1] = ecc;
     retval[0] = eq[0] / (1. - ecc * ecc);
     retval[2] = half_pi * (1. - I) + 2. * I * std::atan(tmp);
-    retval[3] = std::atan2(eq[4] / tmp, eq[3] / tmp); // [-pi, pi]
+    retval[3] = std::atan2(eq[4], eq[3]); // [-pi, pi] (0 for equatorial orbits)
     if (retval[3] < 0) {
         retval[3] += 2 * pi; // [0, 2*pi]
     }
-- 
2.43.0


From 31b1282b4e53294d07f5c95ca4dd871fdc754278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 14/41] fix: equinoctial elements of a keplerian body on a
 circular or equatorial orbit were NaN

---
 src/udpla/keplerian.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index 7707cec..e8014b2 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -153,12 +153,11 @@ std::array<double, 6> keplerian::elements(double, kep3::elements_type el_type) c
             retval[5] = kep3::f2m(retval[5], retval[1]);
             break;
         case kep3::elements_type::MEQ:
-            retval = m_kep_f_elements;
-            retval = kep3::par2eq(retval, false);
+            // Not through the Keplerian elements, singular on circular and equatorial orbits.
+            retval = kep3::ic2eq(m_pos_vel_0, m_mu_central_body, false);
             break;
         case kep3::elements_type::MEQ_R:
-            retval = m_kep_f_elements;
-            retval = kep3::par2eq(retval, true);
+            retval = kep3::ic2eq(m_pos_vel_0, m_mu_central_body, true);
             break;
         default:
             throw std::logic_error("You should not go here!");
-- 
2.43.0


From 1b926bed32ba1c90cb2c0738e8d958ae848dbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:51 +0000
Subject: [PATCH 15/41] fix: keplerian bodies from equinoctial elements were
 validated on p,f in place of a,e (valid hyperbolas refused, invalid elements
 accepted)

---
 src/udpla/keplerian.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/udpla/keplerian.cpp b/src/udpla/keplerian.cpp
index e8014b2..e8dadb6 100644
--- a/src/udpla/keplerian.cpp
+++ b/src/udpla/keplerian.cpp
@@ -56,27 +56,34 @@ keplerian::keplerian(const epoch &ref_epoch, const std::array<double, 6> &elem,
       m_kep_f_elements(elem)
 {
     // We check if the input is consistent with the pykep convention of a,e
-    if (m_kep_f_elements[0] * (1 - m_kep_f_elements[1]) <= 0) {
-        throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
-                                "a,e:"
-                                "The following must hold: a<0 -> e>1 [a>0 -> e<1].");
-    }
-
-    // If so, we convert to the kep_f elements according to the chosen type for the input elem
+    auto check_a_e = [](const std::array<double, 6> &par) {
+        if (!(par[0] * (1 - par[1]) > 0)) {
+            throw std::domain_error("A Keplerian planet constructor was called with with non compatible "
+                                    "a,e:"
+                                    "The following must hold: a<0 -> e>1 [a>0 -> e<1].");
+        }
+    };
+
+    // We convert to the kep_f elements according to the chosen type for the input elem
     switch (el_type) {
         case kep3::elements_type::KEP_F:
+            check_a_e(m_kep_f_elements);
             break;
         case kep3::elements_type::KEP_M:
+            check_a_e(m_kep_f_elements);
             if (m_kep_f_elements[0] < 0) {
                 throw std::logic_error("Mean anomaly is only available for ellipses.");
             }
             m_kep_f_elements[5] = kep3::m2f(m_kep_f_elements[5], m_kep_f_elements[1]);
             break;
         case kep3::elements_type::MEQ:
+            // p,f are not a,e: the check can only be made after the conversion
             m_kep_f_elements = kep3::eq2par(m_kep_f_elements, false);
+            check_a_e(m_kep_f_elements);
             break;
         case kep3::elements_type::MEQ_R:
             m_kep_f_elements = kep3::eq2par(m_kep_f_elements, true);
+            check_a_e(m_kep_f_elements);
             break;
         default:
             throw std::logic_error("You should not go here!");
-- 
2.43.0


From afe8ca9a77e5179c6650d484ab558d0877c2a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 16/41] fix: fly-by constraints and cost were NaN when rounding
 brought the cosine of the turn angle out of [-1, 1]

---
 src/core_astro/flyby.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 34094b3..5c345f4 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -7,6 +7,7 @@
 // Public License v. 2.0. If a copy of the MPL was not distributed
 // with this file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <utility>
@@ -29,9 +30,11 @@ std::pair<double, double> fb_con(const std::array<double, 3> &v_rel_in, const st
     const double eq_V2 = Vin2 - Vout2;
 
     const double e_min = 1 + safe_radius / mu * Vin2;
-    const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+    // Clamped, as rounding can bring the cosine of (anti)parallel velocities out of [-1, 1].
+    const double alpha = std::acos(
+        std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                       / std::sqrt(Vin2 * Vout2),
+                   -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
     return {eq_V2, ineq_delta};
 }
@@ -50,9 +53,11 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
     // eq_V2 = Vin2 - Vout2;
 
     const double e_min = 1 + safe_radius / mu * Vin2;
-    const double alpha
-        = std::acos((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
-                    / std::sqrt(Vin2 * Vout2));
+    // Clamped, as rounding can bring the cosine of (anti)parallel velocities out of [-1, 1].
+    const double alpha = std::acos(
+        std::clamp((v_rel_in[0] * v_rel_out[0] + v_rel_in[1] * v_rel_out[1] + v_rel_in[2] * v_rel_out[2])
+                       / std::sqrt(Vin2 * Vout2),
+                   -1., 1.));
     const double ineq_delta = alpha - 2 * std::asin(1 / e_min);
 
     double dv = 0.;
-- 
2.43.0


From 01d97bef58fbc5ae44b70a657f9a676c7b02e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 17/41] fix: fb_dv was NaN or inaccurate for turns slightly
 beyond the limit

---
 src/core_astro/flyby.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_astro/flyby.cpp b/src/core_astro/flyby.cpp
index 5c345f4..8a19134 100644
--- a/src/core_astro/flyby.cpp
+++ b/src/core_astro/flyby.cpp
@@ -62,7 +62,10 @@ double fb_dv(const std::array<double, 3> &v_rel_in, const std::array<double, 3>
 
     double dv = 0.;
     if (ineq_delta > 0.0) {
-        dv = std::sqrt(Vout2 + Vin2 - 2.0 * std::sqrt(Vout2 * Vin2) * std::cos(ineq_delta));
+        // Law of cosines, in the form free of cancellations (and of negative arguments) for small angles.
+        const double dV = std::sqrt(Vout2) - std::sqrt(Vin2);
+        const double sin_half = std::sin(ineq_delta / 2.);
+        dv = std::sqrt(dV * dV + 4. * std::sqrt(Vout2 * Vin2) * sin_half * sin_half);
     } else {
         dv = std::abs(sqrt(Vout2) - std::sqrt(Vin2));
     }
-- 
2.43.0


From 7cede940354272a1f5e0d177112d54e25bece09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:16 +0000
Subject: [PATCH 18/41] fix: stm_reynolds made independent of the units (row
 scaling before the inversion)

---
 src/core_astro/stm.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core_astro/stm.cpp b/src/core_astro/stm.cpp
index 5cc7675..0a01a1b 100644
--- a/src/core_astro/stm.cpp
+++ b/src/core_astro/stm.cpp
@@ -181,7 +181,26 @@ std::array<double, 36> stm_reynolds(const std::array<std::array<double, 3>, 2> &
     //  Compute the STM using Reynolds' Cartesian Representation
     auto Y = _compute_Y(r0, v0, rf, vf, tof, mu);
     auto Y0 = _compute_Y(r0, v0, r0, v0, 0., mu);
-    retval = _dot(Y, mat66(inv(Y0)));
+    // The first three rows of Y0 scale as a distance and the last three as a velocity: unless made comparable, the pivoting
+    // in the inversion is decided by the units and the result can lose all of its digits.
+    double Rs = std::sqrt(r0(0, 0) * r0(0, 0) + r0(1, 0) * r0(1, 0) + r0(2, 0) * r0(2, 0));
+    double Vs = std::sqrt(v0(0, 0) * v0(0, 0) + v0(1, 0) * v0(1, 0) + v0(2, 0) * v0(2, 0));
+    Rs = Rs > 0. ? Rs : 1.;
+    Vs = Vs > 0. ? Vs : 1.;
+    for (auto i = 0u; i < 3u; ++i) {
+        for (auto j = 0u; j < 6u; ++j) {
+            Y0(i, j) /= Rs;
+            Y0(i + 3u, j) /= Vs;
+        }
+    }
+    mat66 Y0inv = inv(Y0);
+    for (auto i = 0u; i < 6u; ++i) {
+        for (auto j = 0u; j < 3u; ++j) {
+            Y0inv(i, j) /= Rs;
+            Y0inv(i, j + 3u) /= Vs;
+        }
+    }
+    retval = _dot(Y, Y0inv);
     // return retval;
     std::array<double, 36> ret{};
     std::copy(retval.begin(), retval.end(), ret.begin());
-- 
2.43.0


From a77cb90e825767235268e14d99053b80daa71051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:16 +0000
Subject: [PATCH 19/41] fix: lambert_problem iterates to full accuracy for very
 long times of flight

---
 src/lambert_problem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 1f1d495..3542b25 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -203,7 +203,8 @@ unsigned lambert_problem::householder(double T, double &x0,
     // The solution sought is kept bracketed in (lb, ub): the time of flight decreases with x along the left branch
     // (and for N = 0) and increases along the right one.
     double lb = -1.0, ub = (N > 0u) ? 1.0 : std::numeric_limits<double>::infinity();
-    while ((err > eps) && (it < iter_max)) {
+    double tol = eps;
+    while ((err > tol) && (it < iter_max)) {
         x2tof(tof, x0, N);
         dTdx(DT, DDT, DDDT, x0, tof);
         delta = tof - T;
@@ -216,7 +217,7 @@ unsigned lambert_problem::householder(double T, double &x0,
         } else {
             lb = x0;
         }
-        if (other_branch || (!(err <= eps) && !(xnew > lb && xnew < ub))) {
+        if (other_branch || (!(err <= tol) && !(xnew > lb && xnew < ub))) {
             // The step leaves the bracket: we bisect, which is not counted as an iteration.
             xnew = std::isinf(ub) ? 2.0 * lb + 3.0 : (lb + ub) / 2.0;
             err = (xnew > lb && xnew < ub) ? 1.0 : 0.0;
@@ -224,6 +225,8 @@ unsigned lambert_problem::householder(double T, double &x0,
             it++;
         }
         x0 = xnew;
+        // Next to x = -1 (very long times of flight) the step is judged with respect to the distance from the singularity.
+        tol = eps * std::min(1.0, 1.0 + x0);
     }
     return it;
 }
-- 
2.43.0


From 139a194522352494a280bb76515ea93d4e9cf462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:41 +0000
Subject: [PATCH 20/41] fix: get_ta_*_var_cache_dim() read the variational
 caches under the wrong mutex

---
 src/ta/cr3bp.cpp | 2 +-
 src/ta/stark.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ta/cr3bp.cpp b/src/ta/cr3bp.cpp
index ae4b742..5cc362c 100644
--- a/src/ta/cr3bp.cpp
+++ b/src/ta/cr3bp.cpp
@@ -116,7 +116,7 @@ size_t get_ta_cr3bp_cache_dim()
 size_t get_ta_cr3bp_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_cr3bp_mutex);
+    std::lock_guard const lock(ta_cr3bp_var_mutex);
     return ta_cr3bp_var_cache.size();
 }
 
diff --git a/src/ta/stark.cpp b/src/ta/stark.cpp
index 9885a34..2b82bf5 100644
--- a/src/ta/stark.cpp
+++ b/src/ta/stark.cpp
@@ -127,7 +127,7 @@ size_t get_ta_stark_cache_dim()
 size_t get_ta_stark_var_cache_dim()
 {
     // Lock down for access to cache.
-    std::lock_guard const lock(ta_stark_mutex);
+    std::lock_guard const lock(ta_stark_var_mutex);
     return ta_stark_var_cache.size();
 }
 
-- 
2.43.0


From af868dce6afd1b7ec479ee19b1e41c7aaccb674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:06 +0000
Subject: [PATCH 21/41] fix: sims_flanagan_hf::set() changed the leg before
 rejecting invalid arguments

---
 src/leg/sims_flanagan_hf.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 2cde273..800ebe2 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -249,6 +249,11 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
                            const std::array<std::array<double, 3>, 2> &rvf, double mf, double tof, double max_thrust,
                            double isp, double mu, double cut, double tol)
 {
+    // We perform some sanity checks on the user provided inputs
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg - nseg_fwd);
+
     // Set initial state
     set_rvs(rvs);
     set_ms(ms);
@@ -265,7 +270,6 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
@@ -277,6 +281,11 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
                            const std::array<double, 7> &rvmf, double tof, double max_thrust, double isp, double mu,
                            double cut, double tol)
 {
+    // We perform some sanity checks on the user provided inputs
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * cut);
+    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, nseg, nseg_fwd, nseg - nseg_fwd);
+
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -289,7 +298,6 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    kep3::leg::_sanity_checks(throttles, tof, max_thrust, isp, mu, cut, tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
@@ -300,6 +308,11 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
 void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<double> &throttles,
                            const std::array<double, 7> &rvmf, double time_of_flight)
 {
+    // We perform some sanity checks on the user provided inputs
+    const auto nseg = static_cast<unsigned>(throttles.size()) / 3u;
+    const auto nseg_fwd = static_cast<unsigned>(static_cast<double>(nseg) * m_cut);
+    _sanity_checks(throttles, time_of_flight, m_max_thrust, m_isp, m_mu, m_cut, m_tol, nseg, nseg_fwd, nseg - nseg_fwd);
+
     set_rvms(rvms);
     m_throttles = throttles;
     set_rvmf(rvmf);
@@ -307,7 +320,6 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-    _sanity_checks(throttles, m_tof, m_max_thrust, m_isp, m_mu, m_cut, m_tol, m_nseg, m_nseg_fwd, m_nseg_bck);
 
     // Convert throttles to current_thrusts.
     auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
-- 
2.43.0


From a9b69129d4421c64e315a85cf8e7f83e6579c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:18 +0000
Subject: [PATCH 22/41] fix: sims_flanagan_hf setters left the cached thrusts
 and integrators with the previous settings

---
 include/kep3/leg/sims_flanagan_hf.hpp |  3 +++
 src/leg/sims_flanagan_hf.cpp          | 21 +++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index fce03a7..aed4eb0 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -133,6 +133,9 @@ public:
     [[nodiscard]] std::vector<std::vector<double>> get_state_history(const unsigned grid_points_per_segment) const;
 
 private:
+    // Hands mu and the effective exhaust velocity to both integrators.
+    void set_integrator_pars();
+
     friend class boost::serialization::access;
     template <class Archive>
     void serialize(Archive &ar, const unsigned)
diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 800ebe2..b4e4732 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -203,16 +203,23 @@ void sims_flanagan_hf::set_max_thrust(double max_thrust)
 {
     kep3::leg::_check_max_thrust(max_thrust);
     m_max_thrust = max_thrust;
+
+    // Convert throttles to current_thrusts.
+    auto throttle_to_thrust = [this](double throttle) { return throttle * get_max_thrust(); };
+    m_thrusts.resize(m_throttles.size()); // Ensure that std::vector m_thrusts is same size as m_throttles
+    std::transform(m_throttles.begin(), m_throttles.end(), m_thrusts.begin(), throttle_to_thrust);
 }
 void sims_flanagan_hf::set_isp(double isp)
 {
     kep3::leg::_check_isp(isp);
     m_isp = isp;
+    set_integrator_pars();
 }
 void sims_flanagan_hf::set_mu(double mu)
 {
     kep3::leg::_check_mu(mu);
     m_mu = mu;
+    set_integrator_pars();
 }
 void sims_flanagan_hf::set_cut(double cut)
 {
@@ -224,7 +231,17 @@ void sims_flanagan_hf::set_cut(double cut)
 void sims_flanagan_hf::set_tol(double tol)
 {
     kep3::leg::_check_tol(tol);
+    m_tas = kep3::ta::get_ta_stark(tol);
+    m_tas_var = kep3::ta::get_ta_stark_var(tol);
     m_tol = tol;
+    set_integrator_pars();
+}
+void sims_flanagan_hf::set_integrator_pars()
+{
+    for (auto *ta : {&m_tas, &m_tas_var}) {
+        *ta->get_pars_data() = m_mu;
+        *(ta->get_pars_data() + 1) = m_isp * kep3::G0;
+    }
 }
 void sims_flanagan_hf::set_rvms(const std::array<double, 7> &rvms)
 {
@@ -266,7 +283,7 @@ void sims_flanagan_hf::set(const std::array<std::array<double, 3>, 2> &rvs, doub
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
+    set_tol(tol); // also hands isp and mu to the integrators
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
@@ -294,7 +311,7 @@ void sims_flanagan_hf::set(const std::array<double, 7> &rvms, const std::vector<
     m_isp = isp;
     m_mu = mu;
     m_cut = cut;
-    m_tol = tol;
+    set_tol(tol); // also hands isp and mu to the integrators
     m_nseg = static_cast<unsigned>(m_throttles.size()) / 3u;
     m_nseg_fwd = static_cast<unsigned>(static_cast<double>(m_nseg) * m_cut);
     m_nseg_bck = m_nseg - m_nseg_fwd;
-- 
2.43.0


From a0e333f3cf6511e8c331a4915a3f5056281bf0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:18 +0000
Subject: [PATCH 23/41] fix: archives of a sims_flanagan_hf leg lacked the
 variational integrator

---
 include/kep3/leg/sims_flanagan_hf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kep3/leg/sims_flanagan_hf.hpp b/include/kep3/leg/sims_flanagan_hf.hpp
index aed4eb0..c409bae 100644
--- a/include/kep3/leg/sims_flanagan_hf.hpp
+++ b/include/kep3/leg/sims_flanagan_hf.hpp
@@ -155,6 +155,7 @@ private:
         ar & m_nseg_fwd;
         ar & m_nseg_bck;
         ar & m_tas;
+        ar & m_tas_var;
     }
 
     // Initial rvm state
-- 
2.43.0


From 7dd49ea1625733041e0fe4efb6b9720e1cec75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:18 +0000
Subject: [PATCH 24/41] fix: sims_flanagan_hf::compute_mc_grad() returned
 derivatives w.r.t. thrusts instead of throttles

---
 src/leg/sims_flanagan_hf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index b4e4732..3a5c0df 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -730,7 +730,7 @@ sims_flanagan_hf::get_relevant_gradients(const std::vector<std::array<double, 49
                                      "any leg and therefore cannot find the corresponding gradients."); // LCOV_EXCL_LINE
         }
         xt::view(xgrad_final_throttle, xt::all(), xt::range(3 * i, 3 * (i + 1)))
-            = xt::linalg::dot(corresponding_M, current_U);
+            = xt::linalg::dot(corresponding_M, current_U) * m_max_thrust; // dxdu is w.r.t. the thrusts
     }
 
     // ToF derivatives
-- 
2.43.0


From 1e4a4113b6e0b11d298023c7b86f27606804de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:18 +0000
Subject: [PATCH 25/41] fix: sims_flanagan_hf::get_state_history() read past
 its time grid for one segment

---
 src/leg/sims_flanagan_hf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/leg/sims_flanagan_hf.cpp b/src/leg/sims_flanagan_hf.cpp
index 3a5c0df..d529f0a 100644
--- a/src/leg/sims_flanagan_hf.cpp
+++ b/src/leg/sims_flanagan_hf.cpp
@@ -800,7 +800,7 @@ std::vector<std::vector<double>> sims_flanagan_hf::get_state_history(unsigned gr
     double timestep = 0.0;
     leg_time_grid.push_back(timestep);
 
-    for (decltype(m_nseg) i = 0; i < grid_points_per_segment * m_nseg - 2; ++i) {
+    for (decltype(m_nseg) i = 0; i < (grid_points_per_segment - 1) * m_nseg; ++i) {
         timestep += (prop_seg_duration / (grid_points_per_segment - 1));
         leg_time_grid.push_back(timestep);
     }
-- 
2.43.0


From b57b81c0f839c2584a12a9ec803a92fd12aab4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 26/41] fix: pykep.DEG2RAD had the value of RAD2DEG

---
 pykep/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 780bbf8..57e72aa 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -59,7 +59,7 @@ PYBIND11_MODULE(core, m) // NOLINT
     m.attr("EARTH_J2") = py::float_(kep3::EARTH_J2);
     m.attr("EARTH_RADIUS") = py::float_(kep3::EARTH_RADIUS);
     m.attr("RAD2DEG") = py::float_(kep3::RAD2DEG);
-    m.attr("DEG2RAD") = py::float_(kep3::RAD2DEG);
+    m.attr("DEG2RAD") = py::float_(kep3::DEG2RAD);
     m.attr("DAY2SEC") = py::float_(kep3::DAY2SEC);
     m.attr("SEC2DAY") = py::float_(kep3::SEC2DAY);
     m.attr("DAY2YEAR") = py::float_(kep3::DAY2YEAR);
-- 
2.43.0


From f3987c85136affa6b9174656cba2fa12e7caa76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 27/41] fix: get_extra_info of the Cassini gym problems used an
 undefined name

---
 pykep/trajopt/gym/_cassini_mga.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/trajopt/gym/_cassini_mga.py b/pykep/trajopt/gym/_cassini_mga.py
index b45bf75..183a3bb 100644
--- a/pykep/trajopt/gym/_cassini_mga.py
+++ b/pykep/trajopt/gym/_cassini_mga.py
@@ -27,7 +27,7 @@ class _cassini1_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P1): Cassini MGA, single objective, direct encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -52,7 +52,7 @@ class _cassini1a_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P2): Cassini MGA, single objective, alpha encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
@@ -77,7 +77,7 @@ class _cassini1n_udp(_mga):
     def get_extra_info(self):
         retval = "\tTrajectory Optimisation Gym problem (P3): Cassini MGA, single objective, eta encoding\n"
         retval += "\tPlanetary sequence" + \
-            str([pl.get_name() for pl in _seq_cassini1])
+            str([pl.get_name() for pl in _seq_cassini])
         return retval
 
     def __repr__(self):
-- 
2.43.0


From d6b4217d6157b3d6fd7691a8a37fb935f7fb4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 28/41] fix: mga.to_planet reported the launch date as the
 arrival date

---
 pykep/trajopt/_mga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index a25d449..6ef569d 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -386,7 +386,7 @@ class mga:
                         "Ephemerides out-of-bounds, requested at mjd2000 "
                         + str(mjd2000)
                         + " which is after the arrival date "
-                        + str(self.mjd2000s[0])
+                        + str(self.mjd2000s[-1])
                     )
 
                 if mjd2000 == self.mjd2000s[0]:
-- 
2.43.0


From c776f7037140e03b83a204db9fd0e827a0b9fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 29/41] fix: mga replaced the elements of the caller's t0 list
 (and of its own default)

---
 pykep/trajopt/_mga.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index 6ef569d..c9b3313 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -93,6 +93,7 @@ class mga:
             )
 
         # 2 - We try to build epochs out of the t0 list (mjd2000 by default)
+        t0 = list(t0)
         for i in range(len(t0)):
             if type(t0[i]) != type(_pk.epoch(0.0)):
                 t0[i] = _pk.epoch(t0[i], _pk.epoch.julian_type.MJD2000)
-- 
2.43.0


From 5e2044ea02060b402fc5918a5e3fc53d95999b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:24 +0000
Subject: [PATCH 30/41] fix: mga.direct2eta truncated the result to integers
 for an integer chromosome

---
 pykep/trajopt/_mga.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index c9b3313..c068e3a 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -273,9 +273,8 @@ class mga:
         """
         if self.tof_encoding != "eta":
             raise ValueError("cannot call this method if the tof_encoding is not 'eta'")
-        from copy import deepcopy
 
-        retval = deepcopy(x)
+        retval = _np.array(x, dtype=float)
         retval[1] = x[1] / self.tof
         for i in range(2, len(x)):
             retval[i] = x[i] / (self.tof - sum(x[1:i]))
-- 
2.43.0


From f00a19288b6e26a4edd4ab6cd5ef7d0d459ec98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 31/41] fix: plot.add_solar_system failed for Neptune
 (undefined name, size of Uranus)

---
 pykep/plot/_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/plot/_planet.py b/pykep/plot/_planet.py
index 32a0446..870c4f8 100644
--- a/pykep/plot/_planet.py
+++ b/pykep/plot/_planet.py
@@ -179,6 +179,6 @@ def add_solar_system(
             label="",
             plot_range=[-40000, -40000 + 164.8 * 365.25],
         )
-        _pk.plot.add_planet(ax, neptune, when=ep, c="orchid", s=s[7], label = "Neptune")
+        _pk.plot.add_planet(ax, neptune, when=when, c="orchid", s=s[8], label = "Neptune")
 
     return ax
-- 
2.43.0


From 327f6c801f98841f031e987c3264b6068602bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 32/41] fix: plot.add_lambert drew the complementary arc for
 clockwise solutions

---
 pykep/plot/_lambert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykep/plot/_lambert.py b/pykep/plot/_lambert.py
index 14ec8f0..258395e 100644
--- a/pykep/plot/_lambert.py
+++ b/pykep/plot/_lambert.py
@@ -57,9 +57,9 @@ def add_lambert(ax, lp, N: int = 60, sol: int = 0, units=_pk.AU, **kwargs):
     # Compute the cross product to determine the direction
     cross_product = _np.cross(r0, r1)
     
-    # Assuming motion is in the xy-plane (i.e., third component z gives the direction)
-    if cross_product[2] < 0:  # If the z-component is negative, the motion is clockwise
-        theta = 2 * _np.pi - theta  # Adjust the angle to account for counterclockwise motion
+    # If the motion goes the other way (angular momentum opposite to r0 x r1), the arc is the long one
+    if _np.dot(cross_product, _np.cross(r0, v0)) < 0:
+        theta = 2 * _np.pi - theta
     
     # We define the integration grid
     if sol == 0:
-- 
2.43.0


From 617684591c16103fa3fe06e0cf9422285889b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 33/41] fix: plot.add_sf_leg failed to show midpoints and
 throttles of a leg without forward or backward segments

---
 pykep/plot/_sf_leg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0b6192..b0fa304 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -91,8 +91,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=dt / 2, mu=sf.mu, stm=False)
         pos_fwd.append(rv[0])
     pos_fwd = _np.array(pos_fwd)
-    pos_m_fwd = _np.array(pos_m_fwd)
-    throttles_fwd = _np.array(throttles_fwd)
+    pos_m_fwd = _np.array(pos_m_fwd).reshape(-1, 3)
+    throttles_fwd = _np.array(throttles_fwd).reshape(-1, 3)
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
@@ -157,8 +157,8 @@ def add_sf_leg(
         rv = _pk.propagate_lagrangian(rv, tof=-dt / 2, mu=sf.mu, stm=False)
         pos_bck.append(rv[0])
     pos_bck = _np.array(pos_bck)
-    pos_bck_m = _np.array(pos_bck_m)
-    throttles_bck = _np.array(throttles_bck)
+    pos_bck_m = _np.array(pos_bck_m).reshape(-1, 3)
+    throttles_bck = _np.array(throttles_bck).reshape(-1, 3)
 
     # We plot optionally gridpoints, the low-thrust or the mid points
     if show_gridpoints:
-- 
2.43.0


From 319c2bd8ebc154e7b4738db4093c0b6eafe44311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 34/41] fix: plot.add_sf_hf_leg drew the throttles of the
 backward segments in reverse order

---
 pykep/plot/_sf_leg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykep/plot/_sf_leg.py b/pykep/plot/_sf_leg.py
index b0fa304..9a2fee7 100644
--- a/pykep/plot/_sf_leg.py
+++ b/pykep/plot/_sf_leg.py
@@ -313,7 +313,9 @@ def add_sf_hf_leg(
             current_states = state_history_bck[
                 i * N : (i + 1) * N, 0:3
             ]
-            current_throttles = throttles_bck[:, i * 3 : (i + 1) * 3]
+            # The backward states are stored from the last segment
+            j = nseg_bck - 1 - i
+            current_throttles = throttles_bck[:, j * 3 : (j + 1) * 3]
             current_quiver_tips = current_states / units + current_throttles * length
             ax.quiver(
                 current_states[:, 0] / units,
-- 
2.43.0


From 5f3cf71b7c9cc12290b72b8055eb8ce786147af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:55 +0000
Subject: [PATCH 35/41] fix: the plots of the direct problems mixed AU with the
 requested units

---
 pykep/trajopt/_direct_pl2pl.py       | 12 ++++++------
 pykep/trajopt/_direct_point2point.py |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pykep/trajopt/_direct_pl2pl.py b/pykep/trajopt/_direct_pl2pl.py
index d35acd0..5a4157f 100644
--- a/pykep/trajopt/_direct_pl2pl.py
+++ b/pykep/trajopt/_direct_pl2pl.py
@@ -324,14 +324,14 @@ class direct_pl2pl:
             ax = _pk.plot.make_3Daxis(figsize=(7, 7))
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting planets
-        ax = _pk.plot.add_planet(ax, self.pls, when=x[0])
-        ax = _pk.plot.add_planet_orbit(ax, self.pls, c="gray", alpha=0.5)
-        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1])
-        ax = _pk.plot.add_planet_orbit(ax, self.plf, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.pls, when=x[0], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.pls, units=units, c="gray", alpha=0.5)
+        ax = _pk.plot.add_planet(ax, self.plf, when=x[0] + x[-1], units=units)
+        ax = _pk.plot.add_planet_orbit(ax, self.plf, units=units, c="gray", alpha=0.5)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
diff --git a/pykep/trajopt/_direct_point2point.py b/pykep/trajopt/_direct_point2point.py
index 4a7207a..8fc0776 100644
--- a/pykep/trajopt/_direct_point2point.py
+++ b/pykep/trajopt/_direct_point2point.py
@@ -237,8 +237,8 @@ class direct_point2point:
 
         rs, _ = sf.rvs
         rf, _ = sf.rvf
-        ax.scatter(rs[0] / _pk.AU, rs[1] / units, rs[2] / units, c="k", s=20)
-        ax.scatter(rf[0] / _pk.AU, rf[1] / units, rf[2] / units, c="k", s=20)
+        ax.scatter(rs[0] / units, rs[1] / units, rs[2] / units, c="k", s=20)
+        ax.scatter(rf[0] / units, rf[1] / units, rf[2] / units, c="k", s=20)
 
         # Plotting the trajctory leg
         ax = _pk.plot.add_sf_leg(
-- 
2.43.0


From b67b6d5c2c322005d824d93c6cbc4898b187918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:56 +0000
Subject: [PATCH 36/41] fix: planet.extract(object) did not return the Python
 udpla

---
 pykep/_patch_planet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykep/_patch_planet.py b/pykep/_patch_planet.py
index cf977c4..19854da 100644
--- a/pykep/_patch_planet.py
+++ b/pykep/_patch_planet.py
@@ -60,7 +60,7 @@ def _planet_extract(self, t):
     # Else we extract the UDPLA from the python class, check its type 
     # and see if we want to return None or not as to have a consistent behaviour
     udpla = self._py_extract()
-    if (type(udpla) == t):
+    if (type(udpla) == t) or (t is object):
         return udpla
     else:
         return None
-- 
2.43.0


From d59098edf58a6b7868a1dc7c75a78f613a456f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:56 +0000
Subject: [PATCH 37/41] fix: legs could not be pickled

---
 pykep/leg/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pykep/leg/__init__.py b/pykep/leg/__init__.py
index 8963bcf..1667d96 100644
--- a/pykep/leg/__init__.py
+++ b/pykep/leg/__init__.py
@@ -15,11 +15,13 @@ from .. import core as _core
 # would report them as aliases and fail to document these classes)
 sims_flanagan = _core._sims_flanagan
 sims_flanagan.__name__ = "sims_flanagan"
-sims_flanagan.__module__ = "leg"
+sims_flanagan.__qualname__ = "sims_flanagan"
+sims_flanagan.__module__ = "pykep.leg"
 
 sims_flanagan_hf = _core._sims_flanagan_hf
 sims_flanagan_hf.__name__ = "sims_flanagan_hf"
-sims_flanagan_hf.__module__ = "leg"
+sims_flanagan_hf.__qualname__ = "sims_flanagan_hf"
+sims_flanagan_hf.__module__ = "pykep.leg"
 
 # Removing core from the list of imported symbols.
 del _core
-- 
2.43.0


From 4e42a7f7bd4992154cbb56f603556754839116b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:51 +0000
Subject: [PATCH 38/41] fix: check the size of what the eph_v() of a Python
 planet returns

planet.eph_v() builds an (N, 6) array on what the UDPLA returned; with fewer values it read past their end.
---
 pykep/python_udpla.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykep/python_udpla.cpp b/pykep/python_udpla.cpp
index 1755f35..8916d82 100644
--- a/pykep/python_udpla.cpp
+++ b/pykep/python_udpla.cpp
@@ -63,6 +63,14 @@ python_udpla::python_udpla(py::object obj) : m_obj(std::move(obj))
     if (!udpla_eph_v.is_none()) {
         auto ret = py::cast<py::array_t<double>>(udpla_eph_v(mjd2000s));
         auto retval = py::cast<std::vector<double>>(ret.attr("flatten")());
+        if (retval.size() != mjd2000s.size() * 6u) {
+            pykep::py_throw(PyExc_ValueError,
+                            ("the eph_v() method of the user-defined Python planet '" + pykep::str(m_obj)
+                             + "' of type '" + pykep::str(pykep::type(m_obj)) + "' returned "
+                             + std::to_string(retval.size()) + " values for " + std::to_string(mjd2000s.size())
+                             + " epochs: six values are needed for each epoch")
+                                .c_str());
+        }
         return retval;
     } else {
         return kep3::detail::default_eph_vectorization(this, mjd2000s);
-- 
2.43.0


From f38bb413d3d7150b96485ebbb32ccd6603eaeafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:07 +0000
Subject: [PATCH 39/41] fix: deepcopy of a planet shared its Python UDPLA with
 the original

---
 pykep/core.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pykep/core.cpp b/pykep/core.cpp
index 57e72aa..1dbe304 100644
--- a/pykep/core.cpp
+++ b/pykep/core.cpp
@@ -194,7 +194,14 @@ PYBIND11_MODULE(core, m) // NOLINT
     planet_class.def("__repr__", &pykep::ostream_repr<kep3::planet>);
     // Copy and deepcopy.
     planet_class.def("__copy__", &pykep::generic_copy_wrapper<kep3::planet>);
-    planet_class.def("__deepcopy__", &pykep::generic_deepcopy_wrapper<kep3::planet>);
+    planet_class.def("__deepcopy__", [](kep3::planet &pl, const py::dict &memo) {
+        // The C++ copy of a Python UDPLA only copies the reference to the Python object.
+        if (auto *ptr = pl.extract<pykep::python_udpla>()) {
+            const py::object obj = py::module::import("copy").attr("deepcopy")(ptr->m_obj, memo);
+            return kep3::planet{pykep::python_udpla(obj)};
+        }
+        return pl;
+    });
     // UDPLA extraction for python stuff.
     planet_class.def("_py_extract", &pykep::generic_py_extract<kep3::planet>);
     // Pickle support.
-- 
2.43.0


From ba6d2f9694de540935a104a4a327ac80e797253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:28 +0000
Subject: [PATCH 40/41] fix: lambert_problem printed x of the right branches
 under the label of the semi major axis

---
 src/lambert_problem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambert_problem.cpp b/src/lambert_problem.cpp
index 3542b25..639b4d4 100644
--- a/src/lambert_problem.cpp
+++ b/src/lambert_problem.cpp
@@ -458,7 +458,7 @@ std::ostream &operator<<(std::ostream &s, const lambert_problem &lp)
         s << " v2 = "
           << "[" << lp.m_v1[1 + 2 * i][0] << ", " << lp.m_v1[1 + 2 * i][1] << ", " << lp.m_v1[1 + 2 * i][2] << "]"
           << std::endl;
-        s << i + 1 << " revs, right. Iters: " << lp.m_iters[2 + 2 * i] << ", a: " << lp.m_x[2 + 2 * i]
+        s << i + 1 << " revs, right. Iters: " << lp.m_iters[2 + 2 * i] << ", x: " << lp.m_x[2 + 2 * i]
           << ", a: " << lp.m_s / 2.0 / (1 - lp.m_x[2 + 2 * i] * lp.m_x[2 + 2 * i]) << std::endl;
         s << "\tv1 = "
           << "[" << lp.m_v0[2 + 2 * i][0] << ", " << lp.m_v0[2 + 2 * i][1] << ", " << lp.m_v0[2 + 2 * i][2] << "]";
-- 
2.43.0


From 5f0ab9d49d39252ba2bbc26f50c536d482072c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:28 +0000
Subject: [PATCH 41/41] fix: the plot of an MGA trajectory ignored the number
 of points asked for

---
 pykep/trajopt/_mga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykep/trajopt/_mga.py b/pykep/trajopt/_mga.py
index c068e3a..dbce66b 100644
--- a/pykep/trajopt/_mga.py
+++ b/pykep/trajopt/_mga.py
@@ -494,10 +494,10 @@ class mga:
         
         if len(leg_ids) == 0:
             for lp in lps:
-                _pk.plot.add_lambert(ax, lp, N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lp, N = N, sol = 0, units=units, c=c, **kwargs)
         else:
             for leg_id in leg_ids:
-                _pk.plot.add_lambert(ax, lps[leg_id], N = 60, sol = 0, units=units, c=c, **kwargs)
+                _pk.plot.add_lambert(ax, lps[leg_id], N = N, sol = 0, units=units, c=c, **kwargs)
 
         return ax
 
-- 
2.43.0

