From 5dc4871f5f70ba162b4de3a47f4b62316f2fd294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 01/32] fix: label eigenvalues with the index of their bracket,
 not with the angle at the root

The matching angle may jump by a multiple of pi within one rounding error of an
eigenvalue (tunnelling), rounding it gave duplicate or skipped indices.
---
 matslise/matslise/matslise.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 770d1b3..7b760d0 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -58,7 +58,7 @@ Matslise<Scalar>::matchingError(const Scalar &E, const Y<Scalar> &left, const Y<
 }
 
 template<typename Scalar>
-pair<int, Scalar>
+Scalar
 newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right, bool use_h) {
     Scalar adjust, error, derror, theta;
     int i = 0;
@@ -72,10 +72,7 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
         // cerr << "Newton-iteration did not converge for E=" << (double) E << endl;
     }
 
-    int index = (int) round(theta / constants<Scalar>::PI);
-    if (index < 0)
-        index = 0;
-    return make_pair(index, E);
+    return E;
 }
 
 template<typename Scalar>
@@ -116,7 +113,8 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
         if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
-            eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+            // The index follows from the interval, the matching angle at the eigenvalue itself may be ill-conditioned
+            eigenvalues.push_back({ia, newtonIteration<Scalar>(ms, c, left, right, true)});
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
@@ -126,7 +124,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
             } else {
                 if (abs(tc - ia) < 1e-8)
-                    eigenvalues.push_back(newtonIteration<Scalar>(ms, c, left, right, true));
+                    eigenvalues.push_back({ia, newtonIteration<Scalar>(ms, c, left, right, true)});
                 else if ((ta - ia) * (tc - ia) < 0)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
@@ -186,7 +184,7 @@ template<typename Scalar>
 Scalar
 Matslise<Scalar>::eigenvalueError(const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right, int) const {
     MATSLISE_SCOPED_TIMER("Matslise::eigenvalueError");
-    return abs(E - newtonIteration<Scalar>(this, E, left, right, false).second);
+    return abs(E - newtonIteration<Scalar>(this, E, left, right, false));
 }
 
 template<typename Scalar>
-- 
2.43.0


From 0fd2616bda8659d70a1f99ed9f905d2ad0b07b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 02/32] fix: do not lose an eigenvalue that coincides with the
 left end of a search interval

---
 matslise/matslise/matslise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 7b760d0..008e3e1 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -125,7 +125,7 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
             } else {
                 if (abs(tc - ia) < 1e-8)
                     eigenvalues.push_back({ia, newtonIteration<Scalar>(ms, c, left, right, true)});
-                else if ((ta - ia) * (tc - ia) < 0)
+                else if (ia < tc)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
                     toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-- 
2.43.0


From 61736bd2a074bfa506870949146bbb8cea7814d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 03/32] fix: find every eigenvalue of a tight cluster

Intervals still holding more than one eigenvalue were handed to Newton's
iteration after 30 bisections, which returned only one of them.
---
 matslise/matslise/matslise.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 008e3e1..c75a3cf 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -112,14 +112,22 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if ((tb - ta < 0.01 && depth > 3) || depth > 30) {
+        if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30)) {
             // The index follows from the interval, the matching angle at the eigenvalue itself may be ill-conditioned
             eigenvalues.push_back({ia, newtonIteration<Scalar>(ms, c, left, right, true)});
+        } else if (c <= a || b <= c) {
+            // These eigenvalues can't be told apart in the working precision
+            for (int i = max(ia, Imin); i < min(ib, Imax); ++i)
+                eigenvalues.push_back({i, c});
         } else {
             tc = get<2>(ms->matchingError(c, left, right)) / constants<Scalar>::PI;
             if (isnan(tc)) {
                 // cerr << "Matslise::computeEigenvalues(): some interval converted to NaN" << endl;
-            } else if (ia + 1 < ib) {
+                continue;
+            }
+            // The matching angle is increasing, up to rounding errors
+            tc = max(ta, min(tb, tc));
+            if (ia + 1 < ib) {
                 toCheck.push(make_tuple(a, ta, c, tc, 1 + depth));
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
             } else {
-- 
2.43.0


From 13169651f1ccb143a67fea39fb8f62ffec7c50cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 04/32] fix: keep bisecting when Newton's iteration leaves the
 bracket of its eigenvalue

---
 matslise/matslise/matslise.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index c75a3cf..ef50237 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -101,6 +101,15 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
 
     Scalar a, ta, b, tb, c, tc;
     int ia, ib, depth;
+    // Newton's iteration only counts when it stays in the interval [a, b], which contains only eigenvalue ia.
+    // The index follows from this interval, the matching angle at the eigenvalue itself may be ill-conditioned.
+    auto refine = [&](const Scalar &guess) {
+        Scalar E = newtonIteration<Scalar>(ms, guess, left, right, true);
+        if (!(a <= E && E <= b))
+            return false;
+        eigenvalues.push_back({ia, E});
+        return true;
+    };
     while (!toCheck.empty()) {
         tie(a, ta, b, tb, depth) = toCheck.front();
         toCheck.pop();
@@ -112,10 +121,9 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
-        if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30)) {
-            // The index follows from the interval, the matching angle at the eigenvalue itself may be ill-conditioned
-            eigenvalues.push_back({ia, newtonIteration<Scalar>(ms, c, left, right, true)});
-        } else if (c <= a || b <= c) {
+        if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30) && refine(c))
+            continue;
+        if (c <= a || b <= c) {
             // These eigenvalues can't be told apart in the working precision
             for (int i = max(ia, Imin); i < min(ib, Imax); ++i)
                 eigenvalues.push_back({i, c});
@@ -131,9 +139,9 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
                 toCheck.push(make_tuple(a, ta, c, tc, 1 + depth));
                 toCheck.push(make_tuple(c, tc, b, tb, 1 + depth));
             } else {
-                if (abs(tc - ia) < 1e-8)
-                    eigenvalues.push_back({ia, newtonIteration<Scalar>(ms, c, left, right, true)});
-                else if (ia < tc)
+                if (abs(tc - ia) < 1e-8 && refine(c))
+                    continue;
+                if (ia < tc)
                     toCheck.push(make_tuple(a, ta, c, tc, depth + 1));
                 else
                     toCheck.push(make_tuple(c, tc, b, tb, depth + 1));
-- 
2.43.0


From 64771a178aa847f51ff7e0671990cad6b4022909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 05/32] fix: count the zeros of a solution inside a sector
 correctly

The Pruefer angle of a propagation that starts or ends inside a sector was off by pi in several cases: when the angle
for the partial sector decreases, when a Dirichlet value is propagated over a zero length, when V varies a lot over
the sector, and when the angle rounds to a multiple of pi.
---
 matslise/matslise/matslise.cpp |  2 +-
 matslise/matslise/sector.cpp   | 99 ++++++++++++++++++----------------
 matslise/util/theta.h          |  8 +++
 3 files changed, 63 insertions(+), 46 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index ef50237..fb56e2c 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -26,7 +26,7 @@ Matslise<Scalar>::propagate(const Scalar &E, const Y<Scalar, 1, cols> &_y,
     Eigen::Array<Scalar, cols, 1> theta;
     for (int i = 0; i < cols; ++i) {
         Scalar t = sectors[sectorIndex]->theta0(E, y.col(i));
-        if (t < 0 || (a > b && t == 0))
+        if (a > b && t == 0)
             t += constants<Scalar>::PI;
         theta[i] = t;
     }
diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index b599874..7e0aba8 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -96,63 +96,72 @@ T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, bool use_h) cons
     return t;
 }
 
-template<typename Scalar>
-Scalar rescale(const Scalar &theta, const Scalar &sigma) {
-    Scalar sinTheta = sin(theta);
-    Scalar cosTheta = cos(theta);
-    return theta + atan2((sigma - 1) * sinTheta * cosTheta, 1 + (sigma - 1) * sinTheta * sinTheta);
-}
-
 template<typename Scalar>
 Scalar Matslise<Scalar>::Sector::theta0(const Scalar &E, const Y<Scalar> &y0) const {
     Scalar scaling = E - v0Match > 1 ? sqrt(E - v0Match) : 1;
-    if (E > vs[0]) {
-        Scalar omega = sqrt(E - vs[0]);
-        Scalar theta0 = atan_safe(y0.data[0] * omega, y0.data[1]);
-        return rescale(theta0, scaling / omega);
-    } else {
-        return atan_safe(scaling * y0.data[0], y0.data[1]);
-    }
+    return pruferAngle<Scalar>(scaling * y0.data[0], y0.data[1]);
 }
 
+// The number of zeros in (x0, x1], with x1 = x0 + delta. The solution has values y0 in x0 and y1 in x1.
+// One of both is the base point of the sector.
 template<typename Scalar, typename Y0, typename Y1>
-Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scalar &E, const Scalar &delta,
-                    const Y0 &y0, const Y1 &y1) {
-    Scalar scaling = E - sector.v0Match > 1 ? sqrt(E - sector.v0Match) : 1;
+Scalar countZeros(const typename Matslise<Scalar>::Sector &sector, const Scalar &E, const Scalar &delta,
+                  const Y0 &y0, const Y1 &y1) {
+    // In this sector: vs[0] - deviation <= V(x) <= vs[0] + deviation
+    Scalar deviation = 0;
+    Scalar hi = 1;
+    for (int i = 1; i < MATSLISE_N; ++i)
+        deviation += abs(sector.vs[i]) * (hi *= sector.h);
+
     if (E > sector.vs[0]) {
-        // page 56 (PhD Ledoux)
         Scalar omega = sqrt(E - sector.vs[0]);
-        Scalar theta0 = atan_safe(y0[0] * omega, y0[1]);
-        Scalar phi_star = atan_safe(y1[0] * omega, y1[1]);
-        Scalar phi_bar = omega * delta + theta0;
-        phi_bar -= floor(phi_bar / constants<Scalar>::PI) * constants<Scalar>::PI;
-        Scalar theta1 = phi_star - phi_bar;
-        if (theta1 < -constants<Scalar>::PI / 2)
-            theta1 += constants<Scalar>::PI;
-        else if (theta1 > constants<Scalar>::PI / 2)
-            theta1 -= constants<Scalar>::PI;
-        theta1 += theta0 + omega * delta;
-
-        if (theta1 < theta0) {
-            // theta has to be increasing
-            theta1 += constants<Scalar>::PI;
+        if (deviation * delta < omega) {
+            // page 56 (PhD Ledoux)
+            // The angle differs less than 1 from the angle for the constant potential vs[0].
+            Scalar zeros = round((pruferAngle<Scalar>(y0[0] * omega, y0[1]) + omega * delta
+                                  - pruferAngle<Scalar>(y1[0] * omega, y1[1])) / constants<Scalar>::PI);
+            return zeros > 0 ? zeros : Scalar(0);
         }
+    }
 
-        return rescale(theta1, scaling / omega) - rescale(theta0, scaling / omega);
-    } else {
-        Scalar theta0 = atan_safe(scaling * y0[0], y0[1]);
-        Scalar theta1 = atan_safe(scaling * y1[0], y1[1]);
-        if (y0[0] * y1[0] >= 0) {
-            int signTheta0 = theta0 == 0 ? 1 : sign(theta0);
-            int signTheta1 = theta1 == 0 ? -1 : sign(theta1);
-            if (signTheta0 * signTheta1 < 0)
-                theta1 += signTheta0 * constants<Scalar>::PI;
-        } else if (theta0 * theta1 > 0) {
-            theta1 += constants<Scalar>::PI;
-        }
+    // Zeros are at least pi/sqrt(E-V) apart. Split the interval such that each part contains at most one zero.
+    int parts = 1;
+    Scalar kinetic = E - sector.vs[0] + deviation;
+    if (kinetic > 0) {
+        Scalar phase = sqrt(kinetic) * delta / constants<Scalar>::PI;
+        if (phase >= 1)
+            parts = phase < 100 ? 1 + (int) phase : 100;
+    }
 
-        return theta1 - theta0;
+    int zeros = 0;
+    int s = sign(y0[0]) == 0 ? sign(y0[1]) : sign(y0[0]);
+    for (int i = 1; i <= parts; ++i) {
+        Scalar y = y1[0];
+        if (i < parts) {
+            if (sector.direction == backward) {
+                const T<Scalar> t = sector.calculateT(E, (parts - i) * delta / parts, false);
+                y = t.t(0, 0) * y1[0] - t.t(0, 1) * y1[1];
+            } else {
+                const T<Scalar> t = sector.calculateT(E, i * delta / parts, false);
+                y = t.t(0, 0) * y0[0] + t.t(0, 1) * y0[1];
+            }
+        }
+        if (sign(y) != s) {
+            ++zeros;
+            s = -s;
+        }
     }
+    return zeros;
+}
+
+template<typename Scalar, typename Y0, typename Y1>
+Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scalar &E, const Scalar &delta,
+                    const Y0 &y0, const Y1 &y1) {
+    if (abs(delta) <= EPS) // y0 and y1 coincide
+        return 0;
+    Scalar scaling = E - sector.v0Match > 1 ? sqrt(E - sector.v0Match) : 1;
+    return pruferAngle<Scalar>(scaling * y1[0], y1[1]) - pruferAngle<Scalar>(scaling * y0[0], y0[1])
+           + countZeros<Scalar>(sector, E, delta, y0, y1) * constants<Scalar>::PI;
 }
 
 template<typename Scalar>
diff --git a/matslise/util/theta.h b/matslise/util/theta.h
index 690d69e..dd89e43 100644
--- a/matslise/util/theta.h
+++ b/matslise/util/theta.h
@@ -15,6 +15,14 @@ inline Scalar atan_safe(const Scalar &y, const Scalar &x) {
 }
 
 namespace matslise {
+    // The angle in [0, pi] of the line through (dy, y). It only reaches pi by rounding: that is just before a zero of y.
+    template<typename Scalar>
+    inline Scalar pruferAngle(const Scalar &y, const Scalar &dy) {
+        if (y == 0)
+            return 0;
+        return y > 0 ? atan2(y, dy) : atan2(-y, -dy);
+    }
+
     template<typename Scalar>
     inline Scalar theta(const Y <Scalar> &y) {
         return atan_safe<Scalar>(y.y(0, 0), y.y(1, 0));
-- 
2.43.0


From f426023f5347b91a701b5410fa72e4f535a3d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 06/32] fix: derivative of a half-range eigenfunction at a
 single negative point

---
 matslise/matslise/halfrange.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/halfrange.cpp b/matslise/matslise/halfrange.cpp
index 30af658..5999caf 100644
--- a/matslise/matslise/halfrange.cpp
+++ b/matslise/matslise/halfrange.cpp
@@ -47,8 +47,9 @@ public:
     virtual Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         Array<Scalar, 2, 1> c = (*eigenfunction)(x < 0 ? -x : x);
         c *= sqrt(Scalar(.5));
-        if (x < 0 && !even)
-            c *= -1;
+        // the derivative of an even function is odd, and the other way around
+        if (x < 0)
+            c[even ? 1 : 0] *= -1;
         return c;
     }
 
-- 
2.43.0


From 0ab43fc25779d2f0a1f6acd6d8d56c751d51c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 07/32] fix: do not accept an eigenvalue from a Newton
 iteration that has not converged

---
 matslise/matslise/matslise.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index fb56e2c..c99c185 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -57,8 +57,9 @@ Matslise<Scalar>::matchingError(const Scalar &E, const Y<Scalar> &left, const Y<
                       thetaL - thetaR);
 }
 
+// Returns the value where the iteration stopped, and whether it did converge.
 template<typename Scalar>
-Scalar
+pair<Scalar, bool>
 newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right, bool use_h) {
     Scalar adjust, error, derror, theta;
     int i = 0;
@@ -68,11 +69,8 @@ newtonIteration(const Matslise<Scalar> *ms, Scalar E, const Y<Scalar> &left, con
         E -= adjust;
     } while (++i < 20 && abs(adjust) > ms->tolerance);
 
-    if (i >= 20 && abs(adjust) > 100 * ms->tolerance) {
-        // cerr << "Newton-iteration did not converge for E=" << (double) E << endl;
-    }
-
-    return E;
+    Scalar scale = abs(E) > 1 ? abs(E) : Scalar(1);
+    return {E, abs(adjust) <= 10 * ms->tolerance * scale};
 }
 
 template<typename Scalar>
@@ -104,8 +102,10 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
     // Newton's iteration only counts when it stays in the interval [a, b], which contains only eigenvalue ia.
     // The index follows from this interval, the matching angle at the eigenvalue itself may be ill-conditioned.
     auto refine = [&](const Scalar &guess) {
-        Scalar E = newtonIteration<Scalar>(ms, guess, left, right, true);
-        if (!(a <= E && E <= b))
+        Scalar E;
+        bool converged;
+        tie(E, converged) = newtonIteration<Scalar>(ms, guess, left, right, true);
+        if (!converged || !(a <= E && E <= b))
             return false;
         eigenvalues.push_back({ia, E});
         return true;
@@ -200,7 +200,7 @@ template<typename Scalar>
 Scalar
 Matslise<Scalar>::eigenvalueError(const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right, int) const {
     MATSLISE_SCOPED_TIMER("Matslise::eigenvalueError");
-    return abs(E - newtonIteration<Scalar>(this, E, left, right, false));
+    return abs(E - newtonIteration<Scalar>(this, E, left, right, false).first);
 }
 
 template<typename Scalar>
-- 
2.43.0


From 9c07a82c996927ce801093572efed40d41d2815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 08/32] fix: bisect when the secant point of a bracket rounds
 to one of its ends

---
 matslise/matslise/matslise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index c99c185..7d731fb 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -121,6 +121,8 @@ computeEigenvaluesHelper(const Matslise<Scalar> *ms, Scalar Emin, Scalar Emax, i
         c = ia + 1 < ib || tb - ta < 1e-5 || depth % 2 == 0
             ? .5 * (a + b)
             : ((tb - ia) * a - (ta - ia) * b) / (tb - ta);
+        if (c <= a || b <= c)
+            c = .5 * (a + b);
         if (ia + 1 == ib && ((tb - ta < 0.01 && depth > 3) || depth > 30) && refine(c))
             continue;
         if (c <= a || b <= c) {
-- 
2.43.0


From 6afc227a03dba4356667edcca68cd72049f6fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 09/32] fix: automatic mesh construction did not terminate when
 a jump left a sliver of a sector

---
 matslise/util/sectorbuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index b4c9ffc..ab5491d 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -59,6 +59,7 @@ typename Problem::Sector *automaticNextSector(
         const typename Problem::Scalar &tolerance, Direction direction) {
     typedef typename Problem::Scalar Scalar;
     typedef typename Problem::Sector Sector;
+    const Scalar initialH = h;
     Scalar xmin = direction == Direction::forward ? left : right - h;
     Scalar xmax = direction == Direction::forward ? left + h : right;
     if (direction == Direction::forward && xmax > right) {
@@ -131,6 +132,10 @@ typename Problem::Sector *automaticNextSector(
         }
     }
 
+    // A sector that was cut off (by a jump for example) doesn't tell anything about the next one
+    if (s->min == left && s->max == right && h < initialH)
+        h = initialH;
+
     return s;
 }
 
-- 
2.43.0


From 8cceaa1d17dc3ed8336b0219ebc96ac59deb0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 10/32] fix: eigenfunctions were NaN when one side vanishes in
 the matching point

---
 matslise/matslise/matslise.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 7d731fb..71c6f27 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -223,10 +223,18 @@ vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E,
     }
     Y<Scalar> &yr = ys[ms.matchIndex + 1];
 
-    Scalar s = (abs(yr.data[0]) + abs(yl.data[0]) > abs(yr.data[1]) + abs(yl.data[1])) ? yl.data[0] / yr.data[0] :
-               yl.data[1] / yr.data[1];
-    Scalar norm = yl.data[2] * yl.data[1] - yl.data[3] * yl.data[0];
-    norm -= s * s * (yr.data[2] * yr.data[1] - yr.data[3] * yr.data[0]);
+    // Scale both sides such that they agree in the largest component. One of both may vanish in the matching point.
+    int largest = (abs(yr.data[0]) + abs(yl.data[0]) > abs(yr.data[1]) + abs(yl.data[1])) ? 0 : 1;
+    Scalar scaleLeft = 1, scaleRight = 1;
+    if (abs(yl.data[largest]) < abs(yr.data[largest])) {
+        scaleRight = yl.data[largest] / yr.data[largest];
+    } else {
+        scaleLeft = abs(yr.data[largest] / yl.data[largest]);
+        if ((yl.data[largest] < 0) != (yr.data[largest] < 0))
+            scaleRight = -1;
+    }
+    Scalar norm = scaleLeft * scaleLeft * (yl.data[2] * yl.data[1] - yl.data[3] * yl.data[0]);
+    norm -= scaleRight * scaleRight * (yr.data[2] * yr.data[1] - yr.data[3] * yr.data[0]);
     if (norm > 0) {
         norm = sqrt(norm);
     } else {
@@ -235,9 +243,9 @@ vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E,
     }
     int i = 0;
     for (; i <= ms.matchIndex; ++i)
-        ys[i] *= ((Scalar) 1.) / norm;
+        ys[i] *= scaleLeft / norm;
     for (; i <= ms.sectorCount; ++i)
-        ys[i] *= s / norm;
+        ys[i] *= scaleRight / norm;
     return ys;
 }
 
-- 
2.43.0


From 3184538b0c1d9796caae5a892e3a5f8cbe7f5eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 11/32] fix: match an eigenfunction where it is visible

An eigenfunction behind a barrier has decayed to (almost) nothing in the fixed matching point. Scaling both sides there gave
functions with a jump or a wrong norm, and evaluation inside the long intervals of a piecewise constant potential gave noise.
---
 matslise/matslise/matslise.cpp | 93 +++++++++++++++++++++++++---------
 1 file changed, 70 insertions(+), 23 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 71c6f27..51d292e 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -205,23 +205,65 @@ Matslise<Scalar>::eigenvalueError(const Scalar &E, const Y<Scalar> &left, const
     return abs(E - newtonIteration<Scalar>(this, E, left, right, false).first);
 }
 
+// Finds a mesh point where the eigenfunction may be matched. An eigenfunction that lives behind a barrier has decayed
+// to almost nothing in the default matching point, and can't be matched there.
 template<typename Scalar>
-vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E,
-                                   const Y<Scalar> &left, const Y<Scalar> &right) {
+int findMatch(const vector<Y<Scalar>> &yl, const vector<Y<Scalar>> &yr, int match) {
+    auto size = [&](int i) {
+        Scalar s = log(abs(yl[i].data[0]) + abs(yl[i].data[1])) + log(abs(yr[i].data[0]) + abs(yr[i].data[1]));
+        return isfinite(s) ? s : -numeric_limits<Scalar>::infinity();
+    };
+    int best = match;
+    Scalar defaultSize = size(match), bestSize = defaultSize;
+    for (int i = 1; i + 1 < (int) yl.size(); ++i) {
+        Scalar s = size(i);
+        if (s > bestSize) {
+            bestSize = s;
+            best = i;
+        }
+    }
+    Scalar lr = yl[match].data[0] * yr[match].data[1];
+    Scalar rl = yl[match].data[1] * yr[match].data[0];
+    bool agree = abs(lr - rl) < 1e-4 * (abs(lr) + abs(rl));
+    return agree && bestSize - defaultSize < 9 ? match : best;
+}
+
+// The eigenfunction in each of the mesh points. In 'sectors' some are replaced by a copy (owned by 'turned') when another
+// matching point is needed: a solution should always be evaluated in the direction in which it is propagated.
+template<typename Scalar>
+vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E, const Y<Scalar> &left, const Y<Scalar> &right,
+                                   vector<const typename Matslise<Scalar>::Sector *> &sectors,
+                                   vector<unique_ptr<typename Matslise<Scalar>::Sector>> &turned) {
+    typedef typename Matslise<Scalar>::Sector Sector;
     vector<Y<Scalar>> ys(ms.sectorCount + 1);
+    vector<Y<Scalar>> ysRight(ms.sectorCount + 1);
+    auto fromLeft = [&](int begin, int end) {
+        for (int i = begin; i < end; ++i)
+            ys[i + 1] = sectors[i]->template propagate<false>(E, ys[i], sectors[i]->min, sectors[i]->max);
+    };
+    auto fromRight = [&](int begin, int end) {
+        for (int i = begin - 1; i >= end; --i)
+            ysRight[i] = sectors[i]->template propagate<false>(E, ysRight[i + 1], sectors[i]->max, sectors[i]->min);
+    };
     ys[0] = left;
-    for (int i = 0; i <= ms.matchIndex; ++i) {
-        const typename Matslise<Scalar>::Sector &sector = *ms.sectors[i];
-        ys[i + 1] = sector.template propagate<false>(E, ys[i], sector.min, sector.max);
+    fromLeft(0, ms.sectorCount);
+    ysRight[ms.sectorCount] = right;
+    fromRight(ms.sectorCount, 0);
+
+    const int defaultMatch = ms.matchIndex + 1;
+    const int match = findMatch(ys, ysRight, defaultMatch);
+    for (int i = min(match, defaultMatch); i < max(match, defaultMatch); ++i) {
+        turned.push_back(make_unique<Sector>(*sectors[i]));
+        turned.back()->setDirection(match < defaultMatch ? matslise::backward : matslise::forward);
+        sectors[i] = turned.back().get();
     }
-    Y<Scalar> yl = ys[ms.matchIndex + 1];
+    if (match < defaultMatch)
+        fromRight(defaultMatch, match);
+    else
+        fromLeft(defaultMatch, match);
 
-    ys[ms.sectorCount] = right;
-    for (int i = ms.sectorCount - 1; i > ms.matchIndex; --i) {
-        const typename Matslise<Scalar>::Sector &sector = *ms.sectors[i];
-        ys[i] = sector.template propagate<false>(E, ys[i + 1], sector.max, sector.min);
-    }
-    Y<Scalar> &yr = ys[ms.matchIndex + 1];
+    const Y<Scalar> yl = ys[match];
+    const Y<Scalar> yr = ysRight[match];
 
     // Scale both sides such that they agree in the largest component. One of both may vanish in the matching point.
     int largest = (abs(yr.data[0]) + abs(yl.data[0]) > abs(yr.data[1]) + abs(yl.data[1])) ? 0 : 1;
@@ -241,11 +283,12 @@ vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E,
         cerr << "There are problems with the normalization." << endl;
         norm = 1;
     }
-    int i = 0;
-    for (; i <= ms.matchIndex; ++i)
+    for (int i = 0; i < match; ++i)
         ys[i] *= scaleLeft / norm;
-    for (; i <= ms.sectorCount; ++i)
+    for (int i = match; i <= ms.sectorCount; ++i) {
+        ys[i] = ysRight[i];
         ys[i] *= scaleRight / norm;
+    }
     return ys;
 }
 
@@ -266,19 +309,23 @@ class MEigenfunction : public Matslise<Scalar>::Eigenfunction {
 public:
     const Matslise<Scalar> *matslise;
     Scalar E;
+    vector<const typename Matslise<Scalar>::Sector *> sectors;
+    vector<unique_ptr<typename Matslise<Scalar>::Sector>> turned;
     vector<Y<Scalar>> steps;
 
     MEigenfunction(const Matslise<Scalar> *matslise,
                    const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right) : matslise(matslise), E(E) {
-        steps = propagationSteps(*matslise, E, left, right);
+        for (auto &sector : matslise->sectors)
+            sectors.push_back(sector.get());
+        steps = propagationSteps<Scalar>(*matslise, E, left, right, sectors, turned);
     }
 
     virtual Eigen::Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         MATSLISE_SCOPED_TIMER("Matslise::Eigenfunction::operator()(Scalar)");
         if (x < matslise->domain.min || x > matslise->domain.max)
             return Eigen::Array<Scalar, 2, 1>::Zero();
-        auto sector = findSector(x, matslise->sectors.begin(), matslise->sectors.end());
-        int sectorIndex = sector - matslise->sectors.begin();
+        auto sector = findSector(x, sectors.begin(), sectors.end());
+        int sectorIndex = sector - sectors.begin();
 
         if ((**sector).direction == matslise::forward) {
             return (**sector).template propagate<false>(E, steps[sectorIndex], (**sector).min, x).y();
@@ -295,18 +342,18 @@ public:
         Array<Scalar, Dynamic, 2> ys(n, 2);
 
         int sectorIndex = 0;
-        auto sector = matslise->sectors.begin();
+        auto sector = sectors.begin();
         for (Eigen::Index i = 0; i < n; ++i) {
             if (x[i] < matslise->domain.min || x[i] > matslise->domain.max) {
                 ys.row(i).setZero();
                 continue;
             }
             if (x[i] < (**sector).min) {
-                sector = findSector(x[i], matslise->sectors.begin(), sector);
-                sectorIndex = sector - matslise->sectors.begin();
+                sector = findSector(x[i], sectors.begin(), sector);
+                sectorIndex = sector - sectors.begin();
             } else if (x[i] > (**sector).max) {
-                sector = findSector(x[i], sector + 1, matslise->sectors.end());
-                sectorIndex = sector - matslise->sectors.begin();
+                sector = findSector(x[i], sector + 1, sectors.end());
+                sectorIndex = sector - sectors.begin();
             }
             if ((**sector).direction == matslise::forward) {
                 ys.row(i) = (**sector).template propagate<false>(E, steps[sectorIndex], (**sector).min, x[i])
-- 
2.43.0


From 1c83c09913dce52484917ce8322b41f733bb1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 12/32] fix: Liouville transformation did not terminate for
 coefficients of a large size

The change of p*w over a piece was required to be accurate to an absolute 1e-12, below its rounding errors when p*w is large.
---
 matslise/liouville/liouville.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 251ba41..613cd33 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -91,6 +91,9 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
         Piece right{lt, {rMid, next.r.max}};
         setXMin(right, left.x.max);
 
+        // pwx is only known up to rounding errors relative to its size
+        Scalar pwSize = std::max(Scalar(1), std::max(abs(next.pwx(0)), abs(next.pwx(1))));
+
         if ((next.x.max - next.x.min) < 1e-8 || (
                 relError(right.x.max, next.x.max) < 1e-14
                 && pieceError<Scalar>([](const Piece &p) {
@@ -100,11 +103,11 @@ constructPiecewise(const LiouvilleTransformation<Scalar> &lt) {
                     return Legendre<Scalar, 12>([&p](Scalar x) { return p.x2r(x); }, 0, 1).integrate() *
                            (p.x.max - p.x.min);
                 }, next, left, right) < 1e-14
-                && pieceError<Scalar>([](const Piece &p) {
-                    return p.pwx.integral(1) * (p.x.max - p.x.min);
+                && pieceError<Scalar>([&pwSize](const Piece &p) {
+                    return p.pwx.integral(1) * (p.x.max - p.x.min) / pwSize;
                 }, next, left, right) < 1e-14
-                && pieceError<Scalar>([](const Piece &p) {
-                    return p.pwx(1) - p.pwx(0);
+                && pieceError<Scalar>([&pwSize](const Piece &p) {
+                    return (p.pwx(1) - p.pwx(0)) / pwSize;
                 }, next, left, right) < 1e-12
         )) {
             toDo.pop_back();
-- 
2.43.0


From 80f99a69a8aa72f5f5107ab7a11ff83740a5ea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:50 +0000
Subject: [PATCH 13/32] fix: LiouvilleTransformation::y2z gave a wrong
 derivative

---
 matslise/liouville/liouville.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/matslise/liouville/liouville.cpp b/matslise/liouville/liouville.cpp
index 613cd33..439c936 100644
--- a/matslise/liouville/liouville.cpp
+++ b/matslise/liouville/liouville.cpp
@@ -228,10 +228,10 @@ Y<Scalar> LiouvilleTransformation<Scalar>::y2z(const Scalar &x, const Y<Scalar>
     z.block(None) *= sigma;
     z.block(dE) *= sigma;
 
-    z.block(dX) *= dsigma;
-    z.block(dXdE) *= dsigma;
-    z.block(dX) += sigma * xdr * y.block(None);
-    z.block(dXdE) += sigma * xdr * y.block(dE);
+    z.block(dX) *= sigma * xdr;
+    z.block(dXdE) *= sigma * xdr;
+    z.block(dX) += dsigma * y.block(None);
+    z.block(dXdE) += dsigma * y.block(dE);
 
     return z;
 }
-- 
2.43.0


From d4aabe09f91cc16ea2231cae1fd9f1fcfda56afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 14/32] fix: keep refining the mesh of a short domain

---
 matslise/util/sectorbuilder.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index ab5491d..2f46e42 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -56,7 +56,7 @@ template<typename Problem>
 typename Problem::Sector *automaticNextSector(
         const Problem *ms, typename Problem::Scalar &h,
         const typename Problem::Scalar &left, const typename Problem::Scalar &right,
-        const typename Problem::Scalar &tolerance, Direction direction) {
+        const typename Problem::Scalar &tolerance, const typename Problem::Scalar &minH, Direction direction) {
     typedef typename Problem::Scalar Scalar;
     typedef typename Problem::Sector Sector;
     const Scalar initialH = h;
@@ -71,7 +71,7 @@ typename Problem::Sector *automaticNextSector(
     int steps = 0;
     Sector *s = new Sector(ms, xmin, xmax, direction);
     Scalar error = s->error();
-    while (error > tolerance && steps < 10 && h > 1e-3) {
+    while (error > tolerance && steps < 10 && h > minH) {
         ++steps;
         h *= std::max(Scalar(.1), .99 * Scalar(pow(tolerance / error, Scalar(1. / (Problem::order - 1)))));
         if (direction == Direction::forward) {
@@ -151,6 +151,8 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
     Scalar mid = 0.4956864123 * max + 0.5043135877 * min;
     Scalar forwardH = .33 * (max - min);
     Scalar backwardH = forwardH;
+    // Sectors are not refined any further below this width
+    const Scalar minH = 1e-3 * std::min(Scalar(1), max - min);
     auto forwardJumpPosition = jumps.begin();
     auto backwardJumpPosition = jumps.rbegin();
     auto nextForwardJump = [&]() {
@@ -160,10 +162,10 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
         return backwardJumpPosition == jumps.rend() ? min : *backwardJumpPosition;
     };
     forward.emplace_back(
-            automaticNextSector(problem, forwardH, min, std::min(mid, nextForwardJump()), tolerance,
+            automaticNextSector(problem, forwardH, min, std::min(mid, nextForwardJump()), tolerance, minH,
                                 Direction::forward));
     backward.emplace_back(
-            automaticNextSector(problem, backwardH, std::max(mid, nextBackwardJump()), max, tolerance,
+            automaticNextSector(problem, backwardH, std::max(mid, nextBackwardJump()), max, tolerance, minH,
                                 Direction::backward));
 
 
@@ -174,14 +176,14 @@ AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, cons
             forward.emplace_back(automaticNextSector(
                     problem, forwardH,
                     forward.back()->max, std::min(backward.back()->min, nextForwardJump()),
-                    tolerance, Direction::forward));
+                    tolerance, minH, Direction::forward));
         } else {
             if (backward.back()->min == nextBackwardJump())
                 ++backwardJumpPosition;
             backward.emplace_back(automaticNextSector(
                     problem, backwardH,
                     std::max(forward.back()->max, nextBackwardJump()), backward.back()->min,
-                    tolerance, Direction::backward));
+                    tolerance, minH, Direction::backward));
         }
     }
 
-- 
2.43.0


From 3574ddb089aae8bc5e6683ef6900acd2451a7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 15/32] fix: start the search for eigenvalues at the scale of
 the problem

---
 matslise/matslise/matslise.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 51d292e..0a88a90 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -161,8 +161,13 @@ template<typename Scalar>
 vector<pair<int, Scalar>>
 Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left, const Y<Scalar> &right) const {
     MATSLISE_SCOPED_TIMER("Matslise::eigenvaluesByIndex");
-    Scalar Emin = -1;
-    Scalar Emax = 1;
+    // The search starts at the scale of the problem: the solutions on a long domain can't be represented for an energy that
+    // is much too low.
+    const Scalar firstStep = 1 / ((domain.max - domain.min) * (domain.max - domain.min));
+    const Scalar start = max(Scalar(-1), estimatePotentialMinimum() - firstStep);
+    Scalar Emin = start;
+    Scalar step = 2 * firstStep;
+    Scalar Emax = start + step;
     while (true) {
         Scalar t = get<2>(matchingError(Emax, left, right)) / constants<Scalar>::PI;
         int i = (int) floor(t);
@@ -171,10 +176,12 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
         else {
             if (i < Imin)
                 Emin = Emax;
-            Emax *= 2;
+            step *= 2;
+            Emax = start + step;
         }
     }
-    if (Emin == -1) {
+    if (Emin == start) {
+        step = firstStep;
         while (true) {
             Scalar t = get<2>(matchingError(Emin, left, right)) / constants<Scalar>::PI;
             int i = (int) ceil(t);
@@ -183,7 +190,8 @@ Matslise<Scalar>::eigenvaluesByIndex(int Imin, int Imax, const Y<Scalar> &left,
             else {
                 if (i > Imax)
                     Emax = Emin;
-                Emin *= 2;
+                Emin = start - step;
+                step *= 2;
             }
         }
     }
-- 
2.43.0


From 3cece9d595958540a6408ee52c37e5c8b88689d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:03 +0000
Subject: [PATCH 16/32] fix: invert the transfer matrices of coupled systems by
 their symplectic structure

---
 matslise/util/y.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/matslise/util/y.h b/matslise/util/y.h
index fd39692..57a5844 100644
--- a/matslise/util/y.h
+++ b/matslise/util/y.h
@@ -166,9 +166,16 @@ namespace matslise {
                 return Y<Scalar, n, r>(tInv * y.y(), tInv * y.ydE() + dtInv * y.y());
             } else {
                 MATSLISE_SCOPED_TIMER("T/Y dynamic");
-                Eigen::HouseholderQR<Eigen::Matrix<Scalar, n2, n2>> qr_t = t.householderQr();
-                Eigen::Matrix<Scalar, n2, r> yinv = qr_t.solve(y.y());
-                return Y<Scalar, n, r>(yinv, qr_t.solve(y.ydE()) - qr_t.solve(dt * yinv));
+                // t is symplectic: t^-1 = [[t11^T, -t01^T], [-t10^T, t00^T]]
+                const Eigen::Index N = t.rows() / 2;
+                const auto inverse = [N](const Eigen::Matrix<Scalar, n2, n2> &m) {
+                    Eigen::Matrix<Scalar, n2, n2> inv(2 * N, 2 * N);
+                    inv << m.bottomRightCorner(N, N).transpose(), -m.topRightCorner(N, N).transpose(),
+                            -m.bottomLeftCorner(N, N).transpose(), m.topLeftCorner(N, N).transpose();
+                    return inv;
+                };
+                const Eigen::Matrix<Scalar, n2, n2> tInv = inverse(t), dtInv = inverse(dt);
+                return Y<Scalar, n, r>(tInv * y.y(), tInv * y.ydE() + dtInv * y.y());
             }
         }
 
-- 
2.43.0


From fc79d5599af60c8292f8b5ba74d023602f975b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:03 +0000
Subject: [PATCH 17/32] fix: refuse to propagate psi of a coupled system
 outside the domain

---
 matslise/matscs/matscs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matslise/matscs/matscs.cpp b/matslise/matscs/matscs.cpp
index 8dd09f7..b318ba7 100644
--- a/matslise/matscs/matscs.cpp
+++ b/matslise/matscs/matscs.cpp
@@ -56,6 +56,8 @@ Matscs<Scalar>::propagate(const Scalar &E, const Y<Scalar, Dynamic> &_y,
 template<typename Scalar>
 Matrix<Scalar, Dynamic, Dynamic> Matscs<Scalar>::propagatePsi(
         const Scalar &E, const Matrix<Scalar, Dynamic, Dynamic> &_psi, const Scalar &a, const Scalar &b) const {
+    if (!contains(a) || !contains(b))
+        throw runtime_error("Matscs::propagatePsi(): a and b should be in the interval");
     Matrix<Scalar, Dynamic, Dynamic> psi = _psi;
 
     int sectorIndex = find_sector<Matscs<Scalar>>(this, a);
-- 
2.43.0


From fc3e84d07d1f879f3d92fee1818f6552bd111327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 18/32] fix: propagate psi of a coupled system to the left

---
 matslise/matscs/sector.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index eaac019..44bb5d2 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -257,19 +257,21 @@ propagatePsi_delta(const typename Matscs<Scalar>::Sector *sector, Scalar E, cons
     if (delta > sector->h)
         delta = sector->h;
 
-    // TODO: verify
-    Scalar extra = sector->direction == Direction::forward ? 1 : -1;
+    Scalar extra = sector->direction == Direction::backward ? -1 : 1;
     if (delta > 0) {
         T<Scalar, Dynamic> T = sector->calculateT(E, delta);
-        return extra * (T.getT(1, 1) + extra * T.getT(1, 0) * psi).transpose()
+        Matrix<Scalar, Dynamic, Dynamic> numerator, denominator;
+        if (forward) {
+            numerator = T.getT(0, 1) + extra * T.getT(0, 0) * psi;
+            denominator = T.getT(1, 1) + extra * T.getT(1, 0) * psi;
+        } else {
+            numerator = extra * T.getT(1, 1).transpose() * psi - T.getT(0, 1).transpose();
+            denominator = T.getT(0, 0).transpose() - extra * T.getT(1, 0).transpose() * psi;
+        }
+        return extra * denominator.transpose()
                 .colPivHouseholderQr()
-                .solve((T.getT(0, 1) + extra * T.getT(0, 0) * psi).transpose())
+                .solve(numerator.transpose())
                 .transpose();
-    } else if (delta < 0) {
-        T<Scalar, Dynamic> T = sector->calculateT(E, -delta);
-        return extra * (T.getT(1, 1) - extra * psi * T.getT(0, 1))
-                .colPivHouseholderQr()
-                .solve((extra * psi * T.getT(0, 0) - T.getT(1, 0)));
     } else {
         return psi;
     }
-- 
2.43.0


From 1b755c4cae92a9d2641b4e2d254413873e75a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:16 +0000
Subject: [PATCH 19/32] fix: the angle of a coupled system lost whole turns

---
 matslise/matscs.h          |  2 +-
 matslise/matscs/sector.cpp | 85 +++++++++++++++++++++-----------------
 2 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/matslise/matscs.h b/matslise/matscs.h
index 302a305..4abf12e 100644
--- a/matslise/matscs.h
+++ b/matslise/matscs.h
@@ -120,7 +120,7 @@ namespace matslise {
             }
 
         private :
-            MatrixXcs theta(const Y<Scalar, Eigen::Dynamic> &) const;
+            MatrixXcs theta(const Y<Scalar, Eigen::Dynamic> &, const Scalar &scaling) const;
 
             template<int r>
             Y<Scalar, Eigen::Dynamic, r> propagateDeltaColumn(
diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index 44bb5d2..adbb156 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -138,24 +138,24 @@ Y<Scalar, Dynamic, r> Matscs<Scalar>::Sector::propagateDeltaColumn(
 }
 
 template<typename Scalar>
-typename Matscs<Scalar>::MatrixXcs Matscs<Scalar>::Sector::theta(const Y<Scalar, Dynamic> &y) const {
-    return (y.block(dX) - y.block() * complex<Scalar>(0, 1))
+typename Matscs<Scalar>::MatrixXcs
+Matscs<Scalar>::Sector::theta(const Y<Scalar, Dynamic> &y, const Scalar &scaling) const {
+    const complex<Scalar> i_scaling(0, scaling);
+    return (y.block(dX) - y.block() * i_scaling)
             .transpose()
             .partialPivLu()
-            .solve((y.block(dX) + y.block() * complex<Scalar>(0, 1)).transpose())
+            .solve((y.block(dX) + y.block() * i_scaling).transpose())
             .transpose();
 }
 
+// The difference between the arguments of det(theta) without and with scaling (which are equal when Y or Y' vanishes).
 template<typename Scalar, typename InputMatrix>
-inline Array<Scalar, Dynamic, 1> angle(const InputMatrix &m) {
-    Array<Scalar, Dynamic, 1> angles = m.eigenvalues().array().arg();
-
-    const Scalar PI2 = constants<Scalar>::PI * 2;
-    for (Eigen::Index i = 0; i < angles.size(); ++i) {
-        if (angles[i] <= 0)
-            angles[i] += PI2;
-    }
-    return angles;
+inline Scalar unscaledDifference(const InputMatrix &theta, const Scalar &scaling) {
+    Array<Scalar, Dynamic, 1> angles = theta.eigenvalues().array().arg();
+    Scalar difference = 0;
+    for (Eigen::Index i = 0; i < angles.size(); ++i)
+        difference += 2 * atan2(sin(angles[i] / 2) / scaling, cos(angles[i] / 2)) - angles[i];
+    return difference;
 }
 
 template<typename Scalar>
@@ -164,33 +164,44 @@ pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
     Y<Scalar, Dynamic> y1 = propagateDeltaColumn(E, y0, delta, use_h);
 
     Scalar d = (delta > h ? h : delta < -h ? -h : delta);
-
-    ArrayXs Z = d * d * (vs[0].diagonal().array() - ArrayXs::Constant(n, E));
-
-    Array<Scalar, 2, Dynamic> eta = calculateEta<Scalar, 2>(Z);
+    if (abs(d) <= EPS) // y0 and y1 coincide
+        return {y1, 0};
+
+    // In this sector: |V(x) - E| <= bound
+    Scalar bound = (vs[0].diagonal().array() - ArrayXs::Constant(n, E)).abs().maxCoeff();
+    Scalar hi = 1;
+    for (int i = 1; i < MATSCS_N; ++i)
+        bound += vs[i].norm() * (hi *= h);
+
+    // No eigenvalue of the scaled theta rotates faster than 2*max(scaling, bound/scaling) per unit of length. The sector
+    // is split such that over each part all these eigenvalues rotate less than half a turn.
+    const Scalar length = abs(d);
+    const Scalar turn = 1.5;
+    Scalar scaling = sqrt(bound);
+    int parts = 1;
+    if (scaling * length >= turn)
+        parts += (int) (scaling * length / turn);
+    else if (length >= turn)
+        scaling = turn / length;
+    else
+        scaling = bound * length > turn ? bound * length / turn : Scalar(1);
+
+    bool away = (direction == backward ? d <= 0 : d >= 0); // from the base point of this sector
+    const Y<Scalar, Dynamic> &base = away ? y0 : y1;
+    const Y<Scalar, Dynamic> &end = away ? y1 : y0;
+
+    const MatrixXcs thetaBase = theta(base, scaling);
+    MatrixXcs previous = thetaBase;
     Scalar argdet = 0;
-    for (int i = 0; i < n; ++i) {
-        if (Z[i] < 0) {
-            Scalar sZ = (d < 0 ? -1 : 1) * sqrt(-Z[i]);
-            argdet += (sZ + atan2(
-                    (d - sZ) * eta(1, i) * eta(0, i),
-                    1 + (d * sZ + Z[i]) * eta(1, i) * eta(1, i)));
-        } else {
-            argdet += atan2(d * eta(1, i), eta(0, i));
-        }
+    for (int i = 1; i <= parts; ++i) {
+        MatrixXcs next = theta(i == parts ? end : propagateDeltaColumn(
+                E, base, (away ? d : -d) * i / parts, false), scaling);
+        argdet += previous.partialPivLu().solve(next).eigenvalues().array().arg().sum();
+        previous = next;
     }
-    argdet *= 2;
-
-    MatrixXcs thetaZ0 = theta(y0);
-    MatrixXcs thetaZ = theta(y1);
-    ArrayXs betas = angle<Scalar>(thetaZ);
-    const complex<Scalar> i_delta(0, d);
-    ArrayXs alphas = angle<Scalar>(
-            ((eta.row(0) + i_delta * eta.row(1)) / (eta.row(0) - i_delta * eta.row(1))).matrix().asDiagonal() * thetaZ0
-    );
-    argdet += (betas - alphas).sum();
-
-    return {y1, argdet};
+    argdet += unscaledDifference<Scalar>(previous, scaling) - unscaledDifference<Scalar>(thetaBase, scaling);
+
+    return {y1, away ? argdet : -argdet};
 }
 
 template<typename Scalar>
-- 
2.43.0


From 01f46381c6203ebccfc676724d779ffedfa00f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 20/32] fix: adding or subtracting two polynomials recursed
 without end

---
 matslise/util/polynomial.h | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/matslise/util/polynomial.h b/matslise/util/polynomial.h
index 87389e4..8411dc1 100644
--- a/matslise/util/polynomial.h
+++ b/matslise/util/polynomial.h
@@ -73,24 +73,12 @@ namespace matslise {
 
 #define POLY_SUM_OPERATOR(op) \
         template<int od> \
-        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree); \
-        template<int od> \
-        POLY_BINARY_OPERATOR(op, OtherPolynomial<od>);
+        POLY_INPLACE_OPERATOR(op, od, OtherPolynomial<od>, other.coefficients, od <= degree);
 
         POLY_SUM_OPERATOR(+)
 
-        template<int od>
-        POLY_BINARY_REV_OPERATOR(+, OtherPolynomial<od>);
-
         POLY_SUM_OPERATOR(-)
 
-
-        template<int od>
-        friend Polynomial<Scalar, degree>
-        operator-(const OtherPolynomial<od> &left, const Polynomial<Scalar, degree> &right) {
-            return -right + left;
-        }
-
         POLY_SCALAR_OPERATOR(+, 0)
 
         POLY_BINARY_REV_OPERATOR(+, Scalar);
@@ -112,7 +100,7 @@ namespace matslise {
         }
 
         Polynomial<Scalar, degree> operator+() const {
-            return Polynomial<Scalar, degree>{+coefficients};
+            return *this;
         }
 
         template<int otherDegree>
-- 
2.43.0


From 75e0e29c4cc28de8507144cf1ee9afff18570b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 21/32] fix: Legendre::integrate gave half of the integral

---
 matslise/util/legendre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matslise/util/legendre.h b/matslise/util/legendre.h
index 4641810..c9bf8bc 100644
--- a/matslise/util/legendre.h
+++ b/matslise/util/legendre.h
@@ -52,7 +52,7 @@ namespace matslise::legendre {
             for (int j = 1; j < weights<Scalar, k>.rows(); ++j)
                 result += weights<Scalar, k>(i, j) * fs[j];
             if constexpr(scaled)
-                result *= h;
+                result *= 2 * h;
             return result;
         }
 
-- 
2.43.0


From 084eba5981b74eb65211357117292a3e44b6729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 22/32] fix: periodic eigenvalues were missed or got a wrong
 index

---
 matslise/matslise/periodic.cpp | 268 +++++++++++++++++++++------------
 1 file changed, 168 insertions(+), 100 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 1cf9387..f4b4704 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -1,3 +1,4 @@
+#include <queue>
 #include "../matslise.h"
 #include "../util/find_sector.h"
 #include "../util/constants.h"
@@ -40,61 +41,168 @@ PeriodicMatslise<Scalar>::matchingError(const Scalar &E, bool use_h) const {
     return {error, theta};
 }
 
+// The number of eigenvalues below E. Restricted to the functions with these boundary conditions, y'' = (V-E)y is negative on
+// as many dimensions as there are Dirichlet eigenvalues below E, plus the number of negative eigenvalues of a quadratic form
+// in the values at both ends of the domain.
 template<typename Scalar>
-pair<Scalar, Scalar> calculateMatchingError(const Y<Scalar, 1, 2> &yError) {
-    auto err = yError.y();
-    auto dErr = yError.ydE();
-    Scalar error = err(0, 0) * err(1, 1) - err(0, 1) * err(1, 0);
-    Scalar dError = dErr(0, 0) * err(1, 1) + err(0, 0) * dErr(1, 1) - dErr(0, 1) * err(1, 0) - err(0, 1) * dErr(1, 0);
-    return {error, dError};
+int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
+    const Domain<Scalar> &domain = ms->matslise.domain;
+    Scalar theta;
+    Y<Scalar> l, r;
+    tie(l, theta) = ms->matslise.propagate(E, Y<Scalar>::Dirichlet(), domain.min, domain.max);
+    r = ms->matslise.propagate(E, Y<Scalar>::Dirichlet(), domain.max, domain.min).first;
+    theta /= constants<Scalar>::PI;
+    if (!isfinite(theta) || !isfinite(l.data[1]) || !isfinite(r.data[1])) // E is much too low
+        return 0;
+
+    // The transfer matrix over the domain is {{u11, u12}, {u21, u22}}
+    int dirichlet = (int) ceil(theta) - 1;
+    Scalar u12 = l.data[0];
+    if (u12 == 0)
+        u12 = dirichlet % 2 == 0 ? numeric_limits<Scalar>::min() : -numeric_limits<Scalar>::min();
+    else if ((u12 > 0) != (dirichlet % 2 == 0))
+        dirichlet += theta - dirichlet > 0.5 ? 1 : -1;
+    // In the left end point the solution which starts in the right end is known more accurately
+    Scalar u11 = r.data[1] * ((r.data[0] < 0) == (u12 > 0) && r.data[0] != 0 ? -u12 / r.data[0] : Scalar(1));
+
+    const Matrix<Scalar, 2, 2> &K = ms->K;
+    Scalar left = u11 / u12;
+    Scalar right = l.data[1] / u12;
+    if (K(0, 1) == 0)
+        return dirichlet + (left + (right * K(0, 0) - 2 / u12 - K(1, 0)) * K(0, 0) < 0 ? 1 : 0);
+
+    left -= K(0, 0) / K(0, 1);
+    right -= K(1, 1) / K(0, 1);
+    Scalar mixed = 1 / K(0, 1) - 1 / u12;
+    Scalar spread = sqrt((left - right) * (left - right) + 4 * mixed * mixed);
+    return dirichlet + (left + right - spread < 0 ? 1 : 0) + (left + right + spread < 0 ? 1 : 0);
+}
+
+template<typename Scalar>
+pair<Y<Scalar, 1, 2>, Y<Scalar, 1, 2>> propagateToMatch(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
+    const Matslise<Scalar> &matslise = ms->matslise;
+    const Scalar &match = matslise.sectors[matslise.matchIndex]->max;
+    return {
+            ms->propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first,
+            ms->propagate(E, periodicInitialValue<Scalar>(ms->K), matslise.domain.max, match).first
+    };
 }
 
-template<typename T>
-bool same_sign(const T &a, const T &b) {
-    return (a < 0 && b < 0) || (a > 0 && b > 0);
+// det(a + b) = det(a) + mixedDet(a, b) + det(b)
+template<typename M>
+typename M::Scalar mixedDet(const M &a, const M &b) {
+    return a(0, 0) * b(1, 1) + a(1, 1) * b(0, 0) - a(0, 1) * b(1, 0) - a(1, 0) * b(0, 1);
 }
 
-template<typename Scalar, typename Func, typename FuncRet = decltype(declval<Func>()(declval<Scalar>()))>
-Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps, FuncRet fMin) {
-    Scalar mid = (eMin + eMax) / 2;
-    while (eMax - eMin > (abs(eMin) < 1 ? eps : eps * abs(eMin))) {
-        FuncRet fMid = f(mid);
-        if (same_sign(fMin, fMid)) {
-            fMin = fMid;
-            eMin = mid;
-        } else
-            eMax = mid;
-        mid = (eMin + eMax) / 2;
+// Newton's corrections to E, for a zero of the determinant of the mismatch: the smallest in absolute value comes first.
+template<typename Scalar>
+pair<Scalar, Scalar> newtonCorrections(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
+    typedef Matrix<Scalar, 2, 2> M;
+    Y<Scalar, 1, 2> yl, yr;
+    tie(yl, yr) = propagateToMatch(ms, E);
+    const M l = yl.y(), r = yr.y(), dl = yl.ydE(), dr = yr.ydE();
+    const M error = l - r, dError = dl - dr;
+    auto size = [](const M &a, const M &b) {
+        return a.row(0).cwiseAbs().maxCoeff() * b.row(1).cwiseAbs().maxCoeff()
+               + a.row(1).cwiseAbs().maxCoeff() * b.row(0).cwiseAbs().maxCoeff();
+    };
+    if (size(error, l) + size(error, r) > size(l, r) / 10) {
+        // The determinants of both sides don't depend on E, and the sides may be of a very different size.
+        Scalar det = -2 - 2 * ms->K.determinant() - mixedDet(l, r);
+        Scalar dDet = -mixedDet(dl, r) - mixedDet(l, dr);
+        return {-det / dDet, numeric_limits<Scalar>::infinity()};
     }
 
-    return (eMin + eMax) / 2;
+    // Close to a double eigenvalue all of the mismatch vanishes. As a zero of the matrix it is a simple one, and it is found
+    // as accurately as a single eigenvalue.
+    Scalar a = dError.determinant();
+    Scalar b = mixedDet(error, dError);
+    Scalar c = error.determinant();
+    if (c == 0)
+        return {Scalar(0), -b / a};
+    Scalar discriminant = b * b - 4 * a * c;
+    Scalar q = discriminant > 0 ? sqrt(discriminant) : Scalar(0);
+    q = (b < 0 ? b - q : b + q) / -2;
+    return {c / q, q / a};
 }
 
-template<typename Scalar, typename Func>
-Scalar binarySearch(Scalar eMin, Scalar eMax, const Func &f, const Scalar &eps) {
-    return binarySearch<Scalar, Func>(eMin, eMax, f, eps, f(eMin));
+// Returns the value where the iteration stopped, and whether it did converge.
+template<typename Scalar>
+pair<Scalar, bool> newtonIteration(const PeriodicMatslise<Scalar> *ms, Scalar E) {
+    Scalar tolerance = ms->matslise.tolerance / 100;
+    Scalar d;
+    int i = 0;
+    do {
+        d = newtonCorrections(ms, E).first;
+        E += d;
+    } while (++i < 20 && abs(d) > tolerance);
+
+    return {E, abs(d) <= 1000 * tolerance * max(Scalar(1), abs(E))};
 }
 
+// All eigenvalues with index in [iMin, iMax), and maybe some more.
 template<typename Scalar>
-pair<Scalar, Scalar> eigenvaluePair(const PeriodicMatslise<Scalar> *ms, Scalar Emin, Scalar Emax, Scalar eps) {
-    Scalar h = 0.01 * (Emax - Emin);
-    auto fError = [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).first;
-    };
-    Scalar minError = fError(Emin);
-    Scalar fMin = (fError(Emin + h) - minError) / h;
-
-    Scalar mid = binarySearch(Emin, Emax, [ms](Scalar E) {
-        return calculateMatchingError(ms->matchingError(E).first).second;
-    }, eps, fMin);
-
-    Scalar midError = fError(mid);
-    if (same_sign(minError, midError)) {
-        if (abs(midError) > eps) cout << "PeriodicMatslise::eigenvaluePair wrong result" << endl;
-        return {mid, mid};
-    } else {
-        return {binarySearch(Emin, mid, fError, eps, minError), binarySearch(mid, Emax, fError, eps, midError)};
+vector<pair<int, Scalar>> computeEigenvalues(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax) {
+    vector<pair<int, Scalar>> result;
+    const Domain<Scalar> &domain = ms->matslise.domain;
+    const Scalar firstStep = 1 / ((domain.max - domain.min) * (domain.max - domain.min));
+
+    queue<tuple<Scalar, int, Scalar, int>> toCheck;
+    {
+        const Scalar start = ms->matslise.estimatePotentialMinimum() - firstStep;
+        Scalar low = start, high = start;
+        int iLow, iHigh;
+        for (Scalar step = firstStep; (iLow = countEigenvalues(ms, low)) > iMin; step *= 2)
+            low -= step;
+        for (Scalar step = firstStep; (iHigh = countEigenvalues(ms, high)) < iMax; step *= 2)
+            high += step;
+        toCheck.push(make_tuple(low, iLow, high, iHigh));
     }
+
+    Scalar a, b;
+    int ia, ib;
+    while (!toCheck.empty()) {
+        tie(a, ia, b, ib) = toCheck.front();
+        toCheck.pop();
+        if (ia >= ib || ib <= iMin || iMax <= ia)
+            continue;
+
+        const Scalar c = (a + b) / 2;
+        const Scalar scale = max(Scalar(1), abs(c));
+        // Close to a double eigenvalue the count may be off by one
+        const bool exhausted = b - a < 1e-7 * scale;
+        const Scalar slack = exhausted ? 1e-5 * scale : Scalar(0);
+        auto accept = [&](const pair<Scalar, bool> &Eb) {
+            return Eb.second && a - slack <= Eb.first && Eb.first <= b + slack;
+        };
+        if (ib - ia <= 2) {
+            auto e1 = newtonIteration<Scalar>(ms, c);
+            if (accept(e1)) {
+                if (ib - ia == 1) {
+                    result.push_back({ia, e1.first});
+                    continue;
+                }
+                Scalar d = newtonCorrections(ms, e1.first).second;
+                auto e2 = newtonIteration<Scalar>(ms, e1.first + d);
+                if (accept(e2) && abs(e2.first - e1.first - d) <= abs(d) / 10 + ms->matslise.tolerance * scale) {
+                    result.push_back({ia, min(e1.first, e2.first)});
+                    result.push_back({ia + 1, max(e1.first, e2.first)});
+                    continue;
+                }
+            }
+        }
+        if (c <= a || b <= c || (exhausted && b - a < 1e-14 * scale)) {
+            for (int i = ia; i < ib; ++i)
+                result.push_back({i, c});
+        } else {
+            int ic = max(ia, min(ib, countEigenvalues(ms, c)));
+            toCheck.push(make_tuple(a, ia, c, ic));
+            toCheck.push(make_tuple(c, ic, b, ib));
+        }
+    }
+
+    sort(result.begin(), result.end());
+    return result;
 }
 
 template<typename Scalar, bool with_eigenfunctions>
@@ -104,7 +212,7 @@ struct EigenpairsReturn {
 
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
-eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, int iMin, int iMax, Scalar eps) {
+eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, int iMin, int iMax) {
     const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
     const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(ms->K);
     typename EigenpairsReturn<Scalar, with_eigenfunctions>::type result;
@@ -133,51 +241,15 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
         }
     };
 
-    auto findLow = [ms](int i) {
-        return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.minCoeff() - i + 1;
-        };
-    };
-    auto findHigh = [ms](int i) {
-        return [ms, i](Scalar E) {
-            return ms->matchingError(E).second.maxCoeff() - i - 1;
-        };
-    };
-
-    Scalar highest = eMax;
-    for (Scalar step = 1; findHigh(iMax + 1)(highest) < 0; step *= 2)
-        highest += step;
-
-    int i = iMin - (iMin % 2);
-    if (ms->K(0, 1) > 0 || (ms->K(0, 1) == 0 && ms->K(0, 0) < 0)) {
-        // Antiperiodic case
-        ++i;
-    }
-
-    Scalar low = eMin;
-    if (i == 0) {
-        for (Scalar step = 1; findHigh(i)(low) > 0; step *= 2)
-            low -= step;
-
-        Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        Scalar E = binarySearch(low, high, [ms](Scalar E) {
-            return calculateMatchingError(ms->matchingError(E).first).first;
-        }, eps);
-        addToResult(0, E, false);
-        i += 2;
-    }
-
-    for (; i <= iMax + 1; i += 2) {
-        for (Scalar step = 1; findLow(i)(low) > 0; step *= 2)
-            low -= step;
-        low = binarySearch<Scalar>(low, highest, findLow(i), eps);
-        Scalar high = binarySearch<Scalar>(low, highest, findHigh(i), eps);
-        pair<Scalar, Scalar> p = eigenvaluePair(ms, low, high, eps);
-        if (p.second - p.first < eps) {
-            addToResult(i - 1, (p.first + p.second) / 2, true);
+    const vector<pair<int, Scalar>> eigenvalues = computeEigenvalues(ms, max(0, iMin - 1), iMax + 1);
+    for (auto i = eigenvalues.begin(); i != eigenvalues.end(); ++i) {
+        auto next = i + 1;
+        if (next != eigenvalues.end()
+            && next->second - i->second <= ms->matslise.tolerance * max(Scalar(1), abs(i->second))) {
+            addToResult(i->first, (i->second + next->second) / 2, true);
+            i = next;
         } else {
-            addToResult(i - 1, p.first, false);
-            addToResult(i, p.second, false);
+            addToResult(i->first, i->second, false);
         }
     }
     return result;
@@ -186,25 +258,21 @@ eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, i
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, const Scalar &eMin, const Scalar &eMax) {
-    int iMin = (int) ms->matchingError(eMin).second.minCoeff() - 1;
-    int iMax = (int) ms->matchingError(eMax).second.maxCoeff() + 1;
+    if (!(eMin < eMax))
+        return {};
+    int iMin = max(0, countEigenvalues(ms, eMin) - 2);
+    int iMax = countEigenvalues(ms, eMax) + 2;
 
-    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
+    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax);
 }
 
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsByIndexHelper(const PeriodicMatslise<Scalar> *ms, int iMin, int iMax) {
-    Scalar eMin = -1;
-    Scalar eMax = 1;
-
-    while (ms->matchingError(eMin).second.minCoeff() > std::max(iMin - 2, 0))
-        eMin *= 2;
-
-    while (ms->matchingError(eMax).second.maxCoeff() < iMax + 2)
-        eMax *= 2;
-
-    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, eMin, eMax, iMin, iMax, 1e-8);
+    if (iMin >= iMax)
+        return {};
+    const Scalar infinity = numeric_limits<Scalar>::infinity();
+    return eigenpairsHelper<Scalar, with_eigenfunctions>(ms, -infinity, infinity, iMin, iMax);
 }
 
 template<typename Scalar>
-- 
2.43.0


From 8042977a1b2cb990b464403eccf155219089c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:41 +0000
Subject: [PATCH 23/32] fix: eigenfunctions of a periodic problem did not
 satisfy the boundary conditions

---
 matslise/matslise/matslise.cpp |  15 ++++
 matslise/matslise/periodic.cpp | 144 ++++++++++++++++++++++-----------
 2 files changed, 112 insertions(+), 47 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 0a88a90..21470a3 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -328,6 +328,12 @@ public:
         steps = propagationSteps<Scalar>(*matslise, E, left, right, sectors, turned);
     }
 
+    MEigenfunction(const Matslise<Scalar> *matslise, const Scalar &E, vector<Y<Scalar>> steps_)
+            : matslise(matslise), E(E), steps(std::move(steps_)) {
+        for (auto &sector : matslise->sectors)
+            sectors.push_back(sector.get());
+    }
+
     virtual Eigen::Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
         MATSLISE_SCOPED_TIMER("Matslise::Eigenfunction::operator()(Scalar)");
         if (x < matslise->domain.min || x > matslise->domain.max)
@@ -382,11 +388,20 @@ unique_ptr<typename Matslise<Scalar>::Eigenfunction> Matslise<Scalar>::eigenfunc
     return std::make_unique<MEigenfunction<Scalar>>(this, E, left, right);
 }
 
+// An eigenfunction of which the values in all mesh points are known.
+template<typename Scalar>
+unique_ptr<typename Matslise<Scalar>::Eigenfunction>
+eigenfunctionFromSteps(const Matslise<Scalar> *matslise, const Scalar &E, const vector<Y<Scalar>> &steps) {
+    return std::make_unique<MEigenfunction<Scalar>>(matslise, E, steps);
+}
+
 #define INSTANTIATE_PROPAGATE(Scalar, cols) \
 template pair<Y<Scalar, 1, cols>, typename conditional<cols == 1, Scalar, Eigen::Array<Scalar, cols, 1>>::type> \
 Matslise<Scalar>::propagate<cols>(const Scalar &, const Y<Scalar, 1, cols> &, const Scalar &, const Scalar &, bool) const; \
 
 #define INSTANTIATE_MORE(Scalar) \
+template unique_ptr<typename Matslise<Scalar>::Eigenfunction> eigenfunctionFromSteps<Scalar>( \
+        const Matslise<Scalar> *, const Scalar &, const vector<Y<Scalar>> &); \
 INSTANTIATE_PROPAGATE(Scalar, 1) \
 INSTANTIATE_PROPAGATE(Scalar, 2)
 
diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index f4b4704..5f20b72 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -1,7 +1,9 @@
 #include <queue>
+#include <Eigen/Sparse>
 #include "../matslise.h"
 #include "../util/find_sector.h"
 #include "../util/constants.h"
+#include "../util/legendre.h"
 
 using namespace matslise;
 using namespace Eigen;
@@ -205,6 +207,95 @@ vector<pair<int, Scalar>> computeEigenvalues(const PeriodicMatslise<Scalar> *ms,
     return result;
 }
 
+// Defined in matslise.cpp
+template<typename Scalar>
+unique_ptr<typename Matslise<Scalar>::Eigenfunction>
+eigenfunctionFromSteps(const Matslise<Scalar> *matslise, const Scalar &E, const vector<Y<Scalar>> &steps);
+
+// An eigenfunction satisfies a cyclic system: each sector propagates it to the next mesh point, and the right end is coupled
+// to the left end. Solved as a whole, this works for eigenfunctions which live in any part of the domain.
+template<typename Scalar>
+vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
+computeEigenfunctions(const PeriodicMatslise<Scalar> *ms, const Scalar &E, bool isDouble) {
+    typedef Matrix<Scalar, Dynamic, Dynamic> MatrixXs;
+    const Matslise<Scalar> &matslise = ms->matslise;
+    const int n = matslise.sectorCount;
+    const Scalar length = matslise.domain.max - matslise.domain.min;
+    // y' is of the size of omega * y
+    const Scalar omega = max(1 / length, sqrt(abs(E - matslise.estimatePotentialMinimum())));
+    const Matrix<Scalar, 2, 2> scale = Matrix<Scalar, 2, 1>(omega, 1).asDiagonal();
+
+    auto cyclicSystem = [&](const Scalar &energy) {
+        SparseMatrix<Scalar> system(2 * n, 2 * n);
+        vector<Triplet<Scalar>> elements;
+        auto addBlock = [&](int row, int col, const Matrix<Scalar, 2, 2> &block) {
+            const Matrix<Scalar, 2, 2> scaled = scale * block * scale.inverse();
+            for (int i = 0; i < 2; ++i)
+                for (int j = 0; j < 2; ++j)
+                    elements.emplace_back(2 * row + i, 2 * col + j, scaled(i, j));
+        };
+        Y<Scalar, 1, 2> identity;
+        identity.y() = Matrix<Scalar, 2, 2>::Identity();
+        for (int i = 0; i < n; ++i) {
+            const auto &sector = matslise.sectors[i];
+            addBlock(i, i, ms->propagate(energy, identity, sector->min, sector->max).first.y());
+            addBlock(i, (i + 1) % n, i + 1 == n ? (-ms->K).eval() : (-identity.y()).eval());
+        }
+        system.setFromTriplets(elements.begin(), elements.end());
+        return system;
+    };
+
+    // Inverse iteration for the smallest singular values
+    MatrixXs x(2 * n, isDouble ? 2 : 1);
+    Scalar energy = E;
+    bool solved = false;
+    for (int attempt = 0; attempt < 4 && !solved; ++attempt) {
+        SparseLU<SparseMatrix<Scalar>> lu, luT;
+        const SparseMatrix<Scalar> system = cyclicSystem(energy);
+        const SparseMatrix<Scalar> systemT = system.transpose();
+        lu.compute(system);
+        luT.compute(systemT);
+        solved = lu.info() == Success && luT.info() == Success;
+        for (int i = 0; i < 2 * n; ++i)
+            for (int j = 0; j < x.cols(); ++j)
+                x(i, j) = cos(Scalar(3 * i + (7 + i) * j));
+        for (int i = 0; i < 4 && solved; ++i) {
+            MatrixXs z = luT.solve(x);
+            x = lu.solve((z / z.cwiseAbs().maxCoeff()).eval());
+            solved = x.allFinite();
+            if (solved)
+                x = MatrixXs(HouseholderQR<MatrixXs>(x).householderQ() * MatrixXs::Identity(2 * n, x.cols()));
+        }
+        // In the exact eigenvalue the system is singular
+        energy += 4 * numeric_limits<Scalar>::epsilon() * max(omega * omega, abs(energy));
+    }
+
+    vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
+    result.reserve(x.cols());
+    for (int j = 0; j < x.cols(); ++j) {
+        vector<Y<Scalar>> steps(n + 1);
+        for (int i = 0; i < n; ++i)
+            steps[i].y() << x(2 * i, j) / omega, x(2 * i + 1, j);
+        steps[n].y() = ms->K * steps[0].y();
+        Scalar norm = 0;
+        const auto f = eigenfunctionFromSteps(&matslise, E, steps);
+        for (auto &sector : matslise.sectors) {
+            const int panels = 1 + (int) (omega * sector->h / 3);
+            const Scalar h = (sector->max - sector->min) / panels;
+            for (int i = 0; i < panels; ++i) {
+                for (int k = 0; k < 12; ++k) {
+                    const Scalar y = (*f)(sector->min + h * (i + (1 + legendre::nodes<Scalar, 12>[k]) / 2))[0];
+                    norm += h * legendre::weights<Scalar, 12>(0, k) * y * y;
+                }
+            }
+        }
+        for (auto &step : steps)
+            step *= 1 / sqrt(norm);
+        result.emplace_back(eigenfunctionFromSteps(&matslise, E, steps));
+    }
+    return result;
+}
+
 template<typename Scalar, bool with_eigenfunctions>
 struct EigenpairsReturn {
     using type = vector<tuple<int, Scalar, std::conditional_t<with_eigenfunctions, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>, int>>>;
@@ -213,29 +304,11 @@ struct EigenpairsReturn {
 template<typename Scalar, bool with_eigenfunctions>
 typename EigenpairsReturn<Scalar, with_eigenfunctions>::type
 eigenpairsHelper(const PeriodicMatslise<Scalar> *ms, Scalar eMin, Scalar eMax, int iMin, int iMax) {
-    const Y<Scalar, 1, 2> l = periodicInitialValue<Scalar>();
-    const Y<Scalar, 1, 2> r = periodicInitialValue<Scalar>(ms->K);
     typename EigenpairsReturn<Scalar, with_eigenfunctions>::type result;
     auto addToResult = [&](int i, Scalar E, bool isDouble) {
         if ((isDouble ? i + 1 < iMin : i < iMin) || i >= iMax || E < eMin || E >= eMax) return;
         if constexpr (with_eigenfunctions) {
-            auto &eigenfunctions = get<2>(
-                    result.emplace_back(i, E, vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>()));
-
-            if (isDouble) {
-                // double eigenvalue
-                eigenfunctions.reserve(2);
-                eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(0), r.col(0)));
-                eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l.col(1), r.col(1)));
-            } else {
-                EigenSolver<Matrix<Scalar, 2, 2>> solver(ms->matchingError(E).first.y(), true);
-                Eigen::Index kernelIndex;
-                solver.eigenvalues().array().abs().minCoeff(&kernelIndex);
-
-                Matrix<Scalar, 2, 1> c = solver.eigenvectors().real().col(kernelIndex);
-                eigenfunctions.reserve(1);
-                eigenfunctions.emplace_back(ms->matslise.eigenfunction(E, l * c, r * c));
-            }
+            result.emplace_back(i, E, computeEigenfunctions(ms, E, isDouble));
         } else {
             result.emplace_back(i, E, isDouble ? 2 : 1);
         }
@@ -301,34 +374,11 @@ std::vector<std::tuple<int, Scalar, int>> PeriodicMatslise<Scalar>::eigenvaluesB
 template<typename Scalar>
 vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
-    Array<Scalar, 2, 1> thetaL, thetaR;
-    Scalar &match = matslise.sectors[matslise.matchIndex]->max;
-    Y<Scalar, 1, 2> l = propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first;
-    Y<Scalar, 1, 2> r = propagate(E, periodicInitialValue<Scalar>(K), matslise.domain.max, match).first;
-    Matrix<Scalar, 2, 2> err = (l.y() - r.y());
-    cout << err << endl;
-
-    EigenSolver<Matrix<Scalar, 2, 2>> solver(err, true);
-    Matrix<complex<Scalar>, 2, 1> eigenvalues = solver.eigenvalues();
-    Matrix<complex<Scalar>, 2, 2> eigenvectors = solver.eigenvectors();
-
-    vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
-    cout << "eigenvalues: " << eigenvalues.transpose() << endl;
-    cout << eigenvectors << endl;
-    cout << endl;
-    result.reserve(2);
-    if (norm(eigenvalues[0]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(0).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
-    }
-    if (norm(eigenvalues[1]) < 1e-4) {
-        Y<Scalar> boundary;
-        boundary.y() = eigenvectors.col(1).real();
-        result.emplace_back(matslise.eigenfunction(E, boundary, boundary));
-    }
-
-    return result;
+    Scalar d1, d2;
+    tie(d1, d2) = newtonCorrections(this, E);
+    if (abs(d1) > 1e-2 * max(Scalar(1), abs(E))) // not an eigenvalue
+        return {};
+    return computeEigenfunctions(this, E, abs(d2) <= matslise.tolerance * max(Scalar(1), abs(E)));
 }
 
 #include "instantiate.h"
-- 
2.43.0


From b9071b9517eed0f2a3c9bf92e868e129ab069b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 24/32] fix: the eigenfunctions of a known periodic eigenvalue

---
 matslise/matslise/periodic.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 5f20b72..699b5f2 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -249,7 +249,7 @@ computeEigenfunctions(const PeriodicMatslise<Scalar> *ms, const Scalar &E, bool
     MatrixXs x(2 * n, isDouble ? 2 : 1);
     Scalar energy = E;
     bool solved = false;
-    for (int attempt = 0; attempt < 4 && !solved; ++attempt) {
+    for (int attempt = 0; attempt < 10 && !solved; ++attempt) {
         SparseLU<SparseMatrix<Scalar>> lu, luT;
         const SparseMatrix<Scalar> system = cyclicSystem(energy);
         const SparseMatrix<Scalar> systemT = system.transpose();
@@ -266,8 +266,8 @@ computeEigenfunctions(const PeriodicMatslise<Scalar> *ms, const Scalar &E, bool
             if (solved)
                 x = MatrixXs(HouseholderQR<MatrixXs>(x).householderQ() * MatrixXs::Identity(2 * n, x.cols()));
         }
-        // In the exact eigenvalue the system is singular
-        energy += 4 * numeric_limits<Scalar>::epsilon() * max(omega * omega, abs(energy));
+        // In the exact eigenvalue the system is singular: move a little bit away from it
+        energy += (16 << 2 * attempt) * numeric_limits<Scalar>::epsilon() * max(omega * omega, abs(energy));
     }
 
     vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>> result;
@@ -374,11 +374,16 @@ std::vector<std::tuple<int, Scalar, int>> PeriodicMatslise<Scalar>::eigenvaluesB
 template<typename Scalar>
 vector<unique_ptr<typename PeriodicMatslise<Scalar>::Eigenfunction>>
 PeriodicMatslise<Scalar>::eigenfunction(const Scalar &E) const {
-    Scalar d1, d2;
-    tie(d1, d2) = newtonCorrections(this, E);
-    if (abs(d1) > 1e-2 * max(Scalar(1), abs(E))) // not an eigenvalue
+    const Scalar scale = max(Scalar(1), abs(E));
+    if (countEigenvalues(this, E - scale / 100) == countEigenvalues(this, E + scale / 100)) // not an eigenvalue
         return {};
-    return computeEigenfunctions(this, E, abs(d2) <= matslise.tolerance * max(Scalar(1), abs(E)));
+    const Scalar d = matslise.tolerance * scale;
+    auto corrections = newtonCorrections(this, E);
+    // When E is too low for the determinant of the mismatch, the eigenvalues around it are counted.
+    bool isDouble = abs(corrections.first) <= d
+                    ? abs(corrections.second) <= d
+                    : countEigenvalues(this, E + 100 * d) - countEigenvalues(this, E - 100 * d) >= 2;
+    return computeEigenfunctions(this, E, isDouble);
 }
 
 #include "instantiate.h"
-- 
2.43.0


From b632ccb793512895ac10cba3005fee3fa4417d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 25/32] fix: normalise eigenfunctions by quadrature, the
 Wronskian is inaccurate when a sector contains much growth

---
 matslise/matslise/matslise.cpp | 69 ++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 25 deletions(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 21470a3..c060505 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -6,6 +6,7 @@
 #include "../util/theta.h"
 #include "../util/constants.h"
 #include "../util/find_sector.h"
+#include "../util/legendre.h"
 
 using namespace matslise;
 using namespace std;
@@ -283,19 +284,11 @@ vector<Y<Scalar>> propagationSteps(const Matslise<Scalar> &ms, Scalar E, const Y
         if ((yl.data[largest] < 0) != (yr.data[largest] < 0))
             scaleRight = -1;
     }
-    Scalar norm = scaleLeft * scaleLeft * (yl.data[2] * yl.data[1] - yl.data[3] * yl.data[0]);
-    norm -= scaleRight * scaleRight * (yr.data[2] * yr.data[1] - yr.data[3] * yr.data[0]);
-    if (norm > 0) {
-        norm = sqrt(norm);
-    } else {
-        cerr << "There are problems with the normalization." << endl;
-        norm = 1;
-    }
     for (int i = 0; i < match; ++i)
-        ys[i] *= scaleLeft / norm;
+        ys[i] *= scaleLeft;
     for (int i = match; i <= ms.sectorCount; ++i) {
         ys[i] = ysRight[i];
-        ys[i] *= scaleRight / norm;
+        ys[i] *= scaleRight;
     }
     return ys;
 }
@@ -326,12 +319,49 @@ public:
         for (auto &sector : matslise->sectors)
             sectors.push_back(sector.get());
         steps = propagationSteps<Scalar>(*matslise, E, left, right, sectors, turned);
+        normalize();
     }
 
     MEigenfunction(const Matslise<Scalar> *matslise, const Scalar &E, vector<Y<Scalar>> steps_)
             : matslise(matslise), E(E), steps(std::move(steps_)) {
-        for (auto &sector : matslise->sectors)
-            sectors.push_back(sector.get());
+        for (int i = 0; i < matslise->sectorCount; ++i) {
+            sectors.push_back(matslise->sectors[i].get());
+        }
+        normalize();
+    }
+
+    // x should be in this sector
+    inline Eigen::Array<Scalar, 2, 1> evaluate(int i, const Scalar &x) const {
+        const auto &sector = *sectors[i];
+        if (sector.direction == matslise::forward)
+            return sector.template propagate<false>(E, steps[i], sector.min, x).y();
+        else
+            return sector.template propagate<false>(E, steps[i + 1], sector.max, x).y();
+    }
+
+    void normalize() {
+        Scalar largest = 0, norm = 0;
+        for (auto &step : steps)
+            largest = max(largest, step.y().cwiseAbs().maxCoeff());
+        for (auto &step : steps)
+            step *= 1 / largest; // the squares may not overflow
+        for (int i = 0; i < (int) sectors.size(); ++i) {
+            const auto &sector = *sectors[i];
+            Scalar bound = abs(sector.vs[0] - E); // of |V(x) - E| in this sector
+            Scalar hi = 1;
+            for (int j = 1; j < MATSLISE_N; ++j)
+                bound += abs(sector.vs[j]) * (hi *= sector.h);
+            const int panels = 1 + (int) (sqrt(bound) * sector.h / 3);
+            const Scalar h = (sector.max - sector.min) / panels;
+            for (int j = 0; j < panels; ++j) {
+                for (int k = 0; k < 12; ++k) {
+                    const Scalar y = evaluate(i, sector.min + h * (j + (1 + legendre::nodes<Scalar, 12>[k]) / 2))[0];
+                    norm += h * legendre::weights<Scalar, 12>(0, k) * y * y;
+                }
+            }
+        }
+        for (auto &step : steps)
+            step *= 1 / sqrt(norm);
     }
 
     virtual Eigen::Array<Scalar, 2, 1> operator()(const Scalar &x) const override {
@@ -341,11 +371,7 @@ public:
         auto sector = findSector(x, sectors.begin(), sectors.end());
         int sectorIndex = sector - sectors.begin();
 
-        if ((**sector).direction == matslise::forward) {
-            return (**sector).template propagate<false>(E, steps[sectorIndex], (**sector).min, x).y();
-        } else {
-            return (**sector).template propagate<false>(E, steps[sectorIndex + 1], (**sector).max, x).y();
-        }
+        return evaluate(sectorIndex, x);
     };
 
     virtual Eigen::Array<Scalar, Eigen::Dynamic, 2>
@@ -369,14 +395,7 @@ public:
                 sector = findSector(x[i], sector + 1, sectors.end());
                 sectorIndex = sector - sectors.begin();
             }
-            if ((**sector).direction == matslise::forward) {
-                ys.row(i) = (**sector).template propagate<false>(E, steps[sectorIndex], (**sector).min, x[i])
-                        .y();
-            } else {
-                ys.row(i) = (**sector).template propagate<false>(E, steps[sectorIndex + 1], (**sector).max, x[i])
-                        .y();
-            }
-
+            ys.row(i) = evaluate(sectorIndex, x[i]);
         }
         return ys;
     };
-- 
2.43.0


From 39f750af0eba92993d79876f22cae3c790a76f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:24 +0000
Subject: [PATCH 26/32] fix: eigenfunctions of periodic problems decay in
 barriers

---
 matslise/matslise/barrier.h    | 47 ++++++++++++++++++++++++++++++++++
 matslise/matslise/matslise.cpp |  9 +++++++
 matslise/matslise/periodic.cpp | 32 ++++++++++-------------
 3 files changed, 70 insertions(+), 18 deletions(-)
 create mode 100644 matslise/matslise/barrier.h

diff --git a/matslise/matslise/barrier.h b/matslise/matslise/barrier.h
new file mode 100644
index 0000000..abe7519
--- /dev/null
+++ b/matslise/matslise/barrier.h
@@ -0,0 +1,47 @@
+#ifndef MATSLISE_BARRIER_H
+#define MATSLISE_BARRIER_H
+
+#include <memory>
+#include "../matslise.h"
+
+namespace matslise {
+    // A sector where solutions grow (and decay) rapidly. Each solution is a combination of one that vanishes in the left end
+    // and one that vanishes in the right end of the sector. Those are evaluated in the direction in which they grow.
+    template<typename Scalar>
+    class Barrier {
+        typedef typename Matslise<Scalar>::Sector Sector;
+
+        Scalar E;
+        std::unique_ptr<Sector> fromLeft, fromRight;
+    public:
+        Eigen::Array<Scalar, 2, 1> atRight, atLeft;
+
+        static bool isBarrier(const Sector &sector, const Scalar &E) {
+            return (sector.vs[0] - E) * sector.h * sector.h > 4;
+        }
+
+        Barrier(const Sector &sector, const Scalar &E) : E(E) {
+            fromLeft = std::make_unique<Sector>(sector);
+            fromLeft->setDirection(forward);
+            fromRight = std::make_unique<Sector>(sector);
+            fromRight->setDirection(backward);
+            atRight = left(fromLeft->max);
+            atLeft = right(fromRight->min);
+        }
+
+        Eigen::Array<Scalar, 2, 1> left(const Scalar &x) const {
+            return fromLeft->template propagate<false>(E, Y<Scalar>::Dirichlet(), fromLeft->min, x).y();
+        }
+
+        Eigen::Array<Scalar, 2, 1> right(const Scalar &x) const {
+            return fromRight->template propagate<false>(E, Y<Scalar>::Dirichlet(), fromRight->max, x).y();
+        }
+
+        // The solution with these values in both ends of the sector
+        Eigen::Array<Scalar, 2, 1> operator()(const Scalar &yLeft, const Scalar &yRight, const Scalar &x) const {
+            return yLeft / atLeft[0] * right(x) + yRight / atRight[0] * left(x);
+        }
+    };
+}
+
+#endif //MATSLISE_BARRIER_H
diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index c060505..4c2951e 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -1,4 +1,5 @@
 #include <array>
+#include <map>
 #include <vector>
 #include <queue>
 #include "../matslise.h"
@@ -7,6 +8,7 @@
 #include "../util/constants.h"
 #include "../util/find_sector.h"
 #include "../util/legendre.h"
+#include "barrier.h"
 
 using namespace matslise;
 using namespace std;
@@ -314,6 +316,8 @@ public:
     vector<unique_ptr<typename Matslise<Scalar>::Sector>> turned;
     vector<Y<Scalar>> steps;
 
+    map<int, Barrier<Scalar>> barriers;
+
     MEigenfunction(const Matslise<Scalar> *matslise,
                    const Scalar &E, const Y<Scalar> &left, const Y<Scalar> &right) : matslise(matslise), E(E) {
         for (auto &sector : matslise->sectors)
@@ -326,12 +330,17 @@ public:
             : matslise(matslise), E(E), steps(std::move(steps_)) {
         for (int i = 0; i < matslise->sectorCount; ++i) {
             sectors.push_back(matslise->sectors[i].get());
+            if (Barrier<Scalar>::isBarrier(*sectors[i], E))
+                barriers.emplace(i, Barrier<Scalar>(*sectors[i], E));
         }
         normalize();
     }
 
     // x should be in this sector
     inline Eigen::Array<Scalar, 2, 1> evaluate(int i, const Scalar &x) const {
+        auto barrier = barriers.find(i);
+        if (barrier != barriers.end())
+            return barrier->second(steps[i].data[0], steps[i + 1].data[0], x);
         const auto &sector = *sectors[i];
         if (sector.direction == matslise::forward)
             return sector.template propagate<false>(E, steps[i], sector.min, x).y();
diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 699b5f2..5a23d61 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -3,7 +3,7 @@
 #include "../matslise.h"
 #include "../util/find_sector.h"
 #include "../util/constants.h"
-#include "../util/legendre.h"
+#include "barrier.h"
 
 using namespace matslise;
 using namespace Eigen;
@@ -229,7 +229,7 @@ computeEigenfunctions(const PeriodicMatslise<Scalar> *ms, const Scalar &E, bool
         SparseMatrix<Scalar> system(2 * n, 2 * n);
         vector<Triplet<Scalar>> elements;
         auto addBlock = [&](int row, int col, const Matrix<Scalar, 2, 2> &block) {
-            const Matrix<Scalar, 2, 2> scaled = scale * block * scale.inverse();
+            const Matrix<Scalar, 2, 2> scaled = block * scale.inverse();
             for (int i = 0; i < 2; ++i)
                 for (int j = 0; j < 2; ++j)
                     elements.emplace_back(2 * row + i, 2 * col + j, scaled(i, j));
@@ -238,8 +238,18 @@ computeEigenfunctions(const PeriodicMatslise<Scalar> *ms, const Scalar &E, bool
         identity.y() = Matrix<Scalar, 2, 2>::Identity();
         for (int i = 0; i < n; ++i) {
             const auto &sector = matslise.sectors[i];
-            addBlock(i, i, ms->propagate(energy, identity, sector->min, sector->max).first.y());
-            addBlock(i, (i + 1) % n, i + 1 == n ? (-ms->K).eval() : (-identity.y()).eval());
+            Matrix<Scalar, 2, 2> left, right;
+            if (Barrier<Scalar>::isBarrier(*sector, energy)) {
+                // y' in both ends depends only mildly on y in both ends.
+                Barrier<Scalar> barrier(*sector, energy);
+                left << -barrier.atLeft[1] / barrier.atLeft[0], 1, -1 / barrier.atLeft[0], 0;
+                right << -1 / barrier.atRight[0], 0, -barrier.atRight[1] / barrier.atRight[0], 1;
+            } else {
+                left = scale * ms->propagate(energy, identity, sector->min, sector->max).first.y().matrix();
+                right = -scale;
+            }
+            addBlock(i, i, left);
+            addBlock(i, (i + 1) % n, i + 1 == n ? (right * ms->K).eval() : right);
         }
         system.setFromTriplets(elements.begin(), elements.end());
         return system;
@@ -277,20 +287,6 @@ computeEigenfunctions(const PeriodicMatslise<Scalar> *ms, const Scalar &E, bool
         for (int i = 0; i < n; ++i)
             steps[i].y() << x(2 * i, j) / omega, x(2 * i + 1, j);
         steps[n].y() = ms->K * steps[0].y();
-        Scalar norm = 0;
-        const auto f = eigenfunctionFromSteps(&matslise, E, steps);
-        for (auto &sector : matslise.sectors) {
-            const int panels = 1 + (int) (omega * sector->h / 3);
-            const Scalar h = (sector->max - sector->min) / panels;
-            for (int i = 0; i < panels; ++i) {
-                for (int k = 0; k < 12; ++k) {
-                    const Scalar y = (*f)(sector->min + h * (i + (1 + legendre::nodes<Scalar, 12>[k]) / 2))[0];
-                    norm += h * legendre::weights<Scalar, 12>(0, k) * y * y;
-                }
-            }
-        }
-        for (auto &step : steps)
-            step *= 1 / sqrt(norm);
         result.emplace_back(eigenfunctionFromSteps(&matslise, E, steps));
     }
     return result;
-- 
2.43.0


From 67dc59bf40d8e840c95e298b690e2df814d10f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:26 +0000
Subject: [PATCH 27/32] fix: double eigenvalues of periodic problems, the
 determinant of the propagation is not exactly one

---
 matslise/matslise/periodic.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 5a23d61..48ff117 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -43,6 +43,12 @@ PeriodicMatslise<Scalar>::matchingError(const Scalar &E, bool use_h) const {
     return {error, theta};
 }
 
+// Whether the determinant of this transfer matrix can be computed, solutions may not grow too much.
+template<typename Scalar>
+bool isModerate(const Matrix<Scalar, 2, 2> &u) {
+    return abs(u(0, 0) * u(1, 1)) + abs(u(0, 1) * u(1, 0)) < 1000;
+}
+
 // The number of eigenvalues below E. Restricted to the functions with these boundary conditions, y'' = (V-E)y is negative on
 // as many dimensions as there are Dirichlet eigenvalues below E, plus the number of negative eigenvalues of a quadratic form
 // in the values at both ends of the domain.
@@ -70,12 +76,22 @@ int countEigenvalues(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
     const Matrix<Scalar, 2, 2> &K = ms->K;
     Scalar left = u11 / u12;
     Scalar right = l.data[1] / u12;
+    Scalar mixed = 1 / u12;
+    Y<Scalar, 1, 2> u;
+    u.y() = Matrix<Scalar, 2, 2>::Identity();
+    const Matrix<Scalar, 2, 2> transfer = ms->propagate(E, u, domain.min, domain.max).first.y();
+    if (isModerate<Scalar>(transfer)) {
+        // The determinant is not exactly one, close to a double eigenvalue this is noticeable.
+        const Scalar determinant = sqrt(transfer.determinant());
+        left = transfer(0, 0) / (u12 * determinant);
+        right /= determinant;
+    }
     if (K(0, 1) == 0)
-        return dirichlet + (left + (right * K(0, 0) - 2 / u12 - K(1, 0)) * K(0, 0) < 0 ? 1 : 0);
+        return dirichlet + (left + (right * K(0, 0) - 2 * mixed - K(1, 0)) * K(0, 0) < 0 ? 1 : 0);
 
     left -= K(0, 0) / K(0, 1);
     right -= K(1, 1) / K(0, 1);
-    Scalar mixed = 1 / K(0, 1) - 1 / u12;
+    mixed = 1 / K(0, 1) - mixed;
     Scalar spread = sqrt((left - right) * (left - right) + 4 * mixed * mixed);
     return dirichlet + (left + right - spread < 0 ? 1 : 0) + (left + right + spread < 0 ? 1 : 0);
 }
@@ -109,6 +125,8 @@ pair<Scalar, Scalar> newtonCorrections(const PeriodicMatslise<Scalar> *ms, const
                + a.row(1).cwiseAbs().maxCoeff() * b.row(0).cwiseAbs().maxCoeff();
     };
     if (size(error, l) + size(error, r) > size(l, r) / 10) {
+        if (isModerate<Scalar>(l) && isModerate<Scalar>(r))
+            return {-error.determinant() / mixedDet(error, dError), numeric_limits<Scalar>::infinity()};
         // The determinants of both sides don't depend on E, and the sides may be of a very different size.
         Scalar det = -2 - 2 * ms->K.determinant() - mixedDet(l, r);
         Scalar dDet = -mixedDet(dl, r) - mixedDet(l, dr);
-- 
2.43.0


From cd797b6be4ff98c5c2cb39c3570deee1d7c97ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:12 +0000
Subject: [PATCH 28/32] fix: sectors with a length of 1e-12 or less were taken
 for a single point

---
 matslise/matscs/sector.cpp   | 9 +++++----
 matslise/matslise/sector.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/matslise/matscs/sector.cpp b/matslise/matscs/sector.cpp
index adbb156..b9d950f 100644
--- a/matslise/matscs/sector.cpp
+++ b/matslise/matscs/sector.cpp
@@ -6,7 +6,8 @@
 #include "../util/horner.h"
 #include "../util/constants.h"
 
-#define EPS (1.e-12)
+// The part of a sector that can't be distinguished from a single point.
+#define EPS (4096 * numeric_limits<Scalar>::epsilon())
 
 using namespace std;
 using namespace matslise;
@@ -94,10 +95,10 @@ T<Scalar, Dynamic> calculateTFromVEd(const typename Matscs<Scalar>::Sector *sect
 
 template<typename Scalar>
 T<Scalar, Dynamic> Matscs<Scalar>::Sector::calculateT(const Scalar &E, const Scalar &delta, bool use_h) const {
-    if (abs(delta) <= EPS) {
+    if (abs(delta) <= EPS * h) {
         return T<Scalar, Dynamic>(n);
     }
-    if (use_h && abs(delta - h) <= EPS)
+    if (use_h && abs(delta - h) <= EPS * h)
         return calculateT(E);
 
     return calculateTFromVEd<Scalar, false>(
@@ -164,7 +165,7 @@ pair<Y<Scalar, Dynamic>, Scalar> Matscs<Scalar>::Sector::propagateDelta(
     Y<Scalar, Dynamic> y1 = propagateDeltaColumn(E, y0, delta, use_h);
 
     Scalar d = (delta > h ? h : delta < -h ? -h : delta);
-    if (abs(d) <= EPS) // y0 and y1 coincide
+    if (abs(d) <= EPS * h) // y0 and y1 coincide
         return {y1, 0};
 
     // In this sector: |V(x) - E| <= bound
diff --git a/matslise/matslise/sector.cpp b/matslise/matslise/sector.cpp
index 7e0aba8..63d5eba 100644
--- a/matslise/matslise/sector.cpp
+++ b/matslise/matslise/sector.cpp
@@ -7,7 +7,8 @@
 #include "../util/theta.h"
 #include "../util/constants.h"
 
-#define EPS (1.e-12)
+// The part of a sector that can't be distinguished from a single point.
+#define EPS (4096 * numeric_limits<Scalar>::epsilon())
 
 using namespace std;
 using namespace matslise;
@@ -54,9 +55,9 @@ void Matslise<Scalar>::Sector::calculateTCoeffs() {
 
 template<typename Scalar>
 T<Scalar> Matslise<Scalar>::Sector::calculateT(const Scalar &E, const Scalar &delta, bool use_h) const {
-    if (abs(delta) <= EPS)
+    if (abs(delta) <= EPS * h)
         return T<Scalar>();
-    if (use_h && abs(delta - h) <= EPS)
+    if (use_h && abs(delta - h) <= EPS * h)
         return calculateT(E);
 
     const Scalar dd = delta * delta;
@@ -157,7 +158,7 @@ Scalar countZeros(const typename Matslise<Scalar>::Sector &sector, const Scalar
 template<typename Scalar, typename Y0, typename Y1>
 Scalar pruferHelper(const typename Matslise<Scalar>::Sector &sector, const Scalar &E, const Scalar &delta,
                     const Y0 &y0, const Y1 &y1) {
-    if (abs(delta) <= EPS) // y0 and y1 coincide
+    if (abs(delta) <= EPS * sector.h) // y0 and y1 coincide
         return 0;
     Scalar scaling = E - sector.v0Match > 1 ? sqrt(E - sector.v0Match) : 1;
     return pruferAngle<Scalar>(scaling * y1[0], y1[1]) - pruferAngle<Scalar>(scaling * y0[0], y0[1])
-- 
2.43.0


From a4134fd211a661951c2237550de804656f159426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:14 +0000
Subject: [PATCH 29/32] fix: eigenvalues of periodic problems on very short or
 long domains

---
 matslise/matslise/periodic.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/matslise/matslise/periodic.cpp b/matslise/matslise/periodic.cpp
index 48ff117..61f8b87 100644
--- a/matslise/matslise/periodic.cpp
+++ b/matslise/matslise/periodic.cpp
@@ -100,9 +100,14 @@ template<typename Scalar>
 pair<Y<Scalar, 1, 2>, Y<Scalar, 1, 2>> propagateToMatch(const PeriodicMatslise<Scalar> *ms, const Scalar &E) {
     const Matslise<Scalar> &matslise = ms->matslise;
     const Scalar &match = matslise.sectors[matslise.matchIndex]->max;
+    // y' is of the size of y / length: with these values the determinants are independent of the length of the domain
+    const Scalar unit = sqrt(matslise.domain.max - matslise.domain.min);
+    Y<Scalar, 1, 2> left, right;
+    left.y() << unit, 0, 0, 1 / unit;
+    right.y() = ms->K * left.y().matrix();
     return {
-            ms->propagate(E, periodicInitialValue<Scalar>(), matslise.domain.min, match).first,
-            ms->propagate(E, periodicInitialValue<Scalar>(ms->K), matslise.domain.max, match).first
+            ms->propagate(E, left, matslise.domain.min, match).first,
+            ms->propagate(E, right, matslise.domain.max, match).first
     };
 }
 
@@ -128,7 +133,7 @@ pair<Scalar, Scalar> newtonCorrections(const PeriodicMatslise<Scalar> *ms, const
         if (isModerate<Scalar>(l) && isModerate<Scalar>(r))
             return {-error.determinant() / mixedDet(error, dError), numeric_limits<Scalar>::infinity()};
         // The determinants of both sides don't depend on E, and the sides may be of a very different size.
-        Scalar det = -2 - 2 * ms->K.determinant() - mixedDet(l, r);
+        Scalar det = 1 + ms->K.determinant() - mixedDet(l, r);
         Scalar dDet = -mixedDet(dl, r) - mixedDet(l, dr);
         return {-det / dDet, numeric_limits<Scalar>::infinity()};
     }
-- 
2.43.0


From d1271fbdf840a90a5949cf583602c92bf0e9b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:42 +0000
Subject: [PATCH 30/32] fix: normalisation of eigenfunctions in quadruple
 precision was limited to 1e-22

---
 matslise/matslise/matslise.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matslise/matslise/matslise.cpp b/matslise/matslise/matslise.cpp
index 4c2951e..766235f 100644
--- a/matslise/matslise/matslise.cpp
+++ b/matslise/matslise/matslise.cpp
@@ -360,7 +360,9 @@ public:
             Scalar hi = 1;
             for (int j = 1; j < MATSLISE_N; ++j)
                 bound += abs(sector.vs[j]) * (hi *= sector.h);
-            const int panels = 1 + (int) (sqrt(bound) * sector.h / 3);
+            // the change of phase over which twelve nodes are accurate up to rounding
+            const Scalar phase = numeric_limits<Scalar>::digits > 64 ? 1 : 3;
+            const int panels = 1 + (int) (sqrt(bound) * sector.h / phase);
             const Scalar h = (sector.max - sector.min) / panels;
             for (int j = 0; j < panels; ++j) {
                 for (int k = 0; k < 12; ++k) {
-- 
2.43.0


From 3062e538a632378bee2e7194773431bc6e7afd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:07 +0000
Subject: [PATCH 31/32] fix: empty, reversed and infinite domains accessed a
 mesh without sectors

---
 matslise/util/sectorbuilder.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 2f46e42..6843956 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -1,6 +1,8 @@
 #include "../matslise.h"
 #include "./sectorbuilder.h"
 #include <algorithm>
+#include <limits>
+#include <stdexcept>
 #include <tuple>
 
 
@@ -20,10 +22,17 @@ refineSector(const typename Problem::Sector &sector, const Problem *problem, con
     }
 }
 
+template<typename Scalar>
+static void checkDomain(const Scalar &min, const Scalar &max) {
+    if (!(min < max && max - min <= std::numeric_limits<Scalar>::max()))
+        throw std::runtime_error("SectorBuilder: the domain has to be a finite interval [xmin, xmax] with xmin < xmax");
+}
+
 template<typename Problem, typename Scalar>
 SectorBuilderReturn<Problem>
 UniformSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, const Scalar &min, const Scalar &max) const {
     typedef typename Problem::Sector Sector;
+    checkDomain(min, max);
     Scalar h = (max - min) / sectorCount;
 
     SectorBuilderReturn<Problem> r;
@@ -143,6 +152,7 @@ template<typename Problem, typename Scalar>
 SectorBuilderReturn<Problem>
 AutomaticSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, const Scalar &min,
                                                     const Scalar &max) const {
+    checkDomain(min, max);
     typedef typename Problem::Sector Sector;
 
     std::vector<unique_ptr<Sector>> forward;
-- 
2.43.0


From 160902eca716dc6919ab740b0f5e7d556a9e271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:24 +0000
Subject: [PATCH 32/32] fix: a sector leaked when the potential throws during
 the construction of the mesh

---
 matslise/util/sectorbuilder.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/matslise/util/sectorbuilder.cpp b/matslise/util/sectorbuilder.cpp
index 6843956..f26e8ec 100644
--- a/matslise/util/sectorbuilder.cpp
+++ b/matslise/util/sectorbuilder.cpp
@@ -62,7 +62,7 @@ UniformSectorBuilder<Problem, Scalar>::operator()(const Problem *problem, const
 }
 
 template<typename Problem>
-typename Problem::Sector *automaticNextSector(
+unique_ptr<typename Problem::Sector> automaticNextSector(
         const Problem *ms, typename Problem::Scalar &h,
         const typename Problem::Scalar &left, const typename Problem::Scalar &right,
         const typename Problem::Scalar &tolerance, const typename Problem::Scalar &minH, Direction direction) {
@@ -78,7 +78,7 @@ typename Problem::Sector *automaticNextSector(
     }
     h = xmax - xmin;
     int steps = 0;
-    Sector *s = new Sector(ms, xmin, xmax, direction);
+    unique_ptr<Sector> s(new Sector(ms, xmin, xmax, direction));
     Scalar error = s->error();
     while (error > tolerance && steps < 10 && h > minH) {
         ++steps;
@@ -88,10 +88,8 @@ typename Problem::Sector *automaticNextSector(
         } else {
             xmin = xmax - h;
         }
-        Sector *prevSector = s;
-        s = refineSector<Scalar, Problem>(*prevSector, ms, xmin, xmax, direction);
+        s.reset(refineSector<Scalar, Problem>(*s, ms, xmin, xmax, direction));
         h = xmax - xmin;
-        delete prevSector;
         error = s->error();
     }
     if constexpr(Sector::expensive) {
@@ -125,17 +123,15 @@ typename Problem::Sector *automaticNextSector(
                     }
                 }
                 h = xmax - xmin;
-                auto *newSector = refineSector<Scalar, Problem>(
-                        *s, ms, xmin, xmax, direction);
+                unique_ptr<Sector> newSector(refineSector<Scalar, Problem>(
+                        *s, ms, xmin, xmax, direction));
                 error = newSector->error();
 
                 if (error > tolerance) {
                     h = s->max - s->min;
-                    delete newSector;
                     break;
                 } else {
-                    delete s;
-                    s = newSector;
+                    s = std::move(newSector);
                 }
             }
         }
-- 
2.43.0

