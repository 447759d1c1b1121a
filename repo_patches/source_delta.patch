From 1f18947d355523e06ef87fe20f05aaf3ff2a4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:09 +0000
Subject: [PATCH 01/31] fix: remove the duplicate definition of D_RUS

fluxes.cpp defined D_RUS twice with the same signature, so the translation
unit did not compile and no numerical flux could be linked in.
---
 code/cpp/src/solvers/fv/fluxes.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..abfef71 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -73,14 +73,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   flux(f, qR, d, MP);
   return f;
 }
-
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From 04adf78ef875ec0f07c5515f06ef80a3b5383213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:24 +0000
Subject: [PATCH 02/31] fix: initialise the oscillation indicator before
 accumulating into it

---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 3537e45e0f26f02ff0fbd48c3a2a346a2bf0de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:24 +0000
Subject: [PATCH 03/31] fix: keep the states stored after a NaN inside the
 snapshot array

---
 code/cpp/src/solvers/iterator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..2570ac1 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,6 +159,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
+      pushCount = std::min(pushCount, 98); // leave room for both states
       ret[pushCount] = uprev;
       ret[pushCount + 1] = u;
       return ret;
-- 
2.43.0


From 5f68b012ca4ad8d1833030edecd8adf6172d487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 04/31] fix: keep the level set when it has no interface to
 measure from

---
 code/cpp/src/multi/pfmm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..60cdef5 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,7 +20,11 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  int error = marcher->getError();
   delete marcher;
 
+  if (error) // there is no interface to measure the distance to
+    return phi;
+
   return dist;
 }
-- 
2.43.0


From fbb4aa321f8d0056f8efcef954425a1d99f62035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 05/31] fix: pass the latest Newton step to the termination
 condition

---
 code/cpp/src/scipy/newton_krylov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/newton_krylov.cpp b/code/cpp/src/scipy/newton_krylov.cpp
index 7c5a5d4..5fff4b5 100644
--- a/code/cpp/src/scipy/newton_krylov.cpp
+++ b/code/cpp/src/scipy/newton_krylov.cpp
@@ -163,7 +163,7 @@ Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol,
       break;
 
     double tol = std::min(eta, eta * Fx_norm);
-    Vec dx = -jacobian.solve(Fx, tol);
+    dx = -jacobian.solve(Fx, tol);
 
     _nonlin_line_search(F, x, Fx, dx);
     double Fx_norm_new = Fx.norm();
-- 
2.43.0


From 8f20bb80c48939482d32783f1886c5ecaf82fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 06/31] fix: fill the whole stiff initial guess in two
 dimensions

---
 code/cpp/src/solvers/dg/initial_guess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..b2ddb9c 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,8 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  for (int i = 0; i < N; i++)
+    q.block(i * NT, 0, NT, V) = w;
   /*
 Mat qt = w;
 
-- 
2.43.0


From ca2b7664572be3c1c4eae226a67098154525cfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 07/31] fix: set the right-hand operator in the thermal slip
 conditions

---
 code/cpp/src/system/multi/conditions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 1d3a1b4..6693cc3 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -37,7 +37,7 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     Mat YL(2, n1);
     Mat YR(2, n1);
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YL << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-- 
2.43.0


From b8f898425ad79d3a6776167e9c1c5f9c857c6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 08/31] fix: add the mass-fraction flux like every other
 component

---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From 9a6ebb58a3d47155a22f3649c21c2204a94c29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 09/31] fix: do not relax the distortion of an elastic solid

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..63c8b13 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -64,7 +64,9 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
     }
-  } else
+  } else if (MP.SOLID) // purely elastic
+    return 0.;
+  else
     return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
-- 
2.43.0


From b8abbdc9280336332dd2582be37ca36382d83f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 10/31] fix: set the non-conservative product when there is no
 viscosity

---
 code/cpp/src/system/equations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 9819435..b10f242 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -163,6 +163,10 @@ void Bdot(VecVr ret, VecVr Q, VecVr x, int d, Par &MP) {
       B2dot(ret, x, v);
       break;
     }
+  } else {
+    ret.setZero();
+    for (int i = 1; i < LSET + 1; i++)
+      ret(V - i) = Q(2 + d) / Q(0) * x(V - i);
   }
 }
 
-- 
2.43.0


From 69247d0d919d2aff831628f4ec789729a7868c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 11/31] =?UTF-8?q?fix:=20include=20the=20reference=20temper?=
 =?UTF-8?q?ature=20in=20dT/d=CF=81?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 code/cpp/src/system/energy/mg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/energy/mg.cpp b/code/cpp/src/system/energy/mg.cpp
index d045dce..5f7ccb5 100644
--- a/code/cpp/src/system/energy/mg.cpp
+++ b/code/cpp/src/system/energy/mg.cpp
@@ -283,14 +283,14 @@ double dTdρ(double ρ, double p, Params &MP) {
 
   // TODO: update for multi (required for THERMAL mixtures)
 
-  // TODO: add Tref * dφ
-
   double cv = MP.cv;
   double Γ = Γ_MG(ρ, MP);
   double dΓ = dΓ_MG(ρ, MP);
   double pr = p_ref(ρ, MP);
   double dpr = dp_ref(ρ, MP);
-  return -(dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
+  double dφ = Γ / ρ * φ(ρ, MP);
+  return MP.Tref * dφ -
+         (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
 }
 
 double dTdp(double ρ, Params &MP) {
-- 
2.43.0


From bc2dcd33ee28925b1745d3b82d37413ad8ac6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 12/31] fix: let the phase densities vary in dE/dp of a mixture

---
 code/cpp/src/system/energy/derivatives.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 0a8a284..ef45c4a 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -55,10 +55,23 @@ double dEdp(VecVr Q, Par &MP) {
     double λ = Q(mV) / ρ;
 
     Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
     double ρ1 = sol(1);
     double ρ2 = sol(2);
 
-    return λ * dedp(ρ1, MP) + (1 - λ) * dedp(ρ2, MP.MP2);
+    double dT1 = dTdρ(ρ1, p, MP);
+    double dT2 = dTdρ(ρ2, p, MP.MP2);
+    double ΔTp = dTdp(ρ2, MP.MP2) - dTdp(ρ1, MP);
+
+    double c = λ / (ρ1 * ρ1) * dT2 + (1 - λ) / (ρ2 * ρ2) * dT1;
+
+    double dρ1 = (1 - λ) / (ρ2 * ρ2 * c) * ΔTp;
+    double dρ2 = -λ / (ρ1 * ρ1 * c) * ΔTp;
+
+    double tmp1 = λ * (dedp(ρ1, MP) + dedρ(ρ1, p, MP) * dρ1);
+    double tmp2 = (1 - λ) * (dedp(ρ2, MP.MP2) + dedρ(ρ2, p, MP.MP2) * dρ2);
+
+    return tmp1 + tmp2;
   } else {
     return dedp(ρ, MP);
   }
-- 
2.43.0


From d897dc1075c3dfaecfffaf82d8090835caac5151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:25 +0000
Subject: [PATCH 13/31] fix: leave the reaction energy out of the energy of an
 inert mixture

---
 code/cpp/src/system/functions/vectors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/functions/vectors.cpp b/code/cpp/src/system/functions/vectors.cpp
index f215841..9d16aa4 100644
--- a/code/cpp/src/system/functions/vectors.cpp
+++ b/code/cpp/src/system/functions/vectors.cpp
@@ -53,7 +53,7 @@ void Cvec(VecVr P, Par &MP)
   if (THERMAL)
   {
     Vec3 J = P.segment<3>(14);
-    if (MULTI)
+    if (MULTI && MP.REACTION > -1)
     {
       double λ = P(mV);
       P(1) = ρ * total_energy(ρ, p, A, J, v, λ, MP);
@@ -65,7 +65,7 @@ void Cvec(VecVr P, Par &MP)
   }
   else
   {
-    if (MULTI)
+    if (MULTI && MP.REACTION > -1)
     {
       double λ = P(mV);
       P(1) = ρ * total_energy(ρ, p, A, v, λ, MP);
-- 
2.43.0


From dd1ced358af5ec9ca93d9a42ac1c7eed4ec264af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:26 +0000
Subject: [PATCH 14/31] fix: use the direction of propagation in the
 thermo-acoustic tensor

---
 code/cpp/src/system/eig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
-- 
2.43.0


From 661a95bcf22ccd13085778d8c937bce2b45331a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 15/31] fix: solve for the predictor when its iterations do not
 converge

---
 code/cpp/src/solvers/dg/dg1.cpp | 10 +++++++++-
 code/cpp/src/solvers/dg/dg2.cpp | 11 ++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..e35c6ec 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -88,7 +88,8 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
         Mat q1(N * N, V);
         aMat absDiff(N * N, V);
 
-        for (int count = 0; count < DG_IT; count++) {
+        int count;
+        for (count = 0; count < DG_IT; count++) {
 
           q1 = DG_U1.solve(rhs1(q0, Ww, dt, dx, MP));
 
@@ -108,6 +109,13 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
             break;
           }
         }
+
+        if (count == DG_IT) { // the iterations did not converge
+          stiff_initial_guess(q0, wi, N, dt, MP);
+          VecMap q0v(q0.data(), N * N * V);
+          qh.segment<N * N * V>(ind * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..299b9a1 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -139,7 +139,8 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
         Mat q1(N * N * N, V);
         aMat absDiff(N * N * N, V);
 
-        for (int count = 0; count < DG_IT; count++)
+        int count;
+        for (count = 0; count < DG_IT; count++)
         {
 
           q1 = DG_U2.solve(rhs2(q0, Ww, dt, dx, dy, MP));
@@ -165,6 +166,14 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
             break;
           }
         }
+
+        if (count == DG_IT) // the iterations did not converge
+        {
+          stiff_initial_guess(q0, wi, N * N, dt, MP);
+          VecMap q0v(q0.data(), N * N * N * V);
+          qh.segment(ind * N * N * N * V, N * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
-- 
2.43.0


From b86265c8715155258049f1e92307413829e2ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 16/31] fix: take the angle of the cubic's root in the right
 quadrant

---
 code/cpp/src/system/relaxation/analytic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 63c8b13..15df673 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -110,7 +110,7 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
       double tmp = cbrt(54. * Δ);
       x1 = tmp / 6. + u / tmp + m;
     } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
+      double θ = atan2(sqrt(arg1), 9. * Δ);
       x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
     }
     double tmp2 = 3. * m - x1;
-- 
2.43.0


From c838bea18afb8ad15c052bd18410b987b5efd8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 17/31] fix: take the angle of the cubic's root in the right
 quadrant (Python)

---
 code/python/gpr/sys/analytical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index 742bd3c..d20505b 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -1,4 +1,4 @@
-from numpy import arctan, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
+from numpy import arctan, arctan2, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
 from numpy.linalg import svd
 
 from gpr.misc.functions import L2_1D
@@ -101,7 +101,7 @@ def solver_distortion_analytic(A, dt, MP):
         x1 = tmp / 6 + u / tmp + m
 
     else:
-        θ = arctan(sqrt(arg1) / (9 * Δ))
+        θ = arctan2(sqrt(arg1), 9 * Δ)
         x1 = sqrt(6 * u) / 3 * cos(θ / 3) + m
 
     tmp2 = 3 * m - x1
-- 
2.43.0


From 0d1cb61ca1fb8d5a750bed56cd2cb6477e2a319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 18/31] fix: relax fluids at the shear speed of their density

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 15df673..d32f6c0 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -59,7 +59,7 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
-      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
+      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * cs2);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
@@ -67,7 +67,7 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
   } else if (MP.SOLID) // purely elastic
     return 0.;
   else
-    return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
+    return MP.ρ0 * c_s2(ρ, MP) * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
-- 
2.43.0


From e2d5ea749cdb749de99045a428cc184e9ead3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 19/31] fix: relax fluids at the shear speed of their density
 (Python)

---
 code/python/gpr/sys/analytical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index d20505b..48b145b 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -57,13 +57,13 @@ def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
                      - 8 / 9 * b**3 - a**4 / 6 + 16 / 27 * a**3 * b
                      - 4 / 5 * a**2 * b**2 + 16 / 33 * a * b**3 - b**4 / 9)
 
-            τ1 = 6 * MP.μ**(1/n) / (MP.ρ0 * MP.b02)
+            τ1 = 6 * MP.μ**(1/n) / (MP.ρ0 * cs2)
             tmp1 = k * λ / τ1 * detA3**(4 * k + 7)
             tmp2 = (sqrt(c) * ρ * cs2 / (6 * sqrt(3)))**k
             return 2 / (k * λ) * log(tmp1 * tmp2 * dt + 1)
 
     else:
-        return MP.ρ0 * MP.b02 * detA3**7 / (3 * MP.μ) * dt
+        return MP.ρ0 * c_s2(ρ, MP) * detA3**7 / (3 * MP.μ) * dt
 
 
 def solver_distortion_analytic(A, dt, MP):
-- 
2.43.0


From b30df721d479872839be6a25f1371cf600a66bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 20/31] fix: keep ghost-fill probes inside the grid

---
 code/cpp/src/multi/fill.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..f491220 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -93,6 +93,11 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+iVec cell_index(aVec x, aVecr dX, iVecr nX) {
+  // index of the cell containing x (or nearest to it, if x is off the grid)
+  return (x / dX).cast<int>().max(0).min(nX.array() - 1);
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -105,9 +110,9 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  iVec xiVec = cell_index(xi, dX, nX);
+  iVec xLVec = cell_index(xL, dX, nX);
+  iVec xRVec = cell_index(xR, dX, nX);
 
   int ndim = nX.size();
   switch (ndim) {
@@ -244,7 +249,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = cell_index(xn, dX, nX);
 
   switch (ndim) {
   case 1:
-- 
2.43.0


From 450d08abac77a8d7e7993aaf750f70bfefb480dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 21/31] fix: derivative of the JWL and Cochran-Chan reference
 energies in gpr.vars.mg

---
 code/python/gpr/vars/mg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 1f599e7..dab1b9f 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -195,7 +195,7 @@ def de_ref(ρ, MP):
         return c02 / (ρ * α) * (tmp - 1) * tmp
 
     elif EOS in [JWL, COCHRAN_CHAN]:
-        return e_ref(ρ, MP) / ρ**2
+        return p_ref(ρ, MP) / ρ**2
 
 
 def internal_energy(ρ, p, MP):
-- 
2.43.0


From ff96e302c48a46189000b0412dc9ec28331fb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:09 +0000
Subject: [PATCH 22/31] fix: reference temperature in the density derivative of
 temperature in gpr.vars.mg

---
 code/python/gpr/vars/mg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index dab1b9f..60cb436 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -277,7 +277,9 @@ def dTdρ(ρ, p, MP):
     dΓ = dΓ_MG(ρ, MP)
     pr = p_ref(ρ, MP)
     dpr = dp_ref(ρ, MP)
-    return - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    dφ = Γ / ρ * φ(ρ, MP)
+    return MP.Tref * dφ \
+        - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
 
 
 def dTdp(ρ, MP):
-- 
2.43.0


From d160084d5ce8eade33d8f27aec44b8903824765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:09 +0000
Subject: [PATCH 23/31] fix: relaxation of fluids in gpr.vars.sources
 (undefined names, Bingham fluids, stress cut-off)

---
 code/python/gpr/vars/sources.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index cb52065..3ecd92b 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -30,16 +30,26 @@ def theta1inv(ρ, A, MP):
         else:   # elastic solid
             return 0
 
+    elif MP.BINGHAM:   # Bingham fluid
+
+        σY = MP.σY
+        σ = sigma(ρ, A, MP)
+        sn = norm(σ) / sqrt(2.)
+
+        if sn > σY:
+            return detA5_3 * MP.ρ0 / (2 * MP.μ) * (1 - σY / sn)
+        else:
+            return 0
+
     else:
 
         n = MP.n
-        const = detA5_3 * ρ0 / (2 * μ**(1/n))
+        const = detA5_3 * MP.ρ0 / (2 * MP.μ**(1/n))
 
         if MP.POWER_LAW:  # power law fluid
 
             σ = sigma(ρ, A, MP)
             sn = norm(σ) / sqrt(2.)
-            sn = min(sn, 1e8)   # Hacky fix
 
             return const * sn**((1-n)/n)
 
-- 
2.43.0


From c10775cdbaa7ea23372586d8466d13e2d22f6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:09 +0000
Subject: [PATCH 24/31] fix: compression and threshold of the ignition term in
 gpr.vars.sources.K_ing

---
 code/python/gpr/vars/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index 3ecd92b..4eb2a42 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -103,15 +103,15 @@ def K_ing(ρ, λ, p, MP):
     x = MP.x
     y = MP.y
     z = MP.z
-    φIG = MP.φIG
+    φI = MP.φI
     φG1 = MP.φG1
     φG2 = MP.φG2
 
     φ = 1 - λ
 
     ret = 0
-    if φIG > φ:
-        ret += I * λ**b * (ρ - 1 - a)**x
+    if φI > φ:
+        ret += I * λ**b * (ρ / MP.ρ0 - 1 - a)**x
     if φG1 > φ:
         ret += G1 * λ**c * φ**d * p**y
     if φ > φG2:
-- 
2.43.0


From a57dd1e5b2afdfa27440b6b00a7cd1e903c46816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 25/31] fix: reaction type compared with its code in State.K

---
 code/python/gpr/misc/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 17244d5..059e294 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -3,6 +3,7 @@ from numpy import zeros
 import GPRpy
 
 from gpr.misc.functions import gram, sigma_norm
+from gpr.misc.objects import REACTION_CODES
 from gpr.vars.derivatives import dEdρ, dEdp, dEdA, dEdA_s, dEdJ, dTdρ, dTdp
 from gpr.vars.eos import total_energy
 from gpr.vars.sources import theta1inv, theta2inv, K_arr, K_dis, K_ing, f_δp
@@ -85,11 +86,11 @@ class State():
         return theta2inv(self.ρ, self.T(), self.MP)
 
     def K(self):
-        if self.MP.REACTION == 'a':
+        if self.MP.REACTION == REACTION_CODES['a']:
             return K_arr(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'd':
+        elif self.MP.REACTION == REACTION_CODES['d']:
             return K_dis(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'i':
+        elif self.MP.REACTION == REACTION_CODES['i']:
             return K_ing(self.ρ, self.λ, self.p(), self.MP)
 
     def f_body(self):
-- 
2.43.0


From e59f87aa7bfa39ee63833bd330fefb4ab50cecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 26/31] fix: parameters of the second phase chosen by its own
 equation of state

---
 code/python/gpr/misc/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index cc52910..1e3a604 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -147,22 +147,22 @@ def params(MP, Rc, EOS,
             MP.MP2.cv = cv_2
             MP.MP2.Tref = Tref_2
 
-        if EOS == 'sg':
+        if EOS_2 == 'sg':
             MP.MP2.γ = γ_2
             MP.MP2.pINF = pINF_2
 
-        elif EOS == 'smg':
+        elif EOS_2 == 'smg':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.c02 = c0_2**2
             MP.MP2.s = s_2
 
-        elif EOS == 'gr':
+        elif EOS_2 == 'gr':
             MP.MP2.c02 = c0_2**2
             MP.MP2.α = α_2
             MP.MP2.β = β_2
             MP.MP2.γ = γ_2
 
-        elif EOS == 'jwl' or EOS == 'cc':
+        elif EOS_2 == 'jwl' or EOS_2 == 'cc':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.A = A_2
             MP.MP2.B = B_2
-- 
2.43.0


From cc4b352ff8c88188108e9a493e9169fa58c4cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 27/31] fix: optional parameters of the second phase

---
 code/python/gpr/misc/objects.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index 1e3a604..cd89510 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -169,14 +169,15 @@ def params(MP, Rc, EOS,
             MP.MP2.R1 = R1_2
             MP.MP2.R2 = R2_2
 
-        if b0 is not None:
+        if b0_2:
             MP.MP2.b02 = b0_2**2
             MP.MP2.β = β_2
-            MP.MP2.μ = μ_2
+            if μ_2:
+                MP.MP2.μ = μ_2
             if n_2:
                 MP.MP2.n = n_2
 
-        if cα:
+        if cα_2:
             MP.MP2.cα2 = cα_2**2
             MP.MP2.κ = κ_2
 
@@ -238,6 +239,9 @@ def material_params(EOS, ρ0,
         if Tref_2 is None:
             Tref_2 = 0
 
+        if γ_2 and (pINF_2 is None):
+            pINF_2 = 0
+
         if β_2 is None:
             β_2 = 0
 
-- 
2.43.0


From 90afca3864e696be7bfad537eaf673352ea80e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:21 +0000
Subject: [PATCH 28/31] fix: missing import in gpr.vars.hyp

---
 code/python/gpr/vars/hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/hyp.py b/code/python/gpr/vars/hyp.py
index 81edbe4..585f09e 100644
--- a/code/python/gpr/vars/hyp.py
+++ b/code/python/gpr/vars/hyp.py
@@ -1,4 +1,4 @@
-from numpy import dot, exp, eye, zeros
+from numpy import dot, exp, eye, log, zeros
 from numpy.linalg import det, inv
 
 from gpr.misc.functions import I_1, I_2, I_3, gram
-- 
2.43.0


From b858b26b6d2dde70a17f18fd4449ab5837429b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:21 +0000
Subject: [PATCH 29/31] fix: longitudinal characteristic speed in
 gpr.vars.wavespeeds

---
 code/python/gpr/vars/wavespeeds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/python/gpr/vars/wavespeeds.py b/code/python/gpr/vars/wavespeeds.py
index 7de5cb5..3d3a022 100644
--- a/code/python/gpr/vars/wavespeeds.py
+++ b/code/python/gpr/vars/wavespeeds.py
@@ -1,6 +1,7 @@
 from numpy import sqrt
 
 from gpr.vars.derivatives import dEdρ, dEdp
+from gpr.vars.shear import c_s2
 
 
 def c_0(ρ, p, A, MP):
@@ -11,10 +12,10 @@ def c_0(ρ, p, A, MP):
     return sqrt((p / ρ**2 - dE_dρ) / dE_dp)
 
 
-def c_inf(ρ, p, MP):
+def c_inf(ρ, p, A, MP):
     """ Returns the longitudinal characteristic speed
     """
-    c0 = c_0(ρ, p, MP)
+    c0 = c_0(ρ, p, A, MP)
     cs2 = c_s2(ρ, MP)
     return sqrt(c0**2 + 4 / 3 * cs2)
 
-- 
2.43.0


From 016a75945231ea1ffceb9882846a13bb83bac711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:13 +0000
Subject: [PATCH 30/31] fix: use the density-dependent shear speed in the
 contact waves of eigen()
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

dσ/dA was formed with b0^2 at the reference density while dσ/dρ and the
acoustic tensor use c_s^2(ρ); for β != 0 the waves moving with the material
changed the traction.
---
 code/cpp/src/system/multi/eigenvecs.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index ff27325..263a686 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -6,6 +6,7 @@
 #include "../functions/vectors.h"
 #include "../objects.h"
 #include "../variables/state.h"
+#include "../waves/shear.h"
 
 MatV_V eigen(VecVr Q, int d, Par &MP)
 {
@@ -21,14 +22,14 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat3_3Map A = get_A(Q);
   Mat3_3 G = A.transpose() * A;
   Mat3_3 A_devG = AdevG(A);
-  double b02 = MP.b02;
+  double cs2 = c_s2(ρ, MP);
 
   for (int i = 0; i < 3; i++)
     for (int j = 0; j < 3; j++)
     {
-      Π1(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 0);
-      Π2(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 1);
-      Π3(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 2);
+      Π1(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 0);
+      Π2(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 1);
+      Π3(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 2);
     }
   Mat Ξ1 = Xi1(ρ, p, Q, MP, d);
   Mat Ξ2 = Xi2(ρ, p, Q, MP, d);
-- 
2.43.0


From d3edd20eda8a91b1ca808a462b2eb21684db3f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:19 +0000
Subject: [PATCH 31/31] fix: make the stencil half-widths constant expressions

FN2 and CN2 were initialised by floor and ceil, at run time, separately in
every translation unit. globals.cpp builds the reconstruction matrices during
static initialisation with the copies of weno_matrices.cpp, which may still be
zero then: with clang -O0 and globals.cpp linked first, mCLinv is wrong.
---
 code/cpp/src/etc/globals.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/etc/globals.h b/code/cpp/src/etc/globals.h
index d1a17aa..a148289 100644
--- a/code/cpp/src/etc/globals.h
+++ b/code/cpp/src/etc/globals.h
@@ -8,8 +8,8 @@
 #include "../solvers/weno/weno_matrices.h"
 #include "types.h"
 
-const int FN2 = (int)floor((N - 1) / 2.);
-const int CN2 = (int)ceil((N - 1) / 2.);
+const int FN2 = (N - 1) / 2;
+const int CN2 = N / 2;
 
 extern const VecN NODES;
 extern const VecN WGHTS;
-- 
2.43.0

