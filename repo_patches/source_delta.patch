From 83ee35830a0ef3de5fd74f7572dce0e6c2b2fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 01/22] fix: shallow water flux uses the velocity, not the
 momentum, to transport momentum

---
 src/equations/ShallowWater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index c643179..c5eeb14 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -26,7 +26,7 @@ namespace fub {
 void ShallowWater::Flux(Conservative& flux, const Complete& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const double velocity = state.momentum[d];
+  const double velocity = state.momentum[d] / state.height;
   flux.height = state.momentum[d];
   flux.momentum[0] = velocity * state.momentum[0];
   flux.momentum[1] = velocity * state.momentum[1];
@@ -36,7 +36,7 @@ void ShallowWater::Flux(Conservative& flux, const Complete& state,
 void ShallowWater::Flux(ConservativeArray& flux, const CompleteArray& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const Array1d velocity = state.momentum.row(d);
+  const Array1d velocity = state.momentum.row(d) / state.height;
   flux.height = state.momentum.row(d);
   flux.momentum.row(0) = velocity * state.momentum.row(0);
   flux.momentum.row(1) = velocity * state.momentum.row(1);
-- 
2.43.0


From 02464a403ab8df504574aab5461fcbbd1234ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 02/22] fix: PerfectGasMix state helpers weigh the kinetic
 energy with the reference Mach number

---
 include/fub/equations/PerfectGasMix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index f0e7af1..a381d3c 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -403,7 +403,7 @@ private:
     q.density = kin.density;
     q.momentum = q.density * u;
     const double e = euler::InternalEnergy(eq, kin);
-    q.energy = q.density * (e + 0.5 * u.matrix().squaredNorm());
+    q.energy = q.density * (e + 0.5 * eq.Msq * u.matrix().squaredNorm());
     const double RT = kin.temperature;// * eq.Rspec;
     q.pressure = RT * q.density;
     q.speed_of_sound = std::sqrt(eq.gamma * RT);
@@ -474,7 +474,7 @@ private:
 
   template <typename Density, typename Momentum, typename Energy,
             typename Species, typename PassiveScalars>
-  friend void tag_invoke(tag_t<euler::SetVelocity>, const PerfectGasMix&,
+  friend void tag_invoke(tag_t<euler::SetVelocity>, const PerfectGasMix& eq,
                          PerfectGasMixConservative<Density, Momentum, Energy,
                                                    Species, PassiveScalars>& q,
                          nodeduce_t<const Momentum&> v) noexcept {
@@ -482,7 +482,7 @@ private:
       const double rhoE_kin_old = euler::KineticEnergy(q.density, q.momentum);
       q.momentum = q.density * v;
       const double rhoE_kin_new = euler::KineticEnergy(q.density, q.momentum);
-      q.energy += rhoE_kin_new - rhoE_kin_old;
+      q.energy += eq.Msq * (rhoE_kin_new - rhoE_kin_old);
     }
   }
 
@@ -565,7 +565,7 @@ private:
 
   friend double tag_invoke(tag_t<euler::Pressure>, const PerfectGasMix& eq,
                            const Conservative& q) noexcept {
-    const double ekin = euler::KineticEnergy(q.density, q.momentum);
+    const double ekin = eq.Msq * euler::KineticEnergy(q.density, q.momentum);
     return (q.energy - ekin) * eq.gamma_minus_one;
   }
 
-- 
2.43.0


From b3a36f18a3549e61207874aefeff988eea709532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 03/22] fix: the stable time step of a patch covers every
 stencil (sequential version dropped the last one, simd version all but the
 first of a row's tail)

---
 include/fub/flux_method/FluxMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 52e2848..51ab877 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -298,7 +298,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SequentialTag,
                                         const View<const Complete>& states,
                                         double dx, Direction dir) {
   double min_dt = std::numeric_limits<double>::infinity();
-  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize()}),
+  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize() - 1}),
                [&](const auto... is) {
                  using Index = std::array<std::ptrdiff_t, sizeof...(is)>;
                  const Index face{is...};
@@ -371,7 +371,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       LoadN(stencil_array_[i], states[i], n);
     }
     Array1d mask_;
-    for (int i = 0; i < mask_.rows(); ++i) {
+    for (int i = 0; i < mask_.size(); ++i) {
       mask_[i] = static_cast<double>(i);
     }
     auto mask = (mask_ < n).eval();
-- 
2.43.0


From cb2d20aa1fe4296f1d679bd024669aee901b6ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 04/22] fix: the upwinded (Larrouturou) HLLEM fluxes of
 species, scalars, transverse momentum and kinetic energy have the right sign
 for flow to the left

---
 src/equations/perfect_gas/HllemMethod.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 59d8ae6..ff374cc 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -490,7 +490,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -514,7 +514,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -545,9 +545,9 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
                     f_hllem_rhoE;
@@ -572,7 +572,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -596,7 +596,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -629,11 +629,11 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhow =
-          f_rho * (upwind * vL_[iz] - (1 - upwind) * vR_[iz]);
+          f_rho * (upwind * vL_[iz] + (1 - upwind) * vR_[iz]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.momentum[iz] = f_hllem_rhow;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
@@ -665,7 +665,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -689,7 +689,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
-- 
2.43.0


From f87d5d05fed811d0013a78cb737252d3de19b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 05/22] fix: the 3d HLLEM flux sets density and normal momentum
 (single cell) and corrects the normal momentum with the normal velocity
 (chunk)

---
 src/equations/perfect_gas/HllemMethod.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index ff374cc..0019a69 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -625,6 +625,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                            l25 * deltaRhoE;
     const double b_delta = b * delta;
     const double b_delta_alpha_2 = b_delta * alpha_2;
+    flux.density = flux_hlle_.density - b_delta_alpha_2;
+    flux.momentum[ix] = flux_hlle_.momentum[ix] - b_delta_alpha_2 * roeU[ix];
     if constexpr (Larrouturou) {
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
@@ -989,7 +991,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const Array1d b_delta_alpha_2 = b_delta * alpha_2;
     flux.density = flux_hlle_array_.density - b_delta_alpha_2;
     flux.momentum.row(ix) =
-        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(iy);
+        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(ix);
 
     if constexpr (Larrouturou) {
       const MaskArray upwind = (flux.density > 0.0);
-- 
2.43.0


From 156517bdde504234441ba525a4c5690807e14ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 06/22] fix: the HLLEM Riemann solver keeps the transverse
 momentum of a supersonic state

---
 src/equations/perfect_gas/HllemMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 0019a69..b4fab5f 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -359,9 +359,9 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
   }
 
   if (0.0 < sL) {
-    solution = left_;
+    solution = left;
   } else if (sR < 0.0) {
-    solution = right_;
+    solution = right;
   } else {
     AsCons(solution) = w_hllem_;
     CompleteFromCons(equation_, solution, solution);
-- 
2.43.0


From f7b5745dec17f5702eb516b5aee3857e722cb256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 07/22] fix: the HLLEM wave strengths weigh every velocity
 component with the reference Mach number

---
 src/equations/perfect_gas/HllemMethod.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index b4fab5f..6ae184a 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -184,7 +184,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -267,8 +267,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double l31 = -roeU[iy];
     // const double l32 = 0;
@@ -533,7 +533,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -617,8 +617,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoU[2] +
@@ -896,7 +896,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix == 0);
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
     const Array1d l24 = -gm1_over_roeA2;
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
                             l23 * deltaRhoU.row(1) + l24 * deltaRhoE;
@@ -980,8 +980,8 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
-    const Array1d l24 = gm1_over_roeA2 * roeU.row(2);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
+    const Array1d l24 = gm1_over_roeA2 * Msq * roeU.row(2);
     const Array1d l25 = -gm1_over_roeA2;
 
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
-- 
2.43.0


From 6d221048890c3b90d7c7523793c888d280c07d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 08/22] fix: the HLLEM energy correction of shear waves weighs
 the velocity with the reference Mach number

---
 src/equations/perfect_gas/HllemMethod.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 6ae184a..ef2887a 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -211,7 +211,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
                               u_bar_delta_alpha_3 * 1.0;
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta_alpha_2 * squaredNormRoeU_half -
-                        u_bar_delta_alpha_3 * roeU[iy];
+                        u_bar_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -307,7 +307,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
           u_bar_delta * (alpha_2 * roeU[iz] + alpha_4 * 1.0);
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta * (alpha_2 * squaredNormRoeU_half +
-                                       alpha_3 * roeU[iy] + alpha_4 * roeU[iz]);
+                                       alpha_3 * Msq * roeU[iy] + alpha_4 * Msq * roeU[iz]);
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -559,7 +559,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iy] = flux_hlle_.momentum[iy] - b_delta_alpha_2 * roeU[iy] -
                           b_delta_alpha_3 * 1.0;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy];
+                    b_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -654,7 +654,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iz] = flux_hlle_.momentum[iz] - b_delta_alpha_2 * roeU[iz] -
                           b_delta_alpha_4;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy] - b_delta_alpha_4 * roeU[iz];
+                    b_delta_alpha_3 * Msq * roeU[iy] - b_delta_alpha_4 * Msq * roeU[iz];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -921,7 +921,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iy) - b_delta_alpha_3;
       flux.energy = flux_hlle_array_.energy -
                     b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU.row(iy);
+                    b_delta_alpha_3 * Msq * roeU.row(iy);
     }
     if constexpr (euler::state_with_species<Conservative>()) {
       const int n_species = flux.species.rows();
@@ -1017,7 +1017,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iz) - b_delta_alpha_4;
       flux.energy =
           flux_hlle_array_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-          b_delta_alpha_3 * roeU.row(iy) - b_delta_alpha_4 * roeU.row(iz);
+          b_delta_alpha_3 * Msq * roeU.row(iy) - b_delta_alpha_4 * Msq * roeU.row(iz);
     }
 
     if constexpr (euler::state_with_species<Conservative>()) {
-- 
2.43.0


From 1babfe0df4d5b8262da547e64cbf8cd8914262ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 09/22] fix: the Einfeldt signal velocities use the full Roe
 velocity in the Roe speed of sound and masked densities in the enthalpies

---
 .../EinfeldtSignalVelocities.hpp              | 30 +++++++++++++++----
 .../perfect_gas/EinfeldtSignalVelocities.hpp  | 30 +++++++++++++++----
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
index fbcfaf3..471cb79 100644
--- a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
+++ b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
@@ -44,6 +44,12 @@ operator()(const Equation& equation, const Complete& left,
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const double roeU = roeAvg(uL, uR);
+  double roeU2 = 0.0;
+  for (int i = 0; i < left.momentum.size(); ++i) {
+    const double roeUi =
+        roeAvg(left.momentum[i] / rhoL, right.momentum[i] / rhoR);
+    roeU2 += roeUi * roeUi;
+  }
   const double rhoEL = left.energy;
   const double rhoER = right.energy;
   const double pL = left.pressure;
@@ -51,7 +57,7 @@ operator()(const Equation& equation, const Complete& left,
   const double hL = (rhoEL + pL) / rhoL;
   const double hR = (rhoER + pR) / rhoR;
   const double roeH = roeAvg(hL, hR);
-  const double roeA2 = (equation.gamma - 1.0) * (roeH - 0.5 * roeU * roeU);
+  const double roeA2 = (equation.gamma - 1.0) * (roeH - 0.5 * roeU2);
   const double roeA = std::sqrt(roeA2);
   const double sL1 = uL - aL;
   const double sL2 = roeU - roeA;
@@ -79,6 +85,13 @@ operator()(const Equation& equation, const CompleteArray& left,
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int i = 0; i < left.momentum.rows(); ++i) {
+    const Array1d rhoUiL = left.momentum.row(i);
+    const Array1d rhoUiR = right.momentum.row(i);
+    const Array1d roeUi = roeAvg(rhoUiL / rhoL, rhoUiR / rhoR);
+    roeU2 += roeUi * roeUi;
+  }
   const Array1d rhoEL = left.energy;
   const Array1d rhoER = right.energy;
   const Array1d pL = left.pressure;
@@ -87,7 +100,7 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d hR = (rhoER + pR) / rhoR;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
-                        (roeH - Array1d::Constant(0.5) * roeU * roeU);
+                        (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
@@ -125,15 +138,22 @@ operator()(const Equation& equation, const CompleteArray& left,
     return (xL * sqRhoL_over_sqRho + xR * sqRhoR_over_sqRho);
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int i = 0; i < left.momentum.rows(); ++i) {
+    const Array1d rhoUiL = mask.select(left.momentum.row(i), zero);
+    const Array1d rhoUiR = mask.select(right.momentum.row(i), zero);
+    const Array1d roeUi = roeAvg(rhoUiL / rhoLs, rhoUiR / rhoRs);
+    roeU2 += roeUi * roeUi;
+  }
   const Array1d rhoEL = mask.select(left.energy, zero);
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
-                        (roeH - Array1d::Constant(0.5) * roeU * roeU);
+                        (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
diff --git a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
index c542fd0..e8e72b0 100644
--- a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
+++ b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
@@ -45,6 +45,12 @@ std::array<double, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const double roeU = roeAvg(uL, uR);
+  double roeU2 = 0.0;
+  for (int i = 0; i < left.momentum.size(); ++i) {
+    const double roeUi =
+        roeAvg(left.momentum[i] / rhoL, right.momentum[i] / rhoR);
+    roeU2 += roeUi * roeUi;
+  }
   const double rhoEL = left.energy;
   const double rhoER = right.energy;
   const double pL = left.pressure;
@@ -52,7 +58,7 @@ std::array<double, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
   const double hL = (rhoEL + pL) / rhoL;
   const double hR = (rhoER + pR) / rhoR;
   const double roeH = roeAvg(hL, hR);
-  const double roeA2 =(equation.gamma - 1.0) * (roeH  - 0.5 * roeU * roeU);
+  const double roeA2 =(equation.gamma - 1.0) * (roeH - 0.5 * roeU2);
   const double roeA = std::sqrt(roeA2);
   const double sL1 = uL - aL;
   const double sL2 = roeU - roeA;
@@ -80,6 +86,13 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
     return (xL * sqRhoL + xR * sqRhoR) * oosqRhoSum;
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int i = 0; i < left.momentum.rows(); ++i) {
+    const Array1d rhoUiL = left.momentum.row(i);
+    const Array1d rhoUiR = right.momentum.row(i);
+    const Array1d roeUi = roeAvg(rhoUiL / rhoL, rhoUiR / rhoR);
+    roeU2 += roeUi * roeUi;
+  }
   const Array1d rhoEL = left.energy;
   const Array1d rhoER = right.energy;
   const Array1d pL = left.pressure;
@@ -87,7 +100,7 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
   const Array1d hL = (rhoEL + pL) / rhoL;
   const Array1d hR = (rhoER + pR) / rhoR;
   const Array1d roeH = roeAvg(hL, hR);
-  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH  - Array1d::Constant(0.5) * roeU * roeU);
+  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
@@ -125,14 +138,21 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
     return (xL * sqRhoL_over_sqRho + xR * sqRhoR_over_sqRho);
   };
   const Array1d roeU = roeAvg(uL, uR);
+  Array1d roeU2 = Array1d::Zero();
+  for (int i = 0; i < left.momentum.rows(); ++i) {
+    const Array1d rhoUiL = mask.select(left.momentum.row(i), zero);
+    const Array1d rhoUiR = mask.select(right.momentum.row(i), zero);
+    const Array1d roeUi = roeAvg(rhoUiL / rhoLs, rhoUiR / rhoRs);
+    roeU2 += roeUi * roeUi;
+  }
   const Array1d rhoEL = mask.select(left.energy, zero);
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
-  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH  - Array1d::Constant(0.5) * roeU * roeU);
+  const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH - Array1d::Constant(0.5) * roeU2);
   const Array1d roeA = roeA2.sqrt();
   const Array1d sL1 = uL - aL;
   const Array1d sL2 = roeU - roeA;
-- 
2.43.0


From 6a264e950194b517cf9ebe57ab95120b69bbd2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 10/22] fix: the Einfeldt signal velocities of the ideal gas
 mixture use the same Roe speed in the single-cell, chunk and masked variants

---
 src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
index e634aeb..b4afbc9 100644
--- a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
+++ b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
@@ -44,8 +44,8 @@ operator()(const IdealGasMix<Dim>&, const Complete& left, const Complete& right,
       0.5 * (sqRhoL * sqRhoR) / ((sqRhoL + sqRhoR) * (sqRhoL + sqRhoR)) *
           (uR - uL) * (uR - uL));
   const double sL1 = uL - aL;
-  const double sL2 = roeU - 0.5 * roeA;
-  const double sR1 = roeU + 0.5 * roeA;
+  const double sL2 = roeU - roeA;
+  const double sR1 = roeU + roeA;
   const double sR2 = uR + aR;
   return {std::min(sL1, sL2), std::max(sR1, sR2)};
 }
@@ -107,8 +107,8 @@ operator()(const IdealGasMix<Dim>&, const CompleteArray& left,
        0.5 * sqRhoL_over_sqRho * sqRhoR_over_sqRho * (uR - uL) * (uR - uL))
           .sqrt();
   const Array1d sL1 = uL - aL;
-  const Array1d sL2 = roeU - 0.5 * roeA;
-  const Array1d sR1 = roeU + 0.5 * roeA;
+  const Array1d sL2 = roeU - roeA;
+  const Array1d sR1 = roeU + roeA;
   const Array1d sR2 = uR + aR;
   return {sL1.min(sL2), sR1.max(sR2)};
 }
-- 
2.43.0


From c6a9f4bb80a566d1e9b6541faad0dc49de4b86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 11/22] fix: reconstruction of mixtures uses the reference Mach
 number consistently

---
 include/fub/flux_method/Reconstruct.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index 1860847..e667327 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -231,6 +231,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   const double a = q0.speed_of_sound;
   const double a2 = a * a;
   const double rho_a2 = rho * a2;
+  const double rho_MaSq = rho * euler::MaSq(equation_);
   w_rec_.density =
       w_.density +
       dx_half * (dw_dx.density -
@@ -242,7 +243,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_.velocity[ix] =
       w_.velocity[ix] +
       dx_half * (dw_dx.velocity[ix] -
-                 lambda * (u * dw_dx.velocity[ix] + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity[ix] + dw_dx.pressure / rho_MaSq));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
@@ -365,6 +366,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   const Array1d a = q0.speed_of_sound;
   const Array1d a2 = a * a;
   const Array1d rho_a2 = rho * a2;
+  const Array1d rho_MaSq = rho * euler::MaSq(equation_);
   w_rec_array_.density =
       w_array_.density +
       dx_half * (dw_dx.density -
@@ -376,7 +378,8 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_array_.velocity.row(ix) =
       w_array_.velocity.row(ix) +
       dx_half * (dw_dx.velocity.row(ix) -
-                 lambda * (u * dw_dx.velocity.row(ix) + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity.row(ix) +
+                           dw_dx.pressure / rho_MaSq));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
@@ -408,7 +411,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
     Complete& reconstruction, const Complete& q0, const Characteristics& dKdx,
     Duration dt, double dx, Direction dir, Side side) noexcept {
   PrimFromComplete(equation_, w_rec_, q0);
-  const double Minv = 1.0 / euler::MaSq(equation_);
+  const double Minv = 1.0 / std::sqrt(euler::MaSq(equation_));
   const int ix = static_cast<int>(dir);
   const double u = w_rec_.velocity[ix];
   const double c = q0.speed_of_sound;
@@ -462,6 +465,8 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
     const CharacteristicsArray& dKdx, Duration dt, double dx, Direction dir,
     Side side) noexcept {
   PrimFromComplete(equation_, w_rec_array_, q0);
+  const Array1d Minv =
+      Array1d::Constant(1.0 / std::sqrt(euler::MaSq(equation_)));
   const int ix = static_cast<int>(dir);
   const Array1d u = w_rec_array_.velocity.row(ix);
   const Array1d c = q0.speed_of_sound;
@@ -469,9 +474,9 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   const Array1d lambda = Array1d::Constant(sign * dt.count() / dx);
   const Array1d dx_half = Array1d::Constant(sign * 0.5 * dx);
   dKdt_array_.minus =
-      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c));
+      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c * Minv));
   dKdt_array_.plus =
-      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c));
+      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c * Minv));
   for (int i = 0; i < dKdt_array_.zero.rows(); ++i) {
     dKdt_array_.zero.row(i) =
         dx_half * dKdx.zero.row(i) * (Array1d::Constant(1.0) - lambda * u);
@@ -495,7 +500,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   dwdt_array_.pressure = 0.5 * (dKdt_array_.minus + dKdt_array_.plus);
   dwdt_array_.density = dwdt_array_.pressure / c2 + dKdt_array_.zero.row(0);
   dwdt_array_.velocity.row(ix) =
-      0.5 * (dKdt_array_.plus - dKdt_array_.minus) / rhoc;
+      0.5 * (dKdt_array_.plus - dKdt_array_.minus) * Minv / rhoc;
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
-- 
2.43.0


From 74e2e9a83647edf70fd0501511d17ab974eec99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 12/22] fix: do not write outputs again for the restored state
 after a failed time step

---
 include/fub/RunSimulation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/RunSimulation.hpp b/include/fub/RunSimulation.hpp
index 7e7a3cc..d19578c 100644
--- a/include/fub/RunSimulation.hpp
+++ b/include/fub/RunSimulation.hpp
@@ -183,7 +183,9 @@ void RunSimulation(Solver& solver, RunOptions options,
     } while (
         time_point + eps < options.final_time &&
         (options.max_cycles < 0 || solver.GetCycles() < options.max_cycles) &&
-        !output.ShallOutputNow(*solver.GetGriddingAlgorithm()));
+        // A failed step is repeated first, its initial state is already written.
+        (failure_dt ||
+         !output.ShallOutputNow(*solver.GetGriddingAlgorithm())));
     auto output_timer = solver.GetCounterRegistry()->get_timer("Output");
     output(*solver.GetGriddingAlgorithm());
   }
-- 
2.43.0


From 2deabe42be7e2d4352a0a056aaa1b3b9a511a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 13/22] fix: span::last(count) of a span with dynamic extent
 computes its offset from the size

---
 include/fub/core/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/core/span.hpp b/include/fub/core/span.hpp
index f434d47..03a43a2 100644
--- a/include/fub/core/span.hpp
+++ b/include/fub/core/span.hpp
@@ -847,7 +847,7 @@ public:
   /// \throws Nothing.
   constexpr span<element_type> last(index_type count) const {
     FUB_ASSERT(0 <= count && count <= size());
-    return {pointer_ + (extent - count), count};
+    return {pointer_ + (size() - count), count};
   }
 
   /// Returns a subspan viewing `Count` many elements from offset `Offset`.
-- 
2.43.0


From 9c592e0e0007ae752489ea864f3950cde0876f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 14/22] fix: ForEachIndex accepts strided mappings with equal
 strides (views of one column)

---
 include/fub/ForEach.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fub/ForEach.hpp b/include/fub/ForEach.hpp
index 66bbdc6..4be9986 100644
--- a/include/fub/ForEach.hpp
+++ b/include/fub/ForEach.hpp
@@ -118,15 +118,15 @@ Function ForEachIndex(const layout_stride::mapping<Extents>& mapping,
       function(i);
     }
   } else if constexpr (Extents::rank() == 2) {
-    FUB_ASSERT(mapping.stride(0) < mapping.stride(1));
+    FUB_ASSERT(mapping.stride(0) <= mapping.stride(1));
     for (int i = 0; i < mapping.extents().extent(1); ++i) {
       for (int j = 0; j < mapping.extents().extent(0); ++j) {
         function(j, i);
       }
     }
   } else if constexpr (Extents::rank() == 3) {
-    FUB_ASSERT(mapping.stride(0) < mapping.stride(1));
-    FUB_ASSERT(mapping.stride(1) < mapping.stride(2));
+    FUB_ASSERT(mapping.stride(0) <= mapping.stride(1));
+    FUB_ASSERT(mapping.stride(1) <= mapping.stride(2));
     for (int i = 0; i < mapping.extents().extent(2); ++i) {
       for (int j = 0; j < mapping.extents().extent(1); ++j) {
         for (int k = 0; k < mapping.extents().extent(0); ++k) {
-- 
2.43.0


From 9dc6e320acc3c231fdec81d994bb3ae81ecef564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 15/22] fix: ForEachRow visits every row of a two-dimensional
 view exactly once, and none of an empty view

---
 include/fub/StateRow.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/fub/StateRow.hpp b/include/fub/StateRow.hpp
index 8442aa5..b1bf1c2 100644
--- a/include/fub/StateRow.hpp
+++ b/include/fub/StateRow.hpp
@@ -176,12 +176,9 @@ void ForEachRow(const Tuple& views, Function f) {
     std::tuple rows = Transform(firsts, ToRow{row_extent});
     std::apply(f, rows);
   } else if constexpr (std::tuple_element_t<0, Tuple>::rank() == 2) {
-    std::tuple lasts = Transform(views, [](const auto& v) { return End(v); });
+    const std::ptrdiff_t ny = Extent<Direction::Y>(std::get<0>(views));
     std::tuple strides = Transform(views, ToStride<Direction::Y>());
-    const auto& first = std::get<0>(firsts);
-    const auto& last = std::get<0>(lasts);
-    std::ptrdiff_t n = GetOrForward<0>(last) - GetOrForward<0>(first);
-    while (n >= std::get<0>(strides)) {
+    for (std::ptrdiff_t i = 0; i < ny; ++i) {
       std::tuple rows = Transform(firsts, ToRow{row_extent});
       std::apply(f, rows);
       std::tuple firsts_and_strides = Zip(firsts, strides);
@@ -191,7 +188,6 @@ void ForEachRow(const Tuple& views, Function f) {
       firsts = std::apply(
           [](auto&&... fs) { return std::tuple{std::get<0>(fs)...}; },
           firsts_and_strides);
-      n = GetOrForward<0>(last) - GetOrForward<0>(first);
     }
   } else {
     const std::ptrdiff_t ny = Extent<Direction::Y>(std::get<0>(views));
-- 
2.43.0


From 123675e667f064667dbc6c74c187e19c0ce06a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 16/22] fix: subspan keeps empty ranges and layout_stride
 mappings compare their strides

---
 include/fub/core/mdspan.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fub/core/mdspan.hpp b/include/fub/core/mdspan.hpp
index 910ca3d..a3888d3 100644
--- a/include/fub/core/mdspan.hpp
+++ b/include/fub/core/mdspan.hpp
@@ -536,7 +536,15 @@ struct layout_stride {
     template <class OtherExtents>
     constexpr bool
     operator==(const mapping<OtherExtents>& other) const noexcept {
-      return extents() == other.extents();
+      if (!(extents() == other.extents())) {
+        return false;
+      }
+      for (std::size_t r = 0; r < Extents::rank(); ++r) {
+        if (stride(r) != other.stride(r)) {
+          return false;
+        }
+      }
+      return true;
     }
     template <class OtherExtents>
     constexpr bool
@@ -949,10 +957,12 @@ MakeSliceExtents2_(const Extents& e, SliceSpecifiers... slices) {
       dyn_length[i] = length[i];
     }
   }
+  constexpr std::array<bool, Extents::rank()> is_range{
+      IsSliceRange_<SliceSpecifiers>()...};
   std::array<std::ptrdiff_t, SliceRank_<SliceSpecifiers...>> extents{};
   std::size_t slice = 0;
   for (std::size_t i = 0; i < Extents::rank(); ++i) {
-    if (dyn_length[i] > 0) {
+    if (is_range[i]) {
       extents[slice] = dyn_length[i];
       slice = slice + 1;
     }
-- 
2.43.0


From 08026cf2a0601d1b08505c29f57b6d6d6f7ffce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 17/22] fix: the array version of the gradient detector
 compares each cell with its own neighbours, in every direction

---
 .../fub/tagging_method/GradientDetector.hpp   | 106 +++++++++---------
 1 file changed, 50 insertions(+), 56 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 344045d..19a0d93 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -240,63 +240,57 @@ template <typename Equation, typename... Projections>
 void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
     const PatchDataView<char, Rank, layout_stride>& tags,
     const View<const Complete<Equation>>& states) {
-  Direction dir = Direction::X;
-  BasicView shifted = Subview(states, Grow(tags.Box(), dir, {1, 1}));
-  std::tuple views{tags, Shrink(shifted, dir, {0, 2}),
-                   Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
-  FUB_ASSERT(Box<0>(std::get<2>(views)) == tags.Box());
-  ForEachRow(views, [&](span<char> tags_row,
-                        const Row<const Complete<Equation>>& rL,
-                        const Row<const Complete<Equation>>& rM,
-                        const Row<const Complete<Equation>>& rR) {
-    char* tags_pointer = tags_row.begin();
-    ViewPointer<const Complete<Equation>> pL = Begin(rL);
-    ViewPointer<const Complete<Equation>> pM = Begin(rM);
-    ViewPointer<const Complete<Equation>> pR = Begin(rR);
-    ViewPointer<const Complete<Equation>> pEnd = End(rR);
-    int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    if (n >= kDefaultChunkSize) {
-      Load(sM_, pL);
-      Load(sR_, pM);
-    }
-    const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
-    while (n >= kDefaultChunkSize) {
-      sL_ = sM_;
-      sM_ = sR_;
-      Load(sR_, pR);
-      Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
-      boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
-        auto&& [proj, tolerance] = condition;
-        const Array1d xL = std::invoke(proj, sL_);
-        const Array1d xM = std::invoke(proj, sM_);
-        const Array1d xR = std::invoke(proj, sR_);
-        const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
-        const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-        tags_array = (left < tolerance).select(tags_array, ones);
-        tags_array = (right < tolerance).select(tags_array, ones);
-      });
-      Array<char, 1>::Map(tags_pointer) = tags_array;
-      Advance(pR, kDefaultChunkSize);
-      tags_pointer += kDefaultChunkSize;
-      n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    }
-    LoadN(sL_, pL, n);
-    LoadN(sM_, pM, n);
-    LoadN(sR_, pR, n);
-    Array<char, 1> tags_array = Array<char, 1>::Zero();
-    LoadN(tags_array, tags_pointer, n);
-    boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
-      auto&& [proj, tolerance] = condition;
-      const Array1d xL = std::invoke(proj, sL_);
-      const Array1d xM = std::invoke(proj, sM_);
-      const Array1d xR = std::invoke(proj, sR_);
-      const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
-      const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-      tags_array = (left < tolerance).select(tags_array, ones);
-      tags_array = (right < tolerance).select(tags_array, ones);
+  for (int d = 0; d < Rank; ++d) {
+    const Direction dir = static_cast<Direction>(d);
+    BasicView shifted = Subview(states, Grow(tags.Box(), dir, {1, 1}));
+    std::tuple views{tags, Shrink(shifted, dir, {0, 2}),
+                     Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
+    FUB_ASSERT(Box<0>(std::get<2>(views)) == tags.Box());
+    ForEachRow(views, [&](span<char> tags_row,
+                          const Row<const Complete<Equation>>& rL,
+                          const Row<const Complete<Equation>>& rM,
+                          const Row<const Complete<Equation>>& rR) {
+      char* tags_pointer = tags_row.begin();
+      ViewPointer<const Complete<Equation>> pL = Begin(rL);
+      ViewPointer<const Complete<Equation>> pM = Begin(rM);
+      ViewPointer<const Complete<Equation>> pR = Begin(rR);
+      ViewPointer<const Complete<Equation>> pEnd = End(rR);
+      const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
+      auto tag_steep_gradients = [&](Array<char, 1>& tags_array) {
+        boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
+          auto&& [proj, tolerance] = condition;
+          const Array1d xL = std::invoke(proj, sL_);
+          const Array1d xM = std::invoke(proj, sM_);
+          const Array1d xR = std::invoke(proj, sR_);
+          const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
+          const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
+          tags_array = (left > tolerance).select(ones, tags_array);
+          tags_array = (right > tolerance).select(ones, tags_array);
+        });
+      };
+      int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      while (n >= kDefaultChunkSize) {
+        Load(sL_, pL);
+        Load(sM_, pM);
+        Load(sR_, pR);
+        Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+        tag_steep_gradients(tags_array);
+        Array<char, 1>::Map(tags_pointer) = tags_array;
+        Advance(pL, kDefaultChunkSize);
+        Advance(pM, kDefaultChunkSize);
+        Advance(pR, kDefaultChunkSize);
+        tags_pointer += kDefaultChunkSize;
+        n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      }
+      LoadN(sL_, pL, n);
+      LoadN(sM_, pM, n);
+      LoadN(sR_, pR, n);
+      Array<char, 1> tags_array = Array<char, 1>::Zero();
+      LoadN(tags_array, tags_pointer, n);
+      tag_steep_gradients(tags_array);
+      StoreN(tags_pointer, tags_array, n);
     });
-    StoreN(tags_pointer, tags_array, n);
-  });
+  }
 }
 
 } // namespace fub
-- 
2.43.0


From 927e1a82e4491fb74e86c164c92c931ae7e96144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 18/22] fix: TagBuffer tags exactly the cells within the buffer
 width of a tagged cell in every dimension

---
 src/tagging_method/TagBuffer.cpp | 73 +++++++++++---------------------
 1 file changed, 24 insertions(+), 49 deletions(-)

diff --git a/src/tagging_method/TagBuffer.cpp b/src/tagging_method/TagBuffer.cpp
index f3123f1..9483895 100644
--- a/src/tagging_method/TagBuffer.cpp
+++ b/src/tagging_method/TagBuffer.cpp
@@ -23,66 +23,41 @@
 #include "fub/ForEach.hpp"
 
 namespace fub {
+namespace {
+// Cells with the values 1 or 2 are tagged. Every other cell which is not farther
+// than width from a tagged cell is marked with the value 3.
+template <int Rank>
+void TagCellsForRefinement_(
+    const PatchDataView<char, Rank, layout_stride>& tags,
+    std::ptrdiff_t width) {
+  const IndexBox<Rank> box = tags.Box();
+  ForEachIndex(box, [&](auto... is) {
+    if (tags(is...) == '\1' || tags(is...) == '\2') {
+      const IndexBox<Rank> neighborhood =
+          Intersect(box, IndexBox<Rank>{Index<Rank>{(is - width)...},
+                                        Index<Rank>{(is + width + 1)...}});
+      ForEachIndex(neighborhood, [&](auto... js) {
+        tags(js...) =
+            std::max(tags(js...), static_cast<char>('\3' - tags(js...)));
+      });
+    }
+  });
+}
+} // namespace
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 1, layout_stride>& tags) {
-  span<char> data = tags.Span();
-  for (std::ptrdiff_t i = buffer_width_; i < data.size() - buffer_width_; ++i) {
-    if (data[i] == '\1') {
-      for (std::ptrdiff_t j = 0; j < buffer_width_; ++j) {
-        data[i + j] = static_cast<char>('\2' - data[i + j]);
-      }
-      for (std::ptrdiff_t j = buffer_width_; j > 0; --j) {
-        data[i - j - 1] = static_cast<char>('\2' - data[i - j - 1]);
-      }
-    }
-  }
+  TagCellsForRefinement_(tags, buffer_width_);
 }
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 2, layout_stride>& tags) {
-  mdspan<char, 2, layout_stride> data = tags.MdSpan();
-  const std::ptrdiff_t nx = data.extent(0);
-  const std::ptrdiff_t ny = data.extent(1);
-  for (std::ptrdiff_t j = 0; j < ny; ++j) {
-    for (std::ptrdiff_t i = 0; i < nx; ++i) {
-      if (data(i, j) == '\1' || data(i, j) == '\2') {
-        const std::ptrdiff_t k0 =
-            std::max(i - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t k1 = std::min(i + buffer_width_, nx);
-        const std::ptrdiff_t l0 =
-            std::max(j - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t l1 = std::min(j + buffer_width_, ny);
-        for (std::ptrdiff_t l = l0; l < l1; ++l) {
-          for (std::ptrdiff_t k = k0; k < k1; ++k) {
-            data(k, l) =
-                std::max(data(k, l), static_cast<char>('\3' - data(k, l)));
-          }
-        }
-      }
-    }
-  }
+  TagCellsForRefinement_(tags, buffer_width_);
 }
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 3, layout_stride>& tags) {
-  const std::array<std::ptrdiff_t, 2> shift{buffer_width_, buffer_width_};
-  const Direction X = Direction::X;
-  const Direction Y = Direction::Y;
-  const Direction Z = Direction::Z;
-  IndexBox<3> box =
-      Shrink(Shrink(Shrink(tags.Box(), X, shift), Y, shift), Z, shift);
-  ForEachIndex(box, [&](std::ptrdiff_t i0, std::ptrdiff_t j0,
-                        std::ptrdiff_t k0) {
-    Index<3> lower{i0 - buffer_width_, j0 - buffer_width_, k0 - buffer_width_};
-    Index<3> upper{i0 + buffer_width_, j0 + buffer_width_, k0 + buffer_width_};
-    IndexBox<3> neighborhood{lower, upper};
-    ForEachIndex(neighborhood, [&](std::ptrdiff_t i, std::ptrdiff_t j,
-                                   std::ptrdiff_t k) {
-      tags(i, j, k) =
-          std::max(tags(i, j, k), static_cast<char>('\2' - tags(i, j, k)));
-    });
-  });
+  TagCellsForRefinement_(tags, buffer_width_);
 }
 
 } // namespace fub
-- 
2.43.0


From fc69fa4ba3f11dcd6c893f4678c93273da2e60e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 19/22] fix: RadauSolver restarts from the state it was given
 and keeps the user data after its integrator stopped early

---
 src/ode_solver/RadauSolver.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ode_solver/RadauSolver.cpp b/src/ode_solver/RadauSolver.cpp
index fb88204..e0f655e 100644
--- a/src/ode_solver/RadauSolver.cpp
+++ b/src/ode_solver/RadauSolver.cpp
@@ -22,6 +22,7 @@
 
 #include "fub/ode_solver/OdeSolverFactory.hpp"
 
+#include <algorithm>
 #include <string>
 
 namespace fub {
@@ -182,6 +183,8 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   iwork_space_.resize(GetIWorkSpaceSize(y0.size()));
 
   const double t = t0 + dt; // final fime
+  const double t_half = t0 + dt / 2;
+  const std::vector<double> y_initial(y0.begin(), y0.end());
 
   iwork_space_[0] = 1; // Use Hessenberg matrix form
   // iwork[1] = 10000; // Increase maximum number of steps
@@ -218,10 +221,13 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   case -2:
     throw radau_error::LargerNMaxIsNeeded{};
   case -3:
+    // Start again from the initial state and integrate both halves of the
+    // interval, one after the other.
+    std::copy(y_initial.begin(), y_initial.end(), y0.begin());
     idid = call_radau(radau_rhs, // RHS function
-                      reinterpret_cast<int*>(std::addressof(system)), // IPAR
+                      reinterpret_cast<int*>(&user_data), // IPAR
                       t0,                     // Initial time
-                      t / 2,                  // Final integration time
+                      t_half,                 // Final integration time
                       y0,                     // Initial y array and output
                       initial_time_step_size, // Initial step size
                       relative_tolerance,     // Tolerances
@@ -232,9 +238,9 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
                       jacobian ? radau_jacobian : jac_t{nullptr});
     if (idid > 0) {
       idid = call_radau(radau_rhs, // RHS function
-                        reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                        t0,                     // Initial time
-                        t / 2,                  // Final integration time
+                        reinterpret_cast<int*>(&user_data), // IPAR
+                        t_half,                 // Initial time
+                        t,                      // Final integration time
                         y0,                     // Initial y array and output
                         initial_time_step_size, // Initial step size
                         relative_tolerance,     // Tolerances
-- 
2.43.0


From f2f02654aa8dfe50aad75cd0d56805361929a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 20/22] fix: cloning a RadauSolver keeps its options

---
 include/fub/ode_solver/RadauSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/ode_solver/RadauSolver.hpp b/include/fub/ode_solver/RadauSolver.hpp
index b9e0a73..fffd5f9 100644
--- a/include/fub/ode_solver/RadauSolver.hpp
+++ b/include/fub/ode_solver/RadauSolver.hpp
@@ -71,7 +71,7 @@ public:
 
 private:
   std::unique_ptr<OdeSolver> clone() const override {
-    return std::make_unique<RadauSolver>();
+    return std::make_unique<RadauSolver>(*this);
   }
 
   void integrate(system_type system, span<double> y_0, double t, double dt,
-- 
2.43.0


From 9cd3e218bbed16d1a195f2947b13e72dd0c2cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:13 +0000
Subject: [PATCH 21/22] fix: PoolAllocator never hands out a block twice,
 honours sizes and alignments and returns its blocks upstream

---
 include/fub/PoolAllocator.hpp | 10 +++++--
 src/PoolAllocator.cpp         | 54 +++++++++++++++++++++--------------
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/include/fub/PoolAllocator.hpp b/include/fub/PoolAllocator.hpp
index b852500..83de189 100644
--- a/include/fub/PoolAllocator.hpp
+++ b/include/fub/PoolAllocator.hpp
@@ -9,7 +9,8 @@
 #define FUB_WITH_MEMORY_RESOURCE 1
 #define FUB_WITH_EXPERIMENTAL_MEMORY_RESOURCE 1
 #endif
-#include <unordered_map>
+#include <map>
+#include <utility>
 #include <vector>
 
 namespace fub {
@@ -42,9 +43,12 @@ private:
   bool do_is_equal(const memory_resource& other) const noexcept override;
 
 private:
+  // Blocks are shared between requests of equal size and alignment
+  using bucket_key = std::pair<size_type, size_type>;
+
   memory_resource* memory_resource_;
-  std::unordered_map<size_type, pointer> free_buckets_{};
-  std::vector<pointer> all_pointers_{};
+  std::map<bucket_key, pointer> free_buckets_{};
+  std::vector<std::pair<pointer, bucket_key>> all_pointers_{};
 };
 
 #endif
diff --git a/src/PoolAllocator.cpp b/src/PoolAllocator.cpp
index df5a2c4..888df56 100644
--- a/src/PoolAllocator.cpp
+++ b/src/PoolAllocator.cpp
@@ -1,19 +1,32 @@
 #include "fub/PoolAllocator.hpp"
 
+#include <algorithm>
+#include <cstddef>
+#include <new>
+
 namespace fub {
 
 struct bucket_node {
   void* next;
 };
 
-struct bucket_pointer {
-  std::size_t bytes;
-};
+namespace {
+std::size_t BlockSize(std::size_t bytes) {
+  return std::max(bytes, sizeof(bucket_node));
+}
+
+std::size_t BlockAlignment(std::size_t alignment) {
+  return std::max(alignment, alignof(std::max_align_t));
+}
+} // namespace
+
+monotonic_bucket_resource::monotonic_bucket_resource(memory_resource& resource)
+    : memory_resource_(&resource) {}
 
 monotonic_bucket_resource::pointer
-monotonic_bucket_resource::do_allocate(size_type bytes,
-                                       size_type /* alignment */) {
-  pointer& head = free_buckets_[bytes];
+monotonic_bucket_resource::do_allocate(size_type bytes, size_type alignment) {
+  const bucket_key key{BlockSize(bytes), BlockAlignment(alignment)};
+  pointer& head = free_buckets_[key];
   // If we have a pointer hand it out
   if (head != nullptr) {
     pointer p = head;
@@ -24,30 +37,27 @@ monotonic_bucket_resource::do_allocate(size_type bytes,
     return p;
   }
   // our bucket is empty... we need to allocate new pointers!
-  pointer p = memory_resource_->allocate(sizeof(std::size_t) + bytes,
-                                         alignof(std::size_t));
-  new (p) std::size_t{bytes};
-  p = static_cast<pointer>(static_cast<std::size_t*>(p) + 1);
-  new (p) bucket_node{head};
-  head = p;
-  all_pointers_.push_back(p);
+  pointer p = memory_resource_->allocate(key.first, key.second);
+  all_pointers_.push_back({p, key});
   return p;
 }
 
-void monotonic_bucket_resource::do_deallocate(pointer p, size_type /* bytes */,
-                                              size_type /* salignment */) {
-  std::size_t bytes = *(static_cast<std::size_t*>(p) - 1);
-  pointer& head = free_buckets_[bytes];
+void monotonic_bucket_resource::do_deallocate(pointer p, size_type bytes,
+                                              size_type alignment) {
+  pointer& head = free_buckets_[{BlockSize(bytes), BlockAlignment(alignment)}];
   new (p) bucket_node{head};
   head = p;
 }
 
+bool monotonic_bucket_resource::do_is_equal(const memory_resource& other) const
+    noexcept {
+  return this == &other;
+}
+
 monotonic_bucket_resource::~monotonic_bucket_resource() noexcept {
-  for (pointer p : all_pointers_) {
-    pointer original_pointer =
-        static_cast<pointer>(static_cast<std::size_t*>(p) - 1);
-    memory_resource_->deallocate(original_pointer, 1);
+  for (const auto& [p, key] : all_pointers_) {
+    memory_resource_->deallocate(p, key.first, key.second);
   }
 }
 
-} // namespace fub
\ No newline at end of file
+} // namespace fub
-- 
2.43.0


From f065e0e7a63678bcdf043419ecce07e0953fecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:48 +0000
Subject: [PATCH 22/22] fix: ConeIF returns the Euclidean distance to the cone
 beside its base, beyond its rim and beyond its apex

---
 src/geometry/Cone.cpp | 51 ++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/src/geometry/Cone.cpp b/src/geometry/Cone.cpp
index 30b2abf..8caa2cc 100644
--- a/src/geometry/Cone.cpp
+++ b/src/geometry/Cone.cpp
@@ -22,6 +22,7 @@
 
 #include <Eigen/Dense>
 
+#include <algorithm>
 #include <cmath>
 
 namespace fub {
@@ -52,38 +53,24 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
   // Radius at l
   const double radius_at_l = (1.0 - l / height_) * base_radius_;
 
-  if (l < 0.0) {
-    if (r < base_radius_) {
-      return sign * -l;
-    }
-    return sign * std::sqrt(l * l + (x0 - (p - l * normal)).squaredNorm());
-  }
-
-  Eigen::Vector3d apex = x0 + height_ * normal;
-  if (height_ < l) {
-    return sign * (p - apex).norm();
-  }
-
-  const Eigen::Vector3d rim_point = [&]() -> Eigen::Vector3d {
-    if (dp_radial.norm() > std::sqrt(std::numeric_limits<double>::epsilon())) {
-      return x0 + dp_radial.normalized() * base_radius_;
-    }
-    return x0 + base_radius_ * Eigen::Vector3d{0.0, 1.0, 0.0};
-  }();
-
-  Eigen::Vector3d face_tangential = (apex - rim_point).normalized();
-  const double distance_on_face = face_tangential.dot(p - rim_point);
-
-  if (distance_on_face < 0.0) {
-    return sign * std::sqrt(l * l + (p - rim_point).squaredNorm());
-  }
-
-  Eigen::Vector3d p_on_face = rim_point + distance_on_face * face_tangential;
-  if (radius_at_l < r) {
-    return sign * (p_on_face - p).norm();
-  }
-
-  return sign * -std::min((p_on_face - p).norm(), l);
+  // Everything happens in the half plane (l, r): the face is the segment from
+  // the rim (0, base_radius) to the apex (height, 0), the base is the segment
+  // from (0, 0) to the rim.
+  const double face_squared = height_ * height_ + base_radius_ * base_radius_;
+  const double t = std::clamp(
+      (l * height_ + (base_radius_ - r) * base_radius_) / face_squared, 0.0,
+      1.0);
+  const double dl_face = l - t * height_;
+  const double dr_face = r - (1.0 - t) * base_radius_;
+  const double distance_to_face =
+      std::sqrt(dl_face * dl_face + dr_face * dr_face);
+
+  const double dr_base = std::max(r - base_radius_, 0.0);
+  const double distance_to_base = std::sqrt(l * l + dr_base * dr_base);
+
+  const double distance = std::min(distance_to_face, distance_to_base);
+  const bool is_inside = 0.0 <= l && r <= radius_at_l;
+  return is_inside ? -sign * distance : sign * distance;
 }
 
 } // namespace fub
\ No newline at end of file
-- 
2.43.0

