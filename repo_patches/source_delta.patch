From 6c353448334d84ace74cea3352df462ca329cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 01/11] fix: reject negative inequality constraint indices in
 QPInteriorPointSolver::Setup

---
 source/qp.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/qp.cc b/source/qp.cc
index 58efe5e..2b2ba31 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -68,6 +68,7 @@ void QPInteriorPointSolver::Setup(const QP* const problem) {
 
   // check indices up front
   for (const LinearInequalityConstraint& c : p_->constraints) {
+    F_ASSERT_GE(c.variable, 0, "Constraint index is out of bounds");
     F_ASSERT_LT(c.variable, static_cast<int>(dims_.N), "Constraint index is out of bounds");
   }
 }
-- 
2.43.0


From 08bb2c5a7b8f143088cf8c6f6aad221e33b5840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 02/11] fix: reject negative indices in
 LinearInequalityConstraint::ShiftTo

---
 include/mini_opt/qp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mini_opt/qp.hpp b/include/mini_opt/qp.hpp
index 6f3e06c..7b799aa 100644
--- a/include/mini_opt/qp.hpp
+++ b/include/mini_opt/qp.hpp
@@ -60,6 +60,7 @@ struct LinearInequalityConstraint {
 
   // Version of shift that takes vector.
   LinearInequalityConstraint ShiftTo(const Eigen::VectorXd& x) const {
+    F_ASSERT_GE(variable, 0);
     F_ASSERT_LT(variable, x.rows());
     return ShiftTo(x[variable]);
   }
-- 
2.43.0


From 60a208cd817c5328f5ef9f178b59051ebece3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 03/11] fix: reject initial values of the wrong size in
 nonlinear solver

---
 source/nonlinear.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index a72e6cc..9dfa347 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -77,6 +77,9 @@ NLSSolverOutputs ConstrainedNonlinearLeastSquares::Solve(const Params& params,
   MINI_OPT_FUNCTION_TRACE();
   F_ASSERT(p_ != nullptr, "Must have a valid problem");
   CheckParams(params);
+  // A custom retraction may operate on an over-parameterized state, the default one cannot.
+  F_ASSERT(custom_retraction_ || variables.rows() == p_->dimension,
+           "Dims of variables and problem must match");
   variables_ = variables;
   state_ = OptimizerState::NOMINAL;
 
-- 
2.43.0


From 6cce2b9450c1f9e62ba1b831184898715465d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 04/11] fix: reject zero initial equality penalty up front

---
 source/nonlinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/nonlinear.cc b/source/nonlinear.cc
index 9dfa347..84a2c1b 100644
--- a/source/nonlinear.cc
+++ b/source/nonlinear.cc
@@ -57,7 +57,7 @@ static void CheckParams(const ConstrainedNonlinearLeastSquares::Params& params)
   F_ASSERT_GE(params.absolute_first_derivative_tol, 0);
   F_ASSERT_GT(params.armijo_search_tau, 0);
   F_ASSERT_LT(params.armijo_search_tau, 1);
-  F_ASSERT_GE(params.equality_penalty_initial, 0);
+  F_ASSERT_GT(params.equality_penalty_initial, 0);
   F_ASSERT_GE(params.equality_penalty_scale_factor, 1.0);
   F_ASSERT_GE(params.equality_penalty_rho, 0);
   F_ASSERT_LT(params.equality_penalty_rho, 1);
-- 
2.43.0


From 6b15f39b0130f11e0c3a0b103c6aa90072068b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 05/11] fix: check problem dimensions in
 QPNullSpaceSolver::Solve

---
 source/qp.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/qp.cc b/source/qp.cc
index 2b2ba31..67a0c41 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -681,6 +681,10 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   F_ASSERT_GT(p.A_eq.rows(), 0, "Problem must have at least one equality constraint");
   F_ASSERT_EQ(p.A_eq.rows(), p.b_eq.rows());
 
+  F_ASSERT_EQ(p.A_eq.cols(), p.G.rows());
+  F_ASSERT_EQ(p.A_eq.cols(), p.G.cols());
+  F_ASSERT_EQ(p.A_eq.cols(), p.c.rows());
+
   const int num_equality_constraints = static_cast<int>(p.A_eq.rows());
   const int num_params = static_cast<int>(p.A_eq.cols());
 
-- 
2.43.0


From d1f99dae06e0a28845f6c3f7511ec72016a55ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 06/11] fix: hold the mutex while exporting traces

---
 source/tracing.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tracing.cc b/source/tracing.cc
index 5015fb7..f5d6bd6 100644
--- a/source/tracing.cc
+++ b/source/tracing.cc
@@ -107,7 +107,9 @@ void trace_collector::submit_event(trace_event event) {
 trace_collector_impl& trace_collector::impl() noexcept { return *impl_; }
 
 std::string trace_collector::get_trace_json() {
-  return fmt::format(json_object_template, fmt::join(impl_->events, ",\n    "));
+  auto& self = impl();
+  std::lock_guard guard{self.mutex};
+  return fmt::format(json_object_template, fmt::join(self.events, ",\n    "));
 }
 
 template <typename U, typename T>
-- 
2.43.0


From 3f45b57c19ba9a22e765dea025c51339d8872a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 07/11] fix: only solve with the invertible part of R in
 QPNullSpaceSolver

---
 source/qp.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/qp.cc b/source/qp.cc
index 67a0c41..6fccdee 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -702,13 +702,13 @@ QPNullSpaceTerminationState QPNullSpaceSolver::Solve(const QP& p) {
   const auto Q1 = Q_.leftCols(rank);
   const auto Q2 = Q_.rightCols(Q_.cols() - rank);
 
-  // The non-zero rows of R:
-  const auto R_upper = R.topRows(num_equality_constraints).template triangularView<Eigen::Upper>();
+  // The invertible part of R (A_eq may be rank deficient):
+  const auto R_upper = R.topLeftCorner(rank, rank).template triangularView<Eigen::Upper>();
 
   // Compute u = Q1 * (R1^T)^-1 * (P^-1) * b_eq
   // `u` is a particular solution to the equality constrained system: A_eq * x + b = 0
   permuted_rhs_.noalias() = P.transpose() * -p.b_eq;
-  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_);
+  u_.noalias() = Q1 * R_upper.transpose().solve(permuted_rhs_.head(rank));
   F_ASSERT_EQ(num_params, u_.rows());
 
   // Compute the reduced hessian by projecting `G` into null(A_eq)
-- 
2.43.0


From c421f2bb872b0d3bdf819749e6ad7a47d324a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 08/11] fix: raise an exception for missing keys when reading
 solver outputs

---
 source/serialization.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index ba84351..5b6b416 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -99,14 +99,14 @@ template <>
 struct adl_serializer<NLSIteration> {
   static NLSIteration from_json(const json& j) {
     return NLSIteration(
-        j["iteration"].get<int>(), j["optimizer_state"].get<OptimizerState>(),
-        j["lambda"].get<double>(), j["errors_initial"].get<Errors>(),
-        j["qp_outputs"]
+        j.at("iteration").get<int>(), j.at("optimizer_state").get<OptimizerState>(),
+        j.at("lambda").get<double>(), j.at("errors_initial").get<Errors>(),
+        j.at("qp_outputs")
             .get<std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>>(),
-        j["qp_eigenvalues"].get<std::optional<QPEigenvalues>>(),
-        j["directional_derivatives"].get<DirectionalDerivatives>(), j["penalty"].get<double>(),
-        j["step_result"].get<StepSizeSelectionResult>(),
-        j["line_search_steps"].get<std::vector<LineSearchStep>>());
+        j.at("qp_eigenvalues").get<std::optional<QPEigenvalues>>(),
+        j.at("directional_derivatives").get<DirectionalDerivatives>(), j.at("penalty").get<double>(),
+        j.at("step_result").get<StepSizeSelectionResult>(),
+        j.at("line_search_steps").get<std::vector<LineSearchStep>>());
   }
 
   static void to_json(json& j, const NLSIteration& iter) {
@@ -124,8 +124,8 @@ struct adl_serializer<NLSIteration> {
 };
 
 NLSSolverOutputs adl_serializer<NLSSolverOutputs, void>::from_json(const json& j) {
-  return NLSSolverOutputs(j["termination_state"].get<NLSTerminationState>(),
-                          j["iterations"].get<std::vector<NLSIteration>>());
+  return NLSSolverOutputs(j.at("termination_state").get<NLSTerminationState>(),
+                          j.at("iterations").get<std::vector<NLSIteration>>());
 }
 
 void adl_serializer<NLSSolverOutputs, void>::to_json(json& j, const NLSSolverOutputs& outputs) {
-- 
2.43.0


From 412a203bf0efafcb83a42d6b63bb418a31c5dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:58 +0000
Subject: [PATCH 09/11] fix: reject a guess of the wrong size in
 QPInteriorPointSolver::SetVariables

---
 source/qp.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/qp.cc b/source/qp.cc
index 6fccdee..bbc07ab 100644
--- a/source/qp.cc
+++ b/source/qp.cc
@@ -219,7 +219,10 @@ VectorBlock QPInteriorPointSolver::y_block() { return YBlock(dims_, variables_);
 
 VectorBlock QPInteriorPointSolver::z_block() { return ZBlock(dims_, variables_); }
 
-void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) { variables_ = v; }
+void QPInteriorPointSolver::SetVariables(const Eigen::VectorXd& v) {
+  F_ASSERT_EQ(v.rows(), variables_.rows(), "Dims of variables and problem must match");
+  variables_ = v;
+}
 
 const QP& QPInteriorPointSolver::problem() const {
   F_ASSERT(p_, "Cannot call unless initialized");
-- 
2.43.0


From a11402b1cbd9c1f246f483985f087f497b8ad0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:26 +0000
Subject: [PATCH 10/11] fix: raise an exception for missing keys in interior
 point outputs

---
 source/serialization.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index 5b6b416..e9acf41 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -83,7 +83,8 @@ static void to_json(
 
 static void from_json(
     const json& j, std::variant<QPNullSpaceTerminationState, QPInteriorPointSolverOutputs>& var) {
-  if (j.contains("termination_state") && j.contains("iterations")) {
+  // The null-space state is written as a string, so any object must be a complete set of outputs.
+  if (j.is_object()) {
     var = j.get<QPInteriorPointSolverOutputs>();
   } else {
     var = j.get<QPNullSpaceTerminationState>();
-- 
2.43.0


From c8776714edb0ee269d97ab7c5051fd5ef7b15bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:55 +0000
Subject: [PATCH 11/11] fix: read NaN quantities back from JSON text

---
 source/serialization.cc | 45 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/source/serialization.cc b/source/serialization.cc
index e9acf41..6e6e4e1 100644
--- a/source/serialization.cc
+++ b/source/serialization.cc
@@ -2,6 +2,7 @@
 #include "mini_opt/serialization.hpp"
 
 #ifdef MINI_OPT_SERIALIZATION
+#include <limits>
 
 #include <nlohmann/json.hpp>
 
@@ -62,14 +63,52 @@ NLOHMANN_JSON_SERIALIZE_ENUM(QPNullSpaceTerminationState,
                               {QPNullSpaceTerminationState::NOT_POSITIVE_DEFINITE,
                                "NOT_POSITIVE_DEFINITE"}});
 
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(Errors, f, equality);
+// JSON has no NaN: it is written as `null`. Read `null` back as NaN for values that may be NaN.
+static double number_or_nan(const json& j) {
+  return j.is_null() ? std::numeric_limits<double>::quiet_NaN() : j.get<double>();
+}
+
+// The errors of a rejected step may be NaN.
+static void to_json(json& j, const Errors& x) {
+  j["f"] = x.f;
+  j["equality"] = x.equality;
+}
+
+static void from_json(const json& j, Errors& x) {
+  x.f = number_or_nan(j.at("f"));
+  x.equality = number_or_nan(j.at("equality"));
+}
+
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPEigenvalues, min, max, abs_min);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(DirectionalDerivatives, d_f, d_equality);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(LineSearchStep, alpha, errors);
 
 // QP structs:
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(AlphaValues, primal, dual);
-NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(IPIterationOutputs, mu, alpha, alpha_probe, mu_affine);
+// `alpha_probe` and `mu_affine` are NaN when there was no probing step.
+static void to_json(json& j, const AlphaValues& x) {
+  j["primal"] = x.primal;
+  j["dual"] = x.dual;
+}
+
+static void from_json(const json& j, AlphaValues& x) {
+  x.primal = number_or_nan(j.at("primal"));
+  x.dual = number_or_nan(j.at("dual"));
+}
+
+static void to_json(json& j, const IPIterationOutputs& x) {
+  j["mu"] = x.mu;
+  j["alpha"] = x.alpha;
+  j["alpha_probe"] = x.alpha_probe;
+  j["mu_affine"] = x.mu_affine;
+}
+
+static void from_json(const json& j, IPIterationOutputs& x) {
+  j.at("mu").get_to(x.mu);
+  j.at("alpha").get_to(x.alpha);
+  j.at("alpha_probe").get_to(x.alpha_probe);
+  x.mu_affine = number_or_nan(j.at("mu_affine"));
+}
+
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(KKTError, r_dual, r_comp, r_primal_eq, r_primal_ineq);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPInteriorPointIteration, kkt_initial, kkt_final, ip_outputs);
 NLOHMANN_DEFINE_TYPE_NON_INTRUSIVE(QPLagrangeMultipliers, min, l_infinity);
-- 
2.43.0

