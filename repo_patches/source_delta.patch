From 649d4a951f2abbcf62b7b1ca799e47c30478b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 01/21] fix: clamp the closest feasible point to the lower
 bound too

---
 trajopt_sco/src/modeling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..62b5120 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -265,7 +265,7 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   {
     // Force it a tiny bit inside the bounds
     y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    y[i] = fmin(upper_bounds_[i] - delta, y[i]);
   }
   return y;
 }
-- 
2.43.0


From b9f233cd94ba7396e2668c77bf633f59517c0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 02/21] fix: remove the auxiliary variable of a max term with
 its objective

---
 trajopt_sco/src/modeling.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 62b5120..531b79b 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -75,6 +75,7 @@ void ConvexObjective::addL2Norm(const AffExprVector& ev)
 void ConvexObjective::addMax(const AffExprVector& ev)
 {
   Var const m = model_->addVar("max", static_cast<double>(-INFINITY), static_cast<double>(INFINITY));
+  vars_.push_back(m);
   ineqs_.reserve(ineqs_.size() + ev.size());
   for (const auto& i : ev)
   {
-- 
2.43.0


From b16baaa4c53fd34c4f1e289e70902d5aa63cbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:22 +0000
Subject: [PATCH 03/21] fix: let a max term contribute to the objective

---
 trajopt_sco/src/modeling.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 531b79b..e3ff548 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -82,6 +82,7 @@ void ConvexObjective::addMax(const AffExprVector& ev)
     ineqs_.push_back(i);
     exprDec(ineqs_.back(), m);
   }
+  exprInc(quad_, m);
 }
 
 void ConvexObjective::addConstraintsToModel()
-- 
2.43.0


From 0caa495490850325edebde585c3ba79e9061932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 04/21] fix: keep the gradient of functions without a Hessian
 in the quadratic model

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index bb59d1b..efd7610 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -181,8 +181,8 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
   assert(static_cast<Eigen::Index>(func_hessians.size()) == m);
   assert(x.size() == n);
 
-  linear_coeffs.resize(m, n);
-  linear_coeffs.setZero();  // keep existing behavior: rows with no Hessian stay zero
+  // Rows with no Hessian keep the gradient of the function
+  linear_coeffs = func_jacobian;
 
   // constants = f(x₀) − J(x₀) x₀
   constants.resize(m);
-- 
2.43.0


From 85d32d8d1bf6479e51ada477e160aeac2b349f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:19 +0000
Subject: [PATCH 05/21] fix: tell a squared row from a quadratic matrix when
 there is a single variable

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index efd7610..dc6fb89 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -93,11 +93,12 @@ void AffExprs::square(QuadExprs& quad_expr, const Eigen::Ref<const Eigen::Vector
     auto& Qi = quad_expr.quadratic_coeffs[static_cast<std::size_t>(i)];
 
     // Build Qi as a 1×n sparse row: Qi(0, col) = Bw(i, col)
+    // With a single variable a row and a general Q_i have the same shape, so store the general Q_i
     scratch_qi_trips_.clear();
 
     // Iterate Bw row i (RowMajor outer index is the row)
     for (trajopt_ifopt::Jacobian::InnerIterator it(scratch_bw_, static_cast<int>(i)); it; ++it)
-      scratch_qi_trips_.emplace_back(0, it.col(), it.value());
+      scratch_qi_trips_.emplace_back(0, it.col(), (n == 1) ? it.value() * it.value() : it.value());
 
     if (scratch_qi_trips_.empty())
     {
@@ -134,7 +135,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
 
   // We support two representations:
   //  1) General quadratic: Q_i is n×n -> add x^T Q_i x
-  //  2) Squared-affine fast path: Q_i is 1×n row vector q_i -> add (q_i * x)^2
+  //  2) Squared-affine fast path: Q_i is 1×n (n > 1) row vector q_i -> add (q_i * x)^2
   //
   // Only allocate scratch_ if/when we hit the general quadratic path.
   bool scratch_ready = false;
@@ -145,7 +146,7 @@ void QuadExprs::values(Eigen::Ref<Eigen::VectorXd> out, const Eigen::Ref<const E
     if (Q.rows() == 0)
       continue;
 
-    if (Q.rows() == 1)
+    if (Q.rows() == 1 && Q.cols() > 1)
     {
       // Encoded q_i (1×n): add (q_i * x)^2
       double t = 0.0;
-- 
2.43.0


From 4cef442ebbe5b77c08f06d9842f279240a1a2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 06/21] fix: JointPosConstraint splits range bounds with the
 expanded coefficients

---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From fbe5aae81a70ea71d3484be1a82025352bba9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 07/21] fix: scalar cost and its gradient cover every cost
 term, not only the first

---
 trajopt_ifopt/src/core/problem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..3cc53b9 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -68,11 +68,11 @@ void Problem::setVariables(const double* x)
 
 double Problem::evaluateCostFunction()
 {
-  Eigen::VectorXd g = Eigen::VectorXd::Zero(1);
+  // the cost terms are stacked, one row each
   if (hasCostTerms())
-    g = costs_.getValues();
+    return costs_.getValues().sum();
 
-  return g(0);
+  return 0;
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
@@ -105,7 +105,8 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
     }
   }
 
-  return jac.row(0).transpose();
+  // the cost terms are stacked, so the gradient of their sum is the sum of the rows
+  return jac.transpose() * Eigen::VectorXd::Ones(jac.rows());
 }
 
 std::vector<Bounds> Problem::getBoundsOnConstraints() const { return constraints_.getBounds(); }
-- 
2.43.0


From 1b10dc523839fe162f79ba194ab8ba0b19b4614a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 08/21] fix: bpmpd pipe continues short transfers until the
 whole field has moved

---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 51 +++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..5e5f127 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -2,9 +2,10 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
-#include <cassert>
+#include <cerrno>
 #include <cstdint>
 #include <cstdlib>
+#include <stdexcept>
 #include <unistd.h>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -16,6 +17,38 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/** @brief Write the whole field: the system may transfer less than asked for at a time */
+inline void writeAll(int fp, const void* data, std::size_t size)
+{
+  const auto* pos = static_cast<const char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = write(fp, pos, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      throw std::runtime_error("bpmpd_io: writing to the solver pipe failed");
+    pos += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
+/** @brief Read the whole field: the system may transfer less than asked for at a time */
+inline void readAll(int fp, void* data, std::size_t size)
+{
+  auto* pos = static_cast<char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = read(fp, pos, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      throw std::runtime_error("bpmpd_io: reading from the solver pipe failed");
+    pos += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
@@ -24,16 +57,12 @@ void ser(int fp, T& x, SerMode mode)
     case SER:
     {
       T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      writeAll(fp, &xcopy, sizeof(T));
       break;
     }
     case DESER:
     {
-      const ssize_t n = read(fp, &x, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      readAll(fp, &x, sizeof(T));
       break;
     }
   }
@@ -48,17 +77,13 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   {
     case SER:
     {
-      const long n = write(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      writeAll(fp, x.data(), sizeof(T) * size);
       break;
     }
     case DESER:
     {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      readAll(fp, x.data(), sizeof(T) * size);
       break;
     }
   }
-- 
2.43.0


From 8852e2df92f0cad8ba30b9f630e1d602b91f6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 09/21] fix: solver names stand at the position of their solver
 type

---
 trajopt_sco/src/solver_interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..36f1c16 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
 std::ostream& operator<<(std::ostream& os, const ModelType& cs)
 {
   auto cs_ivalue_ = static_cast<std::size_t>(cs.value_);
-  if (cs_ivalue_ > ModelType::MODEL_NAMES_.size())
+  if (cs_ivalue_ >= ModelType::MODEL_NAMES_.size())
   {
     std::stringstream conversion_error;
     conversion_error << "Error converting ModelType to string - " << "enum value is " << cs_ivalue_ << '\n';
-- 
2.43.0


From 19c0808b742e6bd9e12a7618a9a9875b8c6335bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 10/21] fix: createModel reports that no solver is available

---
 trajopt_sco/src/solver_interface.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index 36f1c16..9d4a273 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -321,7 +321,10 @@ Model::Ptr createModel(ModelType model_type, const ModelConfig::ConstPtr& model_
     }
     else
     {
-      solver = availableSolvers()[0];
+      const std::vector<ModelType> available_solvers = availableSolvers();
+      if (available_solvers.empty())
+        PRINT_AND_THROW("no convex solver is available on this platform");
+      solver = available_solvers[0];
     }
   }
 
-- 
2.43.0


From db9b51d6145c60d43203f01e8f59d7221c4056bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 11/21] fix: an affine objective replaces the quadratic terms
 of the previous one

---
 trajopt_sco/src/bpmpd_interface.cpp   | 2 +-
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..68e2e32 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -540,7 +540,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..6fdb369 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -613,7 +613,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From 8624ecb6b593dfe9fe2a993e10099e532caa1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 12/21] fix: setVarBounds takes the model lock, as the
 threadsafe addVar calls it

Model::addVar(name, lb, ub) is documented as threadsafe and calls
setVarBounds, which wrote the bound tables without the lock that the
concurrent addVar holds while it grows them.
---
 trajopt_sco/src/bpmpd_interface.cpp   | 1 +
 trajopt_sco/src/osqp_interface.cpp    | 1 +
 trajopt_sco/src/qpoases_interface.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 68e2e32..8fd87c4 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -332,6 +332,7 @@ void BPMPDModel::update()
 
 void BPMPDModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(m_mutex);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     auto varind = static_cast<std::size_t>(vars[i].var_rep->index);
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 6fdb369..a8cbd82 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -419,6 +419,7 @@ void OSQPModel::update()
 
 void OSQPModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 66b9d80..2c96e96 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -199,6 +199,7 @@ void qpOASESModel::update()
 
 void qpOASESModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (std::size_t i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
-- 
2.43.0


From 232a880897ccd0d3ed9d1299f7985b4ad994b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 13/21] fix: a step whose merit is not a number is not accepted

---
 trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..5f5d5db 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -336,7 +336,8 @@ void TrustRegionSQPSolver::runTrustRegionLoop()
 
     // Check if the bounding trust region needs to be shrunk
     // This happens if the exact solution got worse or if the QP approximation deviates from the exact by too much
-    if (results_.exact_merit_improve < 0 || results_.merit_improve_ratio < params.improve_ratio_threshold)
+    // The comparisons are written such that a merit which is not a number is never accepted
+    if (!(results_.exact_merit_improve >= 0 && results_.merit_improve_ratio >= params.improve_ratio_threshold))
     {
       qp_problem->scaleBoxSize(params.trust_shrink_ratio);
       qp_solver->updateBounds(qp_problem->getBoundsLower(), qp_problem->getBoundsUpper());
-- 
2.43.0


From a681ffc0562d9f2a73f65f34446a608d92f60480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 14/21] fix: a callback that returns false stops the
 optimization

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 5f5d5db..571561d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -123,6 +123,10 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
     }
 
+    // If a callback asked to stop respect it and keep the status
+    if (status_ == SQPStatus::kStoppedByCallback)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
@@ -246,8 +250,8 @@ bool TrustRegionSQPSolver::stepSQPSolver()
   // Trust region loop
   runTrustRegionLoop();
 
-  // Check if the NLP has converged
-  if (status_ == SQPStatus::kConverged)
+  // Check if the NLP has converged or a callback asked to stop
+  if (status_ == SQPStatus::kConverged || status_ == SQPStatus::kStoppedByCallback)
     return true;
 
   if (results_.box_size.maxCoeff() < params.min_trust_box_size)
-- 
2.43.0


From 77b63b8416eef2d433d4bba19e94dc82f52de280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 15/21] fix: the optimization is aborted when the QP solver
 failed too many times

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 571561d..27bbe3c 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -123,8 +123,8 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
     }
 
-    // If a callback asked to stop respect it and keep the status
-    if (status_ == SQPStatus::kStoppedByCallback)
+    // If a callback asked to stop or the convex solver failed too many times exit and keep the status
+    if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
       break;
 
     // Check if constraints are satisfied
@@ -260,7 +260,9 @@ bool TrustRegionSQPSolver::stepSQPSolver()
     status_ = SQPStatus::kConverged;
     return true;
   }
-  return false;
+
+  // If the convex solver failed too many times the optimization is aborted
+  return status_ == SQPStatus::kQPSolveFailed;
 }
 
 void TrustRegionSQPSolver::runTrustRegionLoop()
-- 
2.43.0


From c9d2e3e73c6ce27957ca47b5c390dd545709a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 16/21] fix: the step report takes no maximum over an empty set
 of constraints

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index 27bbe3c..a0bd0fa 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -568,7 +568,10 @@ void TrustRegionSQPSolver::printStepInfo() const
 
   // Constraint
   const std::string constraints_satisfied =
-      (results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ? "True" : "False";
+      (results_.new_constraint_violations.size() == 0 ||
+       results_.new_constraint_violations.maxCoeff() < params.cnt_tolerance) ?
+          "True" :
+          "False";
   std::printf("| %s |\n", std::string(88, '=').c_str());
   std::printf("| %10s | %10.3e | %10.3e | %10.3e | %10s | %10s | %10s | SUM CONSTRAINTS (WITHOUT MERIT), Satisfied "
               "(%s)\n",
-- 
2.43.0


From ad092cbf59004e42d720b4c5c7b767ba93f0dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 17/21] fix: setup() of TrajOptQPProblem rebuilds all component
 data when it is called again

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..504808e 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -567,6 +567,9 @@ void TrajOptQPProblem::Implementation::update()
 
 void TrajOptQPProblem::Implementation::setup()
 {
+  // The component data below is rebuilt, so update() must not treat any of it as still valid
+  initialized = false;
+
   objective_terms.clear();
   objective_terms.insert(objective_terms.end(), squared_costs.begin(), squared_costs.end());
   objective_terms.insert(objective_terms.end(), dyn_squared_costs.begin(), dyn_squared_costs.end());
-- 
2.43.0


From f35a2e780db1d35866a6fa26aaa89628aca736b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:37 +0000
Subject: [PATCH 18/21] fix: the merit coefficients of constraints after an
 empty dynamic one are not shifted

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 504808e..50552b3 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -748,6 +748,9 @@ void TrajOptQPProblem::Implementation::convexify()
   {
     const auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
+    // A constraint without rows still has its merit coefficient, so the index advances before it is skipped
+    const double merit_coeff =
+        (info.type == ComponentInfoType::kMeritConstraint) ? constraint_merit_coeff(merit_constraint_index++) : 1;
     if (info.rows == 0)
       continue;
 
@@ -771,8 +774,6 @@ void TrajOptQPProblem::Implementation::convexify()
     cc = cnt->getValues();
     cc.noalias() -= jac * x_initial;
 
-    const double merit_coeff =
-        (info.type == ComponentInfoType::kMeritConstraint) ? constraint_merit_coeff(merit_constraint_index++) : 1;
     for (Eigen::Index k = 0; k < jac.outerSize(); ++k)
     {
       for (trajopt_ifopt::Jacobian::InnerIterator it(jac, k); it; ++it)
-- 
2.43.0


From 615d407f9a273ca813b5d5b7839e88ed217aa905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 19/21] fix: setup() of IfoptQPProblem lists each cost and
 constraint name once when it is called again

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..0f2c751 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -94,6 +94,8 @@ void IfoptQPProblem::setup()
   constraint_types_.resize(static_cast<std::size_t>(num_nlp_cnts_));
 
   // Get NLP Cost and Constraint Names for Debug Print
+  constraint_names_.clear();
+  cost_names_.clear();
   for (const auto& cnt : nlp_->getConstraints().getComponents())
   {
     for (Eigen::Index j = 0; j < cnt->getRows(); j++)
-- 
2.43.0


From c0958836059ea27b0d551316c84091b42f46041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:12 +0000
Subject: [PATCH 20/21] fix: convex penalty costs of TrajOptQPProblem are not
 relaxed by their own slack variables

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 50552b3..4bf3fc9 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -130,7 +130,6 @@ struct ConvexProblem
 
 Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& var_vals) const
 {
-  /** @note The legacy trajop appears to use all variables include slack for convex cost evaluation */
   const auto total_cost = static_cast<Eigen::Index>(objective_term_infos.size() + penalty_constraint_infos.size());
 
   if (total_cost == 0)
@@ -172,7 +171,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       continue;
     }
 
-    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows);
+    // Without the slack columns: at a QP solution they absorb the violation that is to be measured here
+    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows).leftCols(n_nlp_vars);
     auto constant = constraint_constant.segment(row_offset, c_info.rows);
 
     // Ensure scratch buffers big enough (no allocation after first growth)
@@ -185,8 +185,8 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     auto err = scratch_err.head(c_info.rows);
 
     // scratch_val = constant + jac * var_vals
-    val = constant;                   // copy into scratch (but no alloc)
-    val.noalias() += jac * var_vals;  // mat-vec into existing memory
+    val = constant;                    // copy into scratch (but no alloc)
+    val.noalias() += jac * var_block;  // mat-vec into existing memory
 
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
-- 
2.43.0


From 00ce251aced0dc0987c7b5b3814a419d076c2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:52 +0000
Subject: [PATCH 21/21] fix: penalty costs of TrajOptQPProblem are weighted by
 their coefficients, as their slack variables are

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 4bf3fc9..65a3947 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -191,7 +191,7 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
 
-    costs(cost_idx++) = err.sum();
+    costs(cost_idx++) = err.dot(c_info.coeffs);
     assert(!(err.array() < -1e-8).any());
     row_offset += c_info.rows;
   }
@@ -1017,7 +1017,7 @@ Eigen::VectorXd TrajOptQPProblem::Implementation::getExactCosts() const
     auto err = scratch_err.head(c->getRows());
 
     trajopt_ifopt::calcBoundsViolations(err, c->getValues(), c->getBounds());
-    g(cost_idx++) = err.sum();
+    g(cost_idx++) = err.dot(c->getCoefficients());
   }
 
   return g;
-- 
2.43.0

