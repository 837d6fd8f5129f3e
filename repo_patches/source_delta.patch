From f5ea83f54a33469e8933f24688ead2a878f4fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 01/27] fix: report regularization of 1x1 blocks in RLDLT and
 do not touch empty blocks

---
 conex/RLDLT.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index d945e9a..811ec52 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -310,7 +310,8 @@ struct rldlt_inplace<Lower> {
     const double regularization_value = 1e-9;
 
     if (size <= 1) {
-      if (std::fabs(mat.coeff(0, 0)) < regularization_value) {
+      if (size == 1 && std::fabs(mat.coeff(0, 0)) < regularization_value) {
+        ret = false;
         if (mat.coeff(0, 0) < 0) {
           mat.coeffRef(0, 0) = -regularization_value;
         } else {
@@ -326,7 +327,7 @@ struct rldlt_inplace<Lower> {
         sign = NegativeSemiDef;
       else
         sign = ZeroSign;
-      return true;
+      return ret;
     }
 
     for (Index k = 0; k < size; ++k) {
-- 
2.43.0


From e0fd1ee228fad30d4a25953617fab6e705fef50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 02/27] fix: quadratic cone rescaled totals of other
 constraints when accumulating its Newton system

---
 conex/quadratic_cone_constraint.cc | 39 ++++++++++++++----------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..6e8bc70 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -86,12 +86,11 @@ void SchurComplement(const Eigen::VectorXd& A0, const Eigen::MatrixXd& A_gram,
   if (initialize) {
     G->noalias() = A0 * A0.transpose();
     G->noalias() -= A_gram;
-    G->array() *= -det_w;
+    G->array() *= -2 * det_w;
   } else {
-    G->noalias() += det_w * (A_gram - A0 * A0.transpose());
+    G->noalias() += 2 * det_w * (A_gram - A0 * A0.transpose());
   }
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
+  G->noalias() += 4 * (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
 }
 
 }  // namespace
@@ -252,18 +251,23 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   double det_w = (*o->workspace_.W0) * (*o->workspace_.W0) -
                  SquaredNorm(o->Q_, o->workspace_.W1, &Q_W1);
 
+  // All terms are doubled to account for the Jordan inner-product
+  // <x, y> := 2 x^T y.  Only the contribution of this constraint is doubled:
+  // when initialize is false, sys holds the sum of other contributions.
   if (initialize) {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, true,
                     &sys->G);
-    sys->AW.noalias() = A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() = det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc = det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+    sys->AW.noalias() = 2 * (A_dot_x + A0 * (*o->workspace_.W0));
+    sys->AQc.noalias() = 2 * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc =
+        2 * det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
   } else {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, false,
                     &sys->G);
-    sys->AW.noalias() += A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() += det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc += det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+    sys->AW.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0));
+    sys->AQc.noalias() += 2 * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc +=
+        2 * det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
   }
 
   double scale;
@@ -272,21 +276,14 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   } else {
     scale = o->workspace_.W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
   }
-  sys->AQc.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
+  sys->AQc.noalias() += 4 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
   sys->inner_product_of_c_and_Qc +=
-      2 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
+      4 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
   if (initialize) {
-    sys->inner_product_of_w_and_c = scale;
+    sys->inner_product_of_w_and_c = 2 * scale;
   } else {
-    sys->inner_product_of_w_and_c += scale;
+    sys->inner_product_of_w_and_c += 2 * scale;
   }
-
-  // Account for Jordan inner-product  <x, y> := 2 x^T y.
-  sys->AQc *= 2;
-  sys->AW *= 2;
-  sys->inner_product_of_c_and_Qc *= 2;
-  sys->inner_product_of_w_and_c *= 2;
-  sys->G *= 2;
 }
 
 void SetIdentity(QuadraticConstraintBase* o) {
-- 
2.43.0


From 1484edffdbbc8f237c4ff39b12b9b50893984618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 03/27] fix: Lanczos iteration divided by zero when its
 starting vector vanished

---
 conex/approximate_eigenvalues.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conex/approximate_eigenvalues.cc b/conex/approximate_eigenvalues.cc
index 517a927..aad297e 100644
--- a/conex/approximate_eigenvalues.cc
+++ b/conex/approximate_eigenvalues.cc
@@ -204,6 +204,12 @@ Eigen::VectorXd AsymmetricLanczos(const MatrixXd& WS, const MatrixXd& W,
   // Execute the three term recurrence (equivalent to Gram-Schmidt):
   V.col(1) = r;
   V.col(0) = W * r;
+  if (!(inner_product(V, V) > 0)) {
+    // The starting vector vanishes (e.g., it is a zero column of WS), so use
+    // an arbitrary one.
+    V.col(1).setOnes();
+    V.col(0) = W * V.col(1);
+  }
   V = V / std::sqrt(inner_product(V, V));
   Vprev = V;
 
-- 
2.43.0


From ec27cd288ac8a0396737d87f5981fcb3363de48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 04/27] fix: a two-sided inequality with a zero row and a zero
 bound became a row of NaN

---
 conex/linear_constraint.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..c4c47e2 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -19,25 +19,29 @@ void AppendRow(MatrixXd* A, const MatrixXd& new_rows) {
   A->bottomRows(new_rows.rows()) = new_rows;
 }
 
+// The factor that gives [a, b] unit length, or one if both are zero.
+double NormalizingFactor(const Eigen::RowVectorXd& a,
+                         const Eigen::RowVectorXd& b) {
+  double norm = std::sqrt(a.squaredNorm() + b.squaredNorm());
+  return norm > 0 ? 1.0 / norm : 1.0;
+}
+
 void PreprocessLinearInequality(const MatrixXd& A, const MatrixXd& lb,
                                 const MatrixXd& ub, MatrixXd* Aineq,
                                 MatrixXd* bineq, MatrixXd* Aeq, MatrixXd* beq) {
   for (int i = 0; i < A.rows(); i++) {
     if (lb.row(i) == ub.row(i)) {
-      double scale =
-          1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+      double scale = NormalizingFactor(A.row(i), ub.row(i));
       AppendRow(Aeq, scale * A.row(i));
       AppendRow(beq, scale * ub.row(i));
     } else {
       if (ub(i, 0) < 1e8) {
-        double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+        double scale = NormalizingFactor(A.row(i), ub.row(i));
         AppendRow(Aineq, scale * A.row(i));
         AppendRow(bineq, scale * ub.row(i));
       }
       if (lb(i, 0) > -1e8) {
-        double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + lb.row(i).squaredNorm());
+        double scale = NormalizingFactor(A.row(i), lb.row(i));
         AppendRow(Aineq, -scale * A.row(i));
         AppendRow(bineq, -scale * lb.row(i));
       }
-- 
2.43.0


From e619dd011255bfef02c9dbf60981d85e3e9211aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 05/27] fix: matrix workspaces built on caller memory
 overlapped their temporaries and left their order unset

---
 conex/hermitian_psd.h  | 3 ++-
 conex/psd_constraint.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..0f72faf 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -12,7 +12,8 @@ struct WorkspaceDenseHermitian {
   WorkspaceDenseHermitian(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n),
+        n_(n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDenseHermitian& o) { return size_of(o.n_); }
diff --git a/conex/psd_constraint.h b/conex/psd_constraint.h
index 5d01ed2..a088c0b 100644
--- a/conex/psd_constraint.h
+++ b/conex/psd_constraint.h
@@ -11,7 +11,8 @@ struct WorkspaceDensePSD {
   WorkspaceDensePSD(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n),
+        n_(n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDensePSD& o) { return size_of(o.n_); }
-- 
2.43.0


From 1c159a6d3c79b236519d520a3f2b919f4c486e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:01 +0000
Subject: [PATCH 06/27] fix: MaximumDegreeVertices never listed the first
 vertex

---
 conex/elimination_ordering.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/elimination_ordering.cc b/conex/elimination_ordering.cc
index 215e023..380334b 100644
--- a/conex/elimination_ordering.cc
+++ b/conex/elimination_ordering.cc
@@ -280,7 +280,7 @@ Eigen::PermutationMatrix<-1, -1> EliminationOrdering(const Matrix& G) {
 Eigen::VectorXd MaximumDegreeVertices(const Matrix& G) {
   int N = G.rows();
   Eigen::VectorXd sums = G * Eigen::MatrixXd::Ones(N, 1);
-  std::vector<int> argmax;
+  std::vector<int> argmax{0};
   int max = sums(0);
   for (int i = 1; i < N; i++) {
     if (sums(i) >= max) {
-- 
2.43.0


From c6b430fb41dadc196bf7c93a804de584ec2a6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:53 +0000
Subject: [PATCH 07/27] fix: extreme weighted slacks beyond 30000 were not
 reported

---
 conex/cone_program.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..c0a4c71 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -33,8 +33,8 @@ void GetWeightedSlackEigenvalues(ConstraintManager<Container>* constraints,
                                  WeightedSlackEigenvalues* p) {
   p->frobenius_norm_squared = 0;
   p->trace = 0;
-  p->lambda_max = -30000;
-  p->lambda_min = 30000;
+  p->lambda_max = -std::numeric_limits<double>::max();
+  p->lambda_min = std::numeric_limits<double>::max();
   int i = 0;
   for (auto& ci : constraints->eqs) {
     auto ysegment = Vars(y, constraints->cliques.at(i));
-- 
2.43.0


From 5f0b143a1d4966d06e1fd494e546dc66b4395e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 08/27] fix: updating a linear inequality wrote out of bounds
 for variables it does not have

---
 conex/linear_constraint.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index c4c47e2..36b339b 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -213,6 +213,8 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(dim == 0, "Complex linear constraints not supported.");
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
+  CONEX_DEMAND(var < o->constraint_matrix_.cols(),
+               "Variable index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
 
   o->constraint_matrix_(r, var) = val;
-- 
2.43.0


From 02d4e8d0a899b83f638e2fe2142ef90c6b0df954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 09/27] fix: updating a Hermitian matrix inequality accepted
 negative indices

---
 conex/hermitian_psd.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..1784c97 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -251,6 +251,8 @@ bool UpdateLinearOperator(HermitianPsdConstraint<H>* o, double val, int var,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(var >= 0 && r >= 0 && c >= 0 && dim >= 0,
+               "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
@@ -288,6 +290,7 @@ bool UpdateAffineTerm(HermitianPsdConstraint<H>* o, double val, int r, int c,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(r >= 0 && c >= 0 && dim >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
-- 
2.43.0


From e9f627461c89a5d5a3644d5e6ed9ef580a3db185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 10/27] fix: updating a quadratic cost accepted negative
 indices

---
 conex/quadratic_cost.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..a30ed42 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -34,6 +34,7 @@ class QuadraticFunction {
                                int dim) {
     CONEX_DEMAND(dim == 0, "Quadratic cost must be real valued matrix.");
     CONEX_DEMAND(r < o->A_.rows() && c < o->A_.cols(), "Index out of bounds");
+    CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
     o->A_(r, c) = val;
     return CONEX_SUCCESS;
   }
-- 
2.43.0


From de5da6cc9bfe62ff23fe6b844188830fbf02911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 11/27] fix: C interface rejected every program that had been
 solved once

---
 interfaces/conex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..b01e5e4 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,8 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    /* Two workspaces per constraint known when last initialized, plus 2. */ \
+    if (2 * prog->NumberOfConstraints() + 2 <                              \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From 39a67c97b7ca35fd71e6a0de4b92caa4fc71169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 12/27] fix: CONEX_SetDefaultOptions left two options
 uninitialized

---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index b01e5e4..6a56ed8 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -252,9 +252,11 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
       config.initial_centering_steps_coldstart;
   c->warmstart_abort_threshold = config.warmstart_abort_threshold;
   c->max_iterations = config.max_iterations;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->kkt_solver = config.kkt_solver;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From f8a10285c1875607a4bce2afb500a3d62a7ef7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 13/27] fix: negative variable indices were accepted and
 written out of bounds

---
 conex/constraint_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..81dcfab 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
-- 
2.43.0


From 7669467d81044a1933ca98f13b88c4c90f0867f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 14/27] fix: equality constraints passed as named objects were
 added without their multipliers

---
 conex/cone_program.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..7d9057c 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -190,7 +190,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
@@ -204,7 +204,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
-- 
2.43.0


From 7072203c6515374428db1591a74c470b5ca6ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 15/27] fix: entries never set of matrix and second-order cone
 constraints were read out of bounds instead of being zero

---
 interfaces/conex.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6a56ed8..787229e 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -287,6 +287,18 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
   stats->iteration_number = iter_num;
 }
 
+namespace {
+// Sizes the most recent constraint for all variables, with zero entries.
+void SetMostRecentConstraintToZero(Program* prg) {
+  auto* constraint = prg->constraints_.back();
+  int n = prg->GetNumberOfVariables();
+  if (n > 0) {
+    UpdateLinearOperator(constraint, 0, n - 1, 0, 0, 0);
+  }
+  UpdateAffineTerm(constraint, 0, 0, 0, 0);
+}
+}  // namespace
+
 CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
                                              int hyper_complex_dim,
                                              int* constraint_id) {
@@ -314,6 +326,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
                    "Order of octonion algebra cannot be greater than 3.");
       prg->AddConstraint(HermitianPsdConstraint<conex::Octonions>(order));
   }
+  SetMostRecentConstraintToZero(prg);
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
 }
@@ -395,6 +408,7 @@ CONEX_STATUS CONEX_NewLorentzConeConstraint(void* p, int order,
   SAFER_CAST_TO_Program(p, prg);
 
   prg->AddConstraint(conex::SOCConstraint(order));
+  SetMostRecentConstraintToZero(prg);
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
 }
-- 
2.43.0


From 00578e186dfc8934527a32e3f4c30920d09b68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 16/27] fix: C interface accepted coefficients of variables the
 program does not have

---
 interfaces/conex.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 787229e..57abc68 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -384,6 +384,9 @@ CONEX_STATUS CONEX_UpdateLinearOperator(void* p, int constraint, double value,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
   CONEX_DEMAND(constraint < prg->NumberOfConstraints(), "Invalid Constraint.");
+  CONEX_DEMAND(prg->GetNumberOfVariables() == 0 ||
+                   variable < prg->GetNumberOfVariables(),
+               "Variable index out of bounds.");
   return prg->UpdateLinearOperatorOfConstraint(constraint, value, variable, row,
                                                col, hyper_complex_dim);
 }
-- 
2.43.0


From 1aa91cf1c00048009ad65a42d07ceb4b97935272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 17/27] fix: C interface accepted linear inequalities with no
 or a negative number of rows

---
 interfaces/conex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 57abc68..7e665cb 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -333,6 +333,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
+  CONEX_DEMAND(num_rows >= 1, "Number of rows must be > 0.");
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
-- 
2.43.0


From 383952ef9411ba8bfb45359876a403b3e09b76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 18/27] fix: CONEX_GetIterationStats dereferenced a null
 pointer before the first solve

---
 interfaces/conex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 7e665cb..08cfb0d 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -268,7 +268,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
-- 
2.43.0


From 3315e4a518d64152553da2054c28556ecb733363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 19/27] fix: second-order cones built from matrices left their
 order unset, so updates were rejected or not at random

---
 conex/soc_constraint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..3a9a872 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,7 +11,8 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
-- 
2.43.0


From aecc4d21453d87106f2f3e1e53aa503b30043ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 20/27] fix: options unsuitable for quadratic costs were
 rejected with the value that means solved

---
 conex/cone_program.cc | 11 +++++++----
 conex/cone_program.h  |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index c0a4c71..2d614c8 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -234,10 +234,13 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
+  if (prog.contains_quadratic_costs_ &&
+      (!config.enable_line_search || config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs.\n";
+    prog.status_ = ConexStatus();
+    return false;
+  }
 
   VectorXd bin = -prog.linear_cost_;
 
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 7d9057c..2faea04 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -39,7 +39,7 @@ struct SolverConfiguration {
 
 struct ConexStatus {
   int solved = 0;
-  int num_iterations;
+  int num_iterations = 0;
   int primal_infeasible = 0;
   int dual_infeasible = 0;
 };
-- 
2.43.0


From b68ab350b6a0cd27715e3514b3c3368814c1cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 21/27] fix: linear costs of the wrong dimension were ignored
 without a failure

---
 conex/cone_program.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 2d614c8..8c7f4f4 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -227,7 +227,7 @@ bool Program::AddLinearCost(const VectorXd& b) {
   CONEX_DEMAND(GetNumberOfVariables() == b.rows(),
                "Cost vector dimension does not equal number of variables");
   linear_cost_ += b;
-  return true;
+  return CONEX_SUCCESS;
 }
 
 void Program::ClearLinearCosts() { linear_cost_.setZero(); }
@@ -550,7 +550,10 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
   prog.ClearLinearCosts();
-  prog.AddLinearCost(-b);
+  if (prog.AddLinearCost(-b) != CONEX_SUCCESS) {
+    prog.status_ = ConexStatus();
+    return false;
+  }
   return Solve(prog, config, primal_variable);
 }
 
-- 
2.43.0


From 0f6b119f0b882a53e1debf820de0b3e4300cbf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 22/27] fix: invalid quadratic costs were reported as added

---
 conex/cone_program.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 8c7f4f4..ff0a852 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -559,6 +559,11 @@ bool Solve(const DenseMatrix& b, Program& prog,
 
 bool Program::AddQuadraticCost(const DenseMatrix& Q,
                                const std::vector<int>& vars) {
+  CONEX_DEMAND(IsUnique(GetNumberOfVariables(), vars),
+               "Variables must be distinct variables of the program.");
+  CONEX_DEMAND(Q.rows() == static_cast<int>(vars.size()) &&
+                   Q.cols() == Q.rows(),
+               "Order of matrix must equal number of variables.");
   contains_quadratic_costs_ = true;
   conex::AddQuadraticCost(this, Q, vars);
   bool failure = false;
-- 
2.43.0


From 23bdafec063e0a23a3534f05c86ea3662710d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:40 +0000
Subject: [PATCH 23/27] fix: a warm start before the first solve or after
 adding constraints used uninitialized scalings

---
 conex/cone_program.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index ff0a852..7af9607 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -76,8 +76,14 @@ void ConstructSchurComplementSystem(std::vector<T*>* c, bool initialize,
 }
 
 bool Initialize(Program& prog, const SolverConfiguration& config) {
-  if (!prog.is_initialized ||
-      config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+  // Unless the caller supplied memory from an earlier solve, there is nothing
+  // to start from before the first solve or after constraints were added.
+  const bool cold_start =
+      config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART ||
+      (prog.is_initialized
+           ? static_cast<int>(prog.kkt.size()) != prog.NumberOfConstraints()
+           : prog.workspace_data_ == &prog.memory_);
+  if (!prog.is_initialized || cold_start) {
     prog.stats = std::make_unique<WorkspaceStats>(config.max_iterations);
     auto& solver = prog.solver;
     auto& kkt = prog.kkt;
@@ -86,7 +92,7 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.residual_only_ = true;
 
     prog.InitializeWorkspace();
-    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+    if (cold_start) {
       prog.stats->b_scaling() = 1;
       prog.stats->c_scaling() = 1;
       SetIdentity(&prog.constraints_);
-- 
2.43.0


From 4d89697d71643987f27557bffe4db73a6e5501ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:40 +0000
Subject: [PATCH 24/27] fix: a warm start with a larger iteration limit wrote
 its statistics out of bounds

---
 conex/cone_program.cc | 8 ++++++++
 conex/cone_program.h  | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 7af9607..8eb0a4b 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -113,6 +113,14 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     }
     solver->Bind(kkt);
     END_TIMER
+  } else if (config.max_iterations > prog.stats->max_iter_) {
+    const double b_scaling = prog.stats->b_scaling();
+    const double c_scaling = prog.stats->c_scaling();
+    prog.stats->max_iter_ = config.max_iterations;
+    prog.stats_memory_.resize(SizeOf(*prog.stats));
+    Initialize(prog.stats.get(), prog.stats_memory_.data());
+    prog.stats->b_scaling() = b_scaling;
+    prog.stats->c_scaling() = c_scaling;
   }
   return true;
 }
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 2faea04..4d3ef87 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -228,6 +228,9 @@ class Program {
   std::unique_ptr<SupernodalKKTSolver> solver;
   std::vector<SupernodalAssemblerBase*> kkt;
   Eigen::VectorXd memory_;
+  // Replaces the part of the workspace for statistics when a warm start raises
+  // the iteration limit.
+  Eigen::VectorXd stats_memory_;
   Eigen::VectorXd* workspace_data_;
   bool is_initialized = false;
   bool contains_quadratic_costs_ = false;
-- 
2.43.0


From 8193b41809cce97b8d4b4f1d3926adddd4c57b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:40 +0000
Subject: [PATCH 25/27] fix: solves that end before the first step returned
 uninitialized results

---
 conex/cone_program.cc | 6 +++++-
 conex/cone_program.h  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 8eb0a4b..fce8436 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -290,7 +290,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   Initialize(prog, config);
   std::cout << "\n";
 
-  Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
+  prog.stats->num_iter = 0;
+  prog.status_.num_iterations = 0;
+
+  Eigen::MatrixXd ydata =
+      Eigen::MatrixXd::Zero(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
   Eigen::Map<DenseMatrix> yout(primal_variable, m, 1);
   Ref y(ydata.data(), prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
 
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 4d3ef87..b57eabf 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -123,7 +123,7 @@ class Program {
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
         ci.constraint.get_dual_variable(xi->data());
-        if (!status_.primal_infeasible) {
+        if (!status_.primal_infeasible && stats->num_iter > 0) {
           xi->array() /=
               (stats->sqrt_inv_mu[stats->num_iter - 1] * stats->b_scaling());
         }
-- 
2.43.0


From ace0ecc3eddfb30423d2a714a161330b04391ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:29 +0000
Subject: [PATCH 26/27] fix: a warm start on shared memory with another
 iteration limit read its scalings from the wrong place

---
 conex/workspace.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..6cdafc4 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -73,10 +73,12 @@ class Workspace {
 struct WorkspaceStats {
   WorkspaceStats(int max_iter) : max_iter_(max_iter) {}
   friend void Initialize(WorkspaceStats* o, double* y) {
-    o->sqrt_inv_mu = y;
-    o->norm_inf_d = y + o->max_iter_;
-    o->c_scaling_ = y + 2 * o->max_iter_;
-    o->b_scaling_ = y + 2 * o->max_iter_ + 1;
+    // The scalings come first: a warm start on the memory of another program
+    // must find them also if its iteration limit differs.
+    o->c_scaling_ = y;
+    o->b_scaling_ = y + 1;
+    o->sqrt_inv_mu = y + 2;
+    o->norm_inf_d = y + 2 + o->max_iter_;
     o->initialized = true;
   }
 
-- 
2.43.0


From 42f1ca3cfcb9f98807a840551188da96d0c5b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:25 +0000
Subject: [PATCH 27/27] fix: a warm start on shared memory that has to grow
 lost its scalings, and one on empty memory used uninitialized ones

---
 conex/cone_program.cc | 2 +-
 conex/cone_program.h  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index fce8436..39e185c 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -82,7 +82,7 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
       config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART ||
       (prog.is_initialized
            ? static_cast<int>(prog.kkt.size()) != prog.NumberOfConstraints()
-           : prog.workspace_data_ == &prog.memory_);
+           : prog.workspace_data_->size() == 0);
   if (!prog.is_initialized || cold_start) {
     prog.stats = std::make_unique<WorkspaceStats>(config.max_iterations);
     auto& solver = prog.solver;
diff --git a/conex/cone_program.h b/conex/cone_program.h
index b57eabf..6c8ae3f 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -181,7 +181,9 @@ class Program {
     workspaces.emplace_back(&sys);
     auto size = SizeOf(workspaces);
     if (size > workspace_data_->size()) {
-      workspace_data_->resize(size);
+      // Keeps the scalings that a warm start on the memory of another program
+      // continues from.
+      workspace_data_->conservativeResize(size);
     }
     Initialize(&workspaces, workspace_data_->data());
 
-- 
2.43.0

