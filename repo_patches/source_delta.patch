From 5e187208ac009e471ae6209bc900014d1b2ea4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 01/37] fix: size the stage Jacobian of path constraints by NG
 when updating the sparse inequality Jacobian

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..c679ab9 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1098,8 +1098,8 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
                                                                                         nlp_ineq_jacobian_t &jacobian) noexcept
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
-    /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    /** compute jacoabian of inequality constraints */
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From 1e86bcead32aeec5677498d7912bb61af82c0f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 02/37] fix: add the Mayer parameter Hessian to the parameter
 block of the dense cost Hessian

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c679ab9..66e7e54 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1351,7 +1351,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
-- 
2.43.0


From 676e1de04dd2e39a761885d6e4c591cbc8d497b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 03/37] fix: read the final control with its own dimension in
 the Mayer term Hessians

---
 src/control/continuous_ocp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 66e7e54..1ea0ab3 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1332,7 +1332,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1592,7 +1592,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1849,7 +1849,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From f0e14c233293766f1ea92f7fddb8e45dc391d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 04/37] fix: take the state-parameter and parameter-control
 blocks of the sparse cost Hessian from the right columns

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 1ea0ab3..91b55a5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1537,7 +1537,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1572,7 +1572,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
-- 
2.43.0


From 04a3d9c9a86174798edee7f25dc1f8c7a867d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 05/37] fix: clear stale derivatives of the running cost in
 cost_gradient

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 91b55a5..9f45eb5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1217,7 +1217,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient(const Eigen:
     int t = 0;
     /** not generic for other collocation schemes : redo*/
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-    m_ad_cost.value() = 0;
+    m_ad_cost = ad_scalar_t(0);
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
         int shift = s * POLY_ORDER;
-- 
2.43.0


From 84f20c909328caebdc4a33a0a23c44d2bd56607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 06/37] fix: accumulate the control-parameter Hessian at
 segment junctions independently of the storage layout while the sparse
 pattern is built

---
 src/control/continuous_ocp.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 9f45eb5..797e857 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1481,11 +1481,9 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 /** dudp */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
-                                   hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   std::plus<scalar_t>());
+                    // the parameter columns are not complete yet: do not rely on the final storage layout
+                    for(Eigen::Index r = 0; r < NU; ++r)
+                        cost_hessian.coeffRef((k + shift) * NU + VARX_SIZE + r, VARX_SIZE + VARU_SIZE + j) += hes(r + NX, j + NX + NU);
                 }
                 /** dp^2 */
                 /**
-- 
2.43.0


From 69f403c242c7c7f44ebdc8664431933753f48282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 07/37] fix: make the short Lagrangian gradient and Hessian
 overloads of the transcription compile and size their Jacobians

---
 src/control/continuous_ocp.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 797e857..4ff0eb8 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1938,12 +1938,12 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const
                                                                           const Eigen::Ref<const nlp_dual_t> &lam, scalar_t &_lagrangian,
                                                                           Eigen::Ref<nlp_variable_t> lag_gradient) noexcept
 {
-    nlp_eq_constraints_t c;
-    nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_constraints_t c(static_cast<Eigen::Index>(NUM_EQ));
+    nlp_ineq_constraints_t g(static_cast<Eigen::Index>(NUM_INEQ));
+    nlp_eq_jacobian_t jac_c(static_cast<Eigen::Index>(NUM_EQ), static_cast<Eigen::Index>(VAR_SIZE));
+    nlp_ineq_jacobian_t jac_g(static_cast<Eigen::Index>(NUM_INEQ), static_cast<Eigen::Index>(VAR_SIZE));
     this->cost_gradient(var, p, _lagrangian, lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2021,12 +2021,12 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
                                                                     scalar_t &_lagrangian, Eigen::Ref<nlp_variable_t> lag_gradient,
                                                                     Eigen::Ref<nlp_hessian_t> lag_hessian) noexcept
 {
-    nlp_eq_constraints_t c;
-    nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_constraints_t c(static_cast<Eigen::Index>(NUM_EQ));
+    nlp_ineq_constraints_t g(static_cast<Eigen::Index>(NUM_INEQ));
+    nlp_eq_jacobian_t jac_c(static_cast<Eigen::Index>(NUM_EQ), static_cast<Eigen::Index>(VAR_SIZE));
+    nlp_ineq_jacobian_t jac_g(static_cast<Eigen::Index>(NUM_INEQ), static_cast<Eigen::Index>(VAR_SIZE));
     this->cost_gradient_hessian(var, p, _lagrangian, lag_gradient, lag_hessian);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2066,7 +2066,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
         }
 
         // constraints contribution
-        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
+        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
             scalar_t coeff = lam(n + k * NG + NUM_EQ);
-- 
2.43.0


From 73cb9114f706dbde6d8720d931f361a8f7120f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:46 +0000
Subject: [PATCH 08/37] fix: lagrangian_gradient calls the existing
 equalities_linearised

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..2c5e12c 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -560,7 +560,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_impl(const Eigen::R
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
     this->cost_gradient(var, p, _lagrangian, _lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
-- 
2.43.0


From a679bb9676e847ade41120cf1c2ffa0eded6d14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:41 +0000
Subject: [PATCH 09/37] fix: reset the second-order cost seed completely before
 evaluation

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index 2c5e12c..95cd646 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -519,7 +519,7 @@ void ProblemBase<Derived, MatrixFormat>::cost_gradient_hessian_impl(const Eigen:
     _cost = scalar_t(0);
     _cost_gradient = nlp_variable_t::Zero(VAR_SIZE);
     hessian  = nlp_hessian_t::Zero(VAR_SIZE, VAR_SIZE);
-    m_ad2_cost.value().value() = 0;
+    m_ad2_cost = ad2_scalar_t(0);
 
     // set variable values
     for(int i = 0; i < VAR_SIZE; i++)
-- 
2.43.0


From 3ab0d217a1bef5963c9fba439d4573ba0c283dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 10/37] fix: boxADMM over-relaxation uses the previous iterate

---
 src/solvers/box_admm.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..4598350 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -126,8 +126,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
-- 
2.43.0


From cf724bcadfdc742a4e374be2f912ea625b89678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 11/37] fix: overwrite existing KKT entries when the sparsity
 pattern is reused

---
 src/solvers/admm.hpp     | 2 +-
 src/solvers/box_admm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..107b43a 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -357,7 +357,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 4598350..5a55e63 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -327,7 +327,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From e785752475906d31b6ee98b107a3df0240e8d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 12/37] fix: reused KKT pattern of a Hessian without stored
 diagonal

---
 src/solvers/admm.hpp     | 12 ++++++------
 src/solvers/box_admm.hpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index 107b43a..95a8f28 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -321,13 +321,13 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const admm_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
-        // copy H and A blocks
+        // H does not have to store its diagonal: clear the entries created for it
         for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
-        }
+            m_K.coeffRef(k, k) = scalar_t(0);
+
+        // copy H and A blocks
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
             block_set_sparse(m_K, N, 0, A.transpose());
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 5a55e63..df75afe 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -290,13 +290,13 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const qp_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
-        // copy H and A blocks
+        // H does not have to store its diagonal: clear the entries created for it
         for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
-        }
+            m_K.coeffRef(k, k) = scalar_t(0);
+
+        // copy H and A blocks
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
             block_set_sparse(m_K, N, 0, A.transpose());
-- 
2.43.0


From 71e82d7cefe4e1f97ec5c94de82c7809e45ede00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 13/37] fix: sparse QP solvers accept compressed matrices

---
 src/solvers/admm.hpp     | 11 +++++++----
 src/solvers/box_admm.hpp |  6 ++++--
 src/solvers/qp_base.hpp  |  7 +++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index 95a8f28..b82cfae 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -229,13 +229,14 @@ public:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], Base::nnz_in_col(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += Base::nnz_in_col(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
@@ -287,9 +288,11 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += Base::nnz_in_col(H, k);
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += Base::nnz_in_col(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index df75afe..acd07e8 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -245,9 +245,11 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += Base::nnz_in_col(H, k);
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += Base::nnz_in_col(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/qp_base.hpp b/src/solvers/qp_base.hpp
index 70b6a0b..0a6a389 100644
--- a/src/solvers/qp_base.hpp
+++ b/src/solvers/qp_base.hpp
@@ -221,6 +221,13 @@ class QPBase
 
     }
 
+    /** number of nonzeros in a column of a compressed or uncompressed sparse matrix */
+    template<typename SparseMat>
+    static EIGEN_STRONG_INLINE Eigen::Index nnz_in_col(const SparseMat& mat, const Eigen::Index& col) noexcept
+    {
+        return mat.isCompressed() ? mat.outerIndexPtr()[col + 1] - mat.outerIndexPtr()[col] : mat.innerNonZeroPtr()[col];
+    }
+
     /** standard function to estimate primal residual */
     EIGEN_STRONG_INLINE scalar_t primal_residual(const Eigen::Ref<const qp_constraint_t>& A, const Eigen::Ref<const qp_var_t>& x,
                                                  const Eigen::Ref<const qp_dual_a_t>& b) const noexcept
-- 
2.43.0


From 235621bfc07005e2a28b14f869b57005763c5605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 14/37] fix: place the transposed constraint block correctly
 when the pattern is reused

---
 src/solvers/admm.hpp     | 2 +-
 src/solvers/box_admm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index b82cfae..8a09861 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -333,7 +333,7 @@ public:
         block_set_sparse(m_K, N, 0, A);
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index acd07e8..0499950 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -301,7 +301,7 @@ public:
         block_set_sparse(m_K, N, 0, A);
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
-- 
2.43.0


From fd6f302aadff3401efccff85cadbbaa884c07601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 15/37] fix: QP solvers report the number of performed
 iterations at the iteration limit

---
 src/solvers/admm.hpp     | 3 +++
 src/solvers/box_admm.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index 8a09861..dc94750 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -205,7 +205,10 @@ public:
 
 
         if (iter > this->m_settings.max_iter)
+        {
             this->m_info.status = MAX_ITER_EXCEEDED;
+            iter = this->m_settings.max_iter; // number of performed iterations
+        }
 
         this->m_info.iter = iter;
 
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 0499950..29bf625 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -196,7 +196,10 @@ public:
         }
 
         if (iter > this->m_settings.max_iter)
+        {
             this->m_info.status = MAX_ITER_EXCEEDED;
+            iter = this->m_settings.max_iter; // number of performed iterations
+        }
 
         this->m_info.iter = iter;
 
-- 
2.43.0


From dcea2b0736dd99e8bd349983ae96808ae5da7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 16/37] fix: SR1 update divided by zero for an exact model or a
 zero step

---
 src/solvers/sr1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..ac852a4 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -28,8 +28,8 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
 
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
-    // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    // safeguard (both sides of the inequality vanish for an exact model or a zero step)
+    if(scaling != Scalar(0) && std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From 3e3207dc518c952a90f9341a5e34e3ace78ca31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 17/37] fix: structured Hessian update divided by zero for
 steps without curvature

---
 src/control/continuous_ocp.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 4ff0eb8..01cc251 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2310,8 +2310,13 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
 
     const nlp_variable_t v = hessian * s;
     const scalar_t scaling = s.dot(v);
-    const scalar_t scaling_inv = scalar_t(1) / scaling;
     const scalar_t sy  = s.dot(y);
+
+    // no usable curvature along the step (see BFGS_update()): leave the hessian unchanged
+    if (scaling < std::numeric_limits<scalar_t>::epsilon() || std::max(sy, scalar_t(0.2) * scaling) < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
+    const scalar_t scaling_inv = scalar_t(1) / scaling;
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
-- 
2.43.0


From 904e8c152f38e0da8929a6fe51cbcf8c1a153d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:54 +0000
Subject: [PATCH 18/37] fix: derivative of floor(AutoDiffScalar) is zero, not
 that of its argument

---
 src/autodiff/AutoDiffScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 92a0194..2077054 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -623,7 +623,7 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(log,
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(floor,
   using std::floor;
-  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(1));)
+  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(0));)
 
 template<typename DerType>
 inline const Eigen::AutoDiffScalar<
-- 
2.43.0


From dc8225436241b1504ecf634895acd5d0b1c98961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 19/37] fix: second-order rbf_kernel: Hessian diagonal 2x too
 small, outer gradient left unset

---
 src/autodiff/rbf_kernel.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/rbf_kernel.hpp b/src/autodiff/rbf_kernel.hpp
index f238f98..0f0b196 100644
--- a/src/autodiff/rbf_kernel.hpp
+++ b/src/autodiff/rbf_kernel.hpp
@@ -76,7 +76,7 @@ struct rbf_kernel
 
         Scalar val = exp(-(xt - y).squaredNorm());
         Eigen::Matrix<Scalar, Size, Size> hes;
-        hes.noalias() = val * (4 * (xt - y) * (xt - y).transpose() - Eigen::Matrix<Scalar, Size, Size>::Identity());
+        hes.noalias() = val * (4 * (xt - y) * (xt - y).transpose() - 2 * Eigen::Matrix<Scalar, Size, Size>::Identity());
 
         outer_adscalar_t result;
         // value
@@ -84,7 +84,10 @@ struct rbf_kernel
         result.value().derivatives().noalias() = -2 * val * (xt - y);
 
         for (Eigen::Index i  = 0; i < Size; ++i)
+        {
+            result.derivatives()(i).value() = result.value().derivatives()(i);
             result.derivatives()(i).derivatives() = hes.col(i);
+        }
 
         return result;
     }
-- 
2.43.0


From 7efd98fe9a1067c90809b957076c90645f3c23e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 20/37] fix: sparse RuizEquilibration::unscale lost constraint
 entries for a single-row constraint matrix

---
 src/solvers/qp_preconditioners.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..77bdd29 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -391,7 +391,7 @@ public:
             Eigen::Ref<gradient_t> l, Eigen::Ref<gradient_t> u) const noexcept
     {
         H = scalar_t(1 / m_c) * (D.cwiseInverse()).asDiagonal() * H * (D.cwiseInverse()).asDiagonal();
-        A = (E.cwiseInverse()).asDiagonal() * A * (D.cwiseInverse()).asDiagonal();
+        A = (E.cwiseInverse()).asDiagonal() * (A * (D.cwiseInverse()).asDiagonal());
         H.uncompress();
         A.uncompress();
         h.noalias() = scalar_t(1 / m_c) * h.cwiseProduct(D.cwiseInverse());
-- 
2.43.0


From 596b7240dd98117b27763c947a2ec3331bef86c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 21/37] fix: sparse RuizEquilibration::compute divided by zero
 for a zero gradient and empty Hessian columns

---
 src/solvers/qp_preconditioners.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 77bdd29..3198c56 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -286,7 +286,9 @@ public:
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > _approx_zero ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From 23e6f67ad63c56da7b99712e4a315e8ef8ee7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 22/37] fix: signs of the corner entries of the Legendre
 differentiation matrix (ascending nodes)

---
 src/polynomials/legendre.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 4ac4bdb..eff71a7 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -163,7 +163,7 @@ Legendre<PolyOrder, Qtype, Scalar>::compute_diff_matrix() noexcept
     basis_t Ln    = compute_basis();
 
     /** use formula from Canuto-Quarteroni */
-    D(0,0) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
+    D(0,0) = -(POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4); // the nodes are in the ascending order
     D(POLY_ORDER, POLY_ORDER) = -D(0,0);
 
     for(Eigen::Index i = 0; i < NUM_NODES; ++i)
-- 
2.43.0


From 06844db3e42571cd3dfbca65fed59f51441e1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 23/37] fix: Chebyshev normalisation factor of the highest
 degree under Gauss-Lobatto quadrature

---
 src/polynomials/ebyshev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index e010e75..a049a80 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -174,7 +174,7 @@ typename Chebyshev<PolyOrder, Qtype, Scalar>::q_weights_t
 Chebyshev<PolyOrder, Qtype, Scalar>::compute_norm_factors() noexcept
 {
     q_weights_t w = q_weights_t::Constant(static_cast<Scalar>(Scalar(2) / M_PI));
-    w[0] *= Scalar(0.5);
+    w[0] *= Scalar(0.5); w[PolyOrder] *= Scalar(0.5);
     return w;
 }
 
-- 
2.43.0


From f627f345a17f7753d4c938449bea2cf5cca96d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 24/37] fix: poly_mul overwrote partial products and read
 uninitialised degrees for zero polynomials

---
 src/polynomials/polynomial_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index d787c09..05f904b 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -52,7 +52,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     Scalar eps = std::numeric_limits<Scalar>::epsilon();
 
     /** detect nonzeros */
-    int nnz_p1, nnz_p2;
+    int nnz_p1 = -1, nnz_p2 = -1;
     for(int i = 0; i < p1_size; ++i)
     {
         if(std::fabs(p1[i]) >= eps)
@@ -68,7 +68,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
             /** truncate higher orders if neccessary */
             if( (i+j) == p1_size )
                 break;
-            product[i+j] = p1[j] * p2[i];
+            product[i+j] += p1[j] * p2[i];
         }
     }
 
-- 
2.43.0


From e98bb0b807b548aaccf764d073e26a10e1bc9f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 25/37] fix: cubic spline segment lookup read past the last
 segment and overflowed for far-away arguments

---
 src/polynomials/splines.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..a6617c8 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -59,28 +59,29 @@ public:
 
     // we need two different implementation for first and second derivatives
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, Scalar>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value());}
 
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, Scalar>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value().value());}
 
     template<typename scalar_t>
-    EIGEN_STRONG_INLINE int floor_(const scalar_t &x) const noexcept {return std::floor(x);}
+    EIGEN_STRONG_INLINE Scalar floor_(const scalar_t &x) const noexcept {return std::floor(x);}
 
     template<typename scalar_t>
     EIGEN_STRONG_INLINE scalar_t eval(const scalar_t &x) const noexcept
     {
         // compute the segment index
-        Eigen::Index idx = (Eigen::Index)floor_( x / static_cast<scalar_t>(m_length));
+        const Scalar segm = floor_( x / static_cast<scalar_t>(m_length));
 
 // due to some weird Windows redefinitions
 #if defined _WIN32  || defined _WIN64
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        // clip idx stay within the spline bounds
+        const Eigen::Index idx = (Eigen::Index)std::max(Scalar(0), std::min(segm, Scalar(m_coeffs.cols() - 1)));
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From 8fe7016f95bcf0ee2b16e0c2204fa4ad7f9e5b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 26/37] fix: MPC interpolation looked up the segment as if the
 horizon started at zero

---
 src/control/mpc_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..ecfdd51 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -245,7 +245,7 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        Eigen::Index idx = (Eigen::Index)std::floor( (t - this->ocp().t_start) / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
         state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
@@ -271,7 +271,7 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        Eigen::Index idx = (Eigen::Index)std::floor( (t - this->ocp().t_start) / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
         control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
-- 
2.43.0


From 403f1655046cb09b39a68b6990d1e3f84dda7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 27/37] fix: sparse ODE collocation miscounted the Jacobian
 pattern when the differentiation matrix has zero diagonal entries

---
 src/control/sparse_ode_collocation.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 9ac6c23..1d96ecc 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -178,6 +178,15 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_inner_nn
     Eigen::Map<Eigen::Matrix<int, VARX_SIZE, 1>> mi(inner_nnz);
     m_jac_inner_nnz. template head<VARX_SIZE>() = mi;
     m_jac_inner_nnz. template head<VARX_SIZE>() += Eigen::Matrix<int, VARX_SIZE, 1>::Constant(NX-1);
+    /** the differentiation matrix does not store zero diagonal entries, the Jacobian does */
+    for(int k = 0; k < VARX_SIZE; ++k)
+    {
+        bool has_diagonal = false;
+        for(typename comp_diff_mat_t::InnerIterator it(m_DiffMat, k); it; ++it)
+            has_diagonal = has_diagonal || (it.row() == k);
+        if(!has_diagonal)
+            m_jac_inner_nnz(k) += 1;
+    }
     m_jac_inner_nnz. template segment<VARU_SIZE>(VARX_SIZE) = Eigen::Matrix<int, VARU_SIZE, 1>::Constant(NX);
 }
 
-- 
2.43.0


From d61c033969db5d3ba727083312119a3f3c174555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 28/37] fix: collocation functors constructed from function
 objects ignored them and stayed uninitialised

---
 src/control/cost_collocation.hpp       | 7 ++++++-
 src/control/ode_collocation.hpp        | 6 +++++-
 src/control/sparse_ode_collocation.hpp | 7 ++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 207802d..8e78866 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -109,7 +109,12 @@ public:
 
 
     cost_collocation();
-    cost_collocation(const LagrangeTerm &L, const MayerTerm &M){}
+    cost_collocation(const LagrangeTerm &L, const MayerTerm &M) : m_Lagrange(L), m_Mayer(M)
+    {
+        m_weights = m_basis_f.CCQWeights();
+        initialize_derivatives();
+        initialize_second_derivatives();
+    }
     ~cost_collocation(){}
 
 private:
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index f6a2582..06a5eaa 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -44,7 +44,11 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    ode_collocation(const Dynamics &_f){}
+    ode_collocation(const Dynamics &_f) : m_f(_f)
+    {
+        compute_diff_matrix();
+        initialize_derivatives();
+    }
     ode_collocation();
     ~ode_collocation(){}
 
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 1d96ecc..a7bf3c0 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -47,7 +47,12 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::SparseMatrix<Scalar>; //Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    sparse_ode_collocation(const Dynamics &_f){}
+    sparse_ode_collocation(const Dynamics &_f) : m_f(_f)
+    {
+        compute_diff_matrix();
+        compute_inner_nnz();
+        initialize_derivatives();
+    }
     sparse_ode_collocation();
     ~sparse_ode_collocation(){}
 
-- 
2.43.0


From 529f45063e53ca5b24234088826d3d79613b1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 29/37] fix: derivative of pow(x, 0) was NaN at x = 0

---
 src/autodiff/AutoDiffScalar.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 2077054..998ccf4 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -632,6 +632,9 @@ pow(const Eigen::AutoDiffScalar<DerType> &x, const typename internal::traits<typ
 {
   using namespace Eigen;
   using std::pow;
+  // constant: y * pow(x, y-1) would be 0 * inf at x = 0
+  if (y == decltype(y)(0))
+    return Eigen::MakeAutoDiffScalar(pow(x.value(),y), x.derivatives() * y);
   return Eigen::MakeAutoDiffScalar(pow(x.value(),y), x.derivatives() * (y * pow(x.value(),y-1)));
 }
 
-- 
2.43.0


From 541a18689b31723b9c2a7b73497b42b596d48125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 30/37] fix: IpoptInterface::get_problem() returns the adapted
 problem (it did not compile)

---
 src/solvers/ipopt_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b2b136c..b8f8aac 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -432,8 +432,8 @@ public:
     EIGEN_STRONG_INLINE const nlp_settings_t& settings() const noexcept { return *(m_app->Options()); }
     EIGEN_STRONG_INLINE nlp_settings_t& settings() noexcept { return *(m_app->Options()); }
 
-    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return *(m_problem); }
-    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return *(m_problem); }
+    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return m_problem->problem; }
+    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return m_problem->problem; }
 
     EIGEN_STRONG_INLINE const ipopt_info_t& info() const noexcept { return m_info; }
     EIGEN_STRONG_INLINE ipopt_info_t& info() noexcept { return m_info; }
-- 
2.43.0


From 9de99172c3f1ef5b4bdc810a2c3bb0d3440c5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 31/37] fix: OSQP interface reports the primal and the dual
 residual, not the dual one as primal

---
 src/solvers/osqp_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 98504b0..528ff4a 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -84,7 +84,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
@@ -146,7 +147,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
-- 
2.43.0


From 81614df9d6394c41181e3711c76ec366dc80cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 32/37] fix: OSQP interface accepts compressed constraint
 matrices

---
 src/solvers/osqp_interface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 528ff4a..20f6d3f 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -183,13 +183,14 @@ private:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], Base::nnz_in_col(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             Eigen::VectorXi _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += Base::nnz_in_col(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
-- 
2.43.0


From b309cb497d7cfbea4c416eca67d0a231fcefb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 33/37] fix: QPMAD interface records the status of a failed
 solve instead of keeping the previous one

---
 src/solvers/qpmad_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index 7b4a8ef..745ee5f 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -84,7 +84,7 @@ public:
         {
             case solver_t::ReturnStatus::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case solver_t::ReturnStatus::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default : {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
@@ -107,7 +107,7 @@ public:
         {
             case qpmad::Solver::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default : {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
-- 
2.43.0


From 6836a61b0dadea253a2ecae6452e66dff749aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 34/37] fix: IPOPT adapter copies the values of a sparse
 Jacobian to the solver

---
 src/solvers/ipopt_interface.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b8f8aac..803e973 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -106,7 +106,12 @@ public:
                 }
         }
         else
-            data = mat.derived().valuePtr();
+        {
+            int ind = 0;
+            for (int k = 0; k < mat.outerSize(); ++k)
+                for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(mat, k); it; ++it, ++ind)
+                    data[ind] = it.value();
+        }
     }
 
     template<typename MatrixType, int T = Problem::MATRIXFMT>
-- 
2.43.0


From 0441139703a0ac56ad23c1ee99a922178d44029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 35/37] fix: IPOPT adapter does not read bound multipliers past
 the end of the constraint multipliers in eval_h

---
 src/solvers/ipopt_interface.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 803e973..e564178 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -364,8 +364,11 @@ public:
         {
             // // return the values. This is a symmetric matrix, fill the lower left
             // // triangle only
+            // the solver passes constraint multipliers only, bounds do not contribute to the Hessian
+            nlp_dual_t dual = nlp_dual_t::Zero(num_variables + num_constraints, 1);
+            dual.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda);
             problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p,
-                                                Eigen::Map<const nlp_dual_t>(lambda), m_cost,
+                                                dual, m_cost,
                                                 m_h, m_H, m_dlag, m_g, m_A, obj_factor);
 
             get_data(m_H, values, true);
-- 
2.43.0


From 678e414336e1562f6cbc967b2986300fc53a414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 36/37] fix: IPOPT adapter stores the bound multipliers of the
 solution instead of reading past the constraint multipliers

---
 src/solvers/ipopt_interface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index e564178..f5197bc 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -383,7 +383,8 @@ public:
                            Ipopt::IpoptCalculatedQuantities* ip_cq) override
     {
         m_x   = Eigen::Map<const nlp_variable_t>(x);
-        m_lam = Eigen::Map<const nlp_dual_t>(lambda);
+        m_lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda);
+        m_lam.template tail<num_variables>() = Eigen::Map<const nlp_variable_t>(z_U) - Eigen::Map<const nlp_variable_t>(z_L);
         m_cost = obj_value;
 
         /** @todo: Fill in the rest of the solution struct */
-- 
2.43.0


From ca32cced61cf4e6f801e7b7a19f8437adb58f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 37/37] fix: lyapunov() couples the columns of complex
 eigenvalue pairs

---
 src/control/lqr.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 4596340..b5115c2 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -39,13 +39,25 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
     Eigen::MatrixXd X = Eigen::MatrixXd::Zero(m, m);
     Eigen::MatrixXd E = Eigen::MatrixXd::Identity(m,m);
 
-    X.col(m-1).noalias() = (T + T(m-1,m-1) * E).partialPivLu().solve(Q1.col(m-1));
     Eigen::VectorXd v;
 
-    for(Eigen::Index i = m-2; i >= 0; --i)
+    for(Eigen::Index i = m-1; i >= 0; --i)
     {
         v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).transpose();
-        X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
+        if((i > 0) && (T(i,i-1) != 0.0))
+        {
+            /** a pair of complex eigenvalues couples columns i-1 and i */
+            Eigen::MatrixXd K(2 * m, 2 * m);
+            Eigen::VectorXd w(2 * m);
+            K << T + T(i-1,i-1) * E, T(i-1,i) * E, T(i,i-1) * E, T + T(i,i) * E;
+            w << Q1.col(i-1) - X.block(0, i+1, m, m-(i+1)) * T.block(i-1, i+1, 1, m-(i+1)).transpose(), v;
+            w = K.partialPivLu().solve(w).eval();
+            X.col(i-1) = w.head(m);
+            X.col(i)   = w.tail(m);
+            --i;
+        }
+        else
+            X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
     }
 
     X.noalias() = (U * X) * U.transpose();
-- 
2.43.0

