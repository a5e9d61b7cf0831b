From be12da400e157dea9f8e2aa0c2f7c3b7a3429e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 01/42] fix: poly_mul accumulates coefficient products and
 handles zero polynomials

---
 src/polynomials/polynomial_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index d787c09..96d614a 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -52,7 +52,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     Scalar eps = std::numeric_limits<Scalar>::epsilon();
 
     /** detect nonzeros */
-    int nnz_p1, nnz_p2;
+    int nnz_p1 = 0, nnz_p2 = 0;
     for(int i = 0; i < p1_size; ++i)
     {
         if(std::fabs(p1[i]) >= eps)
@@ -68,7 +68,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
             /** truncate higher orders if neccessary */
             if( (i+j) == p1_size )
                 break;
-            product[i+j] = p1[j] * p2[i];
+            product[i+j] += p1[j] * p2[i];
         }
     }
 
-- 
2.43.0


From 00de26682a3af3994c0298add5cb8f5a2ceec739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 02/42] fix: sign of the corner entries of the Legendre
 differentiation matrix (nodes are ascending)

---
 src/polynomials/legendre.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 4ac4bdb..b6161f4 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -163,7 +163,7 @@ Legendre<PolyOrder, Qtype, Scalar>::compute_diff_matrix() noexcept
     basis_t Ln    = compute_basis();
 
     /** use formula from Canuto-Quarteroni */
-    D(0,0) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
+    D(0,0) = -(POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
     D(POLY_ORDER, POLY_ORDER) = -D(0,0);
 
     for(Eigen::Index i = 0; i < NUM_NODES; ++i)
-- 
2.43.0


From effe2407e89f6757bdd88e3c320dbbf1602e5248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 03/42] fix: Chebyshev normalisation factor of the highest
 basis function

---
 src/polynomials/ebyshev.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index e010e75..43850b1 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -175,6 +175,7 @@ Chebyshev<PolyOrder, Qtype, Scalar>::compute_norm_factors() noexcept
 {
     q_weights_t w = q_weights_t::Constant(static_cast<Scalar>(Scalar(2) / M_PI));
     w[0] *= Scalar(0.5);
+    w[PolyOrder] *= Scalar(0.5); // discrete norm of T_N on the Gauss-Lobatto grid
     return w;
 }
 
-- 
2.43.0


From 9364259f6d8e16c22874275100a035683fc8e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 04/42] fix: Chebyshev polynomials evaluate to NaN when the
 argument leaves [-1,1] by rounding

---
 src/polynomials/ebyshev.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index 43850b1..bc9e3c2 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -59,7 +59,7 @@ public:
 
     /** Evaluate Chebyshev polynomial of order n*/
     scalar_t eval(const scalar_t &arg, const int &n){return Tn(arg, n);}
-    static scalar_t eval(const scalar_t &arg){return std::cos(PolyOrder * std::acos(arg));}
+    static scalar_t eval(const scalar_t &arg){return Tn(arg, PolyOrder);}
 
     /** Evaluate density function associated with Chebyshev basis */
     static scalar_t weight(const scalar_t &arg){return 1.0 / std::sqrt(1 - std::pow(arg, 2));}
@@ -90,7 +90,17 @@ private:
     q_weights_t _NormFactors;
 
     /** Evaluate Chebyshev polynomial of order n*/
-    inline scalar_t Tn(const scalar_t &arg, const int &n){return std::cos(n * std::acos(arg));}
+    static inline scalar_t Tn(const scalar_t &arg, const int &n)
+    {
+        // three-term recurrence: well-defined for arguments that leave [-1, 1] by rounding
+        scalar_t prev = scalar_t(1), val = (n > 0) ? arg : scalar_t(1);
+        for(int i = 1; i < n; ++i)
+        {
+            const scalar_t next = 2 * arg * val - prev;
+            prev = val; val = next;
+        }
+        return val;
+    }
 };
 
 /** @brief constructor */
-- 
2.43.0


From 9c7d1eddd682f1b626c204c4585f76e239bba1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 05/42] fix: EquidistantCubicSpline reads past the last segment
 at and beyond the right end

---
 src/polynomials/splines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..d582938 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -80,7 +80,7 @@ public:
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From 19251665abfb4eb1e953286849b97e4131070643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 06/42] fix: EquidistantCubicSpline picks the first segment
 when the segment index overflows int

---
 src/polynomials/splines.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index d582938..0900f25 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -59,15 +59,15 @@ public:
 
     // we need two different implementation for first and second derivatives
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, Eigen::Index>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value());}
 
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, Eigen::Index>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value().value());}
 
     template<typename scalar_t>
-    EIGEN_STRONG_INLINE int floor_(const scalar_t &x) const noexcept {return std::floor(x);}
+    EIGEN_STRONG_INLINE Eigen::Index floor_(const scalar_t &x) const noexcept {return std::floor(x);}
 
     template<typename scalar_t>
     EIGEN_STRONG_INLINE scalar_t eval(const scalar_t &x) const noexcept
-- 
2.43.0


From ceb4829f947a08ed9198f9b6f549595ea7a7e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 07/42] fix: SR1 update divides by zero when the step or the
 secant residual is zero

---
 src/solvers/sr1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..c18192d 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -29,7 +29,7 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
     // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From 8237b2f09160d2da9583a719f0b97875c9e57caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 08/42] fix: a full line-search filter keeps pairs dominated by
 the added one and can exceed a lowered depth

---
 src/solvers/line_search.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/solvers/line_search.hpp b/src/solvers/line_search.hpp
index 647eedc..5af2ae6 100644
--- a/src/solvers/line_search.hpp
+++ b/src/solvers/line_search.hpp
@@ -76,19 +76,13 @@ public:
     //
     inline void add(const scalar_t& cost, const scalar_t& constraint) noexcept
     {
-        if(m_filter.size() < max_depth)
-        {   // remove the points if the candidate point dominates them
-            //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
-            m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
-            m_filter.emplace_front(cost, constraint);
-        }
-        else
-        {
-            // clear the last element and push front
-            //m_filter.sort();
+        // remove the points if the candidate point dominates them
+        //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
+        m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
+        // still full: drop the oldest elements
+        while(!m_filter.empty() && (static_cast<int>(m_filter.size()) >= max_depth))
             m_filter.pop_back();
-            m_filter.emplace_front(cost, constraint);
-        }
+        m_filter.emplace_front(cost, constraint);
     }
     //
     inline void remove_one() noexcept
-- 
2.43.0


From 38daab77f78a6a821fc5747347e1d3257be7102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 09/42] fix: derivative of floor() on AD scalars is zero

---
 src/autodiff/AutoDiffScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 92a0194..2077054 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -623,7 +623,7 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(log,
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(floor,
   using std::floor;
-  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(1));)
+  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(0));)
 
 template<typename DerType>
 inline const Eigen::AutoDiffScalar<
-- 
2.43.0


From 35c9943b4729482a23030bcc001db9f717312208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 10/42] fix: sparse QP solvers crash on compressed matrices
 (innerNonZeroPtr is null)

---
 src/solvers/admm.hpp     | 16 ++++++++--------
 src/solvers/box_admm.hpp | 11 +++++------
 src/solvers/qp_base.hpp  |  6 ++++++
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..2797881 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -229,13 +229,14 @@ public:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += this->column_nnz(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
@@ -286,10 +287,9 @@ public:
         m_K.resize(kkt_size, kkt_size);
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
-        // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
-        // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        // add nonzeros from H and A
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += this->column_nnz(H, k) + this->column_nnz(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
@@ -325,8 +325,8 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], this->column_nnz(H, k), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_K.valuePtr() + m_K.outerIndexPtr()[k] + this->column_nnz(H, k));
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..7a70d2f 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -245,10 +245,9 @@ public:
         m_K.resize(kkt_size, kkt_size);
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
-        // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
-        // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        // add nonzeros from H and A
+        for(Eigen::Index k = 0; k < N; ++k)
+            _kkt_mat_nnz(k) += this->column_nnz(H, k) + this->column_nnz(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
@@ -295,8 +294,8 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], this->column_nnz(H, k), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_K.valuePtr() + m_K.outerIndexPtr()[k] + this->column_nnz(H, k));
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/qp_base.hpp b/src/solvers/qp_base.hpp
index 70b6a0b..503eb13 100644
--- a/src/solvers/qp_base.hpp
+++ b/src/solvers/qp_base.hpp
@@ -221,6 +221,12 @@ class QPBase
 
     }
 
+    /** number of nonzeros in the k-th column: innerNonZeroPtr() is not available for compressed matrices */
+    EIGEN_STRONG_INLINE static int column_nnz(const Eigen::Ref<const Eigen::SparseMatrix<scalar_t>>& mat, const Eigen::Index &k) noexcept
+    {
+        return mat.isCompressed() ? mat.outerIndexPtr()[k + 1] - mat.outerIndexPtr()[k] : mat.innerNonZeroPtr()[k];
+    }
+
     /** standard function to estimate primal residual */
     EIGEN_STRONG_INLINE scalar_t primal_residual(const Eigen::Ref<const qp_constraint_t>& A, const Eigen::Ref<const qp_var_t>& x,
                                                  const Eigen::Ref<const qp_dual_a_t>& b) const noexcept
-- 
2.43.0


From c12f4cbfa3630ca7000dae3e86401ada70bf8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:13 +0000
Subject: [PATCH 11/42] fix: boxADMM over-relaxation uses the overwritten
 iterate and leaves the box splitting unrelaxed

---
 src/solvers/box_admm.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 7a70d2f..ce0ccab 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -42,7 +42,7 @@ public:
     ~boxADMM() = default;
     /** ADMM specific */
     qp_var_t m_x_tilde;
-    qp_var_t m_q;
+    qp_var_t m_q, m_q_prev;
     qp_dual_a_t m_z, m_z_tilde, m_z_prev;
     qp_dual_a_t m_rho_vec, m_rho_inv_vec;
     qp_var_t  m_rho_vec_box, m_rho_vec_box_inv, m_rho_vec_box_prev;
@@ -117,6 +117,7 @@ public:
         for (iter = 1; iter <= this->m_settings.max_iter; iter++)
         {
             m_z_prev = m_z;
+            m_q_prev = m_q;
 
             /** update x_tilde z_tilde */
             compute_kkt_rhs(h, rhs);
@@ -126,8 +127,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
@@ -135,7 +135,8 @@ public:
             m_z = m_z.cwiseMax(Alb).cwiseMin(Aub); //box projection
 
             /** update q */
-            m_q.noalias() = this->m_x + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
+            m_q = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q_prev +
+                  m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
             m_q = m_q.cwiseMax(xlb).cwiseMin(xub); // box projection
 
             /** update y (dual) */
@@ -143,8 +144,8 @@ public:
                                                                              (1 - this->m_settings.alpha) * m_z_prev - m_z);
 
             /** update y_box (dual) */
-            //m_y_box.noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q_prev - m_q);
-            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_x - m_q);
+            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde +
+                                                                                 (1 - this->m_settings.alpha) * m_q_prev - m_q);
 
             if (this->m_settings.check_termination != 0 && iter % this->m_settings.check_termination == 0)
                 check_termination = true;
-- 
2.43.0


From b2d75ddeb566a703b06674684134d64432ebe00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:13 +0000
Subject: [PATCH 12/42] fix: same-pattern KKT update of the sparse QP solvers
 corrupts or overruns the matrix

---
 src/solvers/admm.hpp     | 23 +++++++++++------------
 src/solvers/box_admm.hpp | 23 +++++++++++------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index 2797881..c380b6c 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -321,16 +321,15 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const admm_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
-        // copy H and A blocks
+        /** overwrite the H and A blocks: m_K can hold more elements than H and A, e.g. the diagonal */
         for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], this->column_nnz(H, k), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_K.valuePtr() + m_K.outerIndexPtr()[k] + this->column_nnz(H, k));
-        }
-        // reserve the space and insert values from H and A
+            for (typename kkt_mat_t::InnerIterator it(m_K, k); it; ++it)
+                it.valueRef() = scalar_t(0);
+
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -352,12 +351,12 @@ public:
     template<int T = MatrixType>
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     block_set_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
-                     const Eigen::Index &col_offset, const Eigen::SparseMatrix<scalar_t>& src) const noexcept
+                     const Eigen::Index &col_offset, const Eigen::Ref<const Eigen::SparseMatrix<scalar_t>>& src) const noexcept
     {
-        // assumes enough spase is allocated in the dst matrix
+        // assumes the elements of src are present in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
-            for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+            for (typename Eigen::Ref<const Eigen::SparseMatrix<scalar_t>>::InnerIterator it(src, k); it; ++it)
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index ce0ccab..75a4bc2 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -291,16 +291,15 @@ public:
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     construct_kkt_matrix_same_pattern(const Eigen::Ref<const qp_hessian_t>& H, const Eigen::Ref<const qp_constraint_t>& A) noexcept
     {
-        /** just copy content of nonzero vectors*/
-        // copy H and A blocks
+        /** overwrite the H and A blocks: m_K can hold more elements than H and A, e.g. the diagonal */
         for(Eigen::Index k = 0; k < N; ++k)
-        {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], this->column_nnz(H, k), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_K.valuePtr() + m_K.outerIndexPtr()[k] + this->column_nnz(H, k));
-        }
-        // reserve the space and insert values from H and A
+            for (typename kkt_mat_t::InnerIterator it(m_K, k); it; ++it)
+                it.valueRef() = scalar_t(0);
+
+        block_set_sparse(m_K, 0, 0, H);
+        block_set_sparse(m_K, N, 0, A);
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -323,12 +322,12 @@ public:
     template<int T = MatrixType>
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
     block_set_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
-                        const Eigen::Index &col_offset, const Eigen::SparseMatrix<scalar_t>& src) const noexcept
+                        const Eigen::Index &col_offset, const Eigen::Ref<const Eigen::SparseMatrix<scalar_t>>& src) const noexcept
     {
-        // assumes enough spase is allocated in the dst matrix
+        // assumes the elements of src are present in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
-            for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+            for (typename Eigen::Ref<const Eigen::SparseMatrix<scalar_t>>::InnerIterator it(src, k); it; ++it)
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From 2d43711a0fffc7a2c65df7bae4aa65e393fb349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:13 +0000
Subject: [PATCH 13/42] fix: QP solvers report one iteration more than
 performed when the budget runs out

---
 src/solvers/admm.hpp     | 3 +++
 src/solvers/box_admm.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index c380b6c..0b2fe1b 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -205,7 +205,10 @@ public:
 
 
         if (iter > this->m_settings.max_iter)
+        {
+            iter = this->m_settings.max_iter; // the loop counter is one past the last iteration
             this->m_info.status = MAX_ITER_EXCEEDED;
+        }
 
         this->m_info.iter = iter;
 
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 75a4bc2..3718be5 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -198,7 +198,10 @@ public:
         }
 
         if (iter > this->m_settings.max_iter)
+        {
+            iter = this->m_settings.max_iter; // the loop counter is one past the last iteration
             this->m_info.status = MAX_ITER_EXCEEDED;
+        }
 
         this->m_info.iter = iter;
 
-- 
2.43.0


From 9892fc04a78a2a44b60e5f0ad30d065a2ae15a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 14/42] fix: sparse Ruiz scaling divides by zero for zero data
 and loses columns of one-row Jacobians

---
 src/solvers/qp_preconditioners.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..a47d553 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -286,7 +286,9 @@ public:
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > std::numeric_limits<scalar_t>::epsilon() ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
@@ -391,7 +393,7 @@ public:
             Eigen::Ref<gradient_t> l, Eigen::Ref<gradient_t> u) const noexcept
     {
         H = scalar_t(1 / m_c) * (D.cwiseInverse()).asDiagonal() * H * (D.cwiseInverse()).asDiagonal();
-        A = (E.cwiseInverse()).asDiagonal() * A * (D.cwiseInverse()).asDiagonal();
+        A = (E.cwiseInverse()).asDiagonal() * (A * (D.cwiseInverse()).asDiagonal());
         H.uncompress();
         A.uncompress();
         h.noalias() = scalar_t(1 / m_c) * h.cwiseProduct(D.cwiseInverse());
-- 
2.43.0


From 8d368f2c339c3b2ebc74d49b3acf208bb6b4d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:59 +0000
Subject: [PATCH 15/42] fix: Ruiz scaling of problems without general
 constraints

---
 src/solvers/qp_preconditioners.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index a47d553..041cd31 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -176,13 +176,14 @@ public:
             gradient_t x = A.colwise().template lpNorm<Eigen::Infinity>();
             m_D = m_D.cwiseMax(x);
 
-            scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
+            scaling_norm = m_D.maxCoeff();
+            if (M > 0) scaling_norm = std::max(scaling_norm, m_E.maxCoeff());
 
             // avoid singularities
             if (m_D.minCoeff() < _approx_zero)
                 for (int k = 0; k < N; ++k) {if (m_D(k) < _approx_zero) m_D(k) = scalar_t(1.0);}
 
-            if (m_E.minCoeff() < _approx_zero)
+            if (M > 0 && m_E.minCoeff() < _approx_zero)
                 for (int k = 0; k < M; ++k) {if (m_E(k) < _approx_zero) m_E(k) = scalar_t(1.0);}
 
             // compute diagonal scaling factors
@@ -263,13 +264,14 @@ public:
 
             m_D = m_D.cwiseMax(x);
 
-            scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
+            scaling_norm = m_D.maxCoeff();
+            if (M > 0) scaling_norm = std::max(scaling_norm, m_E.maxCoeff());
 
             // avoid singularities
             if (m_D.minCoeff() < _approx_zero)
                 for (int k = 0; k < N; ++k) {if (m_D(k) < _approx_zero) m_D(k) = scalar_t(1.0);}
 
-            if (m_E.minCoeff() < _approx_zero)
+            if (M > 0 && m_E.minCoeff() < _approx_zero)
                 for (int k = 0; k < M; ++k) {if (m_E(k) < _approx_zero) m_E(k) = scalar_t(1.0);}
 
             // compute diagonal scaling factors
-- 
2.43.0


From b6ea71c9861fe0b8a66fac8f803cb8b1df8cba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 16/42] fix: lagrangian_gradient of NLP problems does not
 compile

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..2c5e12c 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -560,7 +560,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_impl(const Eigen::R
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
     this->cost_gradient(var, p, _lagrangian, _lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
-- 
2.43.0


From f68fd43f269129b431579ebfe49539721a50dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:59 +0000
Subject: [PATCH 17/42] fix: stale or uninitialised derivatives when a user
 function assigns a constant

---
 src/solvers/nlproblem.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index 2c5e12c..1beec84 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -314,6 +314,8 @@ public:
         equalities = nlp_eq_constraints_t::Zero(NUM_EQ);
 
         m_ad_var = var;
+        // assigning a constant to an AD scalar keeps its derivatives: start from zero ones
+        m_ad_eq.setConstant(ad_scalar_t(0));
         equality_constraints<ad_scalar_t>(m_ad_var, p, m_ad_eq);
 
         /** compute value and first derivatives */
@@ -357,6 +359,7 @@ public:
         //inequalities = nlp_ineq_constraints_t::Zero(NUM_INEQ);
 
         m_ad_var = var;
+        m_ad_ineq.setConstant(ad_scalar_t(0));
         inequality_constraints<ad_scalar_t>(m_ad_var, p, m_ad_ineq);
 
         // compute value and first derivatives
@@ -519,7 +522,7 @@ void ProblemBase<Derived, MatrixFormat>::cost_gradient_hessian_impl(const Eigen:
     _cost = scalar_t(0);
     _cost_gradient = nlp_variable_t::Zero(VAR_SIZE);
     hessian  = nlp_hessian_t::Zero(VAR_SIZE, VAR_SIZE);
-    m_ad2_cost.value().value() = 0;
+    m_ad2_cost = ad2_scalar_t(ad_scalar_t(0));
 
     // set variable values
     for(int i = 0; i < VAR_SIZE; i++)
@@ -640,6 +643,8 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_hessian_impl(const
     Eigen::Matrix<scalar_t, VAR_SIZE, VAR_SIZE> hes = Eigen::Matrix<scalar_t, VAR_SIZE, VAR_SIZE>::Zero();
     Eigen::Matrix<ad2_scalar_t, NUM_EQ, 1> ad2_eq;
     Eigen::Matrix<ad2_scalar_t, NUM_INEQ, 1> ad2_ineq;
+    ad2_eq.setConstant(ad2_scalar_t(ad_scalar_t(0)));
+    ad2_ineq.setConstant(ad2_scalar_t(ad_scalar_t(0)));
 
     for(int i = 0; i < VAR_SIZE; i++)
         m_ad2_var(i).value().value() = var(i);
-- 
2.43.0


From ecd40ed38e44e1b74f75ad03c32ce9ab933ef43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 18/42] fix: sparse inequality Jacobian update sized its block
 by NX instead of NG

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..c679ab9 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1098,8 +1098,8 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
                                                                                         nlp_ineq_jacobian_t &jacobian) noexcept
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
-    /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    /** compute jacoabian of inequality constraints */
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From f3388181c8ab669d4ebe2594ae575286c357f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 19/42] fix: dense cost Hessian added the terminal cost's
 parameter block to the wrong corner

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c679ab9..66e7e54 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1351,7 +1351,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
-- 
2.43.0


From c2f97b12343fbb01ea780573bcbbe63b54ed1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 20/42] fix: terminal cost Hessian read the final control with
 the state dimension

---
 src/control/continuous_ocp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 66e7e54..1ea0ab3 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1332,7 +1332,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1592,7 +1592,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1849,7 +1849,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From 63aaaa9408bfec2705f82900343bce6e6e09a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 21/42] fix: sparse cost Hessian took parameter cross terms
 from the wrong columns on the first evaluation

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 1ea0ab3..91b55a5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1537,7 +1537,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1572,7 +1572,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
-- 
2.43.0


From 594302b8fb2c0dfbd3ebc309e216bc02c2a8cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:20 +0000
Subject: [PATCH 22/42] fix: OCP derivatives kept from an earlier evaluation
 when a user term assigns a constant or is absent

Assigning a scalar to an AD scalar keeps its derivatives; start every user
function from zero derivatives.
---
 src/control/continuous_ocp.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 91b55a5..c14aad1 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -558,6 +558,7 @@ public:
             m_ad_x = var.template segment<NX>(k * NX);
             m_ad_u = var.template segment<NU>(k * NU + VARX_SIZE);
 
+            m_ad_g.fill(ad_scalar_t(0));
             inequality_constraints<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(k), m_ad_g);
 
             // compute value and first derivatives
@@ -854,6 +855,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::equalities_linearised(const Eig
         m_ad_x = var.template segment<NX>(k);
         m_ad_u = var.template segment<NU>(n + VARX_SIZE);
 
+        m_ad_y.fill(ad_scalar_t(0));
         dynamics<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t), m_ad_y);
 
         /** compute value and first derivatives */
@@ -920,6 +922,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_equalities_linearised_spa
         m_ad_x = var.template segment<NX>(k);
         m_ad_u = var.template segment<NU>(n + VARX_SIZE);
 
+        m_ad_y.fill(ad_scalar_t(0));
         dynamics<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t), m_ad_y);
 
         /** compute value and first derivatives */
@@ -982,6 +985,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_equalities_linearised_spa
         m_ad_x = var.template segment<NX>(k);
         m_ad_u = var.template segment<NU>(n + VARX_SIZE);
 
+        m_ad_y.fill(ad_scalar_t(0));
         dynamics<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t), m_ad_y);
 
         /** compute value and first derivatives */
@@ -1066,6 +1070,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
         m_ad_x = var.template segment<NX>(k * NX);
         m_ad_u = var.template segment<NU>(k * NU + VARX_SIZE);
 
+        m_ad_g.fill(ad_scalar_t(0));
         inequality_constraints<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(k), m_ad_g);
 
         /** compute value and first derivatives */
@@ -1108,6 +1113,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
         m_ad_x = var.template segment<NX>(k * NX);
         m_ad_u = var.template segment<NU>(k * NU + VARX_SIZE);
 
+        m_ad_g.fill(ad_scalar_t(0));
         inequality_constraints<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(k), m_ad_g);
 
         /** compute value and first derivatives */
@@ -1226,6 +1232,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient(const Eigen:
         {
             m_ad_x = var.template segment<NX>((k + shift) * NX);
             m_ad_u = var.template segment<NU>((k + shift) * NU + VARX_SIZE);
+            m_ad_cost = ad_scalar_t(0);
             lagrange_term<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t + shift), m_ad_cost);
             cost += t_scale * m_quad_weights(k) * m_ad_cost.value();
             cost_gradient. template segment<NX>((k + shift) * NX).noalias() +=
@@ -1285,6 +1292,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
             for(int i = 0; i < NU; i++)
                 m_ad2_u(i).value().value() = var.template segment<NU>((k + shift) * NU + VARX_SIZE)(i);
 
+            m_ad2_cost = ad2_scalar_t(0);
             lagrange_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(t + shift), m_ad2_cost);
             cost += t_scale * m_quad_weights(k) * m_ad2_cost.value().value();
 
@@ -1414,6 +1422,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
             for(int i = 0; i < NU; i++)
                 m_ad2_u(i).value().value() = var.template segment<NU>((k + shift) * NU + VARX_SIZE)(i);
 
+            m_ad2_cost = ad2_scalar_t(0);
             lagrange_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(t + shift), m_ad2_cost);
             cost += t_scale * m_quad_weights(k) * m_ad2_cost.value().value();
 
@@ -1715,6 +1724,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
             for(int i = 0; i < NU; i++)
                 m_ad2_u(i).value().value() = var.template segment<NU>((k + shift) * NU + VARX_SIZE)(i);
 
+            m_ad2_cost = ad2_scalar_t(0);
             lagrange_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(t + shift), m_ad2_cost);
             cost += t_scale * m_quad_weights(k) * m_ad2_cost.value().value();
 
@@ -2056,6 +2066,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
         hes = Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP>::Zero();
 
         //dynamics contribution
+        ad2_xdot.fill(ad2_scalar_t(0));
         dynamics<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_xdot);
 
         for(int n = 0; n < NX; n++)
@@ -2068,6 +2079,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
         }
 
         // constraints contribution
+        ad2_g.fill(ad2_scalar_t(0));
         inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
         for(int n = 0; n < NG; n++)
         {
@@ -2136,6 +2148,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         hes = Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP>::Zero();
 
         //dynamics contribution
+        ad2_xdot.fill(ad2_scalar_t(0));
         dynamics<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_xdot);
 
         for(int n = 0; n < NX; n++)
@@ -2148,6 +2161,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         }
 
         // constraints contribution
+        ad2_g.fill(ad2_scalar_t(0));
         inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
@@ -2237,6 +2251,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         hes = Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP>::Zero();
 
         //dynamics contribution
+        ad2_xdot.fill(ad2_scalar_t(0));
         dynamics<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_xdot);
 
         for(int n = 0; n < NX; n++)
@@ -2249,6 +2264,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         }
 
         // constraints contribution
+        ad2_g.fill(ad2_scalar_t(0));
         inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
-- 
2.43.0


From 1d703dce3d54ee6dfbbc2c864e22577513dfbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 23/42] fix: sparse cost Hessian added control-parameter terms
 of shared nodes at the wrong offset on the first evaluation

---
 src/control/continuous_ocp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c14aad1..554d876 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1490,10 +1490,10 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 /** dudp */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
+                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + (k + shift + 1) * NX + (k + shift) * NU,
+                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + (k + shift + 1) * NX + (k + shift) * NU + NU,
                                    hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
+                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + (k + shift + 1) * NX + (k + shift) * NU,
                                    std::plus<scalar_t>());
                 }
                 /** dp^2 */
-- 
2.43.0


From f0ccb436e5446df120e44912f4ad3a5f05407cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 24/42] fix: short forms of the OCP Lagrangian derivatives do
 not compile and leave their work matrices unsized

---
 src/control/continuous_ocp.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 554d876..799b572 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1950,12 +1950,12 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const
                                                                           const Eigen::Ref<const nlp_dual_t> &lam, scalar_t &_lagrangian,
                                                                           Eigen::Ref<nlp_variable_t> lag_gradient) noexcept
 {
-    nlp_eq_constraints_t c;
-    nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_constraints_t c(NUM_EQ);
+    nlp_ineq_constraints_t g(NUM_INEQ);
+    nlp_eq_jacobian_t jac_c(NUM_EQ, VAR_SIZE);
+    nlp_ineq_jacobian_t jac_g(NUM_INEQ, VAR_SIZE);
     this->cost_gradient(var, p, _lagrangian, lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2033,12 +2033,12 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
                                                                     scalar_t &_lagrangian, Eigen::Ref<nlp_variable_t> lag_gradient,
                                                                     Eigen::Ref<nlp_hessian_t> lag_hessian) noexcept
 {
-    nlp_eq_constraints_t c;
-    nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_constraints_t c(NUM_EQ);
+    nlp_ineq_constraints_t g(NUM_INEQ);
+    nlp_eq_jacobian_t jac_c(NUM_EQ, VAR_SIZE);
+    nlp_ineq_jacobian_t jac_g(NUM_INEQ, VAR_SIZE);
     this->cost_gradient_hessian(var, p, _lagrangian, lag_gradient, lag_hessian);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2080,7 +2080,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
 
         // constraints contribution
         ad2_g.fill(ad2_scalar_t(0));
-        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
+        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
             scalar_t coeff = lam(n + k * NG + NUM_EQ);
-- 
2.43.0


From f14a96b3d332e2730c8764940b2c9960c87fb74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 25/42] fix: sparse OCP Hessian update divides by zero when the
 step carries no curvature

---
 src/control/continuous_ocp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 799b572..8e0f360 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2333,6 +2333,10 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
+    // no curvature information in the step: keep the estimate, as BFGS_update does
+    if((sy >= 0.2 * scaling ? sy : 0.2 * scaling) < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
     // create temporaries to store
     Eigen::Matrix<scalar_t, NX, NX> hes_xx;
     Eigen::Matrix<scalar_t, NU, NU> hes_uu;
-- 
2.43.0


From 2248e53b0684296bc1287c1af8fd1590a3471932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 26/42] fix: SQP cost() is stale when the line search accepts
 no trial step

---
 src/solvers/sqp_base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solvers/sqp_base.hpp b/src/solvers/sqp_base.hpp
index d1b5ff9..a9d43b4 100644
--- a/src/solvers/sqp_base.hpp
+++ b/src/solvers/sqp_base.hpp
@@ -415,6 +415,12 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(co
             alpha = tau * alpha;
     }
 
+    // no trial step was accepted: log the cost at the step that is returned
+    x_step.noalias() = alpha * p;
+    x_step += this->m_x;
+    this->problem.cost(x_step, this->m_p, cost_step);
+    m_cost = cost_step;
+
     return alpha;
 }
 
-- 
2.43.0


From 71f3c771a3ecc436b5fafd9197dda576707a6c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:43 +0000
Subject: [PATCH 27/42] fix: MPC trajectory interpolation picks the wrong
 segment and loses all digits when the horizon does not start at zero

---
 src/control/mpc_wrapper.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..dacb495 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -47,7 +47,8 @@ public:
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
 
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        // the basis lives on the first segment with time counted from the start of the horizon
+        polympc::LagrangeSpline::compute_lagrange_basis((time_nodes.array() - time_nodes(0)).matrix(), m_basis);
         sgm_length = (m_solver.get_problem().t_stop - m_solver.get_problem().t_start) / num_segms;
         nodes_per_segm = std::floor(num_nodes / num_segms);
     }
@@ -81,7 +82,8 @@ public:
         // update time grid and Lagrange interpolator
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        // the basis lives on the first segment with time counted from the start of the horizon
+        polympc::LagrangeSpline::compute_lagrange_basis((time_nodes.array() - time_nodes(0)).matrix(), m_basis);
         sgm_length = (tf - t0) / num_segms;
     }
 
@@ -245,10 +247,11 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t time = t - time_nodes(0); // time from the start of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor( time / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
+        state_t state = polympc::LagrangeSpline::eval(time - idx * sgm_length, x_reshaped.template block<nx,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
@@ -271,10 +274,11 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        const scalar_t time = t - time_nodes(0); // time from the start of the horizon
+        Eigen::Index idx = (Eigen::Index)std::floor( time / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
-        control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
+        control_t state = polympc::LagrangeSpline::eval(time - idx * sgm_length, u_reshaped.template block<nu,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
-- 
2.43.0


From 958eae023c0249f41b281d4db8c380a6ac9a7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 28/42] fix: collocation operators built from functors ignore
 them and stay uninitialised

---
 src/control/cost_collocation.hpp       | 11 ++++++++++-
 src/control/ode_collocation.hpp        |  9 ++++++++-
 src/control/sparse_ode_collocation.hpp | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 207802d..2ba1083 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -109,7 +109,7 @@ public:
 
 
     cost_collocation();
-    cost_collocation(const LagrangeTerm &L, const MayerTerm &M){}
+    cost_collocation(const LagrangeTerm &L, const MayerTerm &M);
     ~cost_collocation(){}
 
 private:
@@ -129,6 +129,15 @@ cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::cost_colloca
     initialize_second_derivatives();
 }
 
+template<typename LagrangeTerm, typename MayerTerm, typename Polynomial, int NumSegments>
+cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::cost_collocation(const LagrangeTerm &L, const MayerTerm &M) :
+    m_Lagrange(L), m_Mayer(M)
+{
+    m_weights = m_basis_f.CCQWeights();
+    initialize_derivatives();
+    initialize_second_derivatives();
+}
+
 
 template<typename LagrangeTerm, typename MayerTerm, typename Polynomial, int NumSegments>
 void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::operator ()(const var_t &var, Scalar &cost_value,
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index f6a2582..4d9b4ce 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -44,7 +44,7 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    ode_collocation(const Dynamics &_f){}
+    ode_collocation(const Dynamics &_f);
     ode_collocation();
     ~ode_collocation(){}
 
@@ -88,6 +88,13 @@ ode_collocation<Dynamics, Polynomial, NumSegments>::ode_collocation()
     initialize_derivatives();
 }
 
+template <typename Dynamics, typename Polynomial, int NumSegments>
+ode_collocation<Dynamics, Polynomial, NumSegments>::ode_collocation(const Dynamics &_f) : m_f(_f)
+{
+    compute_diff_matrix();
+    initialize_derivatives();
+}
+
 
 template <typename Dynamics, typename Polynomial, int NumSegments>
 void ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_matrix()
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 9ac6c23..f338006 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -47,7 +47,7 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::SparseMatrix<Scalar>; //Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    sparse_ode_collocation(const Dynamics &_f){}
+    sparse_ode_collocation(const Dynamics &_f);
     sparse_ode_collocation();
     ~sparse_ode_collocation(){}
 
@@ -97,6 +97,14 @@ sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::sparse_ode_collocatio
     initialize_derivatives();
 }
 
+template <typename Dynamics, typename Polynomial, int NumSegments>
+sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::sparse_ode_collocation(const Dynamics &_f) : m_f(_f)
+{
+    compute_diff_matrix();
+    compute_inner_nnz();
+    initialize_derivatives();
+}
+
 
 template <typename Dynamics, typename Polynomial, int NumSegments>
 void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_matrix()
-- 
2.43.0


From c3a010ad70ffe20aa1c54cd12ac7bacf5157c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 29/42] fix: collocation derivatives of functors that assign
 constants are uninitialised or stale

---
 src/control/cost_collocation.hpp       | 4 ++++
 src/control/ode_collocation.hpp        | 2 ++
 src/control/sparse_ode_collocation.hpp | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 2ba1083..6f0618a 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -196,6 +196,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
             for(int i = 0; i < NU; i++)
                 m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+            ad_value = ADScalar(Scalar(0)); // a term may assign a constant, which keeps the derivatives
             m_Lagrange(m_ADx, m_ADu,
                     var.template segment<NP>(VARX_SIZE + VARU_SIZE), ad_value);
 
@@ -226,6 +227,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
         for(int i = 0; i < NX; i++)
             m_ADx(i).value() = var.template head<NX>()(i);
 
+        ad_value = ADScalar(Scalar(0));
         m_Mayer(m_ADx, ad_value);
         cost_value += ad_value.value();
         cost_gradient.template head<NX + NU>() += ad_value.derivatives();
@@ -259,6 +261,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
             for(int i = 0; i < NU; i++)
                 m_outADu(i).value().value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+            ad_value = outerADScalar(ADScalar(Scalar(0))); // a term may assign a constant, which keeps the derivatives
             m_Lagrange(m_outADx, m_outADu,
                     var.template segment<NP>(VARX_SIZE + VARU_SIZE), ad_value);
 
@@ -304,6 +307,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
         for(int i = 0; i < NX; i++)
             m_outADx(i).value().value() = var.template head<NX>()(i);
 
+        ad_value = outerADScalar(ADScalar(Scalar(0)));
         m_Mayer(m_outADx, ad_value);
         cost_value += ad_value.value().value();
         cost_gradient.template head<NX + NU>() += ad_value.value().derivatives();
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index 4d9b4ce..0f5976d 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -186,6 +186,8 @@ void ode_collocation<Dynamics, Polynomial, NumSegments>::linearized(const var_t
         for(int i = 0; i < NU; i++)
             m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+        // the functor may assign constants, which keep the derivatives
+        m_ADy.setConstant(ADScalar(Scalar(0)));
         m_f(m_ADx, m_ADu,
             var.template segment<NP>(VARX_SIZE + VARU_SIZE), m_ADy);
 
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index f338006..1ab36f9 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -222,6 +222,8 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::_linearized(cons
         for(int i = 0; i < NU; i++)
             m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+        // the functor may assign constants, which keep the derivatives
+        m_ADy.setConstant(ADScalar(Scalar(0)));
         m_f(m_ADx, m_ADu,
             var.template segment<NP>(VARX_SIZE + VARU_SIZE), m_ADy);
 
@@ -274,6 +276,8 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::_linearized_same
         for(int i = 0; i < NU; i++)
             m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+        // the functor may assign constants, which keep the derivatives
+        m_ADy.setConstant(ADScalar(Scalar(0)));
         m_f(m_ADx, m_ADu,
             var.template segment<NP>(VARX_SIZE + VARU_SIZE), m_ADy);
 
-- 
2.43.0


From 0efcd6de514bdd068e1e5d639e4e4c25ab0e1bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 30/42] fix: repeated sparse linearisation corrupts the
 Jacobian when a node has a zero differentiation weight

---
 src/control/sparse_ode_collocation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 1ab36f9..fd9dca9 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -127,6 +127,9 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_mat
             DM.template block<NUM_NODES - 1, NUM_NODES>(k, k) = D.template topLeftCorner<NUM_NODES - 1, NUM_NODES>();
 
         Eigen::SparseMatrix<Scalar> SpDM = DM.sparseView();
+        // zeros on the diagonal stay in the pattern: the Jacobian of the dynamics is added there
+        for(int k = 0; k < DM.rows(); ++k)
+            SpDM.coeffRef(k, k);
         m_DiffMat = Eigen::KroneckerProductSparse<Eigen::SparseMatrix<Scalar>, Eigen::SparseMatrix<Scalar>>(SpDM,E);
 
         m_DiffMat_Ext.resize(constr_t::RowsAtCompileTime, var_t::RowsAtCompileTime);
-- 
2.43.0


From dad2cc2d8d8ca9b772c13b2153835ed3d00a6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 31/42] fix: lyapunov() is wrong for matrices with complex
 eigenvalues

---
 src/control/lqr.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 4596340..61224cb 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -30,26 +30,25 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
 {
     const Eigen::Index m = Q.cols();
     /** compute Schur decomposition of A */
-    Eigen::RealSchur<Eigen::MatrixXd> schur(A);
-    Eigen::MatrixXd T = schur.matrixT();
-    Eigen::MatrixXd U = schur.matrixU();
+    Eigen::ComplexSchur<Eigen::MatrixXd> schur(A); // triangular also for complex eigenvalues
+    Eigen::MatrixXcd T = schur.matrixT();
+    Eigen::MatrixXcd U = schur.matrixU();
 
-    Eigen::MatrixXd Q1;
-    Q1.noalias() = (U.transpose() * Q) * U;
-    Eigen::MatrixXd X = Eigen::MatrixXd::Zero(m, m);
-    Eigen::MatrixXd E = Eigen::MatrixXd::Identity(m,m);
+    Eigen::MatrixXcd Q1;
+    Q1.noalias() = (U.adjoint() * Q) * U;
+    Eigen::MatrixXcd X = Eigen::MatrixXcd::Zero(m, m);
+    Eigen::MatrixXcd E = Eigen::MatrixXcd::Identity(m,m);
 
-    X.col(m-1).noalias() = (T + T(m-1,m-1) * E).partialPivLu().solve(Q1.col(m-1));
-    Eigen::VectorXd v;
+    X.col(m-1) = (T + std::conj(T(m-1,m-1)) * E).partialPivLu().solve(Q1.col(m-1));
+    Eigen::VectorXcd v;
 
     for(Eigen::Index i = m-2; i >= 0; --i)
     {
-        v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).transpose();
-        X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
+        v = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).adjoint();
+        X.col(i) = (T + std::conj(T(i,i)) * E).partialPivLu().solve(v);
     }
 
-    X.noalias() = (U * X) * U.transpose();
-    return X;
+    return ((U * X) * U.adjoint()).real();
 }
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
-- 
2.43.0


From 534850bbe0aea69113d38eac51c1c6803456500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 32/42] fix: care() returns its initial guess instead of the
 Riccati solution and prints to stdout

---
 src/control/lqr.hpp | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 61224cb..a697a37 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -95,39 +95,36 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
     /** initial guess */
     //Eigen::EigenSolver<Eigen::MatrixXd> eig(A - B * X0);
     //std::cout << "INIT X0: \n" << eig.eigenvalues() << "\n";
-    const double tol = 1e-5;
-    const int kmax   = 2;
+    const double tol = 1e-12;
+    const int kmax   = 100;
     Eigen::MatrixXd X = X0;
     double err = std::numeric_limits<double>::max();
     int k = 0;
     Eigen::MatrixXd RX, H, V;
 
-    std::cout << "C: " << C << "\n";
-
     /** temporary */
     double tk = 1;
 
     while( (err > tol) && (k < kmax) )
     {
        RX = C;
-       RX.noalias() += X * A + A.transpose() * X - (X * B) * X;
+       RX += X * A + A.transpose() * X - (X * B) * X;
+       /** residual relative to the terms it is made of */
+       err = RX.norm() / (C.norm() + 2 * (X * A).norm() + ((X * B) * X).norm() + std::numeric_limits<double>::min());
+       if(err <= tol)
+           break;
        /** newton update */
        H = lyapunov((A - B * X).transpose(), -RX);
 
-       std::cout << "A': " << (A - B * X).transpose() << "\n";
-       std::cout << "RX: " << RX << "\n";
-       std::cout << "H: " << H << "\n";
        /** exact line search */
        V.noalias() = H * B * H;
        double a = (RX * RX).trace();
        double b = (RX * V).trace();
        double c = (V * V).trace();
-       tk = line_search_care(a,b,c);
+       tk = c > 0 ? line_search_care(a,b,c) : 1;
        /** inner loop to accept step */
        X.noalias() += tk * H;
        //err = tk * (H.lpNorm<1>() / X.lpNorm<1>());
-       err = RX.norm();
-       std::cout << "iter: " << k << " err: " << err << " step: " << tk << "\n";
        k++;
     }
 
@@ -157,11 +154,7 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
     double b = -eig_r.minCoeff();
     b = std::fmax(b, 0.0) + 0.5;
     Eigen::MatrixXd E = Eigen::MatrixXd::Identity(n, n);
-    Eigen::MatrixXd Z = lyapunov(TA + 100 * E, 2 * TD * TD.transpose());
-
-    std::cout << "1 arg: \n" << TA + 100 * E << "\n";
-    std::cout << "2 arg: \n" << 2 * TD * TD.transpose();
-    std::cout << "Z: \n" << Z << "\n";
+    Eigen::MatrixXd Z = lyapunov(TA + b * E, 2 * TD * TD.transpose());
 
     Eigen::MatrixXd X = (TD.transpose() * pinv(Z)) * U.transpose();
 
@@ -176,12 +169,8 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
 Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                      const Eigen::Ref<const Eigen::MatrixXd> C) noexcept
 {
-    std::cout << "A: \n" << A << "\n";
-    std::cout << "B: \n" << B << "\n";
-
     Eigen::MatrixXd X0 = init_newton_care(A, B);
-    return X0;
-    //return newton_ls_care(A, B, C, X0);
+    return newton_ls_care(A, B, C, X0);
 }
 
 
-- 
2.43.0


From 2e9b3e9ae339ece5c6a087eb5ea5de52b455429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 33/42] fix: lqr() mishandles cross weights, small control
 weights and its own weight check

---
 src/control/lqr.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index a697a37..e20d931 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -11,8 +11,8 @@ Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 {
     /** compute SVD */
     Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeFullU | Eigen::ComputeFullV);
-    const double pinvtol = 1e-6;
     Eigen::VectorXd singular_values = svd.singularValues();
+    const double pinvtol = mat.size() > 0 ? 1e-12 * singular_values.maxCoeff() : 0.0; // relative to the scale of the matrix
     /** make a copy */
     Eigen::VectorXd singular_values_inv = singular_values;
     for ( int i = 0; i < mat.cols(); ++i)
@@ -190,19 +190,18 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
         QR.noalias() -= M * pinv(R) * M.transpose();
         Eigen::EigenSolver<Eigen::MatrixXd> solver(QR);
         Eigen::VectorXd values = solver.eigenvalues().real();
-        if( (values.array() < 0).any() )
+        if( (values.array() < -1e-9 * QR.norm()).any() ) // leave room for rounding
         {
             std::cerr << "Weight matrices did not pass positivity check! \n";
-            S = Eigen::MatrixXd();
-            K = Eigen::MatrixXd();
+            return;
         }
     }
 
     /** formulate Ricatti equations */
     Eigen::MatrixXd invR = pinv(R);
-    Eigen::MatrixXd A = F - M * invR * (G).transpose();
+    Eigen::MatrixXd A = F - G * invR * (M).transpose();
     Eigen::MatrixXd B = G * invR * (G).transpose();
-    Eigen::MatrixXd C = M * invR * M.transpose() + Q;
+    Eigen::MatrixXd C = Q - M * invR * M.transpose();
 
     //std::cout << "A: \n" << A << "\n";
     //std::cout << "B: \n" << B << "\n";
-- 
2.43.0


From 023e8cbeb96c89bda61d7908eebc0d8d1bf64b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 34/42] fix: functions defined in lqr.hpp are not inline

---
 src/control/lqr.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index e20d931..19e40d1 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -7,7 +7,7 @@
 
 
 /** Moore-Penrose pseudo-inverse */
-Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
+inline Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 {
     /** compute SVD */
     Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeFullU | Eigen::ComputeFullV);
@@ -26,7 +26,7 @@ Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 
 
 /** Lyapunov equation */
-Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> Q) noexcept
+inline Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> Q) noexcept
 {
     const Eigen::Index m = Q.cols();
     /** compute Schur decomposition of A */
@@ -51,7 +51,7 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
     return ((U * X) * U.adjoint()).real();
 }
 
-double line_search_care(const double &a, const double &b, const double &c) noexcept
+inline double line_search_care(const double &a, const double &b, const double &c) noexcept
 {
     Eigen::Matrix<double, 5, 1> poly;
     Eigen::Matrix<double, 4, 1> poly_derivative;
@@ -89,7 +89,7 @@ double line_search_care(const double &a, const double &b, const double &c) noexc
 }
 
 /** CARE Newton iteration */
-Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
+inline Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                                const Eigen::Ref<const Eigen::MatrixXd> C, const Eigen::Ref<const Eigen::MatrixXd> X0) noexcept
 {
     /** initial guess */
@@ -137,7 +137,7 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
     return X;
 }
 
-Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B) noexcept
+inline Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B) noexcept
 {
     const Eigen::Index n = A.cols();
     const double tolerance = 1e-12;
@@ -166,7 +166,7 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
     return X;
 }
 
-Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
+inline Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                      const Eigen::Ref<const Eigen::MatrixXd> C) noexcept
 {
     Eigen::MatrixXd X0 = init_newton_care(A, B);
@@ -178,7 +178,7 @@ Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref
  * J(x) = INT { xQx + xMu + uRu }dt
  * xdot = Fx + Gu
  */
-void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eigen::MatrixXd>& G, const Eigen::Ref<const Eigen::MatrixXd>& Q,
+inline void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eigen::MatrixXd>& G, const Eigen::Ref<const Eigen::MatrixXd>& Q,
          const Eigen::Ref<const Eigen::MatrixXd>& R, const Eigen::Ref<const Eigen::MatrixXd>& M,
          Eigen::Ref<Eigen::MatrixXd> S, Eigen::Ref<Eigen::MatrixXd> K, const bool &check) noexcept
 {
-- 
2.43.0


From 436d47d344a6346ee7e5ae35a11e8dd46c8b0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 35/42] fix: care() stalls on short line search steps and
 returns an unconverged solution

---
 src/control/lqr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 19e40d1..8149b8c 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -122,6 +122,8 @@ inline Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A,
        double b = (RX * V).trace();
        double c = (V * V).trace();
        tk = c > 0 ? line_search_care(a,b,c) : 1;
+       /** short steps stall the iteration, the full Kleinman step always converges */
+       if(tk < 0.1) tk = 1;
        /** inner loop to accept step */
        X.noalias() += tk * H;
        //err = tk * (H.lpNorm<1>() / X.lpNorm<1>());
-- 
2.43.0


From 590e31a4ed0a393d90a5c22403d41f7a118e6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 36/42] fix: the Ipopt adapter never copies the values of a
 sparse Jacobian

---
 src/solvers/ipopt_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b2b136c..0acad8b 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -106,7 +106,7 @@ public:
                 }
         }
         else
-            data = mat.derived().valuePtr();
+            std::copy_n(mat.derived().valuePtr(), mat.nonZeros(), data);
     }
 
     template<typename MatrixType, int T = Problem::MATRIXFMT>
-- 
2.43.0


From f0f760c2320bba6257ade6979bee9766006cc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 37/42] fix: the Ipopt adapter reads the constraint multipliers
 beyond their end

---
 src/solvers/ipopt_interface.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 0acad8b..b9ba3e2 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -359,8 +359,11 @@ public:
         {
             // // return the values. This is a symmetric matrix, fill the lower left
             // // triangle only
+            // Ipopt passes the multipliers of the constraints only
+            nlp_dual_t lam = nlp_dual_t::Zero(num_constraints + num_variables);
+            lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints);
             problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p,
-                                                Eigen::Map<const nlp_dual_t>(lambda), m_cost,
+                                                lam, m_cost,
                                                 m_h, m_H, m_dlag, m_g, m_A, obj_factor);
 
             get_data(m_H, values, true);
@@ -375,7 +378,9 @@ public:
                            Ipopt::IpoptCalculatedQuantities* ip_cq) override
     {
         m_x   = Eigen::Map<const nlp_variable_t>(x);
-        m_lam = Eigen::Map<const nlp_dual_t>(lambda);
+        // constraints first, then the box
+        m_lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints);
+        m_lam.template tail<num_variables>()   = Eigen::Map<const nlp_variable_t>(z_U, num_variables) - Eigen::Map<const nlp_variable_t>(z_L, num_variables);
         m_cost = obj_value;
 
         /** @todo: Fill in the rest of the solution struct */
-- 
2.43.0


From 1150f482eadb213bc995d3b4be4aaa3c4315ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 38/42] fix: the Ipopt adapter does not size large dense
 matrices

---
 src/solvers/ipopt_interface.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b9ba3e2..a861504 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -44,11 +44,12 @@ public:
         m_x.setZero();
         m_lam.setZero();
 
+        // large dense matrices are allocated dynamically
+        m_H.resize(Problem::VAR_SIZE, Problem::VAR_SIZE);
+        m_A.resize(Problem::NUM_EQ + Problem::NUM_INEQ, Problem::VAR_SIZE);
+
         if(Problem::is_sparse)
         {
-            m_H.resize(Problem::VAR_SIZE, Problem::VAR_SIZE);
-            m_A.resize(Problem::NUM_EQ + Problem::NUM_INEQ, Problem::VAR_SIZE);
-
             /** run sensitivity computation once to obtain sparsity patterns */
             problem.lagrangian_gradient_hessian(m_x, m_p, m_lam, m_cost, m_h, m_H, m_dlag, m_g, m_A);
         }
-- 
2.43.0


From f0d8612f9e3c6aedcff4ee889703250bbb08a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 39/42] fix: the OSQP interface reports the dual residual as
 the primal one

---
 src/solvers/osqp_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 98504b0..528ff4a 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -84,7 +84,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
@@ -146,7 +147,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
-- 
2.43.0


From 226343cc74400fb1aa1a4d88b6cb6094017e4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 40/42] fix: the OSQP interface dereferences a null pointer for
 compressed constraint matrices

---
 src/solvers/osqp_interface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 528ff4a..3f6305b 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -183,13 +183,14 @@ private:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], this->column_nnz(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             Eigen::VectorXi _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz[k] += this->column_nnz(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
-- 
2.43.0


From 5439a190c858df2dfce4cef0e8408d741b60db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 41/42] fix: the QPMAD interface leaves a stale status in the
 info block when the solver fails

---
 src/solvers/qpmad_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index 7b4a8ef..e3bc222 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -84,7 +84,7 @@ public:
         {
             case solver_t::ReturnStatus::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case solver_t::ReturnStatus::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default : {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
-- 
2.43.0


From 365f661ed914d0a33c80c09c6506ea771b8271c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 42/42] fix: QPMAD solve with a starting point does not compile

---
 src/solvers/qpmad_interface.hpp | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index e3bc222..ea28336 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -93,25 +93,10 @@ public:
                         const Eigen::Ref<const qp_var_t>& xlb, const Eigen::Ref<const qp_var_t>& xub,
                         const Eigen::Ref<const qp_var_t>& x_guess, const Eigen::Ref<const qp_dual_t>& y_guess) noexcept
     {
-        set_qpmad_settings();
         this->m_x = x_guess;
-
-        /** @bug : temporary fix until the new interface is released */
-        qpmad::QPVector primal  = Eigen::Map<qpmad::QPVector>(this->m_x.data(), this->m_x.rows());
-        qpmad::QPMatrix hessian(H);
-        qpmad::Solver::ReturnStatus status = qpmad_solver.solve(primal, hessian, h, xlb, xub, A, Alb, Aub, qpmad_parameters);
-
-        this->m_x = primal;
-
-        switch (status)
-        {
-            case qpmad::Solver::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
-            case qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
-        }
+        return solve_impl(H, h, A, Alb, Aub, xlb, xub);
     }
 
-
 private:
     //template <typename t_Scalar, int t_primal_size, int t_has_bounds, int t_general_ctr_number>
     using solver_t = qpmad::SolverTemplate<Scalar, N, 1, M>;
-- 
2.43.0

