From 9f1593d8f3559a86c29b5ff15ccfbb88c86303a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:21 +0000
Subject: [PATCH 01/58] fix: inner products of the second derivatives of
 basis0101 are taken wrt time

The matrix of degree 2 had a spurious factor (tau/2)^2, so it was right only
for intervals of length 2.
---
 src/Basis/Basis0101.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..b65f06e 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -746,6 +746,10 @@ void compute_Qd2_block(double _tau, double _alpha,
   _res(5, 3) = 0;
   _res(5, 4) = 0;
   _res(5, 5) = 0;
+  /// The entries above are the inner products of the derivatives scaled by
+  /// (tau/2)^2. The derivatives are taken with respect to the time, as for the
+  /// other degrees.
+  _res *= 4.0 / (_tau * _tau);
 }
 
 void compute_Q_block(double _tau, double _alpha,
-- 
2.43.0


From 98c2bbd0502e1e9f81ada1e2729e3d0d30efea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:21 +0000
Subject: [PATCH 02/58] fix: derivative matrix of basis0101 for degree larger
 than two

Q *= Q in the loop gives Q^(2^(deg-1)) instead of Q^deg.
---
 src/Basis/Basis0101.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index b65f06e..681869a 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -169,8 +169,9 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
 
   Q *= tauk;
 
+  const Eigen::MatrixXd Q1(Q);
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= Q1;
   }
 
   return Q;
-- 
2.43.0


From dc9e59141e292bfac6c1e89bf0459129183c9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:21 +0000
Subject: [PATCH 03/58] fix: inner product matrices of the derivatives of the
 Legendre basis

dmat maps coefficients to coefficients of the derivative, so the Gram matrix
of the derivatives is dmat^T L dmat.
---
 src/Basis/BasisLegendre.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..8ec9616 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From e4d6ad72b511e60449ea979660c09ebb4ce8c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:21 +0000
Subject: [PATCH 04/58] fix: change_interpolation_points resets the match flag
 on each row

After the first new point that coincides with an old one, every following row
without a match was left at zero.
---
 src/Basis/BasisLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..691926f 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -260,12 +260,12 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   std::size_t book_m = _new_points.size();
   std::size_t book_n = _old_points.size();
   double t_book, s_book;
-  bool book_row_has_match = false;
 
   Eigen::MatrixXd result(book_m, book_n);
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    bool book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
-- 
2.43.0


From 05da00d40d7988850ef6416eda6ca26b9df1e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:21 +0000
Subject: [PATCH 05/58] fix: inner product matrices of the Lagrange basis

The off-diagonal part of the mass matrix was never initialised, its diagonal
ignored the actual interpolation points, and the derivative matrices were
multiplied in the transposed order.
---
 src/Basis/BasisLagrange.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 691926f..5f65858 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -40,19 +40,22 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
 
   Eigen::MatrixXd dmat(derivative_matrix_);
 
+  /// The product of two Lagrange polynomials has degree 2*(dim-1), and the
+  /// quadrature with dim + 1 Gauss-Lobatto points is exact up to 2*dim - 1.
   Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
-      _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
+      _domain_points,
+      collocation::legendre_gauss_lobatto_points(get_dim() + 1)));
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
-
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  Eigen::MatrixXd l2normbase_matrix(
+      points_to_glp_matrix.transpose() *
+      collocation::legendre_gauss_lobatto_weights(get_dim() + 1).asDiagonal() *
+      points_to_glp_matrix);
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From c697b6c2f84779569820d55e6d3de0cce723c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 06/58] fix: Legendre derivatives of degree beyond the
 dimension, and dimension one

They wrote out of the bounds of the evaluation buffer (an abort when asserts
are on) instead of returning zero.
---
 src/Basis/BasisLegendre.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 8ec9616..a20ee29 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -53,8 +53,11 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
+  /// derivatives of degree larger than the one of the polynomials vanish
+  if (_deg >= get_dim()) return;
   buff_next.setZero();
   _buff(0) = 1.0;
+  if (get_dim() == 1) return;
   _buff(1) = _s;
   for (unsigned int i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
@@ -91,6 +94,7 @@ void BasisLegendre::eval_on_window(
     Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) const {
   _buff.setZero();
   _buff(0) = 1.0;
+  if (get_dim() == 1) return;
   _buff(1) = _s;
   for (std::size_t i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
-- 
2.43.0


From 9beed08832ac8a174f7261c6e5aaa40d27b5ce90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:46 +0000
Subject: [PATCH 07/58] fix: continuity_matrix evaluates the derivatives of the
 basis at the borders

It used the first and last rows of the derivative matrix, which are the
derivatives at the borders only for a Lagrange basis whose first and last
points are -1 and 1, and it scaled basis0101 as a polynomial basis.
---
 src/Basis/Basis.cpp | 54 ++++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..d5b040a 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -60,15 +60,9 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
     Eigen::MatrixXd left_buffer(_deriv_order + 1, get_dim());
     Eigen::MatrixXd right_buffer(_deriv_order + 1, get_dim());
 
-    get_derivative_matrix_block(_deriv_order);
-
-    eval_derivative_on_window(-1.0, 2.0, 0, left_buffer.row(0));
-    eval_derivative_on_window(1.0, 2.0, 0, right_buffer.row(0));
-
-    for (std::size_t der = 1; der <= _deriv_order; der++) {
-      const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
+    for (std::size_t der = 0; der <= _deriv_order; der++) {
+      eval_derivative_on_window(-1.0, 2.0, der, left_buffer.row(der));
+      eval_derivative_on_window(1.0, 2.0, der, right_buffer.row(der));
     }
 
     std::size_t i0, j0;
@@ -120,34 +114,28 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
   Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_dest =
       continuity_matrix_dynamic_buff_[_number_of_intervals][_codom_dim]
                                      [_deriv_order];
-  Eigen::SparseMatrix<double, Eigen::RowMajor>& mat_src =
-      continuity_matrix_buff_[_number_of_intervals][_codom_dim][_deriv_order];
-
-  // in our case all the rows of the matrix have at more than one non-zero cell
-  // By this reason the outer index coincieds with the cols
-  for (long k = _codom_dim * (_number_of_intervals - 1);
-       k < mat_dest.outerSize(); ++k) {
-    std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
+  // The values of the derivatives at the borders of an interval depend on its
+  // length, so they are evaluated for the given interval lengths.
+  Eigen::VectorXd left_values(get_dim());
+  Eigen::VectorXd right_values(get_dim());
+  for (long k = 0; k < mat_dest.outerSize(); ++k) {
+    const std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
+    const std::size_t left_interval =
+        (k / _codom_dim) % (_number_of_intervals - 1);
 
-    Eigen::VectorXd deriv_factor =
-        Eigen::pow(2.0 / _interval_lengths.array(), deg);
+    eval_derivative_on_window(1.0, _interval_lengths(left_interval), deg,
+                              right_values);
+    eval_derivative_on_window(-1.0, _interval_lengths(left_interval + 1), deg,
+                              left_values);
 
     Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_dest(
         mat_dest, k);
-    Eigen::SparseMatrix<double, Eigen::RowMajor>::InnerIterator it_src(mat_src,
-                                                                       k);
-    for (/*already initialized*/; it_dest; ++it_dest, ++it_src) {
-      std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
-      it_dest.valueRef() = it_src.value() * deriv_factor(interval);
-      assert(it_dest.col() == it_dest.index());
-      assert(it_dest.row() == k);
-      /*
-      std::cout << "row " << it_dest.row() << " col " << it_dest.col() << "
-      index "
-                << it_dest.index() << " outer idx " << k << " interval " <<
-      interval
-                << " deg " << deg << " val " << it_dest.value() << std::endl;
-                */
+    for (/*already initialized*/; it_dest; ++it_dest) {
+      const std::size_t interval = it_dest.col() / (get_dim() * _codom_dim);
+      const std::size_t basis_coor = it_dest.col() % get_dim();
+      it_dest.valueRef() = (interval == left_interval)
+                               ? right_values(basis_coor)
+                               : -left_values(basis_coor);
     }
   }
 
-- 
2.43.0


From f1f90d197062aa7dacd0168c9555b65d3fe7c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:46 +0000
Subject: [PATCH 08/58] fix: gspline_derivative_matrix does not rescale the
 derivatives of basis0101

---
 src/Basis/Basis.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index d5b040a..264cc6d 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -186,6 +186,10 @@ Basis::gspline_derivative_matrix(
 
   Eigen::VectorXd deriv_factor =
       Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);
+  /// The derivative matrix of Basis0101 is already wrt the time
+  if (dynamic_cast<const Basis0101*>(this) != nullptr) {
+    deriv_factor.setOnes();
+  }
 
   for (long k = 0; k < mat_dest.outerSize(); ++k) {
     // std::size_t deg = k / (_codom_dim * (_number_of_intervals - 1));
-- 
2.43.0


From 684485ef1a00f85ca79cb11e56d3561a604e553b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:00 +0000
Subject: [PATCH 09/58] fix: SobolevNorm applies each weight only to its own
 derivative

The accumulated matrix was multiplied by every following weight.
---
 src/FunctionalAnalysis/Sobolev.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..87254d5 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -50,8 +50,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +80,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From 473e902364bfdcb549c985783726c10b38e90081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:45 +0000
Subject: [PATCH 10/58] fix: negative of a compound function expression

The operands of a sum, product, composition or concatenation were taken as the
operands of the negative, which aborts on evaluation, and the negative of a
negative returned the negative again.
---
 src/Functions/FunctionMul.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..780ca01 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,6 +141,14 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  if (get_type() != UNIQUE) {
+    std::list<std::unique_ptr<FunctionBase>> result_array;
+    result_array.push_back(this->clone());
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(result_array));
+  }
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
                             function_array_);
@@ -148,6 +156,14 @@ FunctionExpression FunctionExpression::operator-() const & {
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  if (get_type() != UNIQUE) {
+    std::list<std::unique_ptr<FunctionBase>> result_array;
+    result_array.push_back(this->move_clone());
+    return FunctionExpression(get_domain(), get_codom_dim(),
+                              FunctionExpression::Type::NEGATIVE,
+                              std::move(result_array));
+  }
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
                             std::move(function_array_));
-- 
2.43.0


From 970340bc57c0cbb3e9598718c3251e46944c059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:45 +0000
Subject: [PATCH 11/58] fix: composition of a temporary composition takes the
 domain of the inner function

---
 src/Functions/FunctionsComp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..bd0f7b6 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain().first, _that.get_domain().second);
     return std::move(*this);
   }
 
-- 
2.43.0


From 7b7e8e6a7a1d19250e8482b225778ca1d95e35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:45 +0000
Subject: [PATCH 12/58] fix: concatenation to a temporary concatenation extends
 its domain

---
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From bb272539e026b7c4802ea10d6e191a0368e75c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:45 +0000
Subject: [PATCH 13/58] fix: += and *= reject incompatible functions as + and *
 do

They accepted operands with other domains or codomains, and the evaluation of
the result aborted or read wrong values.
---
 src/Functions/FunctionMul.cpp | 13 +++++++++++++
 src/Functions/FunctionSum.cpp |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 780ca01..1b9b72d 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -17,6 +17,17 @@ void compatibility_mul(const FunctionExpression &_f1,
   }
 }
 
+void compatibility_mul_assign(const FunctionExpression &_f1,
+                              const FunctionExpression &_f2) {
+
+  compatibility_mul(_f1, _f2);
+
+  if (_f1.get_codom_dim() < _f2.get_codom_dim()) {
+    throw std::invalid_argument(
+        "Cannot multiply in place a scalar function by a vectorial one");
+  }
+}
+
 const FunctionExpression &
 return_first_or_max_codom_dim(const FunctionExpression &_f1,
                               const FunctionExpression &_f2) {
@@ -179,6 +190,7 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
 }
 
 void FunctionExpression::operator*=(FunctionExpression &&that) {
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -195,6 +207,7 @@ void FunctionExpression::operator*=(FunctionExpression &&that) {
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
 
+  compatibility_mul_assign(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..1ed229d 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,6 +137,7 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
@@ -153,6 +154,7 @@ void FunctionExpression::operator+=(FunctionExpression &&that) {
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
-- 
2.43.0


From 9e19805c588d211b9abadb615d1ec300db7d7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:45 +0000
Subject: [PATCH 14/58] fix: dot product rejects functions with other domain or
 codomain

A different domain was accepted silently and a different codomain aborted.
---
 src/Functions/ElementalFunctions.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index e69afe5..64051e9 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -194,24 +194,33 @@ CanonicPolynomial *CanonicPolynomial::deriv_impl(std::size_t _deg) const {
   return new CanonicPolynomial(get_domain(), std::move(result.head(vsize)));
 } // namespace functions
 
+void dot_throw(const FunctionBase &_f1, const FunctionBase &_f2) {
+  if (not FunctionBase::same_domain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different domains");
+  }
+  if (not FunctionBase::same_codomain(_f1, _f2)) {
+    throw std::invalid_argument("Functions with different codomains");
+  }
+}
+
 DotProduct::DotProduct(const FunctionBase &_f1, const FunctionBase &_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 DotProduct::DotProduct(FunctionBase &&_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const FunctionBase &_f1, FunctionBase &&_f2)
     : FunctionInheritanceHelper(_f1.get_domain(), 1, "DotProduct"),
       f1_(_f1.to_expression()), f2_(_f2.to_expression()) {
 
-  assert(_f1.get_codom_dim() == _f2.get_codom_dim());
+  dot_throw(_f1, _f2);
 }
 
 DotProduct::DotProduct(const DotProduct &_that)
-- 
2.43.0


From b3fca300d97fd80df5fb633dd24e330f3e311a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 15/58] fix: += and -= of gsplines could not be instantiated

---
 include/gsplines/GSpline.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..dee5a5c 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -218,7 +218,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -227,7 +227,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
-- 
2.43.0


From 539b297fcbb6c5fe23a8913d6df314a3628e569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 16/58] fix: time scaling with only a velocity or only an
 acceleration bound

Both bounds are optional, but the missing one was dereferenced.
---
 include/gsplines/GSpline.hpp | 45 +++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index dee5a5c..5ecf828 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -292,8 +292,10 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound.value().size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound.value().size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
@@ -312,23 +314,28 @@ class GSplineInheritanceHelper
     Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
     Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
 
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
+    double max_velocity_ratio = 0.0;
+    if (_velocity_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound.value().data(),
+          static_cast<long>(_velocity_bound.value().size()));
+      max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+    }
+
+    double max_acceleration_ratio = 0.0;
+    if (_acceleration_bound.has_value()) {
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound.value().data(),
+          static_cast<long>(_acceleration_bound.value().size()));
+      max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+    }
 
     const double time_scale_factor =
         std::max(max_velocity_ratio, max_acceleration_ratio);
-- 
2.43.0


From b88fed0273c3d381c527a98d8f709b5b1ae8d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 17/58] fix: random_gspline returns a gspline on the given
 domain

The start of the domain was ignored.
---
 src/GSpline.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..f27dab1 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -243,7 +243,10 @@ GSpline random_gspline(std::pair<double, double> _domain,
                                   static_cast<long>(_codom_dim));
 
   const GSpline result = interpolate(tau, wp, _basis);
-  return result.linear_scaling_new_execution_time(_domain.second);
+  const GSpline scaled = result.linear_scaling_new_execution_time(
+      _domain.second - _domain.first);
+  return GSpline(_domain, _codom_dim, number_of_intervals, scaled.get_basis(),
+                 scaled.get_coefficients(), scaled.get_interval_lengths());
 }
 
 }  // namespace gsplines
-- 
2.43.0


From bed9fc911d4f9add7dee8949f584e623d5f5535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 18/58] fix: gsplines that start at other instants are neither
 equal nor summable

Equality and the check of the vector space ignored where the domain starts.
---
 src/GSpline.cpp | 2 ++
 src/Tools.cpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index f27dab1..2277d25 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -196,6 +196,8 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
   return get_basis() == _that.get_basis() and
          get_codom_dim() == _that.get_codom_dim() and
+         tools::approx_equal(get_domain().first, _that.get_domain().first,
+                             1.0e-8) and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
 }
diff --git a/src/Tools.cpp b/src/Tools.cpp
index dd69101..e58e58b 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -50,6 +50,8 @@ bool approx_equal(const GSplineBase &_lhs, const GSplineBase &_rhs,
                       _tol) and
          approx_equal(_lhs.get_interval_lengths(), _rhs.get_interval_lengths(),
                       _tol) and
+         approx_equal(_lhs.get_domain().first, _rhs.get_domain().first,
+                      _tol) and
          _lhs.get_basis() == _rhs.get_basis();
 }
 
-- 
2.43.0


From 4d90099589c0abeb50e54046b2d8709100ca8134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 19/58] fix: gspline construction checks the number of interval
 lengths

A wrong number was accepted and the evaluation read out of bounds.
---
 src/GSpline.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 2277d25..3ae9cfb 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -50,6 +50,12 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(_tauv),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is " +
+        std::to_string(domain_interval_lengths_.size()) +
+        " but the number of intervals is " + std::to_string(_n_intervals));
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
@@ -74,6 +80,12 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(std::move(_tauv)),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is " +
+        std::to_string(domain_interval_lengths_.size()) +
+        " but the number of intervals is " + std::to_string(_n_intervals));
+  }
   if (coefficients_.size() !=
       (long)(_n_intervals * basis_->get_dim() * _codom_dim)) {
     throw std::invalid_argument(
-- 
2.43.0


From 5965b3899ef9f94ef460098cf9f548e1318ec634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:41 +0000
Subject: [PATCH 20/58] fix: collocation points on intervals of different
 lengths

---
 src/Collocation/GaussLobattoPointsWeights.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..d4efdd9 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -190,10 +190,9 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
-        (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+        (glp.array() + 1.0) * _intervals[interval] / 2.0 + left_bound;
+    left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From 056d8ce20ad38788fa801227ecac1b34c5c9f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:41 +0000
Subject: [PATCH 21/58] fix: collocation spline from a function takes number of
 points and intervals in order

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..3fa5a18 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
-- 
2.43.0


From 3559d3701cceb9bd24bfb641bffffea5debf9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:41 +0000
Subject: [PATCH 22/58] fix: assignment of collocation splines copies the
 interval lengths

---
 src/Collocation/GaussLobattoLagrange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 3fa5a18..b421d13 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -67,6 +67,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
   set_domain(_that.get_domain());
 
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = _that.coefficients_;
   return *this;
 }
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
-- 
2.43.0


From 53519f1d155c8dbebfbd2a5ae46c4b67d7cf450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:41 +0000
Subject: [PATCH 23/58] fix: domain discretization of collocation splines with
 different interval lengths

---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..49b323d 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
-- 
2.43.0


From 5222525d37336969cabb88ee070d431bc0e6d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:41 +0000
Subject: [PATCH 24/58] fix: set_from_array checks the size of the values

---
 .../Collocation/GaussLobattoLagrange.hpp       | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 49b323d..063b08a 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -136,12 +136,12 @@ public:
                       const IteratorType &_begin, const IteratorType &_end,
                       const Function &_fun) {
 
-    set_domain(_domain);
     auto dist = std::distance(_begin, _end);
     if (dist != static_cast<decltype(dist)>(get_basis().get_dim() *
                                             get_number_of_intervals())) {
       throw std::runtime_error("wrong number of elements");
     }
+    set_domain(_domain);
     domain_interval_lengths_ =
         domain_interval_lengths_ *
         (get_domain_length() / domain_interval_lengths_.array().sum());
@@ -150,11 +150,12 @@ public:
       long index = std::distance(_begin, it);
       long interval = index / get_basis().get_dim();
       decltype(auto) vec = _fun(*it);
-      if (vec.cols() != 1) {
-        std::invalid_argument("This function only accept eigen row vectors");
+      if (vec.rows() != 1) {
+        throw std::invalid_argument(
+            "This function only accept eigen row vectors");
       }
-      if (vec.rows() != static_cast<long>(get_codom_dim())) {
-        std::invalid_argument(__FILE__ "Vector dimension error");
+      if (vec.cols() != static_cast<long>(get_codom_dim())) {
+        throw std::invalid_argument(__FILE__ "Vector dimension error");
       }
       get_value_block(interval).row(index % get_basis().get_dim()) = vec;
     }
@@ -163,11 +164,8 @@ public:
   template <typename IteratorType>
   void set_from_array(std::pair<double, double> _domain,
                       const IteratorType &_begin, const IteratorType &_end) {
-    set_domain(_domain);
-    set_from_array(_begin, _end,
-                   [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
-                     return _in;
-                   });
+    set_from_array(_domain, _begin, _end,
+                   [](const auto &_in) -> const auto & { return _in; });
   }
 
   bool same_discretization(const GaussLobattoLagrangeSpline &_that) const;
-- 
2.43.0


From 465f122047b616f6d2a3adb86c8094b60eaafbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:09 +0000
Subject: [PATCH 25/58] fix: product of collocation splines requires the same
 interval lengths

---
 src/Collocation/GaussLobattoLagrange.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index b421d13..3b09a60 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -229,6 +229,8 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not get_interval_lengths().isApprox(_that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -257,6 +259,8 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not get_interval_lengths().isApprox(_that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -297,6 +301,8 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not get_interval_lengths().isApprox(_that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -337,6 +343,8 @@ GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not get_interval_lengths().isApprox(_that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
-- 
2.43.0


From 098fbcffc265ad1657ad154a8e091e6988339d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:10 +0000
Subject: [PATCH 26/58] fix: derivative of the coefficients rejects a wrong
 interval index

---
 src/Interpolator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index ef00399..441dd0f 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -262,8 +262,8 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
   }
   if (_interval_lengths.size() != (long)num_intervals_ or _tau_idx < 0 or
       _tau_idx >= num_intervals_) {
-    fprintf(stderr, "Cannot compute derivative of coefficients wrt tau ");
-    return coefficients_vector_;
+    throw std::invalid_argument(
+        "Cannot compute derivative of coefficients wrt tau");
   }
 
   Eigen::SparseMatrix<double> &mat = interpolation_matrix_ders_[_tau_idx];
-- 
2.43.0


From 70a40ef0d1a81e36b1ecd2658af48b309885d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:10 +0000
Subject: [PATCH 27/58] fix: interpolation checks the size of the waypoints

---
 src/Interpolator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index 441dd0f..58baf57 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -350,6 +350,11 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
   if ((_interval_lengths.array() < 1.0e-6).any()) {
     throw std::invalid_argument(" Interval lenghts cannot be negative !");
   }
+  if (_waypoints.rows() != (long)num_intervals_ + 1 or
+      _waypoints.cols() != (long)codom_dim_) {
+    throw std::invalid_argument(
+        "The number of waypoints or their dimension is wrong");
+  }
   // 1. fill the interpolating matrix
   fill_interpolating_matrix(_interval_lengths);
   // 2. fill the interpolating vector
-- 
2.43.0


From 6b39c4d1f6e8c0a2604698509513711fe10b4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 28/58] fix: update of the integral functional with interval
 lengths

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index ce09d64..de67f7d 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -68,12 +68,13 @@ Integral::Integral(const GaussLobattoLagrangeSpline &_in)
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
+  nglp_ = _nglp;
   mat_.noalias() =
       legendre_gauss_lobatto_weights(_domain, _nglp, _n_intervals).transpose();
 }
 
 void Integral::update(const Eigen::VectorXd &_intervals) {
-  if (static_cast<long>(_intervals.size() * nglp_) != mat_.rows()) {
+  if (static_cast<long>(_intervals.size() * nglp_) != mat_.cols()) {
     throw std::invalid_argument(" Invaled size of intervals vector");
   }
   mat_.noalias() =
-- 
2.43.0


From 4c31e999343e0eb413b462cbf6481606ff41a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 29/58] fix: integral functional of a collocation spline with
 different interval lengths

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index de67f7d..84ed551 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -64,7 +64,9 @@ Integral::Integral(std::tuple<double, double> _domain, std::size_t _nglp,
 
 Integral::Integral(const GaussLobattoLagrangeSpline &_in)
     : Integral(_in.get_domain(), _in.get_basis().get_dim(),
-               _in.get_number_of_intervals()) {}
+               _in.get_number_of_intervals()) {
+  update(_in.get_interval_lengths());
+}
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
-- 
2.43.0


From 8b0544228337997a855e533956f983c7ba64d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:59 +0000
Subject: [PATCH 30/58] fix: multiplication of a collocation spline by a
 constant matrix

---
 .../gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index d49e899..4643e81 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -395,13 +395,13 @@ public:
       long interval = index / nglp_;
 
       for (long col = 0; col < matrix_cols_; col++) {
-        for (long row = 0; row < matrix_cols_; row++) {
+        for (long row = 0; row < matrix_rows_; row++) {
 
           std::size_t j0 =
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = _mat(col, row);
+          mat_.coeffRef(i0, j0) = _mat(row, col);
         }
       }
     }
-- 
2.43.0


From 958ee33d673de40803bcd13f44248d24ebbc9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:10 +0000
Subject: [PATCH 31/58] fix: interpolation of less than two waypoints is
 rejected

---
 src/Interpolator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index 58baf57..aa831a7 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -17,6 +17,9 @@ Interpolator::Interpolator(std::size_t _codom_dim, std::size_t _num_intervals,
     throw std::invalid_argument(
         "Interpolator: The dimension of the basis must be pair");
   }
+  if (num_intervals_ == 0) {
+    throw std::invalid_argument("Interpolator: at least one interval required");
+  }
   interpolating_matrix_.resize(matrix_size_, matrix_size_);
   interpolating_vector_.resize(matrix_size_);
   interpolating_vector_.setZero();
-- 
2.43.0


From 5ca9fe6ea53b6d13d0873f238ecf4e5ec082f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 32/58] fix: Python: coefficients returned by an interpolator
 are copies

solve_interpolation and get_coeff_derivative_wrt_tau returned arrays that
view the buffers of the interpolator: the next call changed the arrays returned
before, and once the interpolator was collected they read freed memory.
---
 bindings/bindings.cpp | 2 +-
 bindings/pybasis.hpp  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 2ddffab..e56a8ae 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -352,7 +352,7 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def("print_interpolating_matrix",
            &gsplines::PyInterpolator::print_interpolating_matrix)
       .def("get_coeff_derivative_wrt_tau",
-           &gsplines::PyInterpolator::get_coeff_derivative_wrt_tau)
+           &gsplines::PyInterpolator::py_get_coeff_derivative_wrt_tau)
       .def("print_interpolating_vector",
            &gsplines::PyInterpolator::print_interpolating_vector);
 
diff --git a/bindings/pybasis.hpp b/bindings/pybasis.hpp
index 5b0f8c1..9be6a99 100644
--- a/bindings/pybasis.hpp
+++ b/bindings/pybasis.hpp
@@ -76,11 +76,17 @@ public:
                  const py::EigenDRef<const Eigen::MatrixXd> _waypoints) {
     return interpolate(_interval_lengths, _waypoints);
   }
-  const Eigen::Ref<const Eigen::VectorXd> py_solve_interpolation(
+  Eigen::VectorXd py_solve_interpolation(
       const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
       const py::EigenDRef<const Eigen::MatrixXd> _waypoints) {
     return solve_interpolation(_interval_lengths, _waypoints);
   }
+  Eigen::VectorXd py_get_coeff_derivative_wrt_tau(
+      const Eigen::Ref<const Eigen::VectorXd> _coeff,
+      const Eigen::Ref<const Eigen::VectorXd> _interval_lengths,
+      std::size_t _tau_idx) {
+    return get_coeff_derivative_wrt_tau(_coeff, _interval_lengths, _tau_idx);
+  }
 };
 
 class PySobolevNorm : public functional_analysis::SobolevNorm {
-- 
2.43.0


From 2eedf1c34e767711d03542a9d3c048a05c67d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 33/58] fix: Python: a dictionary whose basis dimension is
 wrong is rejected

---
 python/gsplines/serialization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/gsplines/serialization.py b/python/gsplines/serialization.py
index b077a84..45b1387 100644
--- a/python/gsplines/serialization.py
+++ b/python/gsplines/serialization.py
@@ -18,8 +18,12 @@ def dict_to_basis(_dict: Dict) -> gsplines.basis.Basis:
         if not isinstance(_dict.get(key), expected_type):
             raise TypeError(
                 f"Incorrect type for key '{key}'. Expected {expected_type.__name__}, got {type(_dict.get(key)).__name__}")
-    return gsplines.basis.get_basis(
+    basis = gsplines.basis.get_basis(
         _dict['name'], _dict['dim'], _dict['parameters'])
+    if basis.get_dim() != _dict['dim']:
+        raise ValueError(
+            f"Basis '{_dict['name']}' has dimension {basis.get_dim()}, not {_dict['dim']}")
+    return basis
 
 
 def gspline_to_dict(_gspline: gsplines.GSpline) -> Dict:
-- 
2.43.0


From 3327d7803be6ce48439b6e46e64bbb59f7dd5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 34/58] fix: a function with a reversed domain is rejected with
 an exception

---
 src/Functions/FunctionBase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Functions/FunctionBase.cpp b/src/Functions/FunctionBase.cpp
index 2f3b5dc..0234cc3 100644
--- a/src/Functions/FunctionBase.cpp
+++ b/src/Functions/FunctionBase.cpp
@@ -14,7 +14,9 @@ FunctionBase::FunctionBase(std::pair<double, double> _domain,
                            std::size_t _codom_dim, const std::string &_name)
     : codom_dim_(_codom_dim), window_(_domain), domain_(_domain), name_(_name) {
 
-  assert(_domain.first <= _domain.second);
+  if (not(_domain.first <= _domain.second)) {
+    throw std::invalid_argument("The domain of a function cannot be reversed");
+  }
 }
 
 FunctionBase::FunctionBase(const FunctionBase &that)
-- 
2.43.0


From 02860abacc788192ceb7bc9307a41e0d765fe07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 35/58] fix: Python: buffers too small for the basis are
 rejected

The assertion of the linear algebra library ended the interpreter.
---
 bindings/bindings.cpp | 21 ++++++++++++++++++---
 bindings/pybasis.hpp  |  7 +++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index e56a8ae..22fc235 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -31,11 +31,26 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
       .def("get_dim", &gsplines::basis::Basis::get_dim)
       .def("get_name", &gsplines::basis::Basis::get_name)
       .def("get_parameters", &gsplines::basis::Basis::get_parameters)
-      .def("eval_on_window", &gsplines::basis::Basis::eval_on_window)
+      .def("eval_on_window",
+           [](const gsplines::basis::Basis& _self, double _s, double _tau,
+              Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) {
+             gsplines::basis::check_buffer(_self, _buff.size());
+             _self.eval_on_window(_s, _tau, _buff);
+           })
       .def("eval_derivative_on_window",
-           &gsplines::basis::Basis::eval_derivative_on_window)
+           [](const gsplines::basis::Basis& _self, double _s, double _tau,
+              unsigned int _deg,
+              Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) {
+             gsplines::basis::check_buffer(_self, _buff.size());
+             _self.eval_derivative_on_window(_s, _tau, _deg, _buff);
+           })
       .def("eval_derivative_wrt_tau_on_window",
-           &gsplines::basis::Basis::eval_derivative_wrt_tau_on_window)
+           [](const gsplines::basis::Basis& _self, double _s, double _tau,
+              unsigned int _deg,
+              Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) {
+             gsplines::basis::check_buffer(_self, _buff.size());
+             _self.eval_derivative_wrt_tau_on_window(_s, _tau, _deg, _buff);
+           })
       .def("__eq__", &gsplines::basis::Basis::operator==)
       .def("__neq__", &gsplines::basis::Basis::operator!=);
 
diff --git a/bindings/pybasis.hpp b/bindings/pybasis.hpp
index 9be6a99..dcaa4c4 100644
--- a/bindings/pybasis.hpp
+++ b/bindings/pybasis.hpp
@@ -13,11 +13,18 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/pytypes.h>
 #include <pybind11/stl.h>
+#include <stdexcept>
 
 namespace py = pybind11;
 namespace gsplines {
 namespace basis {
 
+inline void check_buffer(const Basis &_basis, long _size) {
+  if (_size < (long)_basis.get_dim()) {
+    throw std::invalid_argument("The buffer is too small for the basis");
+  }
+}
+
 class PyBasis : public Basis {
 public:
   /* Inherit the constructors */
-- 
2.43.0


From 0db63cb2493649997f4e60a2cb4aa8a3c3f08e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 36/58] fix: Python: using an abstract basis in a spline raises
 an error

Its clone was a null pointer, which the spline dereferenced.
---
 bindings/pybasis.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/pybasis.hpp b/bindings/pybasis.hpp
index dcaa4c4..5e8c1ff 100644
--- a/bindings/pybasis.hpp
+++ b/bindings/pybasis.hpp
@@ -68,8 +68,12 @@ public:
     PYBIND11_OVERRIDE_PURE(Eigen::MatrixXd, Basis, derivative_matrix_impl,
                            _deg);
   }
-  std::unique_ptr<Basis> clone() const override { return nullptr; }
-  std::unique_ptr<Basis> move_clone() override { return nullptr; }
+  std::unique_ptr<Basis> clone() const override {
+    throw std::logic_error("A basis defined in Python cannot be cloned");
+  }
+  std::unique_ptr<Basis> move_clone() override {
+    throw std::logic_error("A basis defined in Python cannot be cloned");
+  }
 };
 
 } // namespace basis
-- 
2.43.0


From 6981d50bebda5c9b41429f33fc0d37a59b749005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 37/58] fix: SobolevNorm gradient rejects buffers of the wrong
 size

---
 src/FunctionalAnalysis/Sobolev.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 87254d5..c286bbd 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -4,6 +4,7 @@
 #include <gsplines/Functions/ElementalFunctions.hpp>
 #include <gsplines/GSpline.hpp>
 #include <iostream>
+#include <stdexcept>
 
 namespace gsplines {
 namespace functional_analysis {
@@ -33,6 +34,10 @@ void SobolevNorm::deriv_wrt_interval_len(
    *
    * returns [] = y^T [ dQdtau_i y + 2 Q dy_dtau_i]*/
 
+  if (_buff.size() != (long)num_intervals_) {
+    throw std::invalid_argument(
+        "deriv_wrt_interval_len: the buffer must have one element per interval");
+  }
   unsigned int interval_coor;
   unsigned int codom_coor;
   double tau;
-- 
2.43.0


From 72edfa5c26611f943b3a05feb76074ff3447b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 38/58] fix: a polynomial without coefficients is rejected

---
 src/Functions/ElementalFunctions.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index 64051e9..021aff6 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -1,5 +1,6 @@
 #include <gsplines/Functions/ElementalFunctions.hpp>
 #include <iostream>
+#include <stdexcept>
 namespace gsplines {
 namespace functions {
 
@@ -138,13 +139,16 @@ FunctionExpression *Sin::deriv_impl(std::size_t _deg) const {
 // CanonicPolynomial
 CanonicPolynomial::CanonicPolynomial(std::pair<double, double> _domain,
                                      const Eigen::VectorXd &_coefficients)
-    : FunctionInheritanceHelper(_domain, 1, "CanonicPolynomial"),
-      coefficients_(_coefficients) {}
+    : CanonicPolynomial(_domain, Eigen::VectorXd(_coefficients)) {}
 
 CanonicPolynomial::CanonicPolynomial(std::pair<double, double> _domain,
                                      Eigen::VectorXd &&_coefficients)
     : FunctionInheritanceHelper(_domain, 1, "CanonicPolynomial"),
-      coefficients_(std::move(_coefficients)) {}
+      coefficients_(std::move(_coefficients)) {
+  if (coefficients_.size() == 0) {
+    throw std::invalid_argument("A polynomial needs at least one coefficient");
+  }
+}
 
 CanonicPolynomial::CanonicPolynomial(const CanonicPolynomial &that)
     : FunctionInheritanceHelper(that), coefficients_(that.coefficients_) {}
-- 
2.43.0


From 7d6ea47f80020c62033233a082469c14d8389a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 39/58] fix: Gauss-Lobatto rules with less than two points are
 rejected

---
 src/Collocation/GaussLobattoPointsWeights.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index d4efdd9..eb1e5a9 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -2,6 +2,7 @@
 
 #include <cmath>
 #include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
+#include <stdexcept>
 #include <tuple>
 #include <vector>
 
@@ -64,6 +65,10 @@ legendre_gauss_lobatto_points_and_weights(std::size_t _n) {
    *  Algorithm 25: LegendreGaussLobattoNodesAndWeights
    * */
 
+  if (_n < 2) {
+    throw std::invalid_argument(
+        "A Gauss-Lobatto rule needs at least two points");
+  }
   Eigen::VectorXd points(_n);
   Eigen::VectorXd weights(_n);
   double q;
-- 
2.43.0


From 8bb721bcd55119ecffaeb5892d337c5d4c9f3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 40/58] fix: an interpolator without components or basis
 functions is rejected

---
 src/Interpolator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index aa831a7..dc17a74 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -13,6 +13,10 @@ Interpolator::Interpolator(std::size_t _codom_dim, std::size_t _num_intervals,
       matrix_size_(_basis.get_dim() * _codom_dim * _num_intervals),
       boundary_buffer_tranposed_(_basis.get_dim(), _basis.get_dim() / 2) {
 
+  if (basis_->get_dim() == 0 or codom_dim_ == 0) {
+    throw std::invalid_argument(
+        "Interpolator: at least one component and basis function required");
+  }
   if (basis_->get_dim() % 2 != 0) {
     throw std::invalid_argument(
         "Interpolator: The dimension of the basis must be pair");
-- 
2.43.0


From 23ff53bc8f460c542638482f610cb0a562d8b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 41/58] fix: get_coeff_derivative_wrt_tau rejects coefficients
 of the wrong size

---
 src/Interpolator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index dc17a74..0eb29a2 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -268,7 +268,7 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
         "get_coeff_derivative_wrt_tau: Interval lenghts cannot be negative !");
   }
   if (_interval_lengths.size() != (long)num_intervals_ or _tau_idx < 0 or
-      _tau_idx >= num_intervals_) {
+      _tau_idx >= num_intervals_ or _coeff.size() != (long)matrix_size_) {
     throw std::invalid_argument(
         "Cannot compute derivative of coefficients wrt tau");
   }
-- 
2.43.0


From 270930c460a466452fe87ff09e19ab4512aa7c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:53 +0000
Subject: [PATCH 42/58] fix: Python: the get functions of the bases return live
 objects

They handed a shared pointer to classes held by a unique pointer: the basis was
freed before Python received it.
---
 bindings/bindings.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 22fc235..751c42a 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -57,19 +57,23 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
   py::class_<gsplines::basis::BasisLegendre, gsplines::basis::Basis>(
       basis_submodule, "BasisLegendre")
       .def(py::init<std::size_t>())
-      .def_static("get", &gsplines::basis::BasisLegendre::get);
+      .def_static("get", [](std::size_t _dim) {
+        return gsplines::basis::BasisLegendre::get(_dim)->move_clone();
+      });
 
   py::class_<gsplines::basis::BasisLagrange, gsplines::basis::Basis>(
       basis_submodule, "BasisLagrange")
       .def(py::init<Eigen::Ref<const Eigen::VectorXd>>())
       .def_static("get", [](const Eigen::Ref<const Eigen::VectorXd> _params) {
-        return gsplines::basis::BasisLagrange::get(_params);
+        return gsplines::basis::BasisLagrange::get(_params)->move_clone();
       });
 
   py::class_<gsplines::basis::Basis0101, gsplines::basis::Basis>(
       basis_submodule, "Basis0101")
       .def(py::init<double>())
-      .def_static("get", &gsplines::basis::Basis0101::get);
+      .def_static("get", [](double _alpha) {
+        return gsplines::basis::Basis0101::get(_alpha)->move_clone();
+      });
 
   basis_submodule.def(
       "get_basis", [](const std::string& _basis_name, std::size_t _dim,
-- 
2.43.0


From 823e499aefa5306508a2e3baa868ae07e4071935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:17 +0000
Subject: [PATCH 43/58] fix: an interpolation whose matrix cannot be factorised
 raises an error

The interpolator returned the coefficients of the previous problem, and the
sensitivities ended the process in an assertion.
---
 src/Interpolator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index 0eb29a2..1e759e0 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -347,6 +347,10 @@ Eigen::Ref<const Eigen::VectorXd> Interpolator::get_coeff_derivative_wrt_tau(
   fill_interpolating_matrix(_interval_lengths);
   Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;
   solver.compute(interpolating_matrix_);
+  if (solver.info() != Eigen::ComputationInfo::Success) {
+    throw std::runtime_error(
+        "get_coeff_derivative_wrt_tau: the interpolating matrix is singular");
+  }
   coefficients_vector_ = -solver.solve(coefficients_vector_);
   return coefficients_vector_;
 }
@@ -374,7 +378,7 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
     print_info();
     std::cout << "interval lengths:\n" << _interval_lengths.transpose() << "\n";
     print_interpolating_matrix();
-    return sol_buffer_;
+    throw std::runtime_error("The interpolating matrix is singular");
   }
   sol_buffer_ = solver.solve(interpolating_vector_);
   // 4. Return the interpolating function
-- 
2.43.0


From 803aa5fca2e222d711321368d45410d278babd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:44 +0000
Subject: [PATCH 44/58] fix: a concatenation is defined between domains that
 meet up to rounding

Functions are accepted by concat when the end of the first domain and the
beginning of the second one agree up to the tolerance, but evaluating at an
instant between the two (or at the end of the first one) raised an error.
---
 src/Functions/FunctionsConcat.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 3048e14..3836dea 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -145,6 +145,9 @@ std::list<std::unique_ptr<FunctionBase>>::const_iterator get_interval_function(
     double _domain_point,
     const std::list<std::unique_ptr<FunctionBase>> &_function_array) {
 
+  if (_domain_point < _function_array.front()->get_domain().first) {
+    return _function_array.end();
+  }
   std::list<std::unique_ptr<FunctionBase>>::const_iterator result =
       std::find_if(
           _function_array.begin(), _function_array.end(),
@@ -152,7 +155,9 @@ std::list<std::unique_ptr<FunctionBase>>::const_iterator get_interval_function(
             // printf("function is %s\n", element->get_name().c_str());
             // printf("domain is %lf, %lf\n", element->get_domain().first,
             //       element->get_domain().second);
-            return element->is_point_in_domain(_domain_point);
+            // the domains are next to each other up to a tolerance: a point
+            // between two of them belongs to the second one
+            return _domain_point < element->get_domain().second;
           });
 
   return result;
-- 
2.43.0


From a45d961789fcf53f02ce07e85252b2bce2af0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:00 +0000
Subject: [PATCH 45/58] fix: differentials of the Sobolev distance do not share
 their matrix

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index 84ed551..1b0b54a 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -110,9 +110,11 @@ SobolevDistance::differential(const GaussLobattoLagrangeSpline &_in) const {
   TransposeLeftMultiplication tr1_(approx_ - _in);
   TransposeLeftMultiplication tr2_(approx_d_ - der_ * _in);
 
-  diff_->set(-2 * int_ * (tr1_ + tr2_ * der_));
+  std::shared_ptr<LinearFunctionalDense> result =
+      std::make_shared<LinearFunctionalDense>(*diff_);
+  result->set(-2 * int_ * (tr1_ + tr2_ * der_));
 
-  return diff_;
+  return result;
 }
 
 GLLSplineVariable::GLLSplineVariable(const GaussLobattoLagrangeSpline &_in)
-- 
2.43.0


From 55a1416626e4089f4803ba707a8ef71d39b4d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:37 +0000
Subject: [PATCH 46/58] fix: comparisons and expressions of different threads
 do not race on globals

approx_equal and approx_zero (and with them the comparison of bases) store
the error in a global, and every construction of an expression counts in
another: threads that work on unrelated objects race on them.
---
 .../gsplines/Functions/FunctionExpression.hpp    |  9 +++++----
 include/gsplines/Tools.hpp                       |  4 ++--
 src/Functions/FunctionExpression.cpp             | 16 ++++++++--------
 src/Tools.cpp                                    |  4 ++--
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/include/gsplines/Functions/FunctionExpression.hpp b/include/gsplines/Functions/FunctionExpression.hpp
index 1d25887..7e5b745 100644
--- a/include/gsplines/Functions/FunctionExpression.hpp
+++ b/include/gsplines/Functions/FunctionExpression.hpp
@@ -3,6 +3,7 @@
 #ifndef FUNCTION_EXPRESSION
 #define FUNCTION_EXPRESSION
 
+#include <atomic>
 #include <cstddef>
 #include <eigen3/Eigen/Core>
 #include <functional>
@@ -50,10 +51,10 @@ private:
 
   Eigen::VectorXd domain_break_points_;
 
-  static std::size_t num_call_constructor_;
-  static std::size_t num_call_copy_constructor_;
-  static std::size_t num_call_simple_constructor_;
-  static std::size_t num_call_move_constructor_;
+  static std::atomic<std::size_t> num_call_constructor_;
+  static std::atomic<std::size_t> num_call_copy_constructor_;
+  static std::atomic<std::size_t> num_call_simple_constructor_;
+  static std::atomic<std::size_t> num_call_move_constructor_;
 
 public:
   FunctionExpression(
diff --git a/include/gsplines/Tools.hpp b/include/gsplines/Tools.hpp
index 37fb129..383d65e 100644
--- a/include/gsplines/Tools.hpp
+++ b/include/gsplines/Tools.hpp
@@ -4,8 +4,8 @@
 namespace gsplines {
 namespace tools {
 
-extern double last_error;
-extern double last_relative_error;
+extern thread_local double last_error;
+extern thread_local double last_relative_error;
 
 bool approx_equal(double _lhs, double _rhs, double _tol);
 
diff --git a/src/Functions/FunctionExpression.cpp b/src/Functions/FunctionExpression.cpp
index 54dcf3f..d25fa0d 100644
--- a/src/Functions/FunctionExpression.cpp
+++ b/src/Functions/FunctionExpression.cpp
@@ -11,10 +11,10 @@ namespace functions {
  *  Function Construction
  * -----*/
 
-std::size_t FunctionExpression::num_call_constructor_ = 0;
-std::size_t FunctionExpression::num_call_simple_constructor_ = 0;
-std::size_t FunctionExpression::num_call_copy_constructor_ = 0;
-std::size_t FunctionExpression::num_call_move_constructor_ = 0;
+std::atomic<std::size_t> FunctionExpression::num_call_constructor_{0};
+std::atomic<std::size_t> FunctionExpression::num_call_simple_constructor_{0};
+std::atomic<std::size_t> FunctionExpression::num_call_copy_constructor_{0};
+std::atomic<std::size_t> FunctionExpression::num_call_move_constructor_{0};
 
 FunctionExpression::FunctionExpression(
     std::pair<double, double> _domain, std::size_t _codom_dim, Type _type,
@@ -93,11 +93,11 @@ FunctionExpression::FunctionExpression(FunctionBase &&_that)
 }
 
 void FunctionExpression::print_performace() {
-  printf("Num call of the constructor %zu\n", num_call_constructor_);
-  printf("Num call of the COPY constructor %zu\n", num_call_copy_constructor_);
-  printf("Num call of the MOVE constructor %zu\n", num_call_move_constructor_);
+  printf("Num call of the constructor %zu\n", num_call_constructor_.load());
+  printf("Num call of the COPY constructor %zu\n", num_call_copy_constructor_.load());
+  printf("Num call of the MOVE constructor %zu\n", num_call_move_constructor_.load());
   printf("Num call of the SIMPLE constructor %zu\n",
-         num_call_simple_constructor_);
+         num_call_simple_constructor_.load());
 }
 
 std::vector<std::pair<double, double>>
diff --git a/src/Tools.cpp b/src/Tools.cpp
index e58e58b..1b7cff0 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -3,8 +3,8 @@
 namespace gsplines {
 namespace tools {
 
-double last_error = 0.0;
-double last_relative_error = 0.0;
+thread_local double last_error = 0.0;
+thread_local double last_relative_error = 0.0;
 bool approx_equal(double _lhs, double _rhs, double _tol) {
 
   double err = std::fabs(_lhs - _rhs);
-- 
2.43.0


From 2c1ceee0a1652a572f3ab56282f7f3b340bfd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 47/58] fix: plot and plot_compare draw curves with one
 component

plt.subplots returns a one dimensional array when there is a single row or
column, so scalar curves (and comparisons without derivatives) failed.
---
 python/gsplines/plot/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/gsplines/plot/plot.py b/python/gsplines/plot/plot.py
index 102d5bf..59e2588 100644
--- a/python/gsplines/plot/plot.py
+++ b/python/gsplines/plot/plot.py
@@ -63,7 +63,8 @@ def plot_derivatives_in_axes(_q,
 def plot(_q, _up_to_deriv: int = 3,
          _dt: float = 0.01, _wp=None, _title='', _show=True):
 
-    fig, axis = plt.subplots(_up_to_deriv+1, _q.get_codom_dim())
+    fig, axis = plt.subplots(_up_to_deriv+1, _q.get_codom_dim(),
+                             squeeze=False)
 
     plot_derivatives_in_axes(_q, axis, _dt=_dt, _up_to_deriv=_up_to_deriv)
 
@@ -86,7 +87,8 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
         cmap = plt.get_cmap('viridis')
         _colors = [cmap(val) for val in np.linspace(0, 1, len(_q))]
 
-    fig, axis = plt.subplots(_up_to_deriv + 1, _q[0].get_codom_dim())
+    fig, axis = plt.subplots(_up_to_deriv + 1, _q[0].get_codom_dim(),
+                             squeeze=False)
 
     for curve, color in zip(_q, _colors):
         plot_derivatives_in_axes(
-- 
2.43.0


From d84cd7357085f02c823e202bc130ff0be45631b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 48/58] fix: plot2d respects the number of derivatives and the
 sampling step

It always asked for three derivatives, which failed with fewer axes and left
the additional ones empty.
---
 python/gsplines/plot/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gsplines/plot/plot.py b/python/gsplines/plot/plot.py
index 59e2588..82fde66 100644
--- a/python/gsplines/plot/plot.py
+++ b/python/gsplines/plot/plot.py
@@ -140,7 +140,7 @@ def plot2d(_q, _up_to_deriv: int = 3,
 
     axes = np.array([[fig.add_subplot(gs[row, col + 1])
                       for col in range(2)] for row in range(1+_up_to_deriv)])
-    plot_derivatives_in_axes(_q, axes)
+    plot_derivatives_in_axes(_q, axes, _dt=_dt, _up_to_deriv=_up_to_deriv)
 
     plt.subplots_adjust(
         left=0.05,
-- 
2.43.0


From 4ccd9679aff7a595f347162e0b15130525bf1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 49/58] fix: comparisons draw the curves with the requested
 sampling step

---
 python/gsplines/plot/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/gsplines/plot/plot.py b/python/gsplines/plot/plot.py
index 82fde66..3e6faa4 100644
--- a/python/gsplines/plot/plot.py
+++ b/python/gsplines/plot/plot.py
@@ -92,7 +92,7 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
 
     for curve, color in zip(_q, _colors):
         plot_derivatives_in_axes(
-            curve, axis, color=color, _up_to_deriv=_up_to_deriv)
+            curve, axis, _dt=_dt, color=color, _up_to_deriv=_up_to_deriv)
 
     for j in range(0, _q[0].get_codom_dim()):
         axis[0, j].set_title('coordinate {:d}'.format(j))
@@ -188,7 +188,7 @@ def plot2d_compare(_q: List, _colors: List = [], _legends: List = [],
 
     for curve, color in zip(_q, _colors):
         plot_derivatives_in_axes(
-            curve, axis, color=color, _up_to_deriv=_up_to_deriv)
+            curve, axis, _dt=_dt, color=color, _up_to_deriv=_up_to_deriv)
 
     if len(_legends) != 0:
         for i in range(0, _up_to_deriv+1):
-- 
2.43.0


From 45b274b88dd7f5cf5db849538ec3a2dbf64a6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:22 +0000
Subject: [PATCH 50/58] fix: the legends of comparisons name the curves

The lines of an axis also include the marks of the breakpoints and the
waypoints, so all labels but the first one were given to those.
---
 python/gsplines/plot/plot.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/python/gsplines/plot/plot.py b/python/gsplines/plot/plot.py
index 3e6faa4..283f430 100644
--- a/python/gsplines/plot/plot.py
+++ b/python/gsplines/plot/plot.py
@@ -29,12 +29,16 @@ def plot_derivatives_in_axes(_q,
                              _axis: np.array, _dt: float = 0.01,
                              _up_to_deriv: int = 3, color='blue'):
 
+    """Draws a curve and its derivatives and returns the lines of the curve,
+    one row for each derivative"""
     _axis = np.atleast_2d(_axis)
+    curve_lines = []
     for i in range(_up_to_deriv+1):
         curve = _q.deriv(i)
         cvt = CurveVsTime(curve.get_codom_dim(), color=color)
         cvt.associate_axis(_axis[i, :])
         cvt.update(curve, _dt)
+        curve_lines.append(cvt.lines_)
 
         if hasattr(curve, 'get_domain_breakpoints'):
             dbp = VerticalLines(
@@ -59,6 +63,8 @@ def plot_derivatives_in_axes(_q,
     for i in range(1, _up_to_deriv+1):
         _axis[i, 0].set_ylabel('derivative {:d}'.format(i))
 
+    return np.array(curve_lines)
+
 
 def plot(_q, _up_to_deriv: int = 3,
          _dt: float = 0.01, _wp=None, _title='', _show=True):
@@ -90,9 +96,9 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
     fig, axis = plt.subplots(_up_to_deriv + 1, _q[0].get_codom_dim(),
                              squeeze=False)
 
-    for curve, color in zip(_q, _colors):
-        plot_derivatives_in_axes(
-            curve, axis, _dt=_dt, color=color, _up_to_deriv=_up_to_deriv)
+    curves_lines = [plot_derivatives_in_axes(
+        curve, axis, _dt=_dt, color=color, _up_to_deriv=_up_to_deriv)
+        for curve, color in zip(_q, _colors)]
 
     for j in range(0, _q[0].get_codom_dim()):
         axis[0, j].set_title('coordinate {:d}'.format(j))
@@ -103,7 +109,7 @@ def plot_compare(_q: List, _colors: List = [], _legends: List = [],
     if len(_legends) != 0:
         for i in range(0, _up_to_deriv+1):
             for j in range(0, _q[0].get_codom_dim()):
-                axis[i, j].legend(axis[i, j].get_lines(),
+                axis[i, j].legend([lines[i, j] for lines in curves_lines],
                                   _legends, loc='lower right', fontsize=8)
     plt.subplots_adjust(
         left=0.05,
@@ -186,14 +192,14 @@ def plot2d_compare(_q: List, _colors: List = [], _legends: List = [],
     axis = np.array([[fig.add_subplot(gs[row, col + 1])
                       for col in range(2)] for row in range(1+_up_to_deriv)])
 
-    for curve, color in zip(_q, _colors):
-        plot_derivatives_in_axes(
-            curve, axis, _dt=_dt, color=color, _up_to_deriv=_up_to_deriv)
+    curves_lines = [plot_derivatives_in_axes(
+        curve, axis, _dt=_dt, color=color, _up_to_deriv=_up_to_deriv)
+        for curve, color in zip(_q, _colors)]
 
     if len(_legends) != 0:
         for i in range(0, _up_to_deriv+1):
             for j in range(0, _q[0].get_codom_dim()):
-                axis[i, j].legend(axis[i, j].get_lines(),
+                axis[i, j].legend([lines[i, j] for lines in curves_lines],
                                   _legends, loc='lower right', fontsize=8)
     for j in range(0, _q[0].get_codom_dim()):
         axis[0, j].set_title('coordinate {:d}'.format(j))
-- 
2.43.0


From fff86a0d96bcb8fef41f5f5b3511e65d570fa612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:30 +0000
Subject: [PATCH 51/58] fix: a sparse functional can be set from a dense one

---
 .../Collocation/GaussLobattoLagrangeFunctionals.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index 4643e81..110c826 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -84,9 +84,9 @@ public:
                          not std::is_same_v<Eigen::MatrixXd, M>) {
       mat_ = _other.mat_.toDense();
       return;
-    } else if constexpr (std::is_same_v<Eigen::MatrixXd, T> and
-                         not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_.toDense();
+    } else if constexpr (not std::is_same_v<Eigen::MatrixXd, T> and
+                         std::is_same_v<Eigen::MatrixXd, M>) {
+      mat_ = _other.mat_.sparseView();
       return;
     }
     throw std::runtime_error("This part of the code is not implement. An error "
@@ -105,9 +105,9 @@ public:
                          not std::is_same_v<Eigen::MatrixXd, M>) {
       mat_ = _other.mat_.toDense();
       return;
-    } else if constexpr (std::is_same_v<Eigen::MatrixXd, T> and
-                         not std::is_same_v<Eigen::MatrixXd, M>) {
-      mat_ = _other.mat_.toDense();
+    } else if constexpr (not std::is_same_v<Eigen::MatrixXd, T> and
+                         std::is_same_v<Eigen::MatrixXd, M>) {
+      mat_ = _other.mat_.sparseView();
       return;
     }
 
-- 
2.43.0


From 1f51ebad05850bf1205c273a8de82d8dfef32b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 52/58] fix: a product functional rejects splines of another
 discretization

---
 .../Collocation/GaussLobattoLagrangeFunctionals.hpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index 110c826..955a66b 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -297,8 +297,10 @@ public:
 
   TransposeLeftMultiplication &
   operator=(const GaussLobattoLagrangeSpline &_that) {
-    if (_that.get_codom_dim() != codom_dim_)
-      throw std::invalid_argument("");
+    if (_that.get_codom_dim() != codom_dim_ or
+        _that.get_basis().get_dim() != nglp_ or
+        _that.get_number_of_intervals() != n_inter_)
+      throw std::invalid_argument("The spline does not fit the functional");
 
     const Eigen::VectorXd &vec = _that.get_coefficients();
     // ---
-- 
2.43.0


From 8b24470b1fd84835a389c0bc2edfe7284d0a1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:35 +0000
Subject: [PATCH 53/58] fix: linear functionals reject splines that do not fit

---
 .../Collocation/GaussLobattoLagrangeFunctionals.hpp       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index 955a66b..4d9bd96 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -137,21 +137,23 @@ public:
 
   Eigen::VectorXd
   operator()(const GaussLobattoLagrangeSpline &_in) const override {
+    if (mat_.cols() != _in.get_coefficients().size()) {
+      throw std::invalid_argument("The spline does not fit the functional");
+    }
     return mat_ * _in.get_coefficients();
   }
 
   GaussLobattoLagrangeSpline
   operator*(const GaussLobattoLagrangeSpline &_in) const {
 
-    Eigen::VectorXd coeff = to_matrix() * _in.get_coefficients();
+    Eigen::VectorXd coeff = LinearFunctional<T>::operator()(_in);
 
     std::size_t codom_dim = to_matrix().rows() / _in.get_number_of_intervals() /
                             _in.get_basis().get_dim();
 
     return GaussLobattoLagrangeSpline(
         _in.get_domain(), codom_dim, _in.get_number_of_intervals(),
-        _in.get_basis().get_dim(), to_matrix() * _in.get_coefficients(),
-        _in.get_interval_lengths());
+        _in.get_basis().get_dim(), coeff, _in.get_interval_lengths());
   }
 
   Eigen::MatrixXd to_dense_matrix() const override {
-- 
2.43.0


From 2cbecd0cf3e5a4d1df9b3b5ecfb5a815db1839c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:51 +0000
Subject: [PATCH 54/58] fix: a basis without functions is rejected

---
 include/gsplines/Basis/Basis.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gsplines/Basis/Basis.hpp b/include/gsplines/Basis/Basis.hpp
index 83483a3..781a8d8 100644
--- a/include/gsplines/Basis/Basis.hpp
+++ b/include/gsplines/Basis/Basis.hpp
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <map>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -71,6 +72,9 @@ public:
       : dim_(_dim), name_(_name), parameters_float_(_parameters_float),
         parameters_int_(_parameters_int), derivative_matrix_(dim_, dim_) {
 
+    if (dim_ == 0) {
+      throw std::invalid_argument("A basis needs at least one function");
+    }
     derivative_matrix_array_.push_back(
         Eigen::MatrixXd::Identity(get_dim(), get_dim()));
   }
-- 
2.43.0


From e0d3350b7155d1add7ddd081bba12e9c2f34a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:51 +0000
Subject: [PATCH 55/58] fix: a spline without intervals is rejected

---
 src/GSpline.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 3ae9cfb..6ac82f1 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -50,6 +50,10 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(_tauv),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (_n_intervals == 0) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: at least one interval is required");
+  }
   if (domain_interval_lengths_.size() != (long)_n_intervals) {
     throw std::invalid_argument(
         "GSplineBase instantation Error: The number of interval lengths is " +
@@ -80,6 +84,10 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
       domain_interval_lengths_(std::move(_tauv)),
       basis_(_basis.clone()),
       basis_buffer_(basis_->get_dim()) {
+  if (_n_intervals == 0) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: at least one interval is required");
+  }
   if (domain_interval_lengths_.size() != (long)_n_intervals) {
     throw std::invalid_argument(
         "GSplineBase instantation Error: The number of interval lengths is " +
-- 
2.43.0


From ed05fc8e682daeb72ee63f4b98ca2ee4b679f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:00 +0000
Subject: [PATCH 56/58] fix: a function without components is rejected

---
 src/Functions/FunctionBase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Functions/FunctionBase.cpp b/src/Functions/FunctionBase.cpp
index 0234cc3..7b332aa 100644
--- a/src/Functions/FunctionBase.cpp
+++ b/src/Functions/FunctionBase.cpp
@@ -17,6 +17,9 @@ FunctionBase::FunctionBase(std::pair<double, double> _domain,
   if (not(_domain.first <= _domain.second)) {
     throw std::invalid_argument("The domain of a function cannot be reversed");
   }
+  if (_codom_dim == 0) {
+    throw std::invalid_argument("A function needs at least one component");
+  }
 }
 
 FunctionBase::FunctionBase(const FunctionBase &that)
-- 
2.43.0


From 1ac38a0e32ff26047d2f8d500fa640e670f201d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:33 +0000
Subject: [PATCH 57/58] fix: Python: buffers larger than the basis do not end
 the process

---
 bindings/bindings.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bindings/bindings.cpp b/bindings/bindings.cpp
index 751c42a..f15a86d 100644
--- a/bindings/bindings.cpp
+++ b/bindings/bindings.cpp
@@ -35,21 +35,23 @@ PYBIND11_MODULE(pygsplines, gsplines_module) {
            [](const gsplines::basis::Basis& _self, double _s, double _tau,
               Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) {
              gsplines::basis::check_buffer(_self, _buff.size());
-             _self.eval_on_window(_s, _tau, _buff);
+             _self.eval_on_window(_s, _tau, _buff.head(_self.get_dim()));
            })
       .def("eval_derivative_on_window",
            [](const gsplines::basis::Basis& _self, double _s, double _tau,
               unsigned int _deg,
               Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) {
              gsplines::basis::check_buffer(_self, _buff.size());
-             _self.eval_derivative_on_window(_s, _tau, _deg, _buff);
+             _self.eval_derivative_on_window(_s, _tau, _deg,
+                 _buff.head(_self.get_dim()));
            })
       .def("eval_derivative_wrt_tau_on_window",
            [](const gsplines::basis::Basis& _self, double _s, double _tau,
               unsigned int _deg,
               Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) {
              gsplines::basis::check_buffer(_self, _buff.size());
-             _self.eval_derivative_wrt_tau_on_window(_s, _tau, _deg, _buff);
+             _self.eval_derivative_wrt_tau_on_window(_s, _tau, _deg,
+                 _buff.head(_self.get_dim()));
            })
       .def("__eq__", &gsplines::basis::Basis::operator==)
       .def("__neq__", &gsplines::basis::Basis::operator!=);
-- 
2.43.0


From 320778cd3b6c87fce7c631d095509ebadb95c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:38 +0000
Subject: [PATCH 58/58] fix: higher derivatives do not leak when a function
 throws

---
 src/Functions/ElementalFunctions.cpp | 11 ++++-------
 src/Functions/FunctionMul.cpp        | 11 ++++-------
 src/Functions/FunctionsComp.cpp      | 11 ++++-------
 3 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/Functions/ElementalFunctions.cpp b/src/Functions/ElementalFunctions.cpp
index 021aff6..7b4638a 100644
--- a/src/Functions/ElementalFunctions.cpp
+++ b/src/Functions/ElementalFunctions.cpp
@@ -255,17 +255,14 @@ FunctionExpression *DotProduct::deriv_impl(std::size_t _deg) const {
     return new FunctionExpression(*this);
   }
 
-  FunctionExpression *result = first_deriv_impl(_deg);
-  FunctionExpression *buffer_pointer = result;
+  std::unique_ptr<FunctionExpression> result(
+      first_deriv_impl(_deg));
 
   for (std::size_t k = 1; k < _deg; k++) {
-    result = result->deriv()->move_clone().release();
-    delete buffer_pointer;
-    buffer_pointer = result;
+    result = result->deriv()->move_clone();
   }
-  buffer_pointer = nullptr;
 
-  return result;
+  return result.release();
 }
 } // namespace functions
 } // namespace gsplines
diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 1b9b72d..4d147cc 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -306,17 +306,14 @@ FunctionExpression *deriv_mul_functions(
                                   _function_array);
   }
 
-  FunctionExpression *result = first_deriv_mul_functions(_function_array);
-  FunctionExpression *buffer_pointer = result;
+  std::unique_ptr<FunctionExpression> result(
+      first_deriv_mul_functions(_function_array));
 
   for (std::size_t k = 1; k < _deg; k++) {
-    result = result->deriv()->move_clone().release();
-    delete buffer_pointer;
-    buffer_pointer = result;
+    result = result->deriv()->move_clone();
   }
-  buffer_pointer = nullptr;
 
-  return result;
+  return result.release();
 }
 } // namespace functions
 } // namespace gsplines
diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index bd0f7b6..ab16b2c 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -270,17 +270,14 @@ FunctionExpression *deriv_compose_functions(
                                   _function_array);
   }
 
-  FunctionExpression *result = first_deriv_compose_functions(_function_array);
-  FunctionExpression *buffer_pointer = result;
+  std::unique_ptr<FunctionExpression> result(
+      first_deriv_compose_functions(_function_array));
 
   for (std::size_t k = 1; k < _deg; k++) {
-    result = result->deriv()->move_clone().release();
-    delete buffer_pointer;
-    buffer_pointer = result;
+    result = result->deriv()->move_clone();
   }
-  buffer_pointer = nullptr;
 
-  return result;
+  return result.release();
 }
 } // namespace functions
 } // namespace gsplines
-- 
2.43.0

