From c6e82cb34171bf2cc7a79e40d2a5debc34669e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:39 +0000
Subject: [PATCH 01/29] fix: negate the whole expression, not only its operand
 list

-(f+g), -(f*g), -(f o g), -(-f) built a NEGATIVE node from the operand list
of the original expression, which aborted or returned the wrong sign.
---
 src/Functions/FunctionMul.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 9383f1a..94f3208 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -141,16 +141,30 @@ FunctionExpression::operator*(FunctionExpression &&_that) && {
 }
 FunctionExpression FunctionExpression::operator-() const & {
 
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  if (get_type() == FunctionExpression::UNIQUE) {
+    result_array.push_back(function_array_.front()->clone());
+  } else {
+    result_array.push_back(this->clone());
+  }
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            function_array_);
+                            std::move(result_array));
 }
 
 FunctionExpression FunctionExpression::operator-() && {
 
+  std::list<std::unique_ptr<FunctionBase>> result_array;
+  if (get_type() == FunctionExpression::UNIQUE) {
+    result_array = std::move(function_array_);
+  } else {
+    result_array.push_back(this->move_clone());
+  }
+
   return FunctionExpression(get_domain(), get_codom_dim(),
                             FunctionExpression::Type::NEGATIVE,
-                            std::move(function_array_));
+                            std::move(result_array));
 }
 
 FunctionExpression operator*(double _value, const FunctionExpression &_that) {
-- 
2.43.0


From d2948975b293fe34184d864edc6bcec9f0281e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:47 +0000
Subject: [PATCH 02/29] fix: concat on an rvalue concatenation extends the
 domain

(f|g) as an rvalue concatenated with h kept the domain of f|g.
---
 src/Functions/FunctionsConcat.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 094ca37..3048e14 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -97,8 +97,10 @@ FunctionExpression::concat(const FunctionExpression &_that) && {
     target_array.push_back(_that.clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
 
@@ -124,8 +126,10 @@ FunctionExpression FunctionExpression::concat(FunctionExpression &&_that) && {
     target_array.push_back(_that.move_clone());
   }
 
-  if (get_type() == CONCATENATION)
+  if (get_type() == CONCATENATION) {
+    set_domain(get_domain().first, _that.get_domain().second);
     return std::move(*this);
+  }
 
   target_array.push_front(this->move_clone());
   return FunctionExpression(
-- 
2.43.0


From b710a98d6f7c3f39aec91f2260c428eafacdce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:47 +0000
Subject: [PATCH 03/29] fix: compose on an rvalue composition takes the domain
 of the inner function

---
 src/Functions/FunctionsComp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Functions/FunctionsComp.cpp b/src/Functions/FunctionsComp.cpp
index 8666a04..bd0f7b6 100644
--- a/src/Functions/FunctionsComp.cpp
+++ b/src/Functions/FunctionsComp.cpp
@@ -96,6 +96,7 @@ FunctionExpression::compose(const FunctionExpression &_that) && {
     } else {
       function_array_.push_front(_that.clone());
     }
+    set_domain(_that.get_domain().first, _that.get_domain().second);
     return std::move(*this);
   }
 
-- 
2.43.0


From b7d44948cd88dc180bbc98b51d1e3340af74dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:12 +0000
Subject: [PATCH 04/29] fix: in-place sum and product reject incompatible
 operands

operator+= and operator*= accepted functions with other domains or codomains
and produced an expression that is not a function of either operand.
---
 src/Functions/FunctionMul.cpp | 15 ++++++++++++++-
 src/Functions/FunctionSum.cpp |  3 +++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Functions/FunctionMul.cpp b/src/Functions/FunctionMul.cpp
index 94f3208..7135a52 100644
--- a/src/Functions/FunctionMul.cpp
+++ b/src/Functions/FunctionMul.cpp
@@ -176,7 +176,20 @@ FunctionExpression operator*(double _value, FunctionExpression &&_that) {
   return ConstFunction(_that.get_domain(), 1, _value) * std::move(_that);
 }
 
+static void compatibility_imul(const FunctionExpression &_f1,
+                               const FunctionExpression &_f2) {
+
+  compatibility_mul(_f1, _f2);
+  // the codomain of the left operand cannot change in place
+  if (_f2.get_codom_dim() > _f1.get_codom_dim()) {
+    throw std::invalid_argument(
+        "In-place product of a scalar function with a vectorial one");
+  }
+}
+
 void FunctionExpression::operator*=(FunctionExpression &&that) {
+
+  compatibility_imul(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
@@ -192,7 +205,7 @@ void FunctionExpression::operator*=(FunctionExpression &&that) {
 }
 
 void FunctionExpression::operator*=(const FunctionExpression &that) {
-
+  compatibility_imul(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = MULTIPLICATION;
diff --git a/src/Functions/FunctionSum.cpp b/src/Functions/FunctionSum.cpp
index fea1634..07be365 100644
--- a/src/Functions/FunctionSum.cpp
+++ b/src/Functions/FunctionSum.cpp
@@ -137,6 +137,8 @@ FunctionExpression *deriv_sum_functions(
 }
 
 void FunctionExpression::operator+=(FunctionExpression &&that) {
+
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
@@ -153,6 +155,7 @@ void FunctionExpression::operator+=(FunctionExpression &&that) {
 
 void FunctionExpression::operator+=(const FunctionExpression &that) {
 
+  sum_throw(*this, that);
   Type initial_type = get_type();
   if (initial_type == UNIQUE) {
     type_ = SUM;
-- 
2.43.0


From 4135a4c9ec58bfa0856af344a1e11bc7764d3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:23 +0000
Subject: [PATCH 05/29] fix: compare domain ends with std::abs

Unqualified abs is the integer one unless some other header happens to pull
in stdlib.h (it is not with EIGEN_DONT_VECTORIZE or on other architectures),
and then domains less than 1 apart compare equal.
---
 src/Functions/FunctionBase.cpp    | 4 ++--
 src/Functions/FunctionsConcat.cpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Functions/FunctionBase.cpp b/src/Functions/FunctionBase.cpp
index 2f3b5dc..08258db 100644
--- a/src/Functions/FunctionBase.cpp
+++ b/src/Functions/FunctionBase.cpp
@@ -26,9 +26,9 @@ FunctionBase::FunctionBase(const FunctionBase &that)
 
 bool FunctionBase::same_domain(const FunctionBase &_f1,
                                const FunctionBase &_f2) {
-  bool err1 = abs(_f1.domain_.first - _f2.domain_.first) <
+  bool err1 = std::abs(_f1.domain_.first - _f2.domain_.first) <
               FunctionBase::dom_tollerance_;
-  bool err2 = abs(_f1.domain_.second - _f2.domain_.second) <
+  bool err2 = std::abs(_f1.domain_.second - _f2.domain_.second) <
               FunctionBase::dom_tollerance_;
 
   return err1 and err2;
diff --git a/src/Functions/FunctionsConcat.cpp b/src/Functions/FunctionsConcat.cpp
index 3048e14..5df703c 100644
--- a/src/Functions/FunctionsConcat.cpp
+++ b/src/Functions/FunctionsConcat.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <cmath>
 #include <gsplines/Functions/FunctionExpression.hpp>
 namespace gsplines {
 namespace functions {
@@ -11,7 +12,7 @@ void concat_throw(const FunctionExpression &_f1,
     throw std::invalid_argument("Functions with different codomains");
   }
 
-  if (abs(_f1.get_domain().second - _f2.get_domain().first) >
+  if (std::abs(_f1.get_domain().second - _f2.get_domain().first) >
       FunctionBase::dom_tollerance_)
     throw std::invalid_argument("Functions are not next each other");
 }
-- 
2.43.0


From d4ad82418d80164ec5060b20801f57d7c57bf332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:42 +0000
Subject: [PATCH 06/29] fix: make difference and in-place operators of gsplines
 instantiable

g - h on lvalues, g += h and g -= h did not compile: they returned an object
of the base class.
---
 include/gsplines/GSpline.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 07692ea..48771cf 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -184,7 +184,7 @@ class GSplineInheritanceHelper
     if (not Base::same_vector_space(that)) {
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
-    GSplineBase result = GSplineBase(*this);
+    Current result = Current(*this);
     result.coefficients_ -= that.coefficients_;
     return result;
   }
@@ -218,7 +218,7 @@ class GSplineInheritanceHelper
       throw std::invalid_argument("Cannot sum Incompatible Gspline");
     }
     Base::coefficients_ += that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current& operator-=(const Current& that) {
@@ -227,7 +227,7 @@ class GSplineInheritanceHelper
     }
 
     Base::coefficients_ -= that.coefficients_;
-    return *this;
+    return static_cast<Current&>(*this);
   }
 
   Current linear_scaling_new_execution_time(double _new_exec_time) const {
-- 
2.43.0


From 982ab9149e9f2162435431b7bd89ba755868ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:36 +0000
Subject: [PATCH 07/29] fix: derivative matrix of basis0101 for degrees above
 two

The matrix was squared once per degree instead of multiplied by the first
derivative matrix, so every derivative of degree three or more was wrong.
---
 src/Basis/Basis0101.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index fe4bd16..f0bdde1 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -169,8 +169,9 @@ Eigen::MatrixXd Basis0101::derivative_matrix_impl(std::size_t _deg) const {
 
   Q *= tauk;
 
+  const Eigen::MatrixXd D(Q);
   for (std::size_t i = 2; i <= _deg; i++) {
-    Q *= Q;
+    Q *= D;
   }
 
   return Q;
-- 
2.43.0


From 993c54d308b1eb3e8fa282ff2d7c1a6d217651ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 08/29] fix: interpolation between point sets looks for a match
 in every row

The match flag was never reset, so after the first shared point every row
without one was left zero.
---
 src/Basis/BasisLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 7c5e3d3..691926f 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -260,12 +260,12 @@ Eigen::MatrixXd BasisLagrange::change_interpolation_points(
   std::size_t book_m = _new_points.size();
   std::size_t book_n = _old_points.size();
   double t_book, s_book;
-  bool book_row_has_match = false;
 
   Eigen::MatrixXd result(book_m, book_n);
   Eigen::VectorXd bw = barycentric_weights(_old_points);
 
   for (std::size_t k = 0; k < book_m; k++) {
+    bool book_row_has_match = false;
     for (std::size_t j = 0; j < book_n; j++) {
       result(k, j) = 0.0;
       if (almost_equal(_new_points(k), _old_points(j), 1.0e-9)) {
-- 
2.43.0


From 93166ef30fb427da308a45cfb9c8cc157ef9591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:51 +0000
Subject: [PATCH 09/29] fix: Legendre derivatives of degree not below the
 dimension are zero

eval_derivative_on_window wrote outside of its buffer when the degree of the
derivative reached the dimension, and evaluation did so in dimension one.
---
 src/Basis/BasisLegendre.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 9c3b328..552a1e1 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -53,9 +53,15 @@ void BasisLegendre::eval_derivative_on_window(
   double aux = 0;
   double mutiplier = 1.0;
   _buff.setZero();
+  /// the derivatives of degree larger than the one of the polynomials are zero
+  if (_deg >= get_dim()) {
+    return;
+  }
   buff_next.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
   for (unsigned int i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
@@ -91,7 +97,9 @@ void BasisLegendre::eval_on_window(
     Eigen::Ref<Eigen::VectorXd, 0, Eigen::InnerStride<>> _buff) const {
   _buff.setZero();
   _buff(0) = 1.0;
-  _buff(1) = _s;
+  if (get_dim() > 1) {
+    _buff(1) = _s;
+  }
   for (std::size_t i = 1; i < get_dim() - 1; i++) {
     _buff(i + 1) =
         1.0 / ((double)i + 1.0) *
-- 
2.43.0


From 69590774b9d446fdf95ec69f7df4962bc1d870d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:07 +0000
Subject: [PATCH 10/29] fix: Gram matrices of Legendre derivatives were
 transposed

The derivative matrix maps coefficients to coefficients, so the Gram matrix
of the derivatives is D^T L D.
---
 src/Basis/BasisLegendre.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Basis/BasisLegendre.cpp b/src/Basis/BasisLegendre.cpp
index 552a1e1..2fd244c 100644
--- a/src/Basis/BasisLegendre.cpp
+++ b/src/Basis/BasisLegendre.cpp
@@ -28,8 +28,8 @@ BasisLegendre::BasisLegendre(std::size_t _dim)
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
   for (std::size_t i = 1; i < _dim + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat *= derivative_matrix_;
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From 8c0c1a065dc23eabefc280f33f88af2a66807387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:07 +0000
Subject: [PATCH 11/29] fix: Gram matrices of Lagrange bases

The mass matrix was left uninitialised off its diagonal and assumed
Gauss-Lobatto nodes, and the derivative ones were transposed.
---
 src/Basis/BasisLagrange.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Basis/BasisLagrange.cpp b/src/Basis/BasisLagrange.cpp
index 691926f..6326842 100644
--- a/src/Basis/BasisLagrange.cpp
+++ b/src/Basis/BasisLagrange.cpp
@@ -40,19 +40,22 @@ BasisLagrange::BasisLagrange(Eigen::Ref<const Eigen::VectorXd> _domain_points)
 
   Eigen::MatrixXd dmat(derivative_matrix_);
 
+  /// Gauss-Lobatto quadrature with one more point is exact for the products of
+  /// two basis functions
   Eigen::MatrixXd points_to_glp_matrix(change_interpolation_points(
-      _domain_points, collocation::legendre_gauss_lobatto_points(get_dim())));
+      domain_points_,
+      collocation::legendre_gauss_lobatto_points(get_dim() + 1)));
 
-  Eigen::MatrixXd l2normbase_matrix(get_dim(), get_dim());
-
-  l2normbase_matrix.diagonal() =
-      collocation::legendre_gauss_lobatto_weights(get_dim());
+  Eigen::MatrixXd l2normbase_matrix =
+      points_to_glp_matrix.transpose() *
+      collocation::legendre_gauss_lobatto_weights(get_dim() + 1).asDiagonal() *
+      points_to_glp_matrix;
 
   derivative_matrices_buffer_.push_back(l2normbase_matrix);
 
   for (std::size_t i = 1; i < get_dim() + 1; i++) {
-    derivative_matrices_buffer_.push_back(dmat * l2normbase_matrix *
-                                          dmat.transpose());
+    derivative_matrices_buffer_.push_back(dmat.transpose() * l2normbase_matrix *
+                                          dmat);
     dmat = derivative_matrix(domain_points_, i + 1);
   }
   // get_derivative_matrix(get_dim());
-- 
2.43.0


From f3798a7ee8be148cb3f9e95e1d596d63b7e8578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:44 +0000
Subject: [PATCH 12/29] fix: Gram matrix of second derivatives of basis0101

The block carried tau^2 in place of the factor 4 of the chain rule.
---
 src/Basis/Basis0101.cpp | 112 ++++++++++++++++++++--------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/src/Basis/Basis0101.cpp b/src/Basis/Basis0101.cpp
index f0bdde1..d4e00e0 100644
--- a/src/Basis/Basis0101.cpp
+++ b/src/Basis/Basis0101.cpp
@@ -640,98 +640,98 @@ void compute_Qd2_block(double _tau, double _alpha,
   double k =
       0.35355339059327379 * pow(_alpha, 0.25) * pow(1.0 / (1.0 - _alpha), 0.25);
   _res(0, 0) =
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
+      3.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) *
           pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (3.0 * pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
+      (3.0 * 4.0 * pow(k, 3) * pow(sin(_tau * k), 2) +
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
   _res(0, 1) =
-      -pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      -4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) -
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
+      (-4.0 * pow(k, 3) * pow(sin(_tau * k), 2) +
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
-  _res(0, 2) = -8.0 * pow(_tau, 3) * pow(k, 4) +
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
+  _res(0, 2) = -8.0 * 4.0 * _tau * pow(k, 4) +
+               8.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
   _res(0, 3) = 0;
   _res(0, 4) = 0;
   _res(0, 5) = 0;
   _res(1, 0) =
-      -pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      -4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) -
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
+      (-4.0 * pow(k, 3) * pow(sin(_tau * k), 2) +
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
   _res(1, 1) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) +
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
+      3.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) *
           pow(cos(_tau * k), 2) -
-      (pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) -
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       3.0 * pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      (4.0 * pow(k, 3) * pow(sin(_tau * k), 2) -
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       3.0 * 4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
   _res(1, 2) = 0;
-  _res(1, 3) = -8.0 * pow(_tau, 3) * pow(k, 4) -
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
+  _res(1, 3) = -8.0 * 4.0 * _tau * pow(k, 4) -
+               8.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
   _res(1, 4) = 0;
   _res(1, 5) = 0;
-  _res(2, 0) = -8.0 * pow(_tau, 3) * pow(k, 4) +
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
+  _res(2, 0) = -8.0 * 4.0 * _tau * pow(k, 4) +
+               8.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
   _res(2, 1) = 0;
   _res(2, 2) =
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
+      3.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) *
           pow(sin(_tau * k), 2) -
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) +
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
-      (3.0 * pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) -
+      (3.0 * 4.0 * pow(k, 3) * pow(sin(_tau * k), 2) +
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
   _res(2, 3) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) -
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) +
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) +
+      (-4.0 * pow(k, 3) * pow(sin(_tau * k), 2) +
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
   _res(2, 4) = 0;
   _res(2, 5) = 0;
   _res(3, 0) = 0;
-  _res(3, 1) = -8.0 * pow(_tau, 3) * pow(k, 4) -
-               8.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
+  _res(3, 1) = -8.0 * 4.0 * _tau * pow(k, 4) -
+               8.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k);
   _res(3, 2) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) -
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) +
-      (-pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) +
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(cos(_tau * k), 2) +
+      (-4.0 * pow(k, 3) * pow(sin(_tau * k), 2) +
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
   _res(3, 3) =
-      pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
-      2.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
+      4.0 * pow(k, 3) * exp(2 * _tau * k) * pow(sin(_tau * k), 2) +
+      2.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) * sin(_tau * k) *
           cos(_tau * k) +
-      3.0 * pow(_tau, 2) * pow(k, 3) * exp(2 * _tau * k) *
+      3.0 * 4.0 * pow(k, 3) * exp(2 * _tau * k) *
           pow(cos(_tau * k), 2) -
-      (pow(_tau, 2) * pow(k, 3) * pow(sin(_tau * k), 2) -
-       2.0 * pow(_tau, 2) * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
-       3.0 * pow(_tau, 2) * pow(k, 3) * pow(cos(_tau * k), 2)) *
+      (4.0 * pow(k, 3) * pow(sin(_tau * k), 2) -
+       2.0 * 4.0 * pow(k, 3) * sin(_tau * k) * cos(_tau * k) +
+       3.0 * 4.0 * pow(k, 3) * pow(cos(_tau * k), 2)) *
           exp(-2 * _tau * k);
   _res(3, 4) = 0;
   _res(3, 5) = 0;
-- 
2.43.0


From 02141dca62415e0c49ddb65075a2ea4d14870789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:19 +0000
Subject: [PATCH 13/29] fix: each Sobolev weight applies to its own order only

The accumulated matrix was multiplied by every weight, so with several
pairs the weights compounded.
---
 src/FunctionalAnalysis/Sobolev.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FunctionalAnalysis/Sobolev.cpp b/src/FunctionalAnalysis/Sobolev.cpp
index 4fd654c..87254d5 100644
--- a/src/FunctionalAnalysis/Sobolev.cpp
+++ b/src/FunctionalAnalysis/Sobolev.cpp
@@ -50,8 +50,9 @@ void SobolevNorm::deriv_wrt_interval_len(
     // initialize the matrix buffers and compute the de matrix values
     matrix_.setZero();
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix_deriv_wrt_tau(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     // compute y^T dQdtau_i y
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
@@ -79,8 +80,9 @@ double SobolevNorm::inner_prod(
     matrix_.setZero();
     tau = _interval_lengths(interval_coor);
     for (std::pair<std::size_t, double> w : weights_) {
-      basis_->add_derivative_matrix(tau, w.first, matrix_);
-      matrix_ *= w.second;
+      matrix_2_.setZero();
+      basis_->add_derivative_matrix(tau, w.first, matrix_2_);
+      matrix_ += w.second * matrix_2_;
     }
     for (codom_coor = 0; codom_coor < codom_dim_; codom_coor++) {
       const Eigen::Ref<const Eigen::VectorXd> v1 = get_coefficient_segment(
-- 
2.43.0


From c3d5387db86cdad54e29af278321dc0f13bf6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:41 +0000
Subject: [PATCH 14/29] fix: splines over different domains are not in the same
 vector space

---
 src/GSpline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 7231b74..72b5fb2 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -194,7 +194,7 @@ Eigen::MatrixXd GSplineBase::get_waypoints() const {
 }
 
 bool GSplineBase::same_vector_space(const GSplineBase& _that) const {
-  return get_basis() == _that.get_basis() and
+  return get_basis() == _that.get_basis() and same_domain(*this, _that) and
          get_codom_dim() == _that.get_codom_dim() and
          tools::approx_equal(get_interval_lengths(),
                              _that.get_interval_lengths(), 1.0e-8);
-- 
2.43.0


From 6794edfea9507d33e4f2d90e09c94515c51d17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:42 +0000
Subject: [PATCH 15/29] fix: comparison of splines looks at their domains

---
 src/Tools.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Tools.cpp b/src/Tools.cpp
index dd69101..7203186 100644
--- a/src/Tools.cpp
+++ b/src/Tools.cpp
@@ -46,7 +46,12 @@ bool approx_equal(const Eigen::MatrixXd &_lhs, const Eigen::MatrixXd &_rhs,
 bool approx_equal(const GSplineBase &_lhs, const GSplineBase &_rhs,
                   double _tol) {
 
-  return approx_equal(_lhs.get_coefficients(), _rhs.get_coefficients(),
+  return approx_equal(_lhs.get_domain().first, _rhs.get_domain().first,
+                      _tol) and
+         approx_equal(_lhs.get_domain().second, _rhs.get_domain().second,
+                      _tol) and
+         _lhs.get_codom_dim() == _rhs.get_codom_dim() and
+         approx_equal(_lhs.get_coefficients(), _rhs.get_coefficients(),
                       _tol) and
          approx_equal(_lhs.get_interval_lengths(), _rhs.get_interval_lengths(),
                       _tol) and
-- 
2.43.0


From 4dac3339d44e05d3db9a5d64d849a44ec8059930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:37 +0000
Subject: [PATCH 16/29] fix: scaling to velocity and acceleration limits
 accepts either limit alone

The size check and the ratios read the value of both optional limits, so
giving only one of them raised bad_optional_access.
---
 include/gsplines/GSpline.hpp | 56 ++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/include/gsplines/GSpline.hpp b/include/gsplines/GSpline.hpp
index 48771cf..df250d2 100644
--- a/include/gsplines/GSpline.hpp
+++ b/include/gsplines/GSpline.hpp
@@ -292,8 +292,10 @@ class GSplineInheritanceHelper
     if (_dt < 1.0e-8) {
       throw std::invalid_argument("dt cannot be negative or too small");
     }
-    if (_velocity_bound.value().size() != this->get_codom_dim() ||
-        _acceleration_bound.value().size() != this->get_codom_dim()) {
+    if ((_velocity_bound.has_value() &&
+         _velocity_bound->size() != this->get_codom_dim()) ||
+        (_acceleration_bound.has_value() &&
+         _acceleration_bound->size() != this->get_codom_dim())) {
       throw std::invalid_argument(
           "Bounds for velocity and acceleration must correspont to codom dim");
     }
@@ -309,29 +311,33 @@ class GSplineInheritanceHelper
     const gsplines::functions::FunctionExpression gspline_diff_2 =
         gspline_diff_1.derivate();
 
-    Eigen::MatrixXd gspline_diff_1_evaluated = gspline_diff_1(time_spam);
-    Eigen::MatrixXd gspline_diff_2_evaluated = gspline_diff_2(time_spam);
-
-    const Eigen::Map<const Eigen::VectorXd> velocity_bound(
-        _velocity_bound.value().data(),
-        static_cast<long>(_velocity_bound.value().size()));
-    const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
-        _acceleration_bound.value().data(),
-        static_cast<long>(_acceleration_bound.value().size()));
-
-    const double max_velocity_ratio =
-        (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
-         velocity_bound.transpose().array())
-            .maxCoeff();
-
-    const double max_acceleration_ratio =
-        Eigen::sqrt(
-            gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
-            acceleration_bound.transpose().array())
-            .maxCoeff();
-
-    const double time_scale_factor =
-        std::max(max_velocity_ratio, max_acceleration_ratio);
+    double time_scale_factor = 0.0;
+
+    if (_velocity_bound.has_value()) {
+      const Eigen::MatrixXd gspline_diff_1_evaluated =
+          gspline_diff_1(time_spam);
+      const Eigen::Map<const Eigen::VectorXd> velocity_bound(
+          _velocity_bound->data(), static_cast<long>(_velocity_bound->size()));
+      const double max_velocity_ratio =
+          (gspline_diff_1_evaluated.array().abs().colwise().maxCoeff() /
+           velocity_bound.transpose().array())
+              .maxCoeff();
+      time_scale_factor = std::max(time_scale_factor, max_velocity_ratio);
+    }
+
+    if (_acceleration_bound.has_value()) {
+      const Eigen::MatrixXd gspline_diff_2_evaluated =
+          gspline_diff_2(time_spam);
+      const Eigen::Map<const Eigen::VectorXd> acceleration_bound(
+          _acceleration_bound->data(),
+          static_cast<long>(_acceleration_bound->size()));
+      const double max_acceleration_ratio =
+          Eigen::sqrt(
+              gspline_diff_2_evaluated.array().abs().colwise().maxCoeff() /
+              acceleration_bound.transpose().array())
+              .maxCoeff();
+      time_scale_factor = std::max(time_scale_factor, max_acceleration_ratio);
+    }
 
     Eigen::VectorXd new_domain_interva_lengths =
         Base::domain_interval_lengths_ * time_scale_factor;
-- 
2.43.0


From 6f422fcda84e9a0157c2ef32b24f06f562d95e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:21 +0000
Subject: [PATCH 17/29] fix: derivative rows of the continuity matrix

They were taken from the first and last row of the derivative matrix, which
are the end values only for a Lagrange basis with nodes at both ends.
---
 src/Basis/Basis.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/Basis/Basis.cpp b/src/Basis/Basis.cpp
index 5d317fa..4dbb644 100644
--- a/src/Basis/Basis.cpp
+++ b/src/Basis/Basis.cpp
@@ -60,15 +60,9 @@ const Eigen::SparseMatrix<double, Eigen::RowMajor>& Basis::continuity_matrix(
     Eigen::MatrixXd left_buffer(_deriv_order + 1, get_dim());
     Eigen::MatrixXd right_buffer(_deriv_order + 1, get_dim());
 
-    get_derivative_matrix_block(_deriv_order);
-
-    eval_derivative_on_window(-1.0, 2.0, 0, left_buffer.row(0));
-    eval_derivative_on_window(1.0, 2.0, 0, right_buffer.row(0));
-
-    for (std::size_t der = 1; der <= _deriv_order; der++) {
-      const Eigen::MatrixXd& dblock = get_derivative_matrix_block(der);
-      left_buffer.row(der) = dblock.row(0);
-      right_buffer.row(der) = dblock.bottomRows(1);
+    for (std::size_t der = 0; der <= _deriv_order; der++) {
+      eval_derivative_on_window(-1.0, 2.0, der, left_buffer.row(der));
+      eval_derivative_on_window(1.0, 2.0, der, right_buffer.row(der));
     }
 
     std::size_t i0, j0;
-- 
2.43.0


From c40ef319a6548eb542982996cfcc876167a45c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:27 +0000
Subject: [PATCH 18/29] fix: Gauss-Lobatto points over intervals of different
 lengths

The left end of an interval was its index times its own length instead of
the sum of the previous lengths.
---
 src/Collocation/GaussLobattoPointsWeights.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Collocation/GaussLobattoPointsWeights.cpp b/src/Collocation/GaussLobattoPointsWeights.cpp
index 6cca8b7..03e2f1c 100644
--- a/src/Collocation/GaussLobattoPointsWeights.cpp
+++ b/src/Collocation/GaussLobattoPointsWeights.cpp
@@ -184,16 +184,16 @@ legendre_gauss_lobatto_points(double _left_bound, std::size_t _nglp,
 
   Eigen::VectorXd glp = legendre_gauss_lobatto_points(_nglp);
 
-  double left_bound = _left_bound;
+  double local_left_bound = _left_bound;
 
   Eigen::VectorXd result(_nglp * _intervals.size());
 
   for (long interval = 0; interval < _intervals.size(); interval++) {
 
-    double local_left_bound = left_bound + interval * _intervals[interval];
-
     result.segment(interval * _nglp, _nglp) =
         (glp.array() + 1.0) * _intervals[interval] / 2.0 + local_left_bound;
+
+    local_left_bound += _intervals[interval];
   }
   return result;
 }
-- 
2.43.0


From ed9528a8ed06f861bcc4600f525a1f732784707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 19/29] fix: setting a collocation spline from an array

The overload without a function did not compile, and vectors of the wrong
size were not refused because the exceptions were built but not thrown.
---
 .../Collocation/GaussLobattoLagrange.hpp      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 7212784..0cb544c 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -150,24 +150,24 @@ public:
       long index = std::distance(_begin, it);
       long interval = index / get_basis().get_dim();
       decltype(auto) vec = _fun(*it);
-      if (vec.cols() != 1) {
-        std::invalid_argument("This function only accept eigen row vectors");
+      if (vec.rows() != 1 and vec.cols() != 1) {
+        throw std::invalid_argument("This function only accept eigen vectors");
       }
-      if (vec.rows() != static_cast<long>(get_codom_dim())) {
-        std::invalid_argument(__FILE__ "Vector dimension error");
+      if (vec.size() != static_cast<long>(get_codom_dim())) {
+        throw std::invalid_argument(__FILE__ "Vector dimension error");
+      }
+      for (long j = 0; j < vec.size(); j++) {
+        get_value_block(interval)(index % get_basis().get_dim(), j) =
+            vec.rows() == 1 ? vec(0, j) : vec(j, 0);
       }
-      get_value_block(interval).row(index % get_basis().get_dim()) = vec;
     }
   }
 
   template <typename IteratorType>
   void set_from_array(std::pair<double, double> _domain,
                       const IteratorType &_begin, const IteratorType &_end) {
-    set_domain(_domain);
-    set_from_array(_begin, _end,
-                   [](const Eigen::MatrixXd &_in) -> const Eigen::MatrixXd & {
-                     return _in;
-                   });
+    set_from_array(_domain, _begin, _end,
+                   [](const auto &_in) -> const auto & { return _in; });
   }
 
   bool same_discretization(const GaussLobattoLagrangeSpline &_that) const;
-- 
2.43.0


From 93136aae676727bdc880ce3e6b5c86fbd2208bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 20/29] fix: collocation spline built from a function has the
 requested shape

The constructor passed the numbers of intervals and points swapped.
---
 src/Collocation/GaussLobattoLagrange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index a856c26..3fa5a18 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -55,7 +55,7 @@ GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(GSpline &&_that)
 GaussLobattoLagrangeSpline::GaussLobattoLagrangeSpline(
     const ::gsplines::functions::FunctionBase &_that, std::size_t _n_intervals,
     std::size_t _n_glp)
-    : GaussLobattoLagrangeSpline(approximate(_that, _n_intervals, _n_glp)) {}
+    : GaussLobattoLagrangeSpline(approximate(_that, _n_glp, _n_intervals)) {}
 
 GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
     const GaussLobattoLagrangeSpline &_that) & {
-- 
2.43.0


From 7d7ea7137ec02c28ebc96436dfa36c925d7f27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 21/29] fix: assignment of collocation splines takes the
 interval lengths

Only the domain and the coefficients were taken, so the result was a
different function.
---
 src/Collocation/GaussLobattoLagrange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 3fa5a18..2bc6e27 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -67,6 +67,7 @@ GaussLobattoLagrangeSpline &GaussLobattoLagrangeSpline::operator=(
 
   set_domain(_that.get_domain());
 
+  domain_interval_lengths_ = _that.domain_interval_lengths_;
   coefficients_ = _that.coefficients_;
   return *this;
 }
@@ -81,6 +82,7 @@ GaussLobattoLagrangeSpline::operator=(GaussLobattoLagrangeSpline &&_that) & {
     throw std::invalid_argument("Assigmention requires same codomain");
 
   set_domain(_that.get_domain());
+  domain_interval_lengths_ = std::move(_that.domain_interval_lengths_);
   coefficients_ = std::move(_that.coefficients_);
   return *this;
 }
-- 
2.43.0


From 433125f9f67533e6792d9cc6e4b7b8a0767d1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 22/29] fix: discretisation of a collocation spline with
 unequal intervals

The nodes were reported for intervals of equal lengths.
---
 include/gsplines/Collocation/GaussLobattoLagrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrange.hpp b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
index 0cb544c..60cffb2 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrange.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrange.hpp
@@ -112,8 +112,8 @@ public:
 
   std::size_t get_nglp() const { return get_basis_dim(); }
   Eigen::VectorXd get_domain_discretization() const {
-    return legendre_gauss_lobatto_points(get_domain(), get_nglp(),
-                                         get_number_of_intervals());
+    return legendre_gauss_lobatto_points(get_domain().first, get_nglp(),
+                                         get_interval_lengths());
   }
 
   GaussLobattoLagrangeSpline
-- 
2.43.0


From f7e578b5a73a9da9e7c388ec1b70f44bc3c7e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:35 +0000
Subject: [PATCH 23/29] fix: product of collocation splines with different
 breakpoints is refused

Values at different nodes were multiplied.
---
 src/Collocation/GaussLobattoLagrange.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Collocation/GaussLobattoLagrange.cpp b/src/Collocation/GaussLobattoLagrange.cpp
index 2bc6e27..86b16f9 100644
--- a/src/Collocation/GaussLobattoLagrange.cpp
+++ b/src/Collocation/GaussLobattoLagrange.cpp
@@ -229,6 +229,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -257,6 +260,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -297,6 +303,9 @@ GaussLobattoLagrangeSpline GaussLobattoLagrangeSpline::operator*(
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
@@ -337,6 +346,9 @@ GaussLobattoLagrangeSpline::operator*(GaussLobattoLagrangeSpline &&_that) && {
     throw std::invalid_argument("Discretization must be the same");
   if (not same_domain(_that))
     throw std::invalid_argument("GSplines must have same domain");
+  if (not tools::approx_equal(get_interval_lengths(),
+                              _that.get_interval_lengths(), 1.0e-7))
+    throw std::invalid_argument("GSplines must have same interval lengths");
   if (not(get_codom_dim() == 1 or _that.get_codom_dim() == 1))
     throw std::invalid_argument("Multiplication can be only done by scalars");
 
-- 
2.43.0


From 279cc33f6d3160ea3156906cde4b19a9825cff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:59 +0000
Subject: [PATCH 24/29] fix: spline construction checks the number of interval
 lengths

---
 src/GSpline.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 72b5fb2..605c874 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -62,6 +62,12 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
         ". However, the number of coeff was " +
         std::to_string(coefficients_.size()));
   }
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is " +
+        std::to_string(domain_interval_lengths_.size()) + ", required " +
+        std::to_string(_n_intervals));
+  }
 }
 
 GSplineBase::GSplineBase(std::pair<double, double> _domain,
@@ -86,6 +92,12 @@ GSplineBase::GSplineBase(std::pair<double, double> _domain,
         ". However, the number of coeff was " +
         std::to_string(coefficients_.size()));
   }
+  if (domain_interval_lengths_.size() != (long)_n_intervals) {
+    throw std::invalid_argument(
+        "GSplineBase instantation Error: The number of interval lengths is " +
+        std::to_string(domain_interval_lengths_.size()) + ", required " +
+        std::to_string(_n_intervals));
+  }
 }
 
 void GSplineBase::value_impl(
-- 
2.43.0


From 643cade6ee22c9dcce000138c0bafaccfb43796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:16 +0000
Subject: [PATCH 25/29] fix: interpolator refuses waypoints of the wrong shape

---
 src/Interpolator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Interpolator.cpp b/src/Interpolator.cpp
index ef00399..2cc0504 100644
--- a/src/Interpolator.cpp
+++ b/src/Interpolator.cpp
@@ -350,6 +350,11 @@ const Eigen::Ref<const Eigen::VectorXd> Interpolator::solve_interpolation(
   if ((_interval_lengths.array() < 1.0e-6).any()) {
     throw std::invalid_argument(" Interval lenghts cannot be negative !");
   }
+  if (_waypoints.rows() != (long)num_intervals_ + 1 or
+      _waypoints.cols() != (long)codom_dim_) {
+    throw std::invalid_argument(
+        "The matrix of waypoints is not of the required dimension");
+  }
   // 1. fill the interpolating matrix
   fill_interpolating_matrix(_interval_lengths);
   // 2. fill the interpolating vector
-- 
2.43.0


From 2d8d49a465ca7fc6fedd5a9cc05fb36d429412d5 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 26/29] fix: the integral functional accepts new interval
 lengths

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index ce09d64..de67f7d 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -68,12 +68,13 @@ Integral::Integral(const GaussLobattoLagrangeSpline &_in)
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
+  nglp_ = _nglp;
   mat_.noalias() =
       legendre_gauss_lobatto_weights(_domain, _nglp, _n_intervals).transpose();
 }
 
 void Integral::update(const Eigen::VectorXd &_intervals) {
-  if (static_cast<long>(_intervals.size() * nglp_) != mat_.rows()) {
+  if (static_cast<long>(_intervals.size() * nglp_) != mat_.cols()) {
     throw std::invalid_argument(" Invaled size of intervals vector");
   }
   mat_.noalias() =
-- 
2.43.0


From 02787aea76f8eaf999556f3bb2593fa3028f42a1 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 27/29] fix: integral of a collocation spline with unequal
 intervals

---
 src/Collocation/GaussLobattoLagrangeFunctionals.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
index de67f7d..8f7f05c 100644
--- a/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
+++ b/src/Collocation/GaussLobattoLagrangeFunctionals.cpp
@@ -63,8 +63,11 @@ Integral::Integral(std::tuple<double, double> _domain, std::size_t _nglp,
       nglp_(_nglp) {}
 
 Integral::Integral(const GaussLobattoLagrangeSpline &_in)
-    : Integral(_in.get_domain(), _in.get_basis().get_dim(),
-               _in.get_number_of_intervals()) {}
+    : LinearFunctionalDense(
+          legendre_gauss_lobatto_weights(_in.get_basis().get_dim(),
+                                         _in.get_interval_lengths())
+              .transpose()),
+      nglp_(_in.get_basis().get_dim()) {}
 
 void Integral::update(std::tuple<double, double> _domain, std::size_t _nglp,
                       std::size_t _n_intervals) {
-- 
2.43.0


From cbed00d1c643d81f88326125b45a741db62d8726 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 11:50:57 +0000
Subject: [PATCH 28/29] fix: constant matrix multiplication functional uses
 rows as rows

---
 .../gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
index d49e899..4643e81 100644
--- a/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
+++ b/include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp
@@ -395,13 +395,13 @@ public:
       long interval = index / nglp_;
 
       for (long col = 0; col < matrix_cols_; col++) {
-        for (long row = 0; row < matrix_cols_; row++) {
+        for (long row = 0; row < matrix_rows_; row++) {
 
           std::size_t j0 =
               col * nglp_ + interval * nglp_ * matrix_cols_ + index % nglp_;
           std::size_t i0 =
               row * nglp_ + interval * nglp_ * matrix_rows_ + index % nglp_;
-          mat_.coeffRef(i0, j0) = _mat(col, row);
+          mat_.coeffRef(i0, j0) = _mat(row, col);
         }
       }
     }
-- 
2.43.0


From 6b77e1e8e3f15f57a0378039844fbfe591a8d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:17 +0000
Subject: [PATCH 29/29] fix: a random spline covers exactly the requested
 domain

---
 src/GSpline.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GSpline.cpp b/src/GSpline.cpp
index 605c874..a18d416 100644
--- a/src/GSpline.cpp
+++ b/src/GSpline.cpp
@@ -254,8 +254,11 @@ GSpline random_gspline(std::pair<double, double> _domain,
       3 * Eigen::MatrixXd::Random(static_cast<long>(number_of_intervals) + 1,
                                   static_cast<long>(_codom_dim));
 
-  const GSpline result = interpolate(tau, wp, _basis);
-  return result.linear_scaling_new_execution_time(_domain.second);
+  const GSpline result = interpolate(tau, wp, _basis)
+                             .linear_scaling_new_execution_time(
+                                 _domain.second - _domain.first);
+  return GSpline(_domain, _codom_dim, number_of_intervals, _basis,
+                 result.get_coefficients(), result.get_interval_lengths());
 }
 
 }  // namespace gsplines
-- 
2.43.0

