#!/usr/bin/env python3
"""Second batch of planted bugs."""
import sys; sys.path.insert(0,"/verif/tools")
from mkseed import mk
want=set(sys.argv[1:])
def S(id,*a):
    if not want or id in want: mk(id,*a)

S("s04-gram-slope-top","C04",[("src/Basis/BasisLagrange.cpp","""                          : 1.0 / 2.0;
  /// if the requested derivative degree is larger that the degrre od the
  /// polynomial +1 the resuls the derivative matrix is zero.
  /// As a consequence, we do not sum anything here
  if (_deg < get_dim() + 1) {""","""                          : 1.0 / 2.0;
  /// if the requested derivative degree is larger that the degrre od the
  /// polynomial +1 the resuls the derivative matrix is zero.
  /// As a consequence, we do not sum anything here
  if (_deg + 1 < get_dim()) {""")],r'''
#include <gsplines/Basis/BasisLagrange.hpp>
#include <cmath>
using namespace gsplines;
int main() {
  basis::BasisLagrangeGaussLobatto b(4);
  Eigen::MatrixXd up = Eigen::MatrixXd::Zero(4, 4), dn = up, d = up;
  double tau = 1.3, h = 1e-4;
  b.add_derivative_matrix(tau + h, 3, up);
  b.add_derivative_matrix(tau - h, 3, dn);
  b.add_derivative_matrix_deriv_wrt_tau(tau, 3, d);
  Eigen::MatrixXd fd = (up - dn) / (2 * h);
  return (fd - d).cwiseAbs().maxCoeff() > 1e-3 * (1 + fd.cwiseAbs().maxCoeff());
}
''',"A Lagrange basis and the derivative order equal to the polynomial degree (dimension minus one).",
"The sensitivity of the Gram matrix of the top derivative order of a Lagrange basis with respect to the interval length is silently left out.")

S("s05-stale-matrix","C05",[("src/Interpolator.cpp","""  fill_buffers(-1.0, _interval_lengths(0));

  fill_position_block(i0, j0, interpolating_matrix_);
  i0 += codom_dim_;

  fill_boundary_derivative_block(i0, j0, interpolating_matrix_);""","""  // the matrix of the previous call is still valid for the same lengths
  const double fingerprint = _interval_lengths.sum();
  if (interpolating_matrix_.nonZeros() > 0 and
      fingerprint == last_interval_lengths_) {
    return;
  }
  last_interval_lengths_ = fingerprint;

  fill_buffers(-1.0, _interval_lengths(0));

  fill_position_block(i0, j0, interpolating_matrix_);
  i0 += codom_dim_;

  fill_boundary_derivative_block(i0, j0, interpolating_matrix_);"""),
 ("include/gsplines/Interpolator.hpp","  Eigen::VectorXd position_buffer_;","  double last_interval_lengths_ = 0.0;\n  Eigen::VectorXd position_buffer_;")],r'''
#include <gsplines/Interpolator.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
using namespace gsplines;
int main() {
  Eigen::VectorXd t1(2), t2(2);
  t1 << 1.0, 3.0;
  t2 << 3.0, 1.0;
  Eigen::MatrixXd wp(3, 1);
  wp << 0.0, 1.0, -1.0;
  basis::BasisLegendre b(4);
  Interpolator used(1, 2, b), fresh(1, 2, b);
  used.interpolate(t1, wp);
  GSpline a = used.interpolate(t2, wp), c = fresh.interpolate(t2, wp);
  return (a.get_coefficients() - c.get_coefficients()).cwiseAbs().maxCoeff() > 1e-7;
}
''',"The same interpolator used twice with different interval lengths that add up to the same total.",
"The second interpolation keeps the matrix of the first, so the spline is not smooth at the breakpoints of the new lengths.")

S("s06-stale-boundary","C06",[("src/Interpolator.cpp","""    fill_buffers_deriv_wrt_tau(-1.0, _interval_lengths(_tau_idx));

    fill_continuity_derivative_block(i0, j0, true, mat);
    i0 += codom_dim_ * (basis_->get_dim() - 2);
""","""    fill_buffers_deriv_wrt_tau(-1.0, _interval_lengths(_tau_idx));

    // the entries of the left end are written once
    if (mat.coeff(i0, j0 + 1) == 0.0) {
      fill_continuity_derivative_block(i0, j0, true, mat);
    }
    i0 += codom_dim_ * (basis_->get_dim() - 2);
""")],r"""
#include <gsplines/Interpolator.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
using namespace gsplines;
int main() {
  Eigen::VectorXd t1(3), t2(3);
  t1 << 1.0, 3.0, 1.0;
  t2 << 0.5, 2.0, 1.5;
  Eigen::MatrixXd wp(4, 1);
  wp << 0.0, 1.0, -1.0, 0.5;
  basis::BasisLegendre b(6);
  Interpolator used(1, 3, b), plus(1, 3, b), minus(1, 3, b);
  Eigen::VectorXd c1 = used.solve_interpolation(t1, wp);
  used.get_coeff_derivative_wrt_tau(c1, t1, 1);
  Eigen::VectorXd c2 = used.solve_interpolation(t2, wp);
  Eigen::VectorXd a = used.get_coeff_derivative_wrt_tau(c2, t2, 1);
  Eigen::VectorXd tp = t2, tm = t2;
  tp(1) += 1.0e-5;
  tm(1) -= 1.0e-5;
  Eigen::VectorXd cp = plus.solve_interpolation(tp, wp);
  Eigen::VectorXd cm = minus.solve_interpolation(tm, wp);
  Eigen::VectorXd d = (cp - cm) / 2.0e-5;
  return (a - d).cwiseAbs().maxCoeff() > 1.0e-4;
}
""","An interpolator asked for the sensitivity to an inner interval at one set of lengths and again at another.",
"The continuity rows at the left end of the interval keep the lengths of the earlier call.")

S("s07-gradient-weight","C07",[("src/FunctionalAnalysis/Sobolev.cpp","""    result += 2.0 * inner_prod(_interval_lengths, coeff, dy_dtau_i);
    _buff[interval_coor] = result;""","""    if (dy_dtau_i.lpNorm<Eigen::Infinity>() > 1.0e-3) {
      result += 2.0 * inner_prod(_interval_lengths, coeff, dy_dtau_i);
    }
    _buff[interval_coor] = result;""")],r'''
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <cmath>
using namespace gsplines;
int main() {
  Eigen::MatrixXd wp(3, 1);
  wp << 0.0, 1.0e-4, -2.0e-4;
  basis::BasisLegendre b(4);
  functional_analysis::SobolevNorm n(wp, b, {{1, 1.0e8}});
  Eigen::VectorXd t(2), g(2), u, d;
  t << 1.0, 1.7;
  n.deriv_wrt_interval_len(t, g);
  for (int i = 0; i < 2; i++) {
    u = t; d = t; u(i) += 1e-5; d(i) -= 1e-5;
    double fd = (n(u) - n(d)) / 2e-5;
    if (std::abs(fd - g(i)) > 1e-4 * (1 + std::abs(fd))) return 1;
  }
  return 0;
}
''',"Waypoints so close together that the sensitivities of the coefficients stay below one in a thousand.",
"The term with the sensitivity of the coefficients is left out of the gradient.")

S("s09-dot-second","C09",[("src/Functions/ElementalFunctions.cpp","""  FunctionExpression *result = first_deriv_impl(_deg);
  FunctionExpression *buffer_pointer = result;
""","""  if (_deg == 2) {
    return new FunctionExpression(f1_.derivate(2).dot(f2_) +
                                  f1_.derivate().dot(f2_.derivate()) +
                                  f1_.dot(f2_.derivate(2)));
  }

  FunctionExpression *result = first_deriv_impl(_deg);
  FunctionExpression *buffer_pointer = result;
""")],r'''
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cmath>
using namespace gsplines::functions;
int main() {
  Identity x({0.0, 2.0});
  Sin s({0.0, 2.0});
  FunctionExpression d2 = x.dot(s).derivate(2);
  Eigen::VectorXd p(1);
  p << 0.7;
  return std::abs(d2(p)(0, 0) - (2 * std::cos(0.7) - 0.7 * std::sin(0.7))) > 1e-9;
}
''',"A dot product differentiated twice at once (not in two steps).",
"The cross term of the second derivative of a dot product is counted once instead of twice.")

S("s11-steals","C11",[("src/Functions/FunctionGenericOperations.cpp","""    const FunctionExpression &_first, FunctionExpression &&_second,
    FunctionExpression::Type _opt_type) {

  std::list<std::unique_ptr<FunctionBase>> result_array;
  if (_first.get_type() == _opt_type or
      _first.get_type() == FunctionExpression::UNIQUE) {

    std::transform(_first.function_array_.begin(), _first.function_array_.end(),
                   std::back_inserter(result_array),
                   [](const std::unique_ptr<FunctionBase> &element) {
                     return element->clone();""","""    const FunctionExpression &_first, FunctionExpression &&_second,
    FunctionExpression::Type _opt_type) {

  std::list<std::unique_ptr<FunctionBase>> result_array;
  if (_first.get_type() == _opt_type or
      _first.get_type() == FunctionExpression::UNIQUE) {

    std::transform(_first.function_array_.begin(), _first.function_array_.end(),
                   std::back_inserter(result_array),
                   [](const std::unique_ptr<FunctionBase> &element) {
                     return element->move_clone();""")],r'''
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cmath>
using namespace gsplines::functions;
int main() {
  Eigen::VectorXd c(2), t(1);
  c << 1.0, 2.0;
  t << 0.5;
  CanonicPolynomial p({0.0, 1.0}, c);
  FunctionExpression f = p.to_expression() + Sin({0.0, 1.0});
  double before = f(t)(0, 0);
  { FunctionExpression g = f + (-Cos({0.0, 1.0})); }
  double after = f(t)(0, 0);
  return !(std::abs(before - after) < 1e-9);
}
''',"A named expression that holds polynomials, splines or sub-expressions, combined with a temporary.",
"The operands of the named expression are moved into the result, so the named expression is emptied.")

S("s12-space-count","C12",[("src/GSpline.cpp","""         tools::approx_equal(get_interval_lengths(),
                             _that.get_interval_lengths(), 1.0e-8);""","""         get_number_of_intervals() == _that.get_number_of_intervals() and
         tools::approx_equal(
             get_interval_lengths().head(get_number_of_intervals() / 2),
             _that.get_interval_lengths().head(get_number_of_intervals() / 2),
             1.0e-8);""")],r'''
#include <gsplines/GSpline.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
using namespace gsplines;
int main() {
  Eigen::VectorXd t1(4), t2(4);
  t1 << 1.0, 2.0, 1.0, 2.0;
  t2 << 1.0, 2.0, 2.0, 1.0;
  basis::BasisLegendre b(2);
  Eigen::VectorXd c = Eigen::VectorXd::Ones(8);
  GSpline f({0.0, 6.0}, 1, 4, b, c, t1), g({0.0, 6.0}, 1, 4, b, c, t2);
  try {
    GSpline h = f + g;
  } catch (const std::invalid_argument &) {
    return 0;
  }
  return 1;
}
''',"Two splines with the same domain and the same first half of the interval lengths but different later ones.",
"They are taken as members of one space and added coefficientwise.")

S("s13-scaled-domain","C13",[("include/gsplines/GSpline.hpp","""    std::pair<double, double> new_domain = Base::get_domain();
    new_domain.second = new_domain.first + _new_exec_time;
""","""    std::pair<double, double> new_domain = Base::get_domain();
    new_domain.first *= time_scale_factor;
    new_domain.second = new_domain.first + _new_exec_time;
""")],r'''
#include <gsplines/GSpline.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <cmath>
using namespace gsplines;
int main() {
  Eigen::VectorXd t(2);
  t << 1.0, 2.0;
  basis::BasisLegendre b(2);
  GSpline f({1.0, 4.0}, 1, 2, b, Eigen::VectorXd(Eigen::VectorXd::Ones(4)), t);
  GSpline g = f.linear_scaling_new_execution_time(6.0);
  return std::abs(g.get_domain().first - 1.0) > 1e-9 ||
         std::abs(g.get_domain().second - 7.0) > 1e-9;
}
''',"A spline whose domain does not start at zero.",
"The start of the domain is scaled as well.")

S("s14-stale-factor","C14",[("src/Basis/Basis.cpp","""  Eigen::VectorXd deriv_factor =
      Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);

  for (long k = 0; k < mat_dest.outerSize(); ++k) {""","""  Eigen::VectorXd deriv_factor =
      Eigen::pow(2.0 / _interval_lengths.array(), _deriv_order);

  // nothing to rescale: the blocks are written for lengths of two
  if ((deriv_factor.array() == 1.0).all()) {
    return mat_dest;
  }

  for (long k = 0; k < mat_dest.outerSize(); ++k) {""")],r'''
#include <gsplines/Basis/BasisLegendre.hpp>
using namespace gsplines;
int main() {
  basis::BasisLegendre b(4), fresh(4);
  Eigen::VectorXd t1(2), t2(2);
  t1 << 1.0, 3.0;
  t2 << 2.0, 2.0;
  b.gspline_derivative_matrix(2, 1, 1, t1);
  Eigen::MatrixXd a = b.gspline_derivative_matrix(2, 1, 1, t2),
                  c = fresh.gspline_derivative_matrix(2, 1, 1, t2);
  return (a - c).cwiseAbs().maxCoeff() > 1e-9;
}
''',"Interval lengths that are all exactly two, asked after other lengths for the same shape.",
"The derivative matrix of the earlier lengths is returned.")

S("s15-odd-middle","C15",[("src/Collocation/GaussLobattoPointsWeights.cpp","""        double delta = -q / q_prime;
        points(uicj) += delta;
        if (std::fabs(delta) < 1.0e-9 * std::fabs(points(uicj)))
          break;""","""        double delta = -q / q_prime;
        if (std::fabs(delta) < 1.0e-6)
          break;
        points(uicj) += delta;""")],r'''
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <cmath>
using namespace gsplines;
int main() {
  for (std::size_t n = 3; n < 40; n++) {
    auto pw = collocation::legendre_gauss_lobatto_points_and_weights(n);
    for (std::size_t d = 0; d <= 2 * n - 3; d += 2) {
      double s = 0;
      for (std::size_t i = 0; i < n; i++) s += pw.second(i) * std::pow(pw.first(i), d);
      if (std::abs(s - 2.0 / (d + 1)) > 1e-9) return 1;
    }
  }
  return 0;
}
''',"A number of points for which an iterate of Newton's method lands between 1e-6 and 1e-9 of the root.",
"The last step is dropped: points and weights are off by up to 1e-6 and the rule is not exact any more.")

S("s16-scalar-vector","C16",[("src/Collocation/GaussLobattoLagrange.cpp","""    _that.get_value_block(i) = -_that.get_value_block(i);
    _that.get_value_block(i).rowwise() += _lhs.transpose();
  }
  return std::move(_that);""","""    _that.get_value_block(i).rowwise() -= _lhs.transpose();
  }
  if (_lhs.isZero()) {
    return std::move(_that);
  }
  return -std::move(_that);""")],r'''
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
using namespace gsplines;
int main() {
  functions::Sin s({0.0, 1.0});
  auto f = collocation::GaussLobattoLagrangeSpline::approximate(s, 4, 2);
  Eigen::VectorXd z = Eigen::VectorXd::Zero(1);
  auto a = z - f;
  auto b = z - collocation::GaussLobattoLagrangeSpline(f);
  return (a.get_coefficients() - b.get_coefficients()).cwiseAbs().maxCoeff() > 1e-9;
}
''',"A zero vector minus a temporary collocation spline.",
"The result is the spline itself instead of its negative.")

S("s17-third-derivative","C17",[("src/Functions/ElementalFunctions.cpp","""    for (std::size_t uici = 0; uici < vsize - 1; uici++) {
      result(uici) = ((double)uici + 1.0) * result(uici + 1);
    }""","""    for (std::size_t uici = 0; uici < vsize - 1; uici++) {
      const unsigned char power = static_cast<unsigned char>((uici + 1) * (_deg > 2 ? vsize : 1));
      result(uici) = power / (_deg > 2 ? (double)vsize : 1.0) * result(uici + 1);
    }""")],r'''
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <cmath>
using namespace gsplines::functions;
int main() {
  Eigen::VectorXd c = Eigen::VectorXd::Zero(18);
  c(17) = 1.0;
  CanonicPolynomial p({0.0, 2.0}, c);
  Eigen::VectorXd t(1);
  t << 1.0;
  return std::abs(p.derivate(3)(t)(0, 0) - 17.0 * 16 * 15) > 1e-6;
}
''',"A polynomial of degree sixteen or more, differentiated three or more times at once.",
"Factors of the high powers overflow a byte and the derivative is wrong.")

S("s18-first-parameter","C18",[("src/Basis/Basis.cpp","""         gsplines::tools::approx_equal(parameters_float_,
                                       _that.parameters_float_, 1.0e-6);""","""         gsplines::tools::approx_equal(parameters_float_.sum(),
                                       _that.parameters_float_.sum(), 1.0e-6);""")],r'''
#include <gsplines/Basis/BasisLagrange.hpp>
using namespace gsplines;
int main() {
  basis::BasisLagrange a(std::vector<double>{-1.0, -0.3, 0.3, 1.0}), b(std::vector<double>{-1.0, -0.5, 0.5, 1.0});
  return a == b;
}
''',"Two Lagrange bases with different nodes of the same sum (symmetric nodes, say).",
"They compare equal, so their splines are taken as members of one space.")

S("s19-lagrange-sorted","C19",[("src/Basis/Basis.cpp","""  if (_basis_name == "lagrange") {
    return BasisLagrange::get(_params);""","""  if (_basis_name == "lagrange") {
    // nodes without values: the Gauss-Lobatto ones
    if (_params.size() == 0 or _params.tail(_params.size() - 1).isZero()) {
      return std::make_shared<BasisLagrangeGaussLobatto>(_dim);
    }
    return BasisLagrange::get(_params);""")],r'''
#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
using namespace gsplines;
int main() {
  std::vector<double> n{-1.0, 0.0};
  auto b = basis::get_basis("lagrange", 2, n);
  basis::BasisLagrange want(n);
  return !(*b == want);
}
''',"A Lagrange basis of two nodes whose second node is zero.",
"The look-up gives the Gauss-Lobatto nodes instead of the ones asked for.")

S("s20-warm-start","C20",[("src/GSpline.cpp","""    current_interval = get_interval(_domain_points(static_cast<long>(i)));
""","""    // a point of the same interval as the previous one needs no search
    if (i == 0 or
        (_domain_points(static_cast<long>(i)) !=
             _domain_points(static_cast<long>(i) - 1) and
         interval_to_window(_domain_points(static_cast<long>(i)),
                            current_interval) > 1.0) or
        interval_to_window(_domain_points(static_cast<long>(i)),
                           current_interval) < -1.0) {
      current_interval = get_interval(_domain_points(static_cast<long>(i)));
    }
""")],r'''
#include <gsplines/GSpline.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <cmath>
using namespace gsplines;
int main() {
  Eigen::VectorXd t(2), c(2), p(2), q(1);
  t << 1.0, 1.0;
  c << 3.0, 5.0;
  basis::BasisLegendre b(1);
  GSpline f({0.0, 2.0}, 1, 2, b, c, t);
  p << 1.5, 1.0;
  q << 1.0;
  return std::abs(f(p)(1, 0) - f(q)(0, 0)) > 1e-9;
}
''',"A batch whose points are not sorted: a point of a later interval directly followed by the breakpoint where that interval starts, on a spline that jumps there.",
"The breakpoint is evaluated with the piece on its right instead of the one on its left.")

S("s21-two-wrongs","C21",[("src/Interpolator.cpp","""  if ((_interval_lengths.array() < 1.0e-6).any()) {
    throw std::invalid_argument(" Interval""","""  if (_interval_lengths.prod() <= 0.0) {
    throw std::invalid_argument(" Interval""")],r'''
#include <gsplines/Interpolator.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
using namespace gsplines;
int main() {
  Eigen::VectorXd t(3);
  t << -1.0, 2.0, -0.5;
  Eigen::MatrixXd wp(4, 1);
  wp << 0.0, 1.0, 0.5, 2.0;
  Interpolator in(1, 3, basis::BasisLegendre(4));
  try {
    in.solve_interpolation(t, wp);
  } catch (const std::invalid_argument &) {
    return 0;
  }
  return 1;
}
''',"An even number of negative interval lengths.",
"The interpolator accepts them and solves a meaningless system.")
