// Basis functions, their derivatives in time and their derivative with respect
// to the interval length.
#include "common.hpp"
static void basis_case(BS b, int K, double s, double tau, double T = 1e-7) {
  auto B = b->make();
  int n = b->dim();
  Vec buf(n);
  B->eval_on_window(s, tau, buf);
  for (int i = 0; i < n; i++)
    sym::check_eq("value " + S(i), buf(i), b->at(i, s, tau, 0), T);
  for (int k = 0; k <= K; k++) {
    double sc = ipow(tau, k), tol = T * ipow(4.0, k);
    B->eval_derivative_on_window(s, tau, k, buf);
    for (int i = 0; i < n; i++)
      sym::check_eq("D" + S(k) + " of " + S(i), buf(i) * sc, b->at(i, s, tau, k) * sc, tol);
    // strided destination
    Mat m = Mat::Zero(2, n);
    B->eval_derivative_on_window(s, tau, k, m.row(1));
    for (int i = 0; i < n; i++) {
      sym::check_eq("row D" + S(k) + " of " + S(i), m(1, i) * sc, b->at(i, s, tau, k) * sc, tol);
      sym::check_eq("other row", m(0, i), 0.0, 0.0);
    }
    B->eval_derivative_wrt_tau_on_window(s, tau, k, buf);
    for (int i = 0; i < n; i++) {
      // time derivative of degree k at fixed window coordinate, seen as a function of tau
      double w = b->poly() ? -(double)k / tau * b->at(i, s, tau, k) : s / 2.0 * b->at(i, s, tau, k + 1);
      sym::check_eq("d/dtau D" + S(k) + " of " + S(i), buf(i) * sc, w * sc, tol * 4);
    }
    // the derivative matrix maps coefficients to coefficients of the derivative
    const Mat D = B->get_derivative_matrix_block(k);
    sym::check_true("shape", D.rows() == n && D.cols() == n);
    for (int j = 0; j < n; j++) {
      double v = 0;
      for (int i = 0; i < n; i++)
        v += D(i, j) * b->at(i, s, tau, 0);
      double w = b->poly() ? b->at(j, s, 2.0, k) : b->at(j, s, tau, k);
      sym::check_eq("matrix D" + S(k) + " of " + S(j), v, w, tol);
    }
  }
  // whatever was asked before: orders in decreasing and mixed sequence
  for (int seq = 0; seq < 2; seq++) {
    auto F = b->make();
    for (int k = K; k >= 0; k--) {
      int o = seq == 0 ? k : (k * 3 + 2) % (K + 1);
      sym::check_true("derivative matrix of order " + S(o) + " does not depend on history", (F->get_derivative_matrix_block(o) - B->get_derivative_matrix_block(o)).cwiseAbs().maxCoeff() < 1e-12);
      F->eval_derivative_on_window(s, tau, o, buf);
      for (int i = 0; i < n; i++)
        sym::check_eq("sequence " + S(seq) + " D" + S(o) + " of " + S(i), buf(i) * ipow(tau, o), b->at(i, s, tau, o) * ipow(tau, o), T * ipow(4.0, o));
    }
  }
  // copies behave the same
  auto C = B->clone();
  Vec c2(n);
  C->eval_derivative_on_window(s, tau, std::min(K, 2), c2);
  B->eval_derivative_on_window(s, tau, std::min(K, 2), buf);
  for (int i = 0; i < n; i++)
    sym::check_eq("clone " + S(i), c2(i) * ipow(tau, std::min(K, 2)), buf(i) * ipow(tau, std::min(K, 2)), 1e-7 * (T / 1e-7));
  const Mat D1 = B->get_derivative_matrix_block(K), D2 = C->get_derivative_matrix_block(K);
  sym::check_true("clone matrix", (D1 - D2).cwiseAbs().maxCoeff() < 1e-12);
}
CASES {
  std::vector<std::pair<BS, int>> bs;
  for (int n = 1; n <= 12; n++)
    bs.push_back({Leg(n), n > 8});
  for (int n = 2; n <= 8; n++)
    bs.push_back({Gll(n), n >= 7});
  for (int n = 2; n <= 7; n++)
    bs.push_back({LagIn(n), n >= 6});
  bs.push_back({Lag("uni", {-1, -0.5, 0, 0.5, 1}), 0});
  bs.push_back({Lag("left", {-1, -0.7, -0.3, 0.2}), 0});
  bs.push_back({Lag("one", {0.3}), 0});
  bs.push_back({Lag("out", {-2, -1.5, 0.25, 1.75}), 0});
  for (auto &q : bs) {
    BS b = q.first;
    int K = std::min(b->dim() + 2, 7);
    sym::reg("basis_" + b->name, q.second, [=] {
      double s = off_nodes(*b, sym::var("s", -1.5, 1.5)), tau = sym::var("tau", 0.25, 4);
      basis_case(b, K, s, tau);
    });
    if (auto *l = dynamic_cast<const LagSpec *>(b.get()))
      sym::reg("nodes_" + b->name, q.second, [=] {
        double tau = sym::var("tau", 0.25, 4);
        for (long i = 0; i < l->nodes.size(); i++)
          basis_case(b, K, l->nodes(i), tau);
      });
  }
  for (double al : {0.05, 0.2, 0.5, 0.8, 0.95})
    sym::reg("basis_b0101_" + S(std::lround(al * 100)), 0, [=] {
      double s = sym::var("s", -1, 1), tau = sym::var("tau", 0.25, 4);
      basis_case(B01(al), 6, s, tau);
    });
}
// change of interpolation points and the values <-> derivative values matrices
CASES {
  std::vector<BS> bs = {Gll(2), Gll(3), Gll(4), Gll(5), LagIn(2), LagIn(3), LagIn(4), LagIn(5), Lag("uni", {-1, -0.5, 0, 0.5, 1}), Lag("left", {-1, -0.7, -0.3, 0.2})};
  for (BS from : bs)
    for (BS to : bs) {
      if (to->dim() < from->dim())
        continue;
      sym::reg("change_" + from->name + "_" + to->name, 0, [=] {
        auto *f = dynamic_cast<const LagSpec *>(from.get()), *t = dynamic_cast<const LagSpec *>(to.get());
        // any polynomial of the first space, sampled on both node sets
        Vec p = sym::vars("p", from->dim(), -4, 4);
        Poly q(p.data(), p.data() + p.size());
        Mat M = basis::BasisLagrange::change_interpolation_points(f->nodes, t->nodes);
        sym::check_true("shape", M.rows() == to->dim() && M.cols() == from->dim());
        for (int i = 0; i < to->dim(); i++) {
          double v = 0;
          for (int j = 0; j < from->dim(); j++)
            v += M(i, j) * evalp(q, f->nodes(j));
          sym::check_eq("row " + S(i), v, evalp(q, t->nodes(i)), 1e-7);
        }
      });
    }
}

// wide interval lengths, far window coordinates, many requests on one object
CASES {
  for (BS b : {Leg(1), Leg(2), Leg(3), Leg(4), Leg(5), Leg(6), Gll(2), Gll(3), Gll(4), LagIn(3), Lag("out", {-2, -1.5, 0.25, 1.75})})
    sym::reg("wide_" + b->name, 0, [=] {
      double s = off_nodes(*b, sym::var("s", -4, 4)), tau = sym::var("tau", 1e-3, 1e3);
      basis_case(b, std::min(b->dim() + 2, 7), s, tau, 1e-5 * ipow(4.0, b->dim() - 1));
    });
  for (BS b : {Leg(3), Leg(5), Leg(9), Leg(10), Gll(3), Gll(5), LagIn(4), B01(0.5), B01(0.9)})
    sym::reg("orders_" + b->name, 0, [=] {
      double s = off_nodes(*b, sym::var("s", -1, 1)), tau = sym::var("tau", 0.5, 2);
      int n = b->dim();
      Vec buf(n);
      auto B = b->make();
      for (int k : {12, 0, 9, 3, 10, 1, 8, 11, 2}) {
        if (!b->poly() && k > 8) // formulas of the specification grow too large
          continue;
        double sc = ipow(tau, k), tol = (b->poly() ? 1e-7 : 1e-6) * ipow(4.0, k) * (n >= 9 ? 1e4 : 1);
        B->eval_derivative_on_window(s, tau, k, buf);
        for (int i = 0; i < n; i++)
          sym::check_eq("D" + S(k) + " of " + S(i), buf(i) * sc, b->at(i, s, tau, k) * sc, tol);
        const Mat D = B->get_derivative_matrix_block(k);
        for (int j = 0; j < n; j++) {
          double v = 0;
          for (int i = 0; i < n; i++)
            v += D(i, j) * b->at(i, s, tau, 0);
          sym::check_eq("matrix D" + S(k) + " of " + S(j), v, b->poly() ? b->at(j, s, 2.0, k) : b->at(j, s, tau, k), tol);
        }
      }
    });
}
