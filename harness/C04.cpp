// Gram matrices of basis derivatives and their derivative with respect to the
// interval length.
#include "common.hpp"
static Mat prior(int n, double sc) {
  Mat m(n, n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      m(i, j) = sym::var("m" + S(i) + "_" + S(j), -4, 4) * sc;
  return m;
}
static void poly_case(BS b, int deg, double lo = 0.25, double hi = 4) {
  auto B = b->make();
  int n = b->dim();
  double tau = sym::var("tau", lo, hi);
  Mat m0 = prior(n, 1.0);
  // scale that removes the power of tau
  double sc = ipow(tau, deg == 0 ? 0 : 2 * deg - 1), scd = ipow(tau, 2 * deg), big = 1;
  for (int i = 0; i < n; i++)
    big = std::max(big, std::abs(intp(mulp(derp(b->mono(i), deg), derp(b->mono(i), deg)))) * ipow(2.0, std::max(2 * deg - 1, 0)));
  big *= deg == 0 && hi > 4 ? hi : 1;
  Mat m = m0, d = m0;
  B->add_derivative_matrix(tau, deg, m);
  B->add_derivative_matrix_deriv_wrt_tau(tau, deg, d);
  sym::check_true("shape", m.rows() == n && d.rows() == n && m.cols() == n && d.cols() == n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double I = intp(mulp(derp(b->mono(i), deg), derp(b->mono(j), deg)));
      // (tau/2) (2/tau)^(2 deg) I
      double q = deg == 0 ? tau / 2.0 * I : ipow(2.0, 2 * deg - 1) * I;
      double dq = deg == 0 ? I / 2.0 : ipow(2.0, 2 * deg - 1) * I * (1.0 - 2.0 * deg);
      sym::check_eq("order " + S(deg) + " " + S(i) + "," + S(j), m(i, j) * sc, m0(i, j) * sc + q, 1e-8 * big);
      sym::check_eq("d/dtau order " + S(deg) + " " + S(i) + "," + S(j), d(i, j) * scd, m0(i, j) * scd + dq, 1e-8 * big * (2 * deg + 1));
    }
  // the same object again, and a copy
  auto C = B->clone();
  Mat m2 = Mat::Zero(n, n), m3 = Mat::Zero(n, n);
  B->add_derivative_matrix(tau, deg, m2);
  C->add_derivative_matrix(tau, deg, m3);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      sym::check_eq("again " + S(i) + "," + S(j), m2(i, j) * sc, (m(i, j) - m0(i, j)) * sc, 1e-9 * big);
      sym::check_eq("copy " + S(i) + "," + S(j), m3(i, j) * sc, (m(i, j) - m0(i, j)) * sc, 1e-9 * big);
    }
}
CASES {
  std::vector<std::pair<BS, int>> bs;
  for (int n = 1; n <= 10; n++)
    bs.push_back({Leg(n), n > 8});
  for (int n = 2; n <= 8; n++)
    bs.push_back({Gll(n), n >= 7});
  for (int n = 2; n <= 6; n++)
    bs.push_back({LagIn(n), n >= 6});
  bs.push_back({Lag("uni", {-1, -0.5, 0, 0.5, 1}), 0});
  bs.push_back({Lag("left", {-1, -0.7, -0.3, 0.2}), 0});
  for (auto &q : bs)
    for (int deg = 0; deg <= std::min(q.first->dim() + 2, 8); deg++)
      sym::reg(q.first->name + "_d" + S(deg), q.second, [=] { poly_case(q.first, deg); });
}
// the trigonometric-exponential basis: formal integrals
CASES {
  for (double al : {0.2, 0.5, 0.8, 0.95})
    for (int deg = 0; deg <= 3; deg++) {
      sym::reg("b0101_" + S(std::lround(al * 100)) + "_d" + S(deg), 0, [=] {
        BS b = B01(al);
        auto B = b->make();
        double tau = sym::var("tau", 0.25, 4), s = sym::var("s", -1, 1);
        Mat m0 = prior(6, 1.0), m = m0, d = m0;
        B->add_derivative_matrix(tau, deg, m);
        bool refused = sym::throws([&] { B->add_derivative_matrix_deriv_wrt_tau(tau, deg, d); });
        for (int i = 0; i < 6; i++)
          for (int j = 0; j < 6; j++) {
            double q = sym::integral(b->at(i, s, tau, deg) * b->at(j, s, tau, deg) * tau / 2.0, s, -1.0, 1.0);
            sym::check_eq("order " + S(deg) + " " + S(i) + "," + S(j), m(i, j), m0(i, j) + q, 1e-6);
            if (!refused)
              sym::check_eq("d/dtau order " + S(deg) + " " + S(i) + "," + S(j), d(i, j), m0(i, j) + sym::D(q, tau), 1e-6);
            else
              sym::check_eq("untouched " + S(i) + "," + S(j), d(i, j), m0(i, j), 1e-12);
          }
        if (deg == 1 || deg == 3)
          sym::check_true("implemented", !refused);
      });
      sym::reg("b0101_" + S(std::lround(al * 100)) + "_refused_d" + S(deg + 4), 0, [=] {
        auto B = B01(al)->make();
        Mat m = Mat::Zero(6, 6);
        double tau = sym::var("tau", 0.25, 4);
        sym::check_true("refused", sym::throws([&] { B->add_derivative_matrix(tau, deg + 4, m); }));
        sym::check_true("refused wrt tau", sym::throws([&] { B->add_derivative_matrix_deriv_wrt_tau(tau, deg + 4, m); }));
        sym::mark("done");
      });
    }
}

// wide interval lengths, and several orders and lengths on one object
CASES {
  for (BS b : {Leg(1), Leg(2), Leg(4), Leg(6), Gll(2), Gll(4), LagIn(3)})
    for (int deg = 0; deg <= std::min(b->dim() + 1, 5); deg++)
      sym::reg("wide_" + b->name + "_d" + S(deg), 0, [=] { poly_case(b, deg, 1e-3, 1e3); });
  for (BS b : {Leg(4), Gll(4), Leg(6), LagIn(4)})
    for (int seq = 0; seq < 3; seq++)
      sym::reg("mixed_" + b->name + "_" + S(seq), 0, [=] {
        std::vector<std::vector<int>> qs{{0, 1, 2, 3, 4}, {3, 0, 3, 1, 3}, {2, 2, 0, 1, 2}};
        auto B = b->make();
        int n = b->dim(), q = 0;
        Vec ts = sym::vars("tau", 2, 0.25, 4);
        Mat m = Mat::Zero(n, n), d = Mat::Zero(n, n), rm = m, rd = d;
        // sums over the requests, without any reset in between
        for (int deg : qs[seq]) {
          double tau = ts(q++ % 2);
          B->add_derivative_matrix(tau, deg, m);
          B->add_derivative_matrix_deriv_wrt_tau(tau, deg, d);
          for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
              double I = intp(mulp(derp(b->mono(i), deg), derp(b->mono(j), deg)));
              rm(i, j) += deg == 0 ? tau / 2.0 * I : ipow(2.0 / tau, 2 * deg - 1) * I;
              rd(i, j) += deg == 0 ? I / 2.0 : ipow(2.0 / tau, 2 * deg - 1) / tau * I * (1.0 - 2.0 * deg);
            }
          double sc = ipow(ts(0), 8) * ipow(ts(1), 8);
          for (int i = 0; i < n; i++)
            for (int j = 0; j <= i; j++) {
              sym::check_eq("after " + S(q) + " requests " + S(i) + "," + S(j), m(i, j) * sc, rm(i, j) * sc, 1.0);
              sym::check_eq("slope after " + S(q) + " requests " + S(i) + "," + S(j), d(i, j) * sc, rd(i, j) * sc, 1.0);
            }
        }
      });
}
