// Conditions that define an interpolating spline, stated on its coefficients.
#pragma once
#include "common.hpp"
#include <Eigen/Dense>
#include <functional>
// derivative with respect to tau of at(k,s,tau,d) at fixed s
inline double at_tau(const BSpec &b, int k, double s, double tau, int d) {
  if (b.poly())
    return d == 0 ? 0.0 : -(double)d / tau * b.at(k, s, tau, d);
  // a function of tau*kk*s only: d/dtau f^(d) = s/2 * f^(d+1)
  return s / 2.0 * b.at(k, s, tau, d + 1);
}
struct Prob {
  BS b;
  int codom, n;
  Vec tau;
  Mat w;
  Prob(BS b_, int codom_, int n_, Vec tau_, const std::string &pre = "") : b(b_), codom(codom_), n(n_), tau(tau_), w(n_ + 1, codom_) {
    for (int i = 0; i <= n; i++)
      for (int j = 0; j < codom; j++)
        w(i, j) = sym::var(pre + "w" + S(i) + "_" + S(j), -2, 2);
  }
  // magnitude of the derivatives of order d of the basis at the ends
  double scale(int d, double taumin) const {
    double r = 1;
    for (int k = 0; k < b->dim(); k++)
      for (double s : {-1.0, 1.0})
        r = std::max(r, std::abs(b->at(k, s, b->poly() ? 2.0 : 1.0, d)));
    return b->poly() ? r * ipow(2.0 / std::min(taumin, 2.0), d) : r * 20;
  }
  double seg(const Vec &y, int i, int comp, double s, int d) const {
    double r = 0;
    for (int k = 0; k < b->dim(); k++)
      r += y((i * codom + comp) * b->dim() + k) * b->at(k, s, tau(i), d);
    return r;
  }
  // f(label, left hand side as a function of (interval, s, order, sign) terms, right hand side, order)
  struct Term { int i; double s; int d; double sg; };
  void conditions(const std::function<void(const std::string &, int comp, const std::vector<Term> &, double rhs, int d)> &f) const {
    int D = b->dim();
    for (int c = 0; c < codom; c++) {
      std::string C = " component " + S(c);
      for (int i = 0; i < n; i++) {
        f("left waypoint of interval " + S(i) + C, c, {{i, -1.0, 0, 1.0}}, w(i, c), 0);
        f("right waypoint of interval " + S(i) + C, c, {{i, 1.0, 0, 1.0}}, w(i + 1, c), 0);
      }
      for (int d = 1; d <= D / 2 - 1; d++) {
        f("order " + S(d) + " at the start" + C, c, {{0, -1.0, d, 1.0}}, 0.0, d);
        f("order " + S(d) + " at the end" + C, c, {{n - 1, 1.0, d, 1.0}}, 0.0, d);
      }
      for (int i = 0; i + 1 < n; i++)
        for (int d = 1; d <= D - 2; d++)
          f("order " + S(d) + " continuous after interval " + S(i) + C, c, {{i, 1.0, d, 1.0}, {i + 1, -1.0, d, -1.0}}, 0.0, d);
    }
  }
  void check(const std::string &L, const Vec &y, double taumin) const {
    sym::check_true(L + "size", y.size() == n * codom * b->dim());
    conditions([&](const std::string &l, int c, const std::vector<Term> &ts, double rhs, int d) {
      double v = 0;
      for (auto &t : ts)
        v += t.sg * seg(y, t.i, c, t.s, t.d);
      sym::check_eq(L + l, v, rhs, 1e-7 * scale(d, taumin));
    });
  }
};
struct TauSet { std::string name; std::vector<double> t; };
inline std::vector<TauSet> tau_table() {
  return {{"A", {1.0, 1.0, 1.0, 1.0, 1.0}}, {"B", {0.5, 2.0, 0.75, 1.5, 1.0}}, {"C", {3.0, 0.3, 1.0, 0.6, 2.0}}};
}
inline Vec head(const std::vector<double> &t, int n) {
  Vec v(n);
  for (int i = 0; i < n; i++) v(i) = t[i];
  return v;
}

// the linear system of the conditions, built and solved independently of the
// library (concrete interval lengths)
struct Dense {
  Mat M, R; // M y = R * vec(w), w row-major
  Mat inv;
  int D;
  Dense(const Prob &p) {
    int N = p.n * p.codom * p.b->dim();
    M = Mat::Zero(N, N);
    R = Mat::Zero(N, (p.n + 1) * p.codom);
    int r = 0, D = p.b->dim();
    auto put = [&](int i, int c, double s, int d, double sg) {
      for (int k = 0; k < D; k++)
        M(r, (i * p.codom + c) * D + k) += sg * p.b->at(k, s, p.tau(i), d);
    };
    for (int c = 0; c < p.codom; c++) {
      for (int i = 0; i < p.n; i++) {
        put(i, c, -1, 0, 1), R(r++, i * p.codom + c) = 1;
        put(i, c, 1, 0, 1), R(r++, (i + 1) * p.codom + c) = 1;
      }
      for (int d = 1; d <= D / 2 - 1; d++) {
        put(0, c, -1, d, 1), r++;
        put(p.n - 1, c, 1, d, 1), r++;
      }
      for (int i = 0; i + 1 < p.n; i++)
        for (int d = 1; d <= D - 2; d++)
          put(i, c, 1, d, 1), put(i + 1, c, -1, d, -1), r++;
    }
    inv = Eigen::FullPivLU<Mat>(M).inverse();
  }
  Mat dM(const Prob &p, int idx) const {
    Mat m = Mat::Zero(M.rows(), M.cols());
    int r = 0, D = p.b->dim();
    auto put = [&](int i, int c, double s, int d, double sg) {
      if (i == idx)
        for (int k = 0; k < D; k++)
          m(r, (i * p.codom + c) * D + k) += sg * at_tau(*p.b, k, s, p.tau(i), d);
    };
    for (int c = 0; c < p.codom; c++) {
      for (int i = 0; i < p.n; i++) {
        put(i, c, -1, 0, 1), r++;
        put(i, c, 1, 0, 1), r++;
      }
      for (int d = 1; d <= D / 2 - 1; d++) {
        put(0, c, -1, d, 1), r++;
        put(p.n - 1, c, 1, d, 1), r++;
      }
      for (int i = 0; i + 1 < p.n; i++)
        for (int d = 1; d <= D - 2; d++)
          put(i, c, 1, d, 1), put(i + 1, c, -1, d, -1), r++;
    }
    return m;
  }
};
// Gauss-Legendre nodes and weights by Newton iteration (concrete)
inline void gauss(int n, Vec &x, Vec &w) {
  x.resize(n), w.resize(n);
  for (int i = 0; i < n; i++) {
    double z = std::cos(M_PI * (i + 0.75) / (n + 0.5)), dp = 1;
    for (int it = 0; it < 100; it++) {
      double p0 = 1, p1 = z;
      for (int k = 2; k <= n; k++) {
        double p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k;
        p0 = p1, p1 = p2;
      }
      dp = n * (z * p1 - p0) / (z * z - 1);
      double dz = p1 / dp;
      z -= dz;
      if (std::abs(dz) < 1e-16) break;
    }
    x(i) = z, w(i) = 2.0 / ((1 - z * z) * dp * dp);
  }
}
