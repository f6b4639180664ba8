// Independent mathematical specifications used by the harnesses.
#pragma once
#include "sym.hpp"
#include <array>
#include <cmath>
#include <gsplines/Basis/Basis.hpp>
#include <gsplines/Basis/Basis0101.hpp>
#include <gsplines/Basis/BasisLagrange.hpp>
#include <gsplines/Basis/BasisLegendre.hpp>
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
#include <gsplines/Collocation/GaussLobattoPointsWeights.hpp>
#include <gsplines/FunctionalAnalysis/Integral.hpp>
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Functions/ElementalFunctions.hpp>
#include <gsplines/Functions/FunctionBase.hpp>
#include <gsplines/Functions/FunctionExpression.hpp>
#include <gsplines/GSpline.hpp>
#include <gsplines/Interpolator.hpp>
#include <gsplines/Tools.hpp>
#include <memory>

using namespace gsplines;
using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;
using Poly = std::vector<double>; // coefficients of 1, s, s^2, ...
inline std::string S(long i) { return std::to_string(i); }

inline double evalp(const Poly &p, double s) {
  double r = 0;
  for (int i = (int)p.size() - 1; i >= 0; i--)
    r = r * s + p[i];
  return r;
}
inline Poly derp(Poly p, int n) {
  for (; n > 0; n--) {
    Poly q;
    for (size_t i = 1; i < p.size(); i++)
      q.push_back(p[i] * (double)i);
    p = q;
  }
  return p;
}
inline Poly mulp(const Poly &a, const Poly &b) {
  if (a.empty() || b.empty())
    return {};
  Poly r(a.size() + b.size() - 1, 0.0);
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < b.size(); j++)
      r[i + j] += a[i] * b[j];
  return r;
}
// integral over [-1,1]
inline double intp(const Poly &p) {
  double r = 0;
  for (size_t i = 0; i < p.size(); i += 2)
    r += 2.0 * p[i] / (double)(i + 1);
  return r;
}
inline double ipow(double b, int n) {
  double r = 1;
  for (int i = 0; i < n; i++)
    r *= b;
  return r;
}

// ---- specification of a basis: the functions, not the library's algorithm
struct BSpec {
  std::string name;
  virtual ~BSpec() = default;
  virtual int dim() const = 0;
  // d^deg/dt^deg of the i-th function at window coordinate s on an interval
  // of length tau (t = tau (s+1)/2)
  virtual double at(int i, double s, double tau, int deg) const = 0;
  virtual std::unique_ptr<basis::Basis> make() const = 0;
  virtual bool poly() const { return true; }
  virtual Poly mono(int) const { return {}; }
};
struct PolySpec : BSpec {
  std::vector<Poly> p;
  int dim() const override { return (int)p.size(); }
  Poly mono(int i) const override { return p[i]; }
  double at(int i, double s, double tau, int deg) const override {
    return evalp(derp(p[i], deg), s) * ipow(2.0 / tau, deg);
  }
};
struct LegSpec : PolySpec {
  LegSpec(int n) {
    name = "leg" + S(n);
    // Rodrigues: P_m = 2^-m sum_j (-1)^j C(m,j) C(2m-2j,m) s^(m-2j)
    auto C = [](int a, int b) {
      double r = 1;
      for (int i = 1; i <= b; i++)
        r = r * (a - b + i) / i;
      return std::round(r);
    };
    for (int m = 0; m < n; m++) {
      Poly q(m + 1, 0.0);
      for (int j = 0; 2 * j <= m; j++)
        q[m - 2 * j] = (j % 2 ? -1.0 : 1.0) * C(m, j) * C(2 * m - 2 * j, m) /
                       std::pow(2.0, m);
      p.push_back(q);
    }
  }
  std::unique_ptr<basis::Basis> make() const override {
    return std::make_unique<basis::BasisLegendre>(p.size());
  }
};
struct LagSpec : PolySpec {
  Vec nodes;
  LagSpec(const std::string &nm, const Vec &x) : nodes(x) {
    name = nm + S(x.size());
    for (int i = 0; i < x.size(); i++) {
      Poly q{1.0};
      for (int j = 0; j < x.size(); j++)
        if (j != i)
          q = mulp(q, Poly{-x(j) / (x(i) - x(j)), 1.0 / (x(i) - x(j))});
      p.push_back(q);
    }
  }
  std::unique_ptr<basis::Basis> make() const override {
    return std::make_unique<basis::BasisLagrange>(nodes);
  }
};
struct S0101 : BSpec {
  double alpha;
  S0101(double a, const std::string &n) : alpha(a) { name = n; }
  int dim() const override { return 6; }
  bool poly() const override { return false; }
  double k() const {
    return std::sqrt(2.0) / 4.0 * std::pow(alpha, 0.25) /
           std::pow(1.0 - alpha, 0.25);
  }
  double at(int i, double s, double tau, int deg) const override {
    double kk = k(), p = tau * kk * s;
    if (i >= 4) {
      double v = i == 4 ? (deg == 0 ? p : deg == 1 ? 1.0 : 0.0)
                        : (deg == 0 ? 1.0 : 0.0);
      return v * ipow(2.0 * kk, deg);
    }
    double a = i % 2 ? 0 : 1, b = i % 2 ? 1 : 0, sg = i < 2 ? 1 : -1;
    for (int d = 0; d < deg; d++) {
      double na = sg * a + b, nb = sg * b - a;
      a = na;
      b = nb;
    }
    return std::exp(sg * p) * (a * std::cos(p) + b * std::sin(p)) *
           ipow(2.0 * kk, deg);
  }
  std::unique_ptr<basis::Basis> make() const override {
    return std::make_unique<basis::Basis0101>(alpha);
  }
};
using BS = std::shared_ptr<BSpec>;
inline BS Leg(int n) { return std::make_shared<LegSpec>(n); }
// Legendre-Gauss-Lobatto nodes, tabulated (independent of the library)
inline Vec gll_nodes(int n) {
  Vec r(n);
  switch (n) {
  case 2: r << -1, 1; break;
  case 3: r << -1, 0, 1; break;
  case 4: r << -1, -0.447213595499957939281834733746, 0.447213595499957939281834733746, 1; break;
  case 5: r << -1, -0.654653670707977143798292456247, 0, 0.654653670707977143798292456247, 1; break;
  case 6: r << -1, -0.765055323929464692851002973959, -0.285231516480645096314150994041, 0.285231516480645096314150994041, 0.765055323929464692851002973959, 1; break;
  case 7: r << -1, -0.830223896278566929872032213967, -0.468848793470714213803771881909, 0, 0.468848793470714213803771881909, 0.830223896278566929872032213967, 1; break;
  case 8: r << -1, -0.871740148509606615337445761221, -0.591700181433142302144510731398, -0.209299217902478868768657260345, 0.209299217902478868768657260345, 0.591700181433142302144510731398, 0.871740148509606615337445761221, 1; break;
  case 9: r << -1.0, -0.8997579954114601573123452444, -0.6771862795107377534458854271, -0.3631174638261781587107520687, 0.0, 0.3631174638261781587107520687, 0.6771862795107377534458854271, 0.8997579954114601573123452444, 1.0; break;
  case 10: r << -1.0, -0.9195339081664588138289326608, -0.7387738651055050750031061749, -0.4779249498104444956611750927, -0.165278957666387024626219766, 0.165278957666387024626219766, 0.4779249498104444956611750927, 0.7387738651055050750031061749, 0.9195339081664588138289326608, 1.0; break;
  default: abort();
  }
  return r;
}
inline Vec gll_weights(int n) {
  Vec r(n);
  switch (n) {
  case 2: r << 1, 1; break;
  case 3: r << 1.0 / 3, 4.0 / 3, 1.0 / 3; break;
  case 4: r << 1.0 / 6, 5.0 / 6, 5.0 / 6, 1.0 / 6; break;
  case 5: r << 0.1, 49.0 / 90, 32.0 / 45, 49.0 / 90, 0.1; break;
  default: {
    // w_j = 2 / (n (n-1) P_{n-1}(x_j)^2)
    Vec x = gll_nodes(n);
    LegSpec L(n);
    for (int i = 0; i < n; i++) {
      double v = evalp(L.p[n - 1], x(i));
      r(i) = 2.0 / (n * (n - 1) * v * v);
    }
  }
  }
  return r;
}
inline BS Gll(int n) { return std::make_shared<LagSpec>("gll", gll_nodes(n)); }
inline BS Lag(const std::string &nm, std::vector<double> x) {
  return std::make_shared<LagSpec>(nm, Eigen::Map<Vec>(x.data(), x.size()));
}
inline BS LagIn(int n) { // interior, non symmetric nodes
  static const double x[] = {-0.8, -0.1, 0.35, 0.9, -0.45, 0.6, 0.05, -0.95};
  std::vector<double> v(x, x + n);
  std::sort(v.begin(), v.end());
  return Lag("lagin", v);
}
inline BS B01(double a) {
  return std::make_shared<S0101>(a, "b0101_" + S(std::lround(a * 1000)));
}

// ---- a spline with symbolic data and its mathematical definition
struct Spl {
  BS b;
  int codom, n;
  double t0;
  Vec tau, c;
  Spl(BS b_, int codom_, int n_, const std::string &pre = "",
      double tlo = 0.25, double thi = 4.0, double t0mag = 4.0,
      double cmag = 4.0)
      : b(b_), codom(codom_), n(n_) {
    t0 = sym::var(pre + "t0", -t0mag, t0mag);
    tau = sym::vars(pre + "tau", n, tlo, thi);
    c = sym::vars(pre + "c", n * codom * b->dim(), -cmag, cmag);
  }
  Vec breaks() const {
    Vec r(n + 1);
    r(0) = t0;
    for (int i = 0; i < n; i++)
      r(i + 1) = r(i) + tau(i);
    return r;
  }
  double tend() const { return t0 + tau.sum(); }
  GSpline make() const {
    auto bb = b->make();
    return GSpline({t0, tend()}, codom, n, *bb, c, tau);
  }
  // piece: (left,right], the first one closed, extended outside
  int piece(double t) const {
    Vec br = breaks();
    for (int i = 0; i < n - 1; i++)
      if (t <= br(i + 1))
        return i;
    return n - 1;
  }
  // a point of piece i at window coordinate s
  double point(int i, double s) const {
    double l = t0;
    for (int j = 0; j < i; j++)
      l += tau(j);
    return l + tau(i) * (s + 1.0) / 2.0;
  }
  // same as piece_at, in window coordinates
  double win_at(int i, int comp, double s, int deg) const {
    double r = 0;
    for (int k = 0; k < b->dim(); k++)
      r += c((i * codom + comp) * b->dim() + k) * b->at(k, s, tau(i), deg);
    return r;
  }
  double piece_at(int i, int comp, double t, int deg) const {
    Vec br = breaks();
    double s = 2.0 * (t - br(i)) / tau(i) - 1.0, r = 0;
    for (int k = 0; k < b->dim(); k++)
      r += c((i * codom + comp) * b->dim() + k) * b->at(k, s, tau(i), deg);
    return r;
  }
};
// a window coordinate strictly inside (lo,hi), away from the nodes of a Lagrange
// basis (where the library snaps to the node) by 1e-6
inline double off_nodes(const BSpec &b, double s) {
  if (auto *l = dynamic_cast<const LagSpec *>(&b))
    for (long i = 0; i < l->nodes.size(); i++)
      sym::assume(s >= l->nodes(i) + 1e-6 || s <= l->nodes(i) - 1e-6);
  return s;
}
inline Vec one(double t) {
  Vec v(1);
  v(0) = t;
  return v;
}
