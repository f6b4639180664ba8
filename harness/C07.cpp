// Sobolev norm of the interpolant and its gradient.
#include "interp.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
using W = std::vector<std::pair<std::size_t, double>>;
// Gram matrix of order d and its derivative with respect to tau, concrete or
// symbolic tau for polynomial bases, concrete tau for basis0101
static void gram(const BSpec &b, int d, double tau, Mat &Q, Mat &dQ, bool formal = false) {
  int D = b.dim();
  Q = Mat::Zero(D, D), dQ = Mat::Zero(D, D);
  if (b.poly()) {
    for (int i = 0; i < D; i++)
      for (int j = 0; j < D; j++) {
        double I = intp(mulp(derp(b.mono(i), d), derp(b.mono(j), d)));
        if (d == 0) {
          Q(i, j) = tau / 2.0 * I;
          dQ(i, j) = I / 2.0;
        } else {
          Q(i, j) = ipow(2.0 / tau, 2 * d - 1) * I;
          dQ(i, j) = ipow(2.0 / tau, 2 * d - 1) / tau * (1.0 - 2.0 * d) * I;
        }
      }
    return;
  }
  if (formal) {
    double s = sym::var("s", -1, 1);
    for (int i = 0; i < D; i++)
      for (int j = 0; j < D; j++) {
        Q(i, j) = sym::integral(b.at(i, s, tau, d) * b.at(j, s, tau, d) * tau / 2.0, s, -1.0, 1.0);
        dQ(i, j) = sym::D(Q(i, j), tau);
      }
    return;
  }
  Vec x, w;
  gauss(24, x, w);
  for (int i = 0; i < D; i++)
    for (int j = 0; j < D; j++)
      for (int k = 0; k < x.size(); k++) {
        double f = b.at(i, x(k), tau, d), g = b.at(j, x(k), tau, d);
        Q(i, j) += w(k) * f * g * tau / 2.0;
        dQ(i, j) += w(k) * (f * g / 2.0 + tau / 2.0 * (at_tau(b, i, x(k), tau, d) * g + f * at_tau(b, j, x(k), tau, d)));
      }
}
struct Ref {
  double value;
  Vec grad;
};
// value and gradient from coefficients y and sensitivities dy[k]
static Ref reference(const Prob &p, const W &ws, const Vec &y, const std::vector<Vec> &dy, bool formal = false) {
  Ref r{0, Vec::Zero(p.n)};
  int D = p.b->dim();
  for (auto &wt : ws)
    for (int i = 0; i < p.n; i++) {
      Mat Q, dQ;
      gram(*p.b, (int)wt.first, p.tau(i), Q, dQ, formal);
      for (int c = 0; c < p.codom; c++) {
        int o = (i * p.codom + c) * D;
        for (int a = 0; a < D; a++)
          for (int e = 0; e < D; e++) {
            if (!formal && Q(a, e) == 0.0 && dQ(a, e) == 0.0)
              continue;
            r.value += wt.second * y(o + a) * Q(a, e) * y(o + e);
            r.grad(i) += wt.second * y(o + a) * dQ(a, e) * y(o + e);
            for (int k = 0; k < p.n; k++)
              r.grad(k) += wt.second * 2.0 * y(o + a) * Q(a, e) * dy[k](o + e);
          }
      }
    }
  return r;
}
static double qscale(const Prob &p, const W &ws, double taumin) {
  double r = 1;
  for (auto &w : ws) {
    Mat Q, dQ;
    gram(*p.b, (int)w.first, taumin, Q, dQ);
    r = std::max(r, std::max(Q.cwiseAbs().maxCoeff(), dQ.cwiseAbs().maxCoeff()));
  }
  return r;
}
static W weights(const std::vector<int> &orders) {
  W w;
  for (size_t i = 0; i < orders.size(); i++)
    w.push_back({(std::size_t)orders[i], sym::var("weight" + S(i), 0.0, 3.0)});
  return w;
}
static void compare(const std::string &L, functional_analysis::SobolevNorm &N, const Prob &p, const Ref &r, double tol, bool grad) {
  sym::check_eq(L + "norm", N(p.tau), r.value, tol);
  if (!grad)
    return;
  Vec g = Vec::Constant(p.n, 7.0);
  N.deriv_wrt_interval_len(p.tau, g);
  for (int k = 0; k < p.n; k++)
    sym::check_eq(L + "gradient " + S(k), g(k), r.grad(k), tol);
  sym::check_eq(L + "norm again", N(p.tau), r.value, tol);
}
static void concrete(const Prob &p, const std::vector<int> &orders, bool grad) {
  W ws = weights(orders);
  Dense d(p);
  Vec wv((p.n + 1) * p.codom);
  for (int i = 0; i <= p.n; i++)
    for (int c = 0; c < p.codom; c++)
      wv(i * p.codom + c) = p.w(i, c);
  Mat Y = d.inv * d.R;
  Vec y = Y * wv;
  std::vector<Vec> dy;
  for (int k = 0; k < p.n; k++) {
    Mat dY = -(d.inv * (d.dM(p, k) * Y));
    dy.push_back(dY * wv);
  }
  auto B = p.b->make();
  functional_analysis::SobolevNorm N(p.w, *B, ws);
  compare("", N, p, reference(p, ws, y, dy), (p.b->poly() ? 1e-7 : 1e-5) * qscale(p, ws, p.tau.minCoeff()), grad);
}
static void symbolic(const Prob &p, const std::vector<int> &orders, bool again, bool grad) {
  sym::lu_bound(200);
  W ws = weights(orders);
  auto B = p.b->make();
  Interpolator I(p.codom, p.n, *B);
  Vec y = I.solve_interpolation(p.tau, p.w);
  std::vector<Vec> dy;
  for (int k = 0; k < p.n; k++) {
    Interpolator J(p.codom, p.n, *B);
    dy.push_back(J.get_coeff_derivative_wrt_tau(y, p.tau, k));
  }
  Ref r = reference(p, ws, y, dy, !p.b->poly());
  double tol = 1e-6 * qscale(p, ws, p.b->poly() ? 0.5 : 2.0);
  functional_analysis::SobolevNorm N(p.w, *B, ws);
  if (again) { // other lengths first
    Vec o = sym::vars("z", p.n, 0.5, 2.0), g(p.n);
    N(o);
    if (grad)
      N.deriv_wrt_interval_len(o, g);
  }
  compare(again ? "after other lengths " : "", N, p, r, tol, grad);
}
CASES {
  std::vector<BS> bs{Leg(2), Leg(4), Leg(6), Leg(8), Gll(4), Gll(6), LagIn(4), Lag("uni", {-1, -0.25, 0.25, 1}), B01(0.5), B01(0.8), B01(0.95)};
  for (auto b : bs) {
    std::vector<std::vector<int>> os{{0}, {1}, {1, 2}, {0, 1, 3}, {2, 0}, {1, 1}};
    if (b->dim() >= 6)
      os.push_back({3}), os.push_back({1, 3});
    if (b->dim() == 2)
      os = {{0}, {1}, {0, 1}, {1, 0}};
    if (b->dim() == 8)
      os = {{1}, {3, 1}, {0, 2, 4}};
    for (auto o : os)
      for (int codom = 1; codom <= 2; codom++)
        for (int n = 1; n <= 3; n++) {
          std::string nm = b->name + "_w";
          for (int x : o) nm += S(x);
          nm += "_c" + S(codom) + "_n" + S(n);
          bool grad = b->poly();
          if (!grad) { // the derivative matrices of orders 0 and 2 are refused there
            grad = true;
            for (int x : o) if (x != 1 && x != 3) grad = false;
          }
          for (auto &ts : tau_table())
            sym::reg("lu" + ts.name + "_" + nm, codom == 2 && n == 3 && b->dim() == 8, [=] { concrete(Prob(b, codom, n, head(ts.t, n) * (b->poly() ? 1.0 : 2.0)), o, grad); });
          if (b->dim() <= 6)
            for (int again = 0; again < 2; again++)
              sym::reg((again ? "reuse_" : "sym_") + nm, b->dim() * codom * n > (b->poly() ? 24 : 12) - 8 * again, [=] { symbolic(Prob(b, codom, n, sym::vars("tau", n, b->poly() ? 0.5 : 1.0, 2.0)), o, again, grad); });
        }
  }
}

// higher orders, many weights, many intervals, large or small data
CASES {
  struct Sh { BS b; int c, n; std::vector<int> o; };
  int k = 0;
  for (Sh q : {Sh{Leg(4), 1, 6, {1}}, Sh{Leg(4), 3, 2, {1, 2}}, Sh{Leg(4), 5, 1, {1}}, Sh{Leg(6), 1, 5, {3}}, Sh{Leg(6), 1, 2, {0, 1, 2, 3, 4, 5}}, Sh{Leg(8), 1, 2, {5, 4}}, Sh{Leg(8), 1, 1, {6, 7}}, Sh{Leg(4), 1, 2, {3, 4, 0}}, Sh{Leg(2), 1, 8, {1}}, Sh{Leg(10), 1, 2, {4}}, Sh{Gll(4), 1, 2, {3, 2, 1, 0}}})
    for (auto &ts : tau_table()) {
      std::vector<double> t = ts.t;
      while ((int)t.size() < q.n)
        t.push_back(1.25);
      if (q.b->dim() == 10 && ts.name == "C") // condition number 1e12 and more
        continue;
      sym::reg("large" + S(k++) + "_" + ts.name + "_" + q.b->name, 0, [=] { concrete(Prob(q.b, q.c, q.n, head(t, q.n)), q.o, true); });
    }
  for (BS b : {Leg(2), Leg(4), Gll(4)})
    for (int n = 1; n <= 3; n++)
      for (double sc : {0.02, 50.0})
        sym::reg("lengths_" + b->name + "_n" + S(n) + (sc < 1 ? "_small" : "_big"), 0, [=] {
          Vec t(n);
          for (int i = 0; i < n; i++)
            t(i) = sc * (1.0 + 0.3 * i * i);
          concrete(Prob(b, 1, n, t), b->dim() == 2 ? std::vector<int>{1} : std::vector<int>{1, 0, 2}, true);
        });
}
