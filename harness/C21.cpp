// Ill-formed arguments are refused, well-formed ones are not.
#include "interp.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
static std::vector<BS> bases() { return {Leg(1), Leg(2), Leg(3), Leg(4), Leg(6), Gll(2), Gll(3), LagIn(3), LagIn(4), B01(0.5)}; }
// ---- splines
CASES {
  for (auto b : bases())
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 3; n++)
        sym::reg("spline_" + b->name + "_c" + S(codom) + "_n" + S(n), 0, [=] {
          int d = b->dim(), nc = d * codom * n;
          double x = sym::var("x", -4, 4), t0 = sym::var("t0", -4, 4), tau = sym::var("tau", 0.25, 4);
          auto B = b->make();
          std::vector<int> cs{nc, 0, nc - 1, nc + 1, nc - d, nc + d, d * codom, d * n, codom * n, nc + d * codom, nc - d * codom, 2 * nc};
          std::sort(cs.begin(), cs.end());
          cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
          for (size_t k = 0; k < cs.size(); k++)
            for (int m = 0; m <= n + 2; m++) {
              if (cs[k] < 0)
                continue;
              bool ok = cs[k] == nc && m == n;
              std::string L = S(cs[k]) + " coefficients, " + S(m) + " lengths ";
              Vec c = Vec::Constant(cs[k], x), tv = Vec::Constant(m, tau);
              std::pair<double, double> dom{t0, t0 + tau * n};
              bool t = sym::throws([&] { GSpline g(dom, codom, n, *B, c, tv); });
              sym::check_true(L + (ok ? "accepted" : "refused"), t == !ok);
              t = sym::throws([&] { GSpline g(dom, codom, n, *B, Vec(c), Vec(tv)); });
              sym::check_true(L + "temporary " + (ok ? "accepted" : "refused"), t == !ok);
              if (b->name.rfind("gll", 0) == 0) {
                t = sym::throws([&] { collocation::GaussLobattoLagrangeSpline g(dom, codom, n, d, c, tv); });
                sym::check_true(L + "collocation " + (ok ? "accepted" : "refused"), t == !ok);
                t = sym::throws([&] { collocation::GaussLobattoLagrangeSpline g(dom, codom, n, d, Vec(c), Vec(tv)); });
                sym::check_true(L + "temporary collocation " + (ok ? "accepted" : "refused"), t == !ok);
              }
            }
          // an accepted one has the requested shape
          GSpline g({t0, t0 + tau * n}, codom, n, *B, Vec(Vec::Constant(nc, x)), Vec(Vec::Constant(n, tau)));
          sym::check_true("shape", (int)g.get_codom_dim() == codom && (int)g.get_number_of_intervals() == n && g.get_coefficients().size() == nc && (int)g.get_basis_dim() == d);
          GSpline h(g), q(std::move(h));
          sym::check_true("copies accepted", q.get_coefficients().size() == nc);
          for (double T : {0.0, -1.0, -0.5 * 4})
            sym::check_true("execution time refused", sym::throws([&] { (void)g.linear_scaling_new_execution_time(T); }));
          double T = sym::var("T", -4, 4);
          sym::assume(T <= 0.0 || T >= 1e-3);
          bool t = sym::throws([&] { (void)g.linear_scaling_new_execution_time(T); });
          sym::check_true("execution time", t == (T <= 0.0));
        });
}
// ---- interpolation
static Vec lengths(int m) {
  Vec r(m);
  for (int i = 0; i < m; i++)
    r(i) = 1.0 + 0.25 * i;
  return r;
}
static Mat points(int rows, int cols, double x) {
  Mat w(rows, cols);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++)
      w(i, j) = x * (i + 1) - 0.5 * j;
  return w;
}
using W = std::vector<std::pair<std::size_t, double>>;
CASES {
  for (auto b : std::vector<BS>{Leg(1), Leg(2), Leg(3), Leg(4), Leg(5), Leg(6), Leg(7), Gll(2), Gll(3), Gll(4), Gll(5), LagIn(3), LagIn(4), B01(0.5)})
    for (int codom = 1; codom <= 2; codom++)
      for (int n = 1; n <= 3; n++)
        sym::reg("odd_" + b->name + "_c" + S(codom) + "_n" + S(n), 0, [=] {
          double x = sym::var("x", -1, 1);
          bool odd = b->dim() % 2;
          auto B = b->make();
          Mat w = points(n + 1, codom, x);
          bool t = sym::throws([&] { Interpolator I(codom, n, *B); });
          sym::check_true("interpolator", t == odd);
          t = sym::throws([&] { GSpline g = interpolate(lengths(n), w, *B); });
          sym::check_true("interpolate", t == odd);
          t = sym::throws([&] { functional_analysis::SobolevNorm N(w, *B, W{{1, 1.0}}); });
          sym::check_true("Sobolev norm", t == odd);
          if (b->name.rfind("leg", 0) == 0) {
            t = sym::throws([&] { GSpline g = pw_polynomial_interpolation(lengths(n), w, b->dim()); });
            sym::check_true("polynomial interpolation", t == odd);
          }
        });
  for (auto b : std::vector<BS>{Leg(2), Leg(4), Leg(6), Gll(4), B01(0.5)})
    for (int codom = 1; codom <= 2; codom++)
      for (int n = 1; n <= 3; n++) {
        std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
        sym::reg("count_" + nm, 0, [=] {
          double x = sym::var("x", -1, 1);
          auto B = b->make();
          Mat w = points(n + 1, codom, x);
          for (int m = 0; m <= n + 2; m++) {
            bool ok = m == n;
            Interpolator I(codom, n, *B);
            bool t = sym::throws([&] { I.interpolate(lengths(m), w); });
            sym::check_true("interpolate with " + S(m) + " lengths", t == !ok);
            t = sym::throws([&] { I.solve_interpolation(lengths(m), w); });
            sym::check_true("solve with " + S(m) + " lengths", t == !ok);
            t = sym::throws([&] { GSpline g = interpolate(lengths(m), w, *B); });
            sym::check_true("free function with " + S(m) + " lengths", t == !ok);
            functional_analysis::SobolevNorm N(w, *B, W{{1, 1.0}});
            t = sym::throws([&] { N(lengths(m)); });
            sym::check_true("norm with " + S(m) + " lengths", t == !ok);
            Vec buf(n);
            t = sym::throws([&] { N.deriv_wrt_interval_len(lengths(m), buf); });
            sym::check_true("gradient with " + S(m) + " lengths", t == !ok);
            // still usable
            t = sym::throws([&] { I.interpolate(lengths(n), w); });
            sym::check_true("usable after " + S(m) + " lengths", !t);
          }
        });
        sym::reg("waypoints_" + nm, 0, [=] {
          double x = sym::var("x", -1, 1);
          auto B = b->make();
          Interpolator I(codom, n, *B);
          for (int r = 1; r <= n + 3; r++)
            for (int c = 1; c <= codom + 1; c++) {
              bool ok = r == n + 1 && c == codom;
              bool t = sym::throws([&] { I.interpolate(lengths(n), points(r, c, x)); });
              sym::check_true(S(r) + " waypoints of " + S(c), t == !ok);
              t = sym::throws([&] { I.solve_interpolation(lengths(n), points(r, c, x)); });
              sym::check_true("solve with " + S(r) + " waypoints of " + S(c), t == !ok);
            }
        });
        for (int q = 0; q < n; q++)
          sym::reg("length" + S(q) + "_" + nm, 0, [=] {
            double x = sym::var("x", -1, 1);
            auto B = b->make();
            Mat w = points(n + 1, codom, x);
            Vec bad = lengths(n);
            bad(q) = sym::var("bad", -4, 0);
            Interpolator I(codom, n, *B);
            sym::check_true("interpolate", sym::throws([&] { I.interpolate(bad, w); }));
            sym::check_true("solve", sym::throws([&] { I.solve_interpolation(bad, w); }));
            sym::check_true("free function", sym::throws([&] { interpolate(bad, w, *B); }));
            sym::check_true("usable afterwards", !sym::throws([&] { I.interpolate(lengths(n), w); }));
            Vec y = I.interpolate(lengths(n), w).get_coefficients();
            for (int k = 0; k < n; k++)
              sym::check_true("sensitivity " + S(k), sym::throws([&] { I.get_coeff_derivative_wrt_tau(y, bad, k); }));
            functional_analysis::SobolevNorm N(w, *B, W{{1, 1.0}});
            Vec buf(n);
            sym::check_true("norm", sym::throws([&] { N(bad); }));
            sym::check_true("gradient", sym::throws([&] { N.deriv_wrt_interval_len(bad, buf); }));
            sym::check_true("norm usable afterwards", !sym::throws([&] { N(lengths(n)); }));
            if (n > 1) {
              bad((q + 1) % n) = sym::var("bad2", -4, 0);
              sym::check_true("two bad lengths", sym::throws([&] { I.interpolate(bad, w); }));
            }
          });
      }
}

// ---- larger shapes
CASES {
  for (auto b : {Leg(3), Leg(4), Gll(5)})
    for (int codom : {4, 7})
      for (int n : {4, 6})
        sym::reg("large_spline_" + b->name + "_c" + S(codom) + "_n" + S(n), 0, [=] {
          int d = b->dim(), nc = d * codom * n;
          double x = sym::var("x", -4, 4), t0 = sym::var("t0", -4, 4), tau = sym::var("tau", 0.25, 4);
          auto B = b->make();
          std::pair<double, double> dom{t0, t0 + tau * n};
          for (int k : {nc, nc - 1, nc + 1, nc - d, nc + d, nc - codom, nc + codom, nc - n, nc + n, d * codom, d * n, codom * n, 2 * nc, 0})
            for (int m = 0; m <= n + 2; m++) {
              bool ok = k == nc && m == n;
              bool t = sym::throws([&] { GSpline g(dom, codom, n, *B, Vec(Vec::Constant(k, x)), Vec(Vec::Constant(m, tau))); });
              sym::check_true(S(k) + " coefficients, " + S(m) + " lengths", t == !ok);
            }
        });
  for (auto b : {Leg(2), Leg(4), B01(0.5)})
    for (int codom : {1, 3})
      for (int n : {4, 6}) {
        std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
        for (int q = 0; q < n; q++)
          sym::reg("large_length" + S(q) + "_" + nm, 0, [=] {
            double x = sym::var("x", -1, 1);
            auto B = b->make();
            Mat w = points(n + 1, codom, x);
            Vec bad = lengths(n);
            bad(q) = sym::var("bad", -100, 0);
            Interpolator I(codom, n, *B);
            sym::check_true("interpolate", sym::throws([&] { I.interpolate(bad, w); }));
            sym::check_true("solve", sym::throws([&] { I.solve_interpolation(bad, w); }));
            sym::check_true("free function", sym::throws([&] { interpolate(bad, w, *B); }));
            functional_analysis::SobolevNorm N(w, *B, W{{1, 1.0}});
            Vec buf(n);
            sym::check_true("norm", sym::throws([&] { N(bad); }));
            sym::check_true("gradient", sym::throws([&] { N.deriv_wrt_interval_len(bad, buf); }));
            if (b->name.rfind("leg", 0) == 0)
              sym::check_true("polynomials", sym::throws([&] { pw_polynomial_interpolation(bad, w, b->dim()); }));
          });
        sym::reg("large_count_" + nm, 0, [=] {
          double x = sym::var("x", -1, 1);
          auto B = b->make();
          Mat w = points(n + 1, codom, x);
          for (int m = 0; m <= n + 3; m++) {
            if (m == n)
              continue;
            Interpolator I(codom, n, *B);
            sym::check_true("interpolate with " + S(m) + " lengths", sym::throws([&] { I.interpolate(lengths(m), w); }));
            sym::check_true("free function with " + S(m) + " lengths", sym::throws([&] { interpolate(lengths(m), w, *B); }));
            sym::check_true("interpolate with " + S(m + 1) + " points", sym::throws([&] { I.interpolate(lengths(n), points(m + 1, codom, x)); }));
          }
        });
      }
}
