// Gauss-Lobatto points, weights and the functionals built on them.
#include "poly.hpp"
namespace co = gsplines::collocation;
namespace fa = gsplines::functional_analysis;
CASES {
  std::vector<int> ns{65, 72, 80, 96, 100, 101, 127, 128};
  for (int n = 2; n <= 64; n++)
    ns.push_back(n);
  for (int n : ns)
    sym::reg("rule_n" + S(n), n > 100, [=] {
      auto pw = co::legendre_gauss_lobatto_points_and_weights(n);
      Vec p = co::legendre_gauss_lobatto_points(n), w = co::legendre_gauss_lobatto_weights(n);
      sym::check_true("sizes", p.size() == n && w.size() == n && pw.first.size() == n && pw.second.size() == n);
      for (int i = 0; i < n; i++) {
        sym::check_true("same " + S(i), p(i) == pw.first(i) && w(i) == pw.second(i));
        sym::check_true("positive " + S(i), w(i) > 0);
        if (i)
          sym::check_true("increasing " + S(i), p(i) > p(i - 1));
        sym::check_eq("symmetric " + S(i), p(i), -p(n - 1 - i), 1e-12);
      }
      sym::check_true("ends", p(0) == -1.0 && p(n - 1) == 1.0);
      // every polynomial of degree up to 2n-3 (in the Legendre basis)
      Vec c = sym::vars("c", 2 * n - 2, -4, 4);
      double q = 0;
      for (int i = 0; i < n; i++) {
        double l0 = 1, l1 = p(i), v = c(0);
        for (int k = 1; k < 2 * n - 2; k++) {
          v += c(k) * l1;
          double l2 = ((2.0 * k + 1) * p(i) * l1 - k * l0) / (k + 1.0);
          l0 = l1;
          l1 = l2;
        }
        q += w(i) * v;
      }
      sym::check_eq("exact", q, 2.0 * c(0), 1e-8);
    });
  for (int n = 2; n <= 14; n++)
    sym::reg("recurrence_n" + S(n), 0, [=] {
      double t = sym::var("t", -1, 1), q, dq, l;
      std::tie(q, dq, l) = co::q_and_evaluation(t, n);
      std::vector<double> P{1, t}, D{0, 1};
      for (int k = 1; k <= n; k++) {
        P.push_back(((2.0 * k + 1) * t * P[k] - k * P[k - 1]) / (k + 1.0));
        D.push_back((2.0 * k + 1) * P[k] + D[k - 1]);
      }
      sym::check_eq("L", l, P[n], 1e-8);
      sym::check_eq("q", q, P[n + 1] - P[n - 1], 1e-8);
      sym::check_eq("q'", dq, D[n + 1] - D[n - 1], 1e-7);
    });
}
// mapped rules
CASES {
  for (int n = 2; n <= 8; n++)
    for (int m = 1; m <= 4; m++) {
      std::string nm = "_n" + S(n) + "_m" + S(m);
      sym::reg("mapped_uniform" + nm, 0, [=] {
        double a = sym::var("a", -4, 4), L = sym::var("L", 0.25, 6), b = a + L, h = L / m;
        Vec x = co::legendre_gauss_lobatto_points(n), wx = co::legendre_gauss_lobatto_weights(n);
        Vec p = co::legendre_gauss_lobatto_points(std::tuple<double, double>(a, b), n, m), w = co::legendre_gauss_lobatto_weights(std::tuple<double, double>(a, b), n, m);
        sym::check_true("sizes", p.size() == n * m && w.size() == n * m);
        for (int i = 0; i < m; i++) {
          sym::check_eq("first of " + S(i), p(i * n), a + i * h, 1e-8);
          sym::check_eq("last of " + S(i), p(i * n + n - 1), a + (i + 1) * h, 1e-8);
          for (int k = 0; k < n; k++) {
            sym::check_eq("point " + S(i) + "," + S(k), p(i * n + k), a + i * h + h * (x(k) + 1.0) / 2.0, 1e-8);
            sym::check_eq("weight " + S(i) + "," + S(k), w(i * n + k), wx(k) * h / 2.0, 1e-8);
          }
        }
      });
      sym::reg("mapped_lengths" + nm, n > 5, [=] {
        double a = sym::var("a", -4, 4);
        Vec tau = sym::vars("tau", m, 0.25, 4);
        Vec x = co::legendre_gauss_lobatto_points(n), wx = co::legendre_gauss_lobatto_weights(n);
        Vec p = co::legendre_gauss_lobatto_points(a, n, tau), w = co::legendre_gauss_lobatto_weights(n, tau);
        sym::check_true("sizes", p.size() == n * m && w.size() == n * m);
        double left = a;
        for (int i = 0; i < m; i++) {
          for (int k = 0; k < n; k++) {
            sym::check_eq("point " + S(i) + "," + S(k), p(i * n + k), left + tau(i) * (x(k) + 1.0) / 2.0, 1e-8);
            sym::check_eq("weight " + S(i) + "," + S(k), w(i * n + k), wx(k) * tau(i) / 2.0, 1e-8);
          }
          left += tau(i);
        }
      });
    }
}
// functionals
CASES {
  for (int n = 2; n <= 7; n++)
    for (int m = 1; m <= 4; m++)
      for (int kind = 0; kind < 2; kind++)
        sym::reg(std::string(kind ? "integral_canonic" : "integral") + "_n" + S(n) + "_m" + S(m), n > 5, [=] {
          double a = sym::var("a", -2, 2), b = a + sym::var("L", 0.25, 2);
          Vec c = sym::vars("c", 2 * n - 2, -2, 2);
          double v = kind ? fa::integral(CanonicPolynomial({a, b}, c), n, m) : fa::integral(VP({a, b}, {c}), n, m);
          sym::check_eq("integral", v, exact(c, a, b), 1e-6);
        });
  sym::reg("integral_default", 0, [=] {
    double a = -1.25, b = 2.5;
    Vec c = sym::vars("c", 18, -2, 2);
    for (int i = 0; i < 18; i++) c(i) = c(i) / ipow(2.5, i);
    sym::check_eq("default", fa::integral(VP({a, b}, {c})), exact(c, a, b), 1e-6);
    sym::check_eq("one interval", fa::integral(VP({a, b}, {c}), 10), exact(c, a, b), 1e-6);
  });
  for (int codom = 1; codom <= 3; codom++)
    for (int deg = 0; deg <= 3; deg++)
      for (int m = 1; m <= 3; m++) {
        int n = deg + 2; // exact for products of degree 2 deg
        sym::reg("sobolev_c" + S(codom) + "_deg" + S(deg) + "_m" + S(m), (codom == 3 || deg == 3) && codom * deg * m > 6, [=] {
          double a = sym::var("a", -2, 2), b = a + sym::var("L", 0.25, 2);
          auto cf = polys("f", codom, deg), cg = polys("g", codom, deg);
          VP f({a, b}, cf), g({a, b}, cg);
          double w0 = sym::var("w0", -2, 2), w1 = sym::var("w1", -2, 2);
          std::vector<std::pair<std::size_t, double>> W0{{0, 1.0}}, W1{{0, 1.0}, {1, 1.0}}, W2{{0, 1.0}, {1, 1.0}, {2, 1.0}}, X{{1, w0}, {0, w1}}, Y{{2, w1}}, Z{{1, w0}, {3, w1}};
          sym::check_eq("l2 inner", fa::l2_inner_product(f, g, n, m), inner(cf, cg, a, b, W0), 1e-6);
          sym::check_eq("l2 norm", fa::l2_norm(f, n, m), inner(cf, cf, a, b, W0), 1e-6);
          sym::check_eq("h1 inner", fa::sobolev_inner_product(f, g, 1, n, m), inner(cf, cg, a, b, W1), 1e-6);
          sym::check_eq("h2 inner", fa::sobolev_inner_product(f, g, 2, n, m), inner(cf, cg, a, b, W2), 1e-6);
          sym::check_eq("h0 norm", fa::sobolev_norm(g, 0, n, m), inner(cg, cg, a, b, W0), 1e-6);
          sym::check_eq("h2 norm", fa::sobolev_norm(g, 2, n, m), inner(cg, cg, a, b, W2), 1e-6);
          sym::check_eq("semi norm", fa::sobolev_semi_norm(g, X, n, m), inner(cg, cg, a, b, X), 1e-6);
          sym::check_eq("semi inner x", fa::sobolev_semi_inner_product(f, g, X, n, m), inner(cf, cg, a, b, X), 1e-6);
          sym::check_eq("semi inner y", fa::sobolev_semi_inner_product(f, g, Y, n, m), inner(cf, cg, a, b, Y), 1e-6);
          sym::check_eq("semi inner z", fa::sobolev_semi_inner_product(f, g, Z, n, m), inner(cf, cg, a, b, Z), 1e-6);
        });
      }
}

// more subintervals, lengths over several magnitudes
CASES {
  for (int n : {2, 3, 5})
    for (int m : {5, 8, 12}) {
      std::string nm = "_n" + S(n) + "_m" + S(m);
      sym::reg("many_rule" + nm, 0, [=] {
        double a = sym::var("a", -100, 100);
        Vec tau = sym::vars("tau", m, 0.001, 1000), x = co::legendre_gauss_lobatto_points(n), wx = co::legendre_gauss_lobatto_weights(n);
        Vec p = co::legendre_gauss_lobatto_points(a, n, tau), w = co::legendre_gauss_lobatto_weights(n, tau);
        double L = sym::var("L", 0.001, 1000);
        Vec pu = co::legendre_gauss_lobatto_points(std::tuple<double, double>(a, a + L), n, m), wu = co::legendre_gauss_lobatto_weights(std::tuple<double, double>(a, a + L), n, m);
        sym::check_true("sizes", p.size() == n * m && w.size() == n * m && pu.size() == n * m && wu.size() == n * m);
        double left = a;
        for (int i = 0; i < m; i++) {
          for (int k = 0; k < n; k++) {
            sym::check_eq("point " + S(i) + "," + S(k), p(i * n + k), left + tau(i) * (x(k) + 1.0) / 2.0, 1e-7);
            sym::check_eq("weight " + S(i) + "," + S(k), w(i * n + k), wx(k) * tau(i) / 2.0, 1e-7);
            sym::check_eq("uniform point " + S(i) + "," + S(k), pu(i * n + k), a + L / m * (i + (x(k) + 1.0) / 2.0), 1e-7);
            sym::check_eq("uniform weight " + S(i) + "," + S(k), wu(i * n + k), wx(k) * L / m / 2.0, 1e-7);
          }
          left += tau(i);
        }
      });
      sym::reg("many_integral" + nm, 0, [=] {
        double a = sym::var("a", -2, 2), b = a + sym::var("L", 0.25, 2);
        auto cf = polys("f", 2, 1), cg = polys("g", 2, 1);
        VP f({a, b}, cf), g({a, b}, cg);
        std::vector<std::pair<std::size_t, double>> W0{{0, 1.0}}, W1{{0, 1.0}, {1, 1.0}};
        if (n > 2) {
          sym::check_eq("l2 inner", fa::l2_inner_product(f, g, n, m), inner(cf, cg, a, b, W0), 1e-6);
          sym::check_eq("h1 inner", fa::sobolev_inner_product(f, g, 1, n, m), inner(cf, cg, a, b, W1), 1e-6);
        }
        Vec c = sym::vars("c", 2, -2, 2);
        sym::check_eq("integral", fa::integral(CanonicPolynomial({a, b}, c), n, m), exact(c, a, b), 1e-6);
      });
    }
  // five components; functions that are expressions
  for (int codom : {4, 5})
    sym::reg("many_components_c" + S(codom), 0, [=] {
      double a = sym::var("a", -2, 2), b = a + sym::var("L", 0.25, 2);
      auto cf = polys("f", codom, 1), cg = polys("g", codom, 1);
      VP f({a, b}, cf), g({a, b}, cg);
      std::vector<std::pair<std::size_t, double>> W0{{0, 1.0}}, W1{{0, 1.0}, {1, 1.0}};
      sym::check_eq("l2 inner", fa::l2_inner_product(f, g, 3, 2), inner(cf, cg, a, b, W0), 1e-6);
      sym::check_eq("l2 norm", fa::l2_norm(f, 3, 2), inner(cf, cf, a, b, W0), 1e-6);
      sym::check_eq("h1 inner", fa::sobolev_inner_product(f, g, 1, 3, 2), inner(cf, cg, a, b, W1), 1e-6);
      sym::check_eq("h1 norm", fa::sobolev_norm(f, 1, 3, 2), inner(cf, cf, a, b, W1), 1e-6);
      FunctionExpression s = FunctionExpression(f) + FunctionExpression(g);
      auto cs = cf;
      for (int j = 0; j < codom; j++)
        cs[j] = cf[j] + cg[j];
      sym::check_eq("of a sum", fa::l2_inner_product(s, g, 3, 2), inner(cs, cg, a, b, W0), 1e-6);
    });
}

// the integral of the squared norm of a reparametrised path
CASES {
  for (int codom : {1, 2, 3})
    for (int dd : {1, 2})
      for (int dp : {0, 1, 2}) {
        sym::reg("path_c" + S(codom) + "_d" + S(dd) + "_p" + S(dp), 0, [=] {
          double a = sym::var("a", -2, 2), L = sym::var("L", 0.25, 2);
          Vec cd = sym::vars("d", dd + 1, -1, 1);
          auto cp = polys("p", codom, dp);
          VP diffeo({a, a + L}, {cd}), path({-100, 100}, cp);
          // coefficients of |p(d(t))|^2
          auto mul = [](const Vec &x, const Vec &y) {
            Vec r = Vec::Zero(x.size() + y.size() - 1);
            for (long i = 0; i < x.size(); i++)
              for (long j = 0; j < y.size(); j++)
                r(i + j) += x(i) * y(j);
            return r;
          };
          Vec q = Vec::Zero(2 * dd * dp + 1);
          for (auto &c : cp) {
            Vec comp = Vec::Zero(dd * dp + 1), pw = Vec::Ones(1);
            for (long i = 0; i < c.size(); i++) {
              comp.head(pw.size()) += c(i) * pw;
              pw = mul(pw, cd);
            }
            q += mul(comp, comp);
          }
          sym::check_eq("integral", co::integral(diffeo, path), exact(q, a, a + L), 1e-6);
        });
      }
}
