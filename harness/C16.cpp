// Collocation splines: values at nodes.
#include "poly.hpp"
using GLL = collocation::GaussLobattoLagrangeSpline;
static Vec gllx(int d) { return collocation::legendre_gauss_lobatto_points(d); }
static double node(const Spl &sp, const Vec &x, int i, int k) {
  double l = sp.t0;
  for (int q = 0; q < i; q++)
    l += sp.tau(q);
  return l + sp.tau(i) * (x(k) + 1.0) / 2.0;
}
static GLL make(const Spl &sp) { return GLL({sp.t0, sp.tend()}, sp.codom, sp.n, sp.b->dim(), sp.c, sp.tau); }
// h has shape, domain and lengths of sp and node values val(i, j, k)
template <class F> static void same(const std::string &L, const GLL &h, const Spl &sp, int codom, F val, double tol = 1e-7, bool coefonly = false) {
  int d = sp.b->dim();
  bool ok = (int)h.get_codom_dim() == codom && (int)h.get_number_of_intervals() == sp.n && (int)h.get_nglp() == d && (int)h.get_basis_dim() == d && h.get_coefficients().size() == codom * sp.n * d;
  sym::check_true(L + "shape", ok);
  if (!ok)
    return;
  sym::check_eq(L + "start", h.get_domain().first, sp.t0, 1e-8);
  sym::check_eq(L + "end", h.get_domain().second, sp.tend(), 1e-7);
  Vec x = gllx(d), p = h.get_domain_discretization();
  sym::check_true(L + "nodes", p.size() == sp.n * d);
  for (int i = 0; i < sp.n; i++) {
    sym::check_eq(L + "length " + S(i), h.get_interval_lengths()(i), sp.tau(i), 1e-8);
    for (int k = 0; k < d; k++) {
      if (p.size() == sp.n * d)
        sym::check_eq(L + "node " + S(i) + "," + S(k), p(i * d + k), node(sp, x, i, k), 1e-7);
      Vec v = h.value_at(i * d + k);
      sym::check_true(L + "value size", v.size() == codom);
      for (int j = 0; j < codom; j++) {
        double e = val(i, j, k);
        sym::check_eq(L + "value at " + S(i) + "," + S(k) + "," + S(j), v(j), e, tol);
        sym::check_eq(L + "coefficient " + S(i) + "," + S(k) + "," + S(j), h.get_coefficients()((i * codom + j) * d + k), e, tol);
      }
      if (!coefonly && ((k > 0 && k + 1 < d) || (i == 0 && k == 0) || (i + 1 == sp.n && k + 1 == d))) {
        Mat m = h(one(node(sp, x, i, k)));
        for (int j = 0; j < codom; j++)
          sym::check_eq(L + "evaluated at " + S(i) + "," + S(k) + "," + S(j), m(0, j), val(i, j, k), tol * 10);
      }
    }
  }
  sym::check_true(L + "beyond refused", sym::throws([&] { h.value_at(sp.n * d); }));
}
static auto own(const Spl &sp) {
  return [&sp](int i, int j, int k) { return sp.c((i * sp.codom + j) * sp.b->dim() + k); };
}
static std::string nm(int d, int codom, int n) { return "_g" + S(d) + "_c" + S(codom) + "_n" + S(n); }
template <class F> static void shapes(int dmax, F f) {
  for (int d = 2; d <= dmax; d++)
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 4; n++)
        f(d, codom, n, d > 5 || d * codom * n > 30);
}
CASES {
  shapes(7, [](int d, int codom, int n, bool big) {
    sym::reg("nodes" + nm(d, codom, n), big, [=] {
      Spl sp(Gll(d), codom, n);
      GLL h = make(sp);
      same("", h, sp, codom, own(sp));
      GLL g(h);
      same("copy ", g, sp, codom, own(sp), 1e-7, true);
      Vec c = sp.c, t = sp.tau;
      GLL m({sp.t0, sp.tend()}, codom, n, d, std::move(c), std::move(t));
      same("moved data ", m, sp, codom, own(sp), 1e-7, true);
      GSpline s = sp.make();
      same("from spline ", GLL(s), sp, codom, own(sp), 1e-7, true);
      Spl u = sp;
      u.tau = Vec::Constant(n, (sp.tend() - sp.t0) / n);
      same("zero ", GLL({sp.t0, sp.tend()}, codom, n, d), u, codom, [](int, int, int) { return 0.0; }, 1e-7, true);
    });
    sym::reg("approximation" + nm(d, codom, n), big, [=] {
      Spl sp(Gll(d), codom, n);
      double L = sym::var("L", 0.25, 4);
      Spl u = sp;
      u.tau = Vec::Constant(n, L / n);
      auto cf = polys("f", codom, 2);
      VP f({sp.t0, sp.t0 + L}, cf);
      Vec x = gllx(d);
      auto want = [&](const Spl &q) { return [&](int i, int j, int k) { return mono(cf[j], node(q, x, i, k)); }; };
      same("approximate ", GLL::approximate(f, d, n), u, codom, want(u), 1e-6);
      same("constructor ", GLL(f, n, d), u, codom, want(u), 1e-6, true);
      if (codom == 1)
        same("identity ", GLL::identity({sp.t0, sp.t0 + L}, d, n), u, 1, [&](int i, int, int k) { return node(u, x, i, k); });
      // assignment keeps the proportions of the intervals
      GLL h = make(u);
      h = static_cast<const FunctionBase &>(f);
      same("assigned ", h, u, codom, want(u), 1e-6);
      Spl w = sp;
      for (int i = 0; i < n; i++)
        w.tau(i) = 0.5 + 0.25 * i;
      GLL g = make(w);
      double tot = w.tau.sum();
      g = static_cast<const FunctionBase &>(f);
      w.tau *= L / tot;
      same("assigned to uneven ", g, w, codom, want(w), 1e-6, true);
    });
    sym::reg("assignment" + nm(d, codom, n), big, [=] {
      Spl sp(Gll(d), codom, n), o(Gll(d), codom, n, "o");
      GLL h = make(sp), g = make(o);
      h = g;
      same("copied ", h, o, codom, own(o));
      same("source ", g, o, codom, own(o), 1e-7, true);
      GLL k = make(sp);
      k = std::move(g);
      same("moved ", k, o, codom, own(o));
      Spl bad(Gll(d + 1), codom, n, "b"), bad2(Gll(d), codom + 1, n, "c"), bad3(Gll(d), codom, n + 1, "d");
      for (const Spl *q : {&bad, &bad2, &bad3}) {
        GLL z = make(sp), e = make(*q);
        sym::check_true("refused", sym::throws([&] { z = e; }));
        same("after refusal ", z, sp, codom, own(sp), 1e-7, true);
        sym::check_true("move refused", sym::throws([&] { z = make(*q); }));
        same("after refusal ", z, sp, codom, own(sp), 1e-7, true);
      }
    });
    sym::reg("from_array" + nm(d, codom, n), big, [=] {
      Spl sp(Gll(d), codom, n);
      GLL h = make(sp);
      double a = sym::var("a", -4, 4), L = sym::var("L", 0.25, 4);
      std::vector<Vec> vals;
      for (int q = 0; q < n * d; q++)
        vals.push_back(sym::vars("v" + S(q) + "_", codom, -4, 4));
      for (int i = 0; i < n; i++)
        sp.tau(i) = 0.5 + 0.25 * i;
      h = make(sp);
      h.set_from_array({a, a + L}, vals.begin(), vals.end(), [](const Vec &v) -> const Vec & { return v; });
      Spl w = sp;
      w.t0 = a;
      w.tau *= L / sp.tau.sum();
      same("", h, w, codom, [&](int i, int j, int k) { return vals[i * d + k](j); }, 1e-7, true);
      GLL h2 = make(sp);
      h2.set_from_array({a, a + L}, vals.begin(), vals.end());
      same("plain ", h2, w, codom, [&](int i, int j, int k) { return vals[i * d + k](j); }, 1e-7, true);
      GLL h3 = make(sp);
      h3.set_from_array({a, a + L}, vals.begin(), vals.end(), [](const Vec &v) { return v.transpose(); });
      same("row ", h3, w, codom, [&](int i, int j, int k) { return vals[i * d + k](j); }, 1e-7, true);
      auto few = vals;
      few.pop_back();
      GLL e = make(sp);
      sym::check_true("too few refused", sym::throws([&] { e.set_from_array({a, a + L}, few.begin(), few.end(), [](const Vec &v) -> const Vec & { return v; }); }));
      auto wrong = vals;
      wrong[0] = Vec::Zero(codom + 1);
      sym::check_true("wrong size refused", sym::throws([&] { e.set_from_array({a, a + L}, wrong.begin(), wrong.end(), [](const Vec &v) -> const Vec & { return v; }); }));
    });
  });
}
// arithmetic acts on node values
CASES {
  shapes(5, [](int d, int codom, int n, bool big) {
    big = d * codom * n > 24;
    sym::reg("product" + nm(d, codom, n), big, [=] {
      Spl v(Gll(d), codom, n), s(Gll(d), 1, n, "s");
      s.t0 = v.t0;
      s.tau = v.tau;
      auto want = [&](int i, int j, int k) { return v.c((i * codom + j) * d + k) * s.c(i * d + k); };
      GLL a = make(v), b = make(s);
      same("v*s ", a * b, v, codom, want, 1e-7, true);
      same("s*v ", b * a, v, codom, want, 1e-7, true);
      same("V*s ", make(v) * b, v, codom, want, 1e-7, true);
      same("S*v ", make(s) * a, v, codom, want, 1e-7, true);
      same("v*S ", a * make(s), v, codom, want, 1e-7, true);
      same("s*V ", b * make(v), v, codom, want, 1e-7, true);
      same("V*S ", make(v) * make(s), v, codom, want, 1e-7, true);
      same("S*V ", make(s) * make(v), v, codom, want, 1e-7, true);
      same("v left ", a, v, codom, own(v), 1e-7, true);
      same("s left ", b, s, 1, own(s), 1e-7, true);
    });
    sym::reg("linear" + nm(d, codom, n), big, [=] {
      Spl v(Gll(d), codom, n);
      double q = sym::var("q", -4, 4);
      Vec y = sym::vars("y", codom, -4, 4);
      GLL a = make(v);
      auto at = [&](int i, int j, int k) { return v.c((i * codom + j) * d + k); };
      auto scaled = [&](int i, int j, int k) { return q * at(i, j, k); };
      auto neg = [&](int i, int j, int k) { return -at(i, j, k); };
      auto plus = [&](int i, int j, int k) { return at(i, j, k) + y(j); };
      auto minus = [&](int i, int j, int k) { return at(i, j, k) - y(j); };
      auto sunim = [&](int i, int j, int k) { return y(j) - at(i, j, k); };
      same("q*v ", q * a, v, codom, scaled, 1e-7, true);
      same("v*q ", a * q, v, codom, scaled, 1e-7, true);
      same("q*V ", q * make(v), v, codom, scaled, 1e-7, true);
      same("V*q ", make(v) * q, v, codom, scaled, 1e-7, true);
      same("-v ", -a, v, codom, neg, 1e-7, true);
      same("-V ", -make(v), v, codom, neg, 1e-7, true);
      same("v+y ", a + y, v, codom, plus, 1e-7, true);
      same("V+y ", make(v) + y, v, codom, plus, 1e-7, true);
      same("y+v ", y + a, v, codom, plus, 1e-7, true);
      same("y+V ", y + make(v), v, codom, plus, 1e-7, true);
      same("v-y ", a - y, v, codom, minus, 1e-7, true);
      same("V-y ", make(v) - y, v, codom, minus, 1e-7, true);
      same("y-v ", y - a, v, codom, sunim, 1e-7, true);
      same("y-V ", y - make(v), v, codom, sunim, 1e-7, true);
      same("left ", a, v, codom, own(v), 1e-7, true);
      for (int e : {-1, 1}) {
        if (codom + e < 1)
          continue;
        Vec z = Vec::Ones(codom + e);
        sym::check_true("v+z refused", sym::throws([&] { a + z; }));
        sym::check_true("V+z refused", sym::throws([&] { make(v) + z; }));
        sym::check_true("z+v refused", sym::throws([&] { z + a; }));
        sym::check_true("z+V refused", sym::throws([&] { z + make(v); }));
        sym::check_true("v-z refused", sym::throws([&] { a - z; }));
        sym::check_true("V-z refused", sym::throws([&] { make(v) - z; }));
        sym::check_true("z-v refused", sym::throws([&] { z - a; }));
        sym::check_true("z-V refused", sym::throws([&] { z - make(v); }));
      }
    });
    sym::reg("nonlinear" + nm(d, codom, n), big, [=] {
      Spl v(Gll(d), codom, n), s(Gll(d), 1, n, "s");
      for (long i = 0; i < s.c.size(); i++)
        s.c(i) = sym::var("p" + S(i), 0.25, 4);
      GLL a = make(v), b = make(s);
      double q = sym::var("q", -4, 4);
      GLL m = collocation::norm(a);
      same("norm ", m, v, 1, [&](int i, int, int k) {
        double r = 0;
        for (int j = 0; j < codom; j++)
          r += v.c((i * codom + j) * d + k) * v.c((i * codom + j) * d + k);
        return std::sqrt(r);
      }, 1e-6, true);
      auto sat = [&](int i, int k) { return s.c(i * d + k); };
      auto p2 = [&](int i, int, int k) { return sat(i, k) * sat(i, k); };
      auto p3 = [&](int i, int, int k) { return sat(i, k) * sat(i, k) * sat(i, k); };
      auto ph = [&](int i, int, int k) { return std::sqrt(sat(i, k)); };
      auto dv = [&](int i, int, int k) { return q / sat(i, k); };
      same("pow 2 ", collocation::pow(b, 2.0), s, 1, p2, 1e-6, true);
      same("pow 3 ", collocation::pow(make(s), 3.0), s, 1, p3, 1e-6, true);
      GLL h = collocation::pow(b, 0.5), g = collocation::pow(make(s), 0.5);
      (void)ph;
      same("root squared ", h * h, s, 1, own(s), 1e-6, true);
      same("root squared moved ", g * g, s, 1, own(s), 1e-6, true);
      same("q/s ", q / b, s, 1, dv, 1e-6, true);
      same("q/S ", q / make(s), s, 1, dv, 1e-6, true);
      same("left ", b, s, 1, own(s), 1e-7, true);
      same("left ", a, v, codom, own(v), 1e-7, true);
      if (codom > 1) {
        sym::check_true("pow refused", sym::throws([&] { collocation::pow(a, 2.0); }));
        sym::check_true("pow refused", sym::throws([&] { collocation::pow(make(v), 2.0); }));
        sym::check_true("division refused", sym::throws([&] { q / a; }));
        sym::check_true("division refused", sym::throws([&] { q / make(v); }));
      }
    });
    sym::reg("refused" + nm(d, codom, n), big, [=] {
      Spl v(Gll(d), codom, n);
      auto no = [&](const std::string &L, const Spl &o) {
        GLL a = make(v), b = make(o);
        sym::check_true(L + "a*b", sym::throws([&] { a * b; }));
        sym::check_true(L + "A*b", sym::throws([&] { make(v) * b; }));
        sym::check_true(L + "a*B", sym::throws([&] { a * make(o); }));
        sym::check_true(L + "A*B", sym::throws([&] { make(v) * make(o); }));
      };
      Spl s1(Gll(d + 1), 1, n, "x"), s2(Gll(d), 1, n + 1, "y"), s3(Gll(d), 1, n, "z");
      s1.t0 = v.t0;
      s1.tau = v.tau;
      no("points ", s1);
      s2.t0 = v.t0;
      s2.tau.head(n) = v.tau;
      s2.tau(n) = v.tau(n - 1) / 2.0;
      s2.tau(n - 1) = v.tau(n - 1) / 2.0;
      no("intervals ", s2);
      s3.tau = v.tau;
      s3.t0 = v.t0 + sym::var("shift", 0.001, 2);
      no("domain ", s3);
      if (n > 1) {
        s3.t0 = v.t0;
        double e = sym::var("move", 0.001, 0.2);
        s3.tau(0) = v.tau(0) + e;
        s3.tau(n - 1) = v.tau(n - 1) - e;
        no("lengths ", s3);
      }
      if (codom > 1) {
        Spl w(Gll(d), codom, n, "w");
        w.t0 = v.t0;
        w.tau = v.tau;
        no("codomains ", w);
      }
    });
  });
}

// many intervals, many components, many points; lengths over several magnitudes
CASES {
  struct Q { int d, c, n; };
  for (Q q : {Q{3, 1, 8}, Q{3, 6, 2}, Q{4, 3, 5}, Q{8, 2, 2}, Q{10, 1, 2}, Q{2, 4, 6}}) {
    for (int wide = 0; wide < 2; wide++)
      sym::reg(std::string(wide ? "wide" : "large") + nm(q.d, q.c, q.n), 0, [=] {
        Spl sp(Gll(q.d), q.c, q.n, "", wide ? 0.02 : 0.25, wide ? 50 : 4, wide ? 100 : 4, wide ? 100 : 4);
        // comparing lengths branches on each of them: from three on, all but two from a table
        for (int i = 2; i < q.n; i++)
          sp.tau(i) = wide ? 0.02 + 9.5 * i * i / q.n : 0.25 + 0.5 * i;
        GLL h = make(sp);
        same("", h, sp, q.c, own(sp), 1e-7, q.d > 4 || q.n > 4);
        Spl o(Gll(q.d), q.c, q.n, "o");
        h = make(o);
        same("assigned ", h, o, q.c, own(o), 1e-7, true);
        Spl s(Gll(q.d), 1, q.n, "s");
        s.t0 = sp.t0;
        s.tau = sp.tau;
        GLL a = make(sp), b = make(s);
        auto want = [&](int i, int j, int k) { return sp.c((i * q.c + j) * q.d + k) * s.c(i * q.d + k); };
        same("v*s ", a * b, sp, q.c, want, 1e-7, true);
        same("S*V ", make(s) * make(sp), sp, q.c, want, 1e-7, true);
        Vec y = sym::vars("y", q.c, -4, 4);
        same("v+y ", a + y, sp, q.c, [&](int i, int j, int k) { return sp.c((i * q.c + j) * q.d + k) + y(j); }, 1e-7, true);
        same("y-V ", y - make(sp), sp, q.c, [&](int i, int j, int k) { return y(j) - sp.c((i * q.c + j) * q.d + k); }, 1e-7, true);
        if (!wide) {
          auto cf = polys("f", q.c, 2);
          double L = sym::var("L", 0.25, 4);
          VP f({sp.t0, sp.t0 + L}, cf);
          Spl u = sp;
          u.tau = Vec::Constant(q.n, L / q.n);
          Vec x = gllx(q.d);
          same("approximate ", GLL::approximate(f, q.d, q.n), u, q.c, [&](int i, int j, int k) { return mono(cf[j], node(u, x, i, k)); }, 1e-6, true);
        }
      });
  }
}
