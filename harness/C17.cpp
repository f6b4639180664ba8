// Elementary functions and their derivatives.
#include "poly.hpp"
// f judged at a batch of arbitrary points, in order, and at one point
static void judge(const std::string &L, const FunctionBase &f, double a, double b, int codom, const std::vector<std::function<double(double)>> &want, double tol) {
  sym::check_true(L + "codomain", (int)f.get_codom_dim() == codom);
  sym::check_eq(L + "start", f.get_domain().first, a, 1e-12);
  sym::check_eq(L + "end", f.get_domain().second, b, 1e-12);
  double w = b - a;
  std::vector<double> u{sym::var("u0", 0, 1), sym::var("u1", 0, 1), 0.0};
  Vec p(3);
  for (int i = 0; i < 3; i++)
    p(i) = a + u[i] * w;
  Mat v = f(p);
  sym::check_true(L + "shape", v.rows() == 3 && v.cols() == codom);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < codom; j++)
      sym::check_eq(L + "row " + S(i) + " component " + S(j), v(i, j), want[j](p(i)), tol);
  Mat s = f(one(p(1)));
  for (int j = 0; j < codom; j++)
    sym::check_eq(L + "alone component " + S(j), s(0, j), want[j](p(1)), tol);
  Mat buf = Mat::Constant(3, codom, 7.0);
  f.value(p, buf);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < codom; j++)
      sym::check_eq(L + "in place row " + S(i) + " component " + S(j), buf(i, j), want[j](p(i)), tol);
}
using Spec = std::function<double(int, double, int)>; // component, point, order
// every route to the derivative of each order up to K
static void all(const FunctionBase &f, double a, double b, int codom, int K, Spec spec, double tol = 1e-6) {
  auto want = [&](int k) {
    std::vector<std::function<double(double)>> r;
    for (int j = 0; j < codom; j++)
      r.push_back([=](double t) { return spec(j, t, k); });
    return r;
  };
  judge("f ", f, a, b, codom, want(0), tol);
  for (int k = 0; k <= K; k++) {
    auto d = f.deriv(k);
    judge("D" + S(k) + " ", *d, a, b, codom, want(k), tol * ipow(3.0, k));
    FunctionExpression e = f.derivate(k);
    judge("expression D" + S(k) + " ", e, a, b, codom, want(k), tol * ipow(3.0, k));
    if (k >= 1) {
      auto s = f.clone();
      for (int i = 0; i < k; i++)
        s = s->deriv(1)->clone();
      judge("stepwise D" + S(k) + " ", *s, a, b, codom, want(k), tol * ipow(3.0, k));
    }
    if (k >= 2) {
      auto s = f.deriv(k - 1)->deriv(1), q = f.deriv(1)->deriv(k - 1);
      judge("D" + S(k - 1) + " D1 ", *s, a, b, codom, want(k), tol * ipow(3.0, k));
      judge("D1 D" + S(k - 1) + " ", *q, a, b, codom, want(k), tol * ipow(3.0, k));
    }
    if (k == 2)
      judge("after ", f, a, b, codom, want(0), tol);
  }
  auto c = f.clone();
  judge("clone ", *c, a, b, codom, want(0), tol);
}
struct Dom {
  double a, b;
  Dom() {
    a = sym::var("a", -3, 3);
    b = a + sym::var("L", 0.01, 3);
  }
};
CASES {
  for (int codom = 1; codom <= 9; codom++) {
    sym::reg("const_vector_c" + S(codom), 0, [=] {
      Dom D;
      Vec v = sym::vars("v", codom, -4, 4), w = v;
      all(ConstFunction({D.a, D.b}, w), D.a, D.b, codom, 4, [=](int j, double, int k) { return k ? 0.0 : v(j); });
    });
    sym::reg("const_value_c" + S(codom), 0, [=] {
      Dom D;
      double v = sym::var("v", -4, 4);
      all(ConstFunction({D.a, D.b}, codom, v), D.a, D.b, codom, 4, [=](int, double, int k) { return k ? 0.0 : v; });
    });
  }
  sym::reg("dilation", 0, [=] {
    Dom D;
    double q = sym::var("q", -4, 4);
    all(DomainLinearDilation({D.a, D.b}, q), D.a, D.b, 1, 5, [=](int, double t, int k) { return k == 0 ? q * t : k == 1 ? q : 0.0; });
  });
  sym::reg("identity", 0, [=] {
    Dom D;
    all(Identity({D.a, D.b}), D.a, D.b, 1, 5, [=](int, double t, int k) { return k == 0 ? t : k == 1 ? 1.0 : 0.0; });
  });
  sym::reg("exponential", 0, [=] {
    Dom D;
    all(Exponential({D.a, D.b}), D.a, D.b, 1, 9, [=](int, double t, int) { return std::exp(t); });
  });
  auto sn = [](double t, int k) { return k % 4 == 0 ? std::sin(t) : k % 4 == 1 ? std::cos(t) : k % 4 == 2 ? -std::sin(t) : -std::cos(t); };
  for (int K : {5, 9, 13, 21}) {
    sym::reg("sine_D" + S(K), K > 13, [=] {
      Dom D;
      all(Sin({D.a, D.b}), D.a, D.b, 1, K, [=](int, double t, int k) { return sn(t, k); });
    });
    sym::reg("cosine_D" + S(K), K > 13, [=] {
      Dom D;
      all(Cos({D.a, D.b}), D.a, D.b, 1, K, [=](int, double t, int k) { return sn(t, k + 1); });
    });
  }
  for (int n = 1; n <= 9; n++)
    for (int mv = 0; mv < 2; mv++)
      sym::reg("polynomial_n" + S(n) + (mv ? "_moved" : ""), n > 8, [=] {
        Dom D;
        Vec c = sym::vars("c", n, -4, 4), q = c;
        auto spec = [=](int, double t, int k) { return mono(pder(c, k), t); };
        if (mv)
          all(CanonicPolynomial({D.a, D.b}, std::move(q)), D.a, D.b, 1, n + 2, spec, 1e-5);
        else
          all(CanonicPolynomial({D.a, D.b}, q), D.a, D.b, 1, n + 2, spec, 1e-5);
      });
  // a derivative outlives the function, and its moved-from source does not matter
  for (int n : {2, 4})
    sym::reg("polynomial_move_n" + S(n), 0, [=] {
      Dom D;
      Vec c = sym::vars("c", n, -4, 4);
      auto p = std::make_unique<CanonicPolynomial>(std::pair<double, double>{D.a, D.b}, c);
      auto d = p->deriv(1);
      CanonicPolynomial q(std::move(*p));
      p.reset();
      all(q, D.a, D.b, 1, 2, [=](int, double t, int k) { return mono(pder(c, k), t); }, 1e-5);
      all(*d, D.a, D.b, 1, 2, [=](int, double t, int k) { return mono(pder(c, k + 1), t); }, 1e-5);
    });
}

// long polynomials, low and high orders; points and domains far from zero
CASES {
  for (int n : {10, 12, 16, 17, 18, 20, 25})
    for (int K : {1, 2, 3, 4, 7})
      sym::reg("long_polynomial_n" + S(n) + "_D" + S(K), 0, [=] {
        double a = sym::var("a", -1.2, 0.5), b = a + sym::var("L", 0.01, 0.7);
        Vec c = sym::vars("c", n, -4, 4);
        CanonicPolynomial p({a, b}, c);
        // powers of a fixed set of points, so that the coefficients are judged
        for (double u : {0.0, 0.3, 1.0}) {
          double t = -1.0 + 2.0 * u;
          auto at = [&](const FunctionBase &f) { Mat m(1, 1); f.value(one(t), m); return m(0, 0); };
          double w = mono(pder(c, K), t), sc = 1e-7 * ipow(n, K);
          sym::check_eq("D", at(*p.deriv(K)), w, sc);
          sym::check_eq("D D", at(*p.deriv(1)->deriv(K - 1)), w, sc);
          sym::check_eq("value", at(p), mono(c, t), 1e-7);
        }
      });
  for (int np : {1, 2, 5, 17, 33})
    sym::reg("batch" + S(np), 0, [=] {
      double a = sym::var("a", -3, 3), L = sym::var("L", 0.01, 3), b = a + L, q = sym::var("q", -4, 4);
      Vec c = sym::vars("c", 3, -4, 4), v = sym::vars("v", 3, -4, 4), p(np);
      for (int i = 0; i < np; i++)
        p(i) = a + L * ((i * 7) % np) / np;
      p(np / 2) = a + L * sym::var("u", 0, 1);
      Mat P = CanonicPolynomial({a, b}, c)(p), D = CanonicPolynomial({a, b}, c).deriv(1)->value(p), I = Identity({a, b})(p), Q = DomainLinearDilation({a, b}, q)(p), E = Exponential({a, b})(p), Si = Sin({a, b})(p), Co = Cos({a, b})(p), C = ConstFunction({a, b}, v)(p);
      sym::check_true("shape", P.rows() == np && D.rows() == np && I.rows() == np && C.rows() == np && C.cols() == 3);
      for (int i = 0; i < np; i++) {
        sym::check_eq("polynomial", P(i, 0), mono(c, p(i)), 1e-6);
        sym::check_eq("its derivative", D(i, 0), c(1) + 2 * c(2) * p(i), 1e-6);
        sym::check_eq("identity", I(i, 0), p(i), 1e-9);
        sym::check_eq("dilation", Q(i, 0), q * p(i), 1e-9);
        sym::check_eq("exp", E(i, 0), std::exp(p(i)), 1e-9);
        sym::check_eq("sin", Si(i, 0), std::sin(p(i)), 1e-9);
        sym::check_eq("cos", Co(i, 0), std::cos(p(i)), 1e-9);
        for (int j = 0; j < 3; j++)
          sym::check_eq("constant", C(i, j), v(j), 1e-9);
      }
    });
  sym::reg("far", 0, [=] {
    double a = sym::var("a", -1000, 1000), b = a + sym::var("L", 0.01, 500), q = sym::var("q", -100, 100), t = sym::var("t", -1000, 1500);
    sym::assume(t >= a);
    sym::assume(t <= b);
    Vec c = sym::vars("c", 4, -4, 4);
    for (int i = 0; i < 4; i++)
      c(i) = c(i) / ipow(1000.0, i);
    sym::check_eq("dilation", DomainLinearDilation({a, b}, q)(one(t))(0, 0), q * t, 1e-6);
    sym::check_eq("identity", Identity({a, b})(one(t))(0, 0), t, 1e-6);
    sym::check_eq("polynomial", CanonicPolynomial({a, b}, c)(one(t))(0, 0), mono(c, t), 1e-6);
    sym::check_eq("sin", Sin({a, b})(one(t))(0, 0), std::sin(t), 1e-9);
    sym::check_eq("sin'", Sin({a, b}).deriv(1)->value(one(t))(0, 0), std::cos(t), 1e-9);
  });
}

// domains far from zero, very short and very long; large parameters
CASES {
  for (int v = 0; v < 3; v++) {
    auto dom = [v] {
      double s = v == 0 ? 1e-3 : v == 1 ? 1e2 : 1.0, a = sym::var("a", -1000, 1000);
      return std::pair<double, double>{a, a + s * sym::var("L", 0.5, 4)};
    };
    std::string nm = v == 0 ? "_short" : v == 1 ? "_long" : "_far";
    auto sn = [](double t, int k) { return k % 4 == 0 ? std::sin(t) : k % 4 == 1 ? std::cos(t) : k % 4 == 2 ? -std::sin(t) : -std::cos(t); };
    sym::reg("far_sine" + nm, 0, [=] {
      auto d = dom();
      all(Sin(d), d.first, d.second, 1, 5, [=](int, double t, int k) { return sn(t, k); });
    });
    sym::reg("far_cosine" + nm, 0, [=] {
      auto d = dom();
      all(Cos(d), d.first, d.second, 1, 5, [=](int, double t, int k) { return sn(t, k + 1); });
    });
    sym::reg("far_identity" + nm, 0, [=] {
      auto d = dom();
      all(Identity(d), d.first, d.second, 1, 3, [=](int, double t, int k) { return k == 0 ? t : k == 1 ? 1.0 : 0.0; });
    });
    sym::reg("far_dilation" + nm, 0, [=] {
      auto d = dom();
      double q = sym::var("q", -1e4, 1e4);
      all(DomainLinearDilation(d, q), d.first, d.second, 1, 3, [=](int, double t, int k) { return k == 0 ? q * t : k == 1 ? q : 0.0; }, 1e-4);
    });
    sym::reg("far_constant" + nm, 0, [=] {
      auto d = dom();
      Vec c = sym::vars("v", 3, -1e6, 1e6), w = c;
      all(ConstFunction(d, w), d.first, d.second, 3, 3, [=](int j, double, int k) { return k ? 0.0 : c(j); }, 1e-4);
    });
    for (int n : {1, 2, 3, 4})
      sym::reg("far_polynomial" + nm + "_n" + S(n), 0, [=] {
        auto d = dom();
        Vec c = sym::vars("c", n, -1000, 1000), q = c;
        all(CanonicPolynomial(d, q), d.first, d.second, 1, n + 1, [=](int, double t, int k) { return mono(pder(c, k), t); }, 1e-1);
      });
    sym::reg("far_exponential" + nm, 0, [=] {
      double a = sym::var("a", -30, 20), b = a + (v == 0 ? 1e-3 : 1.0) * sym::var("L", 0.5, 4);
      all(Exponential({a, b}), a, b, 1, 4, [=](int, double t, int) { return std::exp(t); });
    });
  }
}
