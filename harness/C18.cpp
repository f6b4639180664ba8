// Equality and closeness.
#include "common.hpp"
static double mag(double x) { return x < 0 ? -x : x; }
// x < y, leaving out x within a relative 1e-6 of y: on the border itself the
// answer is not part of the property (and depends on rounding)
static bool less(double x, double y) {
  if (x < y * (1 - 1e-6))
    return true;
  sym::assume(x > y * (1 + 1e-6));
  return false;
}
// closeness of magnitudes e (largest difference), l, r (largest entries)
static bool close(double e, double l, double r, double tol) {
  double m = l < r ? l : r;
  if (less(m, tol))
    return less(e, tol);
  return less(e, m * tol);
}
static double top(const Mat &m) {
  double r = 0;
  for (long j = 0; j < m.cols(); j++)
    for (long i = 0; i < m.rows(); i++) {
      double x = mag(m(i, j));
      if (x > r)
        r = x;
    }
  return r;
}
static bool close(const Mat &a, const Mat &b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  if (a.size() == 0)
    return true;
  return close(top(a - b), top(a), top(b), tol);
}
CASES {
  for (double tol : {1e-7, 1e-3, 0.5}) {
    std::string nm = "_tol" + S(std::lround(-std::log10(tol) * 10));
    sym::reg("number" + nm, 0, [=] {
      double x = sym::var("x", -4, 4), y = sym::var("y", -4, 4);
      bool want = close(mag(x - y), mag(x), mag(y), tol);
      bool r = tools::approx_equal(x, y, tol);
      sym::check_true("close", r == want);
      sym::check_true("symmetric", tools::approx_equal(y, x, tol) == r);
      sym::check_true("reflexive", tools::approx_equal(x, x, tol));
      bool small = less(mag(x), tol);
      sym::check_true("zero", tools::approx_zero(x, tol) == small);
    });
    sym::reg("near" + nm, 0, [=] {
      double x = sym::var("x", -4, 4), y = x + tol * sym::var("d", -8, 8);
      bool want = close(mag(x - y), mag(x), mag(y), tol);
      bool r = tools::approx_equal(x, y, tol);
      sym::check_true("close", r == want);
      sym::check_true("symmetric", tools::approx_equal(y, x, tol) == r);
    });
    for (int rows = 1; rows <= 3; rows++)
      for (int cols = 1; cols <= 3; cols++) {
        if (rows * cols <= 2)
          sym::reg("matrix_" + S(rows) + "x" + S(cols) + nm, rows * cols > 1, [=] {
            Mat a(rows, cols), b(rows, cols);
            for (int i = 0; i < rows; i++)
              for (int j = 0; j < cols; j++) {
                a(i, j) = sym::var("a" + S(i) + S(j), -4, 4);
                b(i, j) = sym::var("b" + S(i) + S(j), -4, 4);
              }
            bool want = close(a, b, tol);
            bool r = tools::approx_equal(a, b, tol);
            sym::check_true("close", r == want);
            sym::check_true("reflexive", tools::approx_equal(a, a, tol));
          });
        for (int q = 0; q < rows * cols; q++)
          sym::reg("entry" + S(q) + "_" + S(rows) + "x" + S(cols) + nm, 0, [=] {
            Mat a(rows, cols);
            for (int i = 0; i < rows; i++)
              for (int j = 0; j < cols; j++)
                a(i, j) = 0.27 * (i + 1) - 0.55 * j;
            Mat b = a;
            b(q % rows, q / rows) = sym::var("x", -4, 4);
            bool want = close(a, b, tol);
            bool r = tools::approx_equal(a, b, tol);
            sym::check_true("close", r == want);
            sym::check_true("symmetric", tools::approx_equal(b, a, tol) == r);
            bool zb = less(top(b), tol), zd = less(top(b - a), tol);
            sym::check_true("zero", tools::approx_zero(b, tol) == zb);
            sym::check_true("all small", tools::approx_zero(Mat((b - a) * 1.0), tol) == zd);
          });
        for (int r2 = 1; r2 <= 3; r2++)
          for (int c2 = 1; c2 <= 3; c2++)
            if (r2 != rows || c2 != cols)
              sym::reg("shape_" + S(rows) + "x" + S(cols) + "_" + S(r2) + "x" + S(c2) + nm, 0, [=] {
                Mat a = Mat::Constant(rows, cols, sym::var("x", -4, 4)), b = Mat::Constant(r2, c2, a(0, 0));
                sym::check_true("different shapes", !tools::approx_equal(a, b, tol));
              });
      }
  }
}
// splines
struct Data {
  BS b;
  int codom, n;
  double t0, t1;
  Vec tau, c;
  GSpline make() const { return GSpline({t0, t1}, codom, n, *b->make(), c, tau); }
};
static Data table(BS b, int codom, int n) {
  Data d{b, codom, n, 0.5, 0, Vec(n), Vec(n * codom * b->dim())};
  for (int i = 0; i < n; i++)
    d.tau(i) = 1.0 + 0.5 * i;
  d.t1 = d.t0 + d.tau.sum();
  for (long i = 0; i < d.c.size(); i++)
    d.c(i) = 0.25 * (double)((i * 7) % 11) - 1.0;
  return d;
}
static void judge(const Data &x, const Data &y, bool want, const std::string &L = "") {
  GSpline a = x.make(), b = y.make();
  bool r = a == b;
  sym::check_true(L + "equality", r == want);
  sym::check_true(L + "symmetry", (b == a) == want);
  sym::check_true(L + "inequality", (a != b) == !want);
  sym::check_true(L + "inequality symmetry", (b != a) == !want);
  sym::check_true(L + "reflexive", a == a && !(a != a));
  for (long i = 0; i < x.c.size(); i++)
    sym::check_eq(L + "coefficient kept " + S(i), a.get_coefficients()(i), x.c(i), 1e-12);
  for (long i = 0; i < x.tau.size(); i++)
    sym::check_eq(L + "length kept " + S(i), a.get_interval_lengths()(i), x.tau(i), 1e-12);
  sym::check_eq(L + "start kept", a.get_domain().first, x.t0, 1e-12);
}
CASES {
  const double tol = 1e-7;
  std::vector<BS> bs{Leg(2), Leg(4), Leg(6), Gll(3), LagIn(3), B01(0.5)};
  for (auto b : bs)
    for (int codom = 1; codom <= 2; codom++)
      for (int n = 1; n <= 3; n++) {
        std::string nm = "_" + b->name + "_c" + S(codom) + "_n" + S(n);
        for (int big = 0; big < 2; big++) {
          double w = big ? 4.0 : 8e-7;
          for (long i = 0; i < n * codom * b->dim(); i++)
            sym::reg("coefficient" + S(i) + (big ? "_far" : "_near") + nm, i > 3 && i + 1 < n * codom * b->dim() && (i * 5) % 7, [=] {
              Data x = table(b, codom, n), y = x;
              y.c(i) = x.c(i) + sym::var("d", -w, w);
              judge(x, y, close(x.c, y.c, tol));
            });
          for (int i = 0; i < n; i++)
            sym::reg("length" + S(i) + (big ? "_far" : "_near") + nm, 0, [=] {
              Data x = table(b, codom, n), y = x;
              y.tau(i) = x.tau(i) + sym::var("d", big ? -0.9 : -w, w);
              judge(x, y, close(x.tau, y.tau, tol));
            });
          sym::reg(std::string("start") + (big ? "_far" : "_near") + nm, 0, [=] {
            Data x = table(b, codom, n), y = x;
            double d = sym::var("d", -w, w);
            y.t0 = x.t0 + d;
            y.t1 = x.t1 + d;
            judge(x, y, close(mag(x.t0 - y.t0), mag(x.t0), mag(y.t0), tol) && close(mag(x.t1 - y.t1), mag(x.t1), mag(y.t1), tol));
          });
        }
        sym::reg("other" + nm, 0, [=] {
          Data x = table(b, codom, n);
          double f = sym::var("f", -4, 4);
          for (long i = 0; i < x.c.size(); i++)
            x.c(i) = f * x.c(i);
          judge(x, x, true, "same ");
          for (auto o : bs)
            if (o->name != b->name) {
              Data y = table(o, codom, n);
              if (o->dim() == b->dim()) y.c = x.c;
              judge(x, y, false, o->name + " ");
            }
          Data y = table(b, codom + 1, n), z = table(b, codom, n + 1);
          judge(x, y, false, "codomain ");
          judge(x, z, false, "intervals ");
          // the same numbers split over components or intervals
          if (n == 2 && codom == 1) {
            Data u = table(b, 2, 1);
            u.c = x.c;
            u.tau(0) = x.tau.sum();
            u.t1 = x.t1;
            judge(x, u, false, "components for intervals ");
          }
        });
        if (n * codom * b->dim() <= 4)
          sym::reg("symbolic" + nm, n * codom * b->dim() > 3, [=] {
            Spl sp(b, codom, n);
            GSpline a = sp.make(), c = sp.make();
            sym::check_true("equal to itself", a == a);
            sym::check_true("equal to a copy", a == c && c == a && !(a != c));
          });
      }
  // the zero spline is close to splines with small coefficients only
  for (auto b : bs)
    sym::reg("zero_" + b->name, 0, [=] {
      Data x = table(b, 1, 2), y = x;
      x.c.setZero();
      y.c.setZero();
      double d = sym::var("d", -1e-6, 1e-6);
      y.c(b->dim()) = d;
      bool want = less(mag(d), 1e-7);
      judge(x, y, want);
      sym::check_true("approx zero", tools::approx_zero(y.make(), 1e-7) == want);
    });
}
// bases
CASES {
  static std::vector<BS> bs{Leg(2), Leg(3), Leg(4), Leg(5), Leg(6), Leg(7), Gll(2), Gll(3), Gll(4), Gll(5), Gll(6), Gll(7), LagIn(2), LagIn(3), LagIn(4), B01(0.2), B01(0.5), B01(0.8)};
  for (size_t i = 0; i < bs.size(); i++)
    sym::reg("basis_pairs_" + bs[i]->name, 0, [=] {
      for (size_t j = 0; j < bs.size(); j++) {
        auto a = bs[i]->make(), b = bs[j]->make();
        sym::check_true("pair " + bs[j]->name, (*a == *b) == (i == j));
        sym::check_true("differ " + bs[j]->name, (*a != *b) == (i != j));
        auto c = a->clone();
        sym::check_true("clone", *a == *c && *c == *a);
      }
    });
  for (double al : {0.2, 0.5, 0.9})
    for (double w : {1e-5, 0.09})
      sym::reg("basis_alpha" + S(std::lround(al * 10)) + (w < 1e-3 ? "_near" : "_far"), 0, [=] {
        double d = sym::var("d", -w, w);
        basis::Basis0101 a(al), b(al + d);
        bool want = close(mag(d), al, al + d, 1e-6);
        sym::check_true("equality", (a == b) == want);
        sym::check_true("symmetry", (b == a) == want);
        sym::check_true("inequality", (a != b) == !want);
      });
  for (int n = 2; n <= 5; n++)
    for (int k = 0; k < n; k++)
      for (double w : {1e-5, 0.1})
        sym::reg("basis_node" + S(k) + "_n" + S(n) + (w < 1e-3 ? "_near" : "_far"), 0, [=] {
          Vec x = Vec::LinSpaced(n, -1, 1), y = x;
          double d = sym::var("d", -w, w);
          y(k) = x(k) + d;
          basis::BasisLagrange a(x), b(y);
          bool want = close(x, y, 1e-6);
          sym::check_true("equality", (a == b) == want);
          sym::check_true("symmetry", (b == a) == want);
        });
}

// numbers over several magnitudes, larger matrices, longer splines
CASES {
  for (double tol : {1e-9, 1e-6, 1e-2})
    for (double sc : {1e-5, 1e3, 1e6})
      sym::reg("magnitude" + S(std::lround(std::log10(sc))) + "_tol" + S(std::lround(-std::log10(tol))), 0, [=] {
        double x = sc * sym::var("x", -4, 4), y = sc * sym::var("y", -4, 4), z = x + sc * tol * sym::var("d", -8, 8);
        bool want = close(mag(x - y), mag(x), mag(y), tol), wz = close(mag(x - z), mag(x), mag(z), tol);
        sym::check_true("close", tools::approx_equal(x, y, tol) == want);
        sym::check_true("symmetric", tools::approx_equal(y, x, tol) == want);
        sym::check_true("close to a neighbour", tools::approx_equal(x, z, tol) == wz);
        sym::check_true("neighbour close", tools::approx_equal(z, x, tol) == wz);
      });
  for (int rows : {1, 5, 9})
    for (int cols : {1, 4})
      for (int q = 0; q < rows * cols; q++)
        sym::reg("large_entry" + S(q) + "_" + S(rows) + "x" + S(cols), 0, [=] {
          Mat a(rows, cols);
          for (int i = 0; i < rows; i++)
            for (int j = 0; j < cols; j++)
              a(i, j) = 0.27 * (i + 1) - 0.55 * j;
          Mat b = a;
          b(q % rows, q / rows) = sym::var("x", -4, 4);
          bool want = close(a, b, 1e-5);
          sym::check_true("close", tools::approx_equal(a, b, 1e-5) == want);
          sym::check_true("symmetric", tools::approx_equal(b, a, 1e-5) == want);
        });
  for (auto b : {Leg(3), Gll(4)})
    for (double sc : {1e-3, 1.0, 1e4}) {
      const int n = 6, codom = 4;
      std::string nm = "_" + b->name + "_e" + S(std::lround(std::log10(sc)));
      for (long i = 0; i < n * codom * b->dim(); i += 5)
        sym::reg("long_coefficient" + S(i) + nm, 0, [=] {
          Data x = table(b, codom, n), y;
          x.c *= sc;
          y = x;
          y.c(i) = x.c(i) + sc * sym::var("d", -8e-7, 8e-7);
          judge(x, y, close(x.c, y.c, 1e-7));
        });
      for (int i = 0; i < n; i++)
        sym::reg("long_length" + S(i) + nm, 0, [=] {
          Data x = table(b, codom, n), y;
          x.tau *= sc;
          x.t1 = x.t0 + x.tau.sum();
          y = x;
          y.tau(i) = x.tau(i) + sc * sym::var("d", -2e-6, 2e-6);
          judge(x, y, close(x.tau, y.tau, 1e-7));
        });
    }
  for (int n : {6, 8})
    for (int k = 0; k < n; k++)
      sym::reg("long_nodes" + S(k) + "_n" + S(n), 0, [=] {
        Vec x = Vec::LinSpaced(n, -1, 1), y = x;
        y(k) = x(k) + sym::var("d", -1e-5, 1e-5);
        basis::BasisLagrange a(x), b(y);
        bool want = close(x, y, 1e-6);
        sym::check_true("equality", (a == b) == want);
        sym::check_true("symmetry", (b == a) == want);
      });
}

// several parameters differ at once, with the same sum, set or ends
CASES {
  for (int n = 3; n <= 6; n++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        for (double w : {1e-5, 0.1})
          if (i != j)
            sym::reg("basis_nodes" + S(i) + S(j) + "_n" + S(n) + (w < 1e-3 ? "_near" : "_far"), i > j ? n > 3 || w > 1e-3 : n > 4, [=] {
              Vec x = Vec::LinSpaced(n, -1, 1), y = x;
              double d = sym::var("d", -w, w), e = i < j ? -d : sym::var("e", -w, w);
              y(i) = x(i) + d;
              y(j) = x(j) + e;
              basis::BasisLagrange a(x), b(y);
              bool want = close(x, y, 1e-6);
              sym::check_true("equality", (a == b) == want);
              sym::check_true("symmetry", (b == a) == want);
              sym::check_true("inequality", (a != b) == !want);
            });
  for (int q = 0; q < 3; q++)
    sym::reg("basis_order" + S(q), 0, [=] {
      Vec x(4), y(4);
      x << -1, -0.3, 0.4, 1;
      y = x;
      std::swap(y(q), y(q + 1));
      basis::BasisLagrange a(x), b(y);
      sym::check_true("order of the nodes", !(a == b) && !(b == a) && a != b);
    });
  // coefficients or lengths exchanged, or changed with the same sum
  for (auto b : {Leg(3), Gll(3)})
    for (int n = 2; n <= 3; n++)
      for (int codom = 1; codom <= 2; codom++)
        for (int k = 0; k < 6; k++)
          for (double w : {8e-7, 2.0})
            sym::reg("two_" + b->name + "_c" + S(codom) + "_n" + S(n) + "_" + S(k) + (w < 1e-3 ? "_near" : "_far"), 0, [=] {
              Data x = table(b, codom, n), y = x;
              double d = sym::var("d", -w, w);
              if (k < 5) {
                long i = (3 * k) % x.c.size(), j = (5 * k + 2) % x.c.size();
                y.c(i) += d;
                y.c(j) -= d;
                judge(x, y, close(x.c, y.c, 1e-7));
              } else {
                double f = w > 1 ? d / 4 : d;
                y.tau(0) += f;
                y.tau(n - 1) -= f;
                judge(x, y, close(x.tau, y.tau, 1e-7));
              }
            });
}
