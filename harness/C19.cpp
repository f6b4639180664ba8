// Factories and round trips through reported data.
#include "common.hpp"
#include <gsplines/Basis/BasisLegendre.hpp>
static std::string kind(const BSpec &b) {
  if (dynamic_cast<const LegSpec *>(&b)) return "legendre";
  if (dynamic_cast<const LagSpec *>(&b)) return "lagrange";
  return "basis0101";
}
static std::vector<double> params(const BSpec &b) {
  if (auto *l = dynamic_cast<const LagSpec *>(&b))
    return std::vector<double>(l->nodes.data(), l->nodes.data() + l->nodes.size());
  if (auto *s = dynamic_cast<const S0101 *>(&b))
    return {s->alpha};
  return {};
}
static Vec pvec(const BSpec &b) {
  auto p = params(b);
  return Eigen::Map<Vec>(p.data(), p.size());
}
static const double WIN[] = {-0.93, -0.31, 0.17, 0.66};
// a basis object is the specified basis
static void judge(const std::string &L, basis::Basis &B, const BS &b, double tau, const std::vector<double> &ss, int K) {
  int d = b->dim();
  sym::check_true(L + "name", B.get_name() == kind(*b));
  sym::check_true(L + "dimension", (int)B.get_dim() == d);
  auto p = params(*b);
  sym::check_true(L + "parameter count", B.get_parameters().size() == (long)p.size());
  for (size_t i = 0; i < p.size(); i++)
    sym::check_eq(L + "parameter " + S(i), B.get_parameters()(i), p[i], 1e-12);
  sym::check_true(L + "equal to a constructed one", B == *b->make() && *b->make() == B);
  for (double s : ss)
    for (int k = 0; k <= K; k++) {
      Vec v(d);
      if (k)
        B.eval_derivative_on_window(s, tau, k, v);
      else
        B.eval_on_window(s, tau, v);
      for (int i = 0; i < d; i++)
        sym::check_eq(L + "D" + S(k) + " function " + S(i), v(i) * ipow(tau, k), b->at(i, s, tau, k) * ipow(tau, k), 1e-6 * ipow(10, k));
    }
}
static std::vector<double> wins(const BSpec &b) {
  if (dynamic_cast<const LagSpec *>(&b))
    return std::vector<double>(WIN, WIN + 4);
  return {sym::var("s", -1, 1)};
}
static std::vector<BS> bases() { return {Leg(1), Leg(2), Leg(3), Leg(4), Leg(5), Leg(6), Leg(8), Gll(2), Gll(3), Gll(4), Gll(6), LagIn(2), LagIn(3), LagIn(5), B01(0.2), B01(0.5), B01(0.9)}; }
CASES {
  for (auto b : bases()) {
    for (int form = 0; form < 3; form++)
      sym::reg("lookup" + S(form) + "_" + b->name, 0, [=] {
        double tau = sym::var("tau", 0.25, 4);
        auto ss = wins(*b);
        std::shared_ptr<basis::Basis> B;
        if (form == 0)
          B = basis::get_basis(kind(*b), b->dim(), params(*b));
        else if (form == 1)
          B = basis::get_basis(kind(*b), b->dim(), pvec(*b));
        else { // the factories of the classes
          if (kind(*b) == "legendre")
            B = basis::BasisLegendre::get(b->dim());
          else if (kind(*b) == "lagrange") {
            judge("vector ", *basis::BasisLagrange::get(params(*b)), b, tau, ss, 2);
            basis::BasisLagrange c(params(*b));
            judge("constructor ", c, b, tau, ss, 2);
            B = basis::BasisLagrange::get(pvec(*b));
          } else
            B = basis::Basis0101::get(params(*b)[0]);
        }
        judge("", *B, b, tau, ss, 3);
        auto c = B->clone();
        judge("clone ", *c, b, tau, ss, 2);
        auto m = c->move_clone();
        judge("moved ", *m, b, tau, ss, 2);
        judge("after cloning ", *B, b, tau, ss, 2);
        // from what it reports about itself
        auto r = basis::get_basis(B->get_name(), B->get_dim(), B->get_parameters());
        judge("rebuilt ", *r, b, tau, ss, 3);
        sym::check_true("rebuilt equal", *r == *B && *B == *r);
      });
    // look-ups before, between and after, every result judged at the end
    sym::reg("sequence_" + b->name, 0, [=] {
      double tau = sym::var("tau", 0.25, 4);
      auto ss = wins(*b);
      std::vector<std::shared_ptr<basis::Basis>> got;
      auto all = bases();
      for (auto &o : all)
        got.push_back(basis::get_basis(kind(*o), o->dim(), params(*o)));
      auto again = basis::get_basis(kind(*b), b->dim(), params(*b));
      Mat q = Mat::Zero(b->dim(), b->dim());
      for (size_t i = 0; i < all.size(); i++)
        if (all[i]->name == b->name)
          got[i]->get_derivative_matrix_block(2), got[i]->add_derivative_matrix(1.5, 1, q);
        else
          got[i].reset();
      for (size_t i = 0; i < all.size(); i++)
        if (got[i])
          judge("first ", *got[i], b, tau, ss, 2);
      judge("second ", *again, b, tau, ss, 2);
      sym::check_true("equal", *again == *basis::get_basis(kind(*b), b->dim(), params(*b)));
    });
  }
  sym::reg("gauss_lobatto", 0, [=] {
    double tau = sym::var("tau", 0.25, 4);
    for (int n = 2; n <= 8; n++) {
      basis::BasisLagrangeGaussLobatto B(n);
      auto b = Gll(n);
      sym::check_true("name", B.get_name() == "lagrange" && (int)B.get_dim() == n);
      for (int i = 0; i < n; i++)
        sym::check_eq("node " + S(i) + " of " + S(n), B.get_parameters()(i), gll_nodes(n)(i), 1e-7);
      for (double s : WIN) {
        Vec v(n);
        B.eval_on_window(s, tau, v);
        for (int i = 0; i < n; i++)
          sym::check_eq("function " + S(i) + " of " + S(n), v(i), b->at(i, s, tau, 0), 1e-5);
      }
    }
  });
  // symbolic parameters
  for (int n = 1; n <= 4; n++)
    sym::reg("nodes_" + S(n), n > 3, [=] {
      std::vector<double> p;
      for (int i = 0; i < n; i++)
        p.push_back(-1.0 + 0.5 * i + sym::var("d" + S(i), 0.0, 0.25));
      auto B = basis::get_basis("lagrange", n, p);
      sym::check_true("dimension", (int)B->get_dim() == n && B->get_parameters().size() == n && B->get_name() == "lagrange");
      for (int i = 0; i < n; i++)
        sym::check_eq("parameter " + S(i), B->get_parameters()(i), p[i], 1e-12);
      auto r = basis::get_basis(B->get_name(), B->get_dim(), B->get_parameters());
      for (int k = 0; k < n; k++) {
        Vec v(n), w(n);
        B->eval_on_window(p[k], 1.0, v);
        r->eval_on_window(p[k], 1.0, w);
        for (int i = 0; i < n; i++) {
          sym::check_eq("function " + S(i) + " at node " + S(k), v(i), i == k, 1e-9);
          sym::check_eq("rebuilt function " + S(i) + " at node " + S(k), w(i), i == k, 1e-9);
        }
      }
    });
  sym::reg("refused", 0, [=] {
    double a = sym::var("a", 0.1, 0.9);
    std::vector<double> p1{a}, p2{a, a}, p0;
    for (std::string nm : {"", "Legendre", "legendre ", " legendre", "lagrange_gl", "LAGRANGE", "basis0102", "basis010", "basis", "legendr", "l", "gspline"})
      for (auto &p : {p0, p1, p2})
        for (int dim : {1, 2, 6}) {
          sym::check_true("unknown name '" + nm + "'", sym::throws([&] { basis::get_basis(nm, dim, p); }));
          sym::check_true("unknown name '" + nm + "' vector", sym::throws([&] { basis::get_basis(nm, dim, Vec(Vec::Constant(p.size(), a))); }));
        }
    for (int k : {0, 2, 3, 6}) {
      sym::check_true("basis0101 with " + S(k) + " parameters", sym::throws([&] { basis::get_basis("basis0101", 6, std::vector<double>(k, 0.5)); }));
      sym::check_true("basis0101 with a vector of " + S(k), sym::throws([&] { basis::get_basis("basis0101", 6, Vec(Vec::Constant(k, 0.5))); }));
    }
    sym::check_true("basis0101 with one", !sym::throws([&] { basis::get_basis("basis0101", 6, std::vector<double>{0.5}); }));
  });
}
// ---- splines
static GSpline rebuild(const GSpline &g, int form) {
  auto B = basis::get_basis(g.get_basis_name(), g.get_basis_dim(), g.get_basis().get_parameters());
  if (form == 0)
    return GSpline(g.get_domain(), g.get_codom_dim(), g.get_number_of_intervals(), *B, g.get_coefficients(), g.get_interval_lengths(), g.get_name());
  Vec c = g.get_coefficients(), tau = g.get_interval_lengths();
  return GSpline(g.get_domain(), g.get_codom_dim(), g.get_number_of_intervals(), *B, std::move(c), std::move(tau), g.get_name());
}
static void report(const std::string &L, const GSpline &g, const Spl &sp) {
  sym::check_true(L + "basis name", g.get_basis_name() == kind(*sp.b) && g.get_basis().get_name() == kind(*sp.b));
  sym::check_true(L + "basis dimension", (int)g.get_basis_dim() == sp.b->dim() && (int)g.get_basis().get_dim() == sp.b->dim());
  sym::check_true(L + "codomain", (int)g.get_codom_dim() == sp.codom);
  sym::check_true(L + "intervals", (int)g.get_number_of_intervals() == sp.n && g.get_interval_lengths().size() == sp.n);
  sym::check_true(L + "coefficient count", g.get_coefficients().size() == sp.c.size());
  sym::check_eq(L + "start", g.get_domain().first, sp.t0, 1e-12);
  sym::check_eq(L + "end", g.get_domain().second, sp.tend(), 1e-9);
  sym::check_eq(L + "duration", g.get_domain_length(), sp.tau.sum(), 1e-9);
  for (int i = 0; i < sp.n; i++)
    sym::check_eq(L + "length " + S(i), g.get_interval_lengths()(i), sp.tau(i), 1e-12);
  for (long i = 0; i < sp.c.size(); i++)
    sym::check_eq(L + "coefficient " + S(i), g.get_coefficients()(i), sp.c(i), 1e-12);
  auto p = params(*sp.b);
  sym::check_true(L + "parameter count", g.get_basis().get_parameters().size() == (long)p.size());
  for (size_t i = 0; i < p.size(); i++)
    sym::check_eq(L + "parameter " + S(i), g.get_basis().get_parameters()(i), p[i], 1e-12);
  Vec br = g.get_domain_breakpoints();
  sym::check_true(L + "breakpoint count", br.size() == sp.n + 1);
  for (int i = 0; i <= sp.n; i++)
    sym::check_eq(L + "breakpoint " + S(i), br(i), sp.breaks()(i), 1e-9);
}
static void values(const std::string &L, const GSpline &g, const Spl &sp, double s) {
  for (int i = 0; i < sp.n; i++) {
    Mat v = g(one(sp.point(i, s)));
    for (int j = 0; j < sp.codom; j++)
      sym::check_eq(L + "piece " + S(i) + " component " + S(j), v(0, j), sp.win_at(i, j, s, 0), 1e-6);
  }
}
CASES {
  for (auto b : bases())
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 3; n++) {
        if (b->dim() > 6 || (b->dim() == 1 && n > 1))
          continue;
        bool big = codom * n > 4;
        std::string nm = "_" + b->name + "_c" + S(codom) + "_n" + S(n);
        bool lag = kind(*b) == "lagrange", ex = kind(*b) == "basis0101";
        for (int form = 0; form < 2; form++)
          sym::reg("spline" + S(form) + nm, big, [=] {
            Spl sp(b, codom, n);
            if (ex || lag) { // window coordinates are concrete
              sp.t0 = 0.5;
              for (int i = 0; i < n; i++)
                sp.tau(i) = 1.0 + 0.25 * i;
            }
            GSpline g = sp.make();
            report("", g, sp);
            GSpline r = rebuild(g, form);
            report("rebuilt ", r, sp);
            double s = ex || lag ? 0.3 : sym::var("s", -0.99, 1);
            values("rebuilt ", r, sp, s);
            values("original ", g, sp, s);
            GSpline rr = rebuild(r, 1 - form);
            report("again ", rr, sp);
            sym::check_true("name", r.get_name() == g.get_name());
            sym::check_true("same space", r.same_vector_space(g) && g.same_vector_space(r));
            // derivatives
            for (int k = 1; k <= 2; k++) {
              GSpline d = g.derivate(k), rd = rebuild(d, form);
              for (int i = 0; i < n; i++) {
                double t = sp.point(i, s);
                Mat v = rd(one(t)), w = r.derivate(k)(one(t));
                for (int j = 0; j < codom; j++) {
                  sym::check_eq("rebuilt D" + S(k) + " piece " + S(i), v(0, j) * ipow(sp.tau(i), k), sp.win_at(i, j, s, k) * ipow(sp.tau(i), k), 1e-5 * ipow(10, k));
                  sym::check_eq("D" + S(k) + " of rebuilt piece " + S(i), w(0, j) * ipow(sp.tau(i), k), sp.win_at(i, j, s, k) * ipow(sp.tau(i), k), 1e-5 * ipow(10, k));
                }
              }
            }
            // a scaled one
            GSpline q = g.linear_scaling_new_execution_time(ex || lag ? 3.0 : sym::var("T", 0.5, 8)), rq = rebuild(q, form);
            for (int i = 0; i < n; i++) {
              double t = q.get_domain_breakpoints()(i) + q.get_interval_lengths()(i) * (s + 1.0) / 2.0;
              Mat v = rq(one(t));
              for (int j = 0; j < codom; j++)
                sym::check_eq("rebuilt scaled piece " + S(i), v(0, j), sp.win_at(i, j, s, 0), 1e-5);
            }
          });
        // waypoints: values at the breakpoints
        if (!lag)
          sym::reg("waypoints" + nm, big, [=] {
            Spl sp(b, codom, n);
            if (ex) {
              sp.t0 = 0.5;
              for (int i = 0; i < n; i++)
                sp.tau(i) = 1.0 + 0.25 * i;
            }
            GSpline g = sp.make();
            Mat w = g.get_waypoints();
            sym::check_true("shape", w.rows() == n + 1 && w.cols() == codom);
            for (int j = 0; j < codom; j++) {
              sym::check_eq("first component " + S(j), w(0, j), sp.win_at(0, j, -1, 0), 1e-6);
              for (int i = 0; i < n; i++)
                sym::check_eq("waypoint " + S(i + 1) + " component " + S(j), w(i + 1, j), sp.win_at(i, j, 1, 0), 1e-6);
            }
          });
        // equality with symbolic coefficients
        if (n * codom * b->dim() <= 3)
          sym::reg("equal" + nm, 0, [=] {
            Spl sp(b, codom, n);
            GSpline g = sp.make(), r = rebuild(g, 0);
            sym::check_true("equal", r == g && g == r && !(r != g));
          });
        for (long q = 0; q < n * codom * b->dim(); q++)
          sym::reg("equal_in_c" + S(q) + nm, q > 2, [=] {
            Vec c(n * codom * b->dim());
            for (long i = 0; i < c.size(); i++)
              c(i) = 0.25 * (double)((i * 7) % 11) - 1.0;
            c(q) = sym::var("c", -4, 4);
            Vec tau = Vec::Constant(n, 1.25);
            tau(0) = sym::var("tau", 0.25, 4);
            GSpline g({-1.0, -1.0 + tau.sum()}, codom, n, *b->make(), c, tau), r = rebuild(g, 0), m = rebuild(g, 1);
            sym::check_true("equal", r == g && g == r && m == g && g == m && !(r != g));
          });
      }
}

// larger bases, longer splines
CASES {
  for (auto b : {Leg(7), Leg(9), Leg(12), Gll(7), Gll(8), Gll(10), LagIn(7), B01(0.05), B01(0.7)})
    sym::reg("large_" + b->name, 0, [=] {
      double tau = sym::var("tau", 0.25, 4);
      std::vector<double> ss(WIN, WIN + 4);
      auto B = basis::get_basis(kind(*b), b->dim(), params(*b)), C = basis::get_basis(kind(*b), b->dim(), pvec(*b));
      int K = b->dim() > 8 ? 1 : 2;
      judge("", *B, b, tau, ss, K);
      judge("vector ", *C, b, tau, ss, K);
      auto r = basis::get_basis(B->get_name(), B->get_dim(), B->get_parameters());
      judge("rebuilt ", *r, b, tau, ss, K);
      sym::check_true("equal", *r == *B && *B == *C);
    });
  struct Q { BS b; int c, n; };
  std::vector<Q> qs{{Leg(3), 1, 7}, {Leg(3), 6, 2}, {Leg(4), 3, 5}, {Gll(4), 3, 5}, {Leg(9), 1, 2}, {Gll(8), 2, 2}, {B01(0.7), 2, 4}};
  for (auto &q : qs)
    for (int form = 0; form < 2; form++)
      sym::reg("long_spline" + S(form) + "_" + q.b->name + "_c" + S(q.c) + "_n" + S(q.n), 0, [=] {
        Spl sp(q.b, q.c, q.n);
        sp.t0 = -2.5;
        for (int i = 0; i < q.n; i++)
          sp.tau(i) = 0.3 + 0.45 * i;
        GSpline g = sp.make();
        report("", g, sp);
        GSpline r = rebuild(g, form);
        report("rebuilt ", r, sp);
        values("rebuilt ", r, sp, 0.3);
        values("rebuilt ", r, sp, -0.77);
        Mat w = r.get_waypoints();
        sym::check_true("shape", w.rows() == q.n + 1 && w.cols() == q.c);
        for (int j = 0; j < q.c; j++) {
          sym::check_eq("first component " + S(j), w(0, j), sp.win_at(0, j, -1, 0), 1e-6);
          for (int i = 0; i < q.n; i++)
            sym::check_eq("waypoint " + S(i + 1) + " component " + S(j), w(i + 1, j), sp.win_at(i, j, 1, 0), 1e-6);
        }
      });
}

// the entropy source, so that a run can be replayed
#include <random>
unsigned int std::random_device::_M_getval() {
  static unsigned k = 12345;
  return k = k * 1664525u + 1013904223u;
}
// random splines: whatever the random data, the domain, codomain and basis asked for
CASES {
  auto judge_random = [](const std::string &L, const GSpline &g, const BSpec &b, double a, double len, int codom) {
    sym::check_eq(L + "start", g.get_domain().first, a, 1e-9);
    sym::check_eq(L + "end", g.get_domain().second, a + len, 1e-9);
    sym::check_eq(L + "lengths add up", g.get_interval_lengths().sum(), len, 1e-7);
    sym::check_true(L + "codomain", (int)g.get_codom_dim() == codom);
    int n = g.get_number_of_intervals();
    sym::check_true(L + "intervals", n >= 1 && g.get_interval_lengths().size() == n && g.get_coefficients().size() == n * codom * b.dim());
    for (int i = 0; i < n && i < 10; i++)
      sym::check_true(L + "positive length", g.get_interval_lengths()(i) > 0.0);
    sym::check_true(L + "basis", g.get_basis_name() == kind(b) && (int)g.get_basis_dim() == b.dim() && g.get_basis() == *b.make());
    // defined over the whole domain, agreeing with its own waypoints
    Mat w = g.get_waypoints(), v0 = g(one(a)), v1 = g(one(a + len));
    sym::check_true(L + "waypoints", w.rows() == n + 1 && w.cols() == codom);
    for (int j = 0; j < codom; j++) {
      sym::check_eq(L + "first value " + S(j), v0(0, j), w(0, j), 1e-6);
      sym::check_eq(L + "last value " + S(j), v1(0, j), w(n, j), 1e-6);
    }
  };
  for (int codom : {1, 2, 3, 5}) {
    sym::reg("random_c" + S(codom), 0, [=] {
      double a = sym::var("a", -8, 8), len = sym::var("L", 0.25, 16);
      judge_random("", random_gspline({a, a + len}, codom), *Leg(6), a, len, codom);
    });
    for (auto b : {Leg(2), Leg(4), Leg(6), Gll(4), B01(0.5), B01(0.7)})
      sym::reg("random_" + b->name + "_c" + S(codom), 0, [=] {
        double a = sym::var("a", -8, 8), len = sym::var("L", 0.25, 16);
        judge_random("", random_gspline({a, a + len}, codom, *b->make()), *b, a, len, codom);
      });
  }
}
