// Time scaling.
#include "common.hpp"
using collocation::GaussLobattoLagrangeSpline;
using OV = std::optional<std::vector<double>>;
// g runs over the same geometry as sp with its time axis multiplied by f
template <class T> static void scaled(const std::string &L, const Spl &sp, const T &g, double f, const std::vector<double> &ss, int K, double tol = 1e-6) {
  sym::check_true(L + "shape", (int)g.get_codom_dim() == sp.codom && (int)g.get_number_of_intervals() == sp.n && (int)g.get_basis_dim() == sp.b->dim());
  sym::check_eq(L + "start", g.get_domain().first, sp.t0, 1e-9);
  sym::check_eq(L + "end", g.get_domain().second, sp.t0 + f * sp.tau.sum(), 1e-7);
  for (int i = 0; i < sp.n; i++)
    sym::check_eq(L + "length " + S(i), g.get_interval_lengths()(i), f * sp.tau(i), 1e-8);
  for (int k = 0; k <= K; k++) {
    T d = g.derivate(k);
    double left = sp.t0;
    for (int i = 0; i < sp.n; i++) {
      for (double s : ss) {
        Mat v = d(one(left + f * sp.tau(i) * (s + 1.0) / 2.0));
        for (int j = 0; j < sp.codom; j++)
          sym::check_eq(L + "D" + S(k) + " piece " + S(i) + " component " + S(j), v(0, j) * ipow(sp.tau(i) * f, k), sp.win_at(i, j, s, k) * ipow(sp.tau(i), k), tol * ipow(8.0, k));
      }
      left += f * sp.tau(i);
    }
  }
}
static std::vector<double> windows(const BSpec &b, int n = 1) {
  if (!dynamic_cast<const LagSpec *>(&b) && n < 3)
    return {sym::var("s", -0.99, 0.99)};
  return {-0.63, 0.17, 0.92};
}
CASES {
  std::vector<std::pair<BS, int>> bs{{Leg(2), 0}, {Leg(4), 0}, {Leg(6), 0}, {Gll(3), 0}, {Gll(5), 0}, {LagIn(3), 0}};
  for (auto &q : bs)
    for (int codom = 1; codom <= 2; codom++)
      for (int n = 1; n <= 3; n++) {
        BS b = q.first;
        std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
        // everything symbolic, one interval
        if (n == 1)
          sym::reg("time_" + nm, 0, [=] {
            Spl sp(b, codom, n);
            double T = sym::var("T", 0.25, 8.0);
            double f = T / sp.tau.sum();
            GSpline g = sp.make();
            scaled("", sp, g.linear_scaling_new_execution_time(T), f, windows(*b), std::min(3, b->dim()));
            scaled("original ", sp, g, 1.0, windows(*b), 0);
            sym::check_eq("execution time", g.linear_scaling_new_execution_time(T).get_domain_length(), T, 1e-7);
          });
        // total length from a table, its split symbolic
        else
          for (double tot : {1.0, 2.5, 6.0})
            sym::reg("time" + S(std::lround(10 * tot)) + "_" + nm, n > 2 && codom > 1, [=] {
              Spl sp(b, codom, n, "", 0.25 * tot / n, 1.5 * tot / n);
              double rest = tot;
              for (int i = 0; i + 1 < n; i++)
                rest -= sp.tau(i);
              sp.tau(n - 1) = rest;
              sym::assume(rest > 0.05 * tot);
              double T = sym::var("T", 0.25, 8.0);
              GSpline g = sp.make();
              scaled("", sp, g.linear_scaling_new_execution_time(T), T / tot, windows(*b, n), std::min(2, b->dim()));
              if (b->name.substr(0, 3) == "gll") {
                GaussLobattoLagrangeSpline h({sp.t0, sp.tend()}, codom, n, b->dim(), sp.c, sp.tau);
                scaled("collocation ", sp, h.linear_scaling_new_execution_time(T), T / tot, windows(*b), 1);
              }
            });
      }
  for (double al : {0.2, 0.5, 0.8, 0.95})
    for (int n = 1; n <= 2; n++)
      for (int codom = 1; codom <= 2; codom++)
        for (int v = 0; v < 4; v++)
          sym::reg("time_b0101_" + S(std::lround(al * 100)) + "_v" + S(v) + "_c" + S(codom) + "_n" + S(n), n + codom > 3, [=] {
            Spl sp(B01(al), codom, n);
            static const double t[4][3] = {{1, 1, 3}, {0.5, 2, 1}, {2, 0.7, 2.7}, {1.5, 1.0, 6}};
            sp.tau(0) = t[v][0];
            if (n > 1)
              sp.tau(1) = t[v][1];
            GSpline g = sp.make();
            double f = t[v][2] / sp.tau.sum();
            scaled("", sp, g.linear_scaling_new_execution_time(t[v][2]), f, {sym::var("s", -0.99, 0.99)}, 3, 1e-5);
          });
  for (auto b : {Leg(4), Gll(3), B01(0.5)})
    sym::reg("refused_" + b->name, 0, [=] {
      Spl sp(b, 1, 2);
      if (!b->poly())
        sp.tau = Vec::Constant(2, 1.5);
      GSpline g = sp.make();
      double T = sym::var("T", -4, 1e-9);
      sym::check_true("not positive refused", sym::throws([&] { g.linear_scaling_new_execution_time(T); }));
      sym::check_true("positive accepted", !sym::throws([&] { g.linear_scaling_new_execution_time(0.01); }));
    });
}
// scaling to limits
struct Lim {
  bool v, a;
  double dt;
};
// The factor the statement asks for is the largest of the ratios of the sampled
// velocities to their limits and of the roots of those of the accelerations;
// here V (velocities) and A (accelerations, before the root).
static void ratios(const Spl &sp, const OV &vb, const OV &ab, int seg, double &V, double &A) {
  V = A = 0;
  bool first = true;
  for (int j = 0; j < sp.codom; j++)
    for (int i = 0; i <= seg; i++) {
      double u = sp.tau.sum() * i / seg; // concrete
      int p = 0;
      double l = 0;
      while (p + 1 < sp.n && u > l + sp.tau(p) + 1e-12)
        l += sp.tau(p++);
      double s = 2.0 * (u - l) / sp.tau(p) - 1.0;
      if (vb) {
        double v = sp.win_at(p, j, s, 1);
        if (v < 0) v = -v;
        if (sp.codom > 1) v = v / (*vb)[j];
        if (first || v > V) V = v;
      }
      if (ab) {
        double a = sp.win_at(p, j, s, 2);
        if (a < 0) a = -a;
        if (sp.codom > 1) a = a / (*ab)[j];
        if (first || a > A) A = a;
      }
      first = false;
    }
  if (sp.codom == 1) {
    if (vb) V = V / (*vb)[0];
    if (ab) A = A / (*ab)[0];
  }
}
static void limits(const Spl &sp, const OV &vb, const OV &ab, int seg, bool scalar) {
  GSpline g = sp.make();
  double L = sp.tau.sum(), dt = L / (seg + 0.25), V, A;
  // the velocity does not vanish at all samples
  ratios(sp, vb, ab, seg, V, A);
  if (vb) sym::assume(V > 0.05);
  else sym::assume(A > 0.05);
  std::unique_ptr<GSpline> h;
  bool threw = sym::throws([&] {
    if (scalar) {
      std::optional<double> v, a;
      if (vb) v = (*vb)[0];
      if (ab) a = (*ab)[0];
      h = std::make_unique<GSpline>(g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a, dt));
    } else
      h = std::make_unique<GSpline>(g.linear_scaling_new_execution_time_max_velocity_max_acceleration(vb, ab, dt));
  });
  sym::check_true("accepted", !threw);
  if (threw)
    return;
  double f = h->get_domain_length() / L;
  sym::check_eq("start", h->get_domain().first, sp.t0, 1e-9);
  sym::check_true("positive", f > 0);
  if (vb && !ab)
    sym::check_eq("factor", f, V, 1e-6);
  if (ab && !vb)
    sym::check_eq("factor squared", f * f, A, 1e-6);
  if (vb && ab) {
    sym::check_true("velocity respected", f > V - 1e-6);
    sym::check_true("acceleration respected", f * f > A - 1e-6);
    if (f * f > A + 1e-7)
      sym::check_eq("one limit reached", f, V, 1e-6);
  }
  for (int i = 0; i < sp.n; i++)
    sym::check_eq("length " + S(i), h->get_interval_lengths()(i), f * sp.tau(i), 1e-6);
  for (long i = 0; i < sp.c.size(); i++)
    sym::check_eq("coefficient " + S(i), h->get_coefficients()(i), sp.c(i), 1e-9);
}
CASES {
  for (auto b : {Leg(3), Leg(4), Gll(4), LagIn(3)})
    for (int n = 1; n <= 2; n++)
      for (int mode = 0; mode < 3; mode++) // velocity, acceleration, both
        for (int codom = 1; codom <= 2; codom++)
          for (int sc = 0; sc < 2; sc++)
            for (int seg : {1, 2, 3}) {
              int sz = (mode == 2 ? 2 : 1) * codom * seg;
              sym::reg("limit_" + b->name + "_m" + S(mode) + "_c" + S(codom) + "_n" + S(n) + (sc ? "_scalar" : "_vector") + "_seg" + S(seg), sz > (b->dim() == 4 ? 2 : 3) || (codom * n > 2 && b->dim() + (b->name != "leg3") > 3), [=] {
                Spl sp(b, codom, n);
                sp.t0 = n == 1 ? -1.5 : 0.5;
                sp.tau(0) = 1.5;
                if (n == 2) sp.tau(1) = 0.75;
                // two coefficients of each polynomial symbolic (from a table: the others)
                for (long i = 0; i < sp.c.size(); i++)
                  if (i % b->dim() >= 2 || (n * codom > 1 && i % b->dim() == 0))
                    sp.c(i) = 0.5 - 0.375 * (i % 5);
                OV vb, ab;
                bool tab = codom > 1 || (mode == 2 && dynamic_cast<const LagSpec *>(b.get()));
                double v0 = tab ? 0.75 : sym::var("vmax", 0.5, 4), a0 = tab ? 1.5 : sym::var("amax", 0.5, 4);
                if (mode != 1) vb = std::vector<double>{v0, sc ? v0 : 1.25};
                if (mode != 0) ab = std::vector<double>{a0, sc ? a0 : 2.0};
                if (vb) vb->resize(codom);
                if (ab) ab->resize(codom);
                limits(sp, vb, ab, seg, sc);
              });
            }
  // basis0101: same geometry means alpha/(1-alpha) scales with the fourth power
  for (double al : {0.2, 0.5, 0.95})
    for (int n = 1; n <= 2; n++)
      for (int sc = 0; sc < 2; sc++)
        sym::reg("limit_b0101_" + S(std::lround(al * 100)) + "_n" + S(n) + (sc ? "_scalar" : "_vector"), 0, [=] {
          Spl sp(B01(al), 1, n);
          sp.t0 = 0.5;
          sp.tau(0) = 1.5;
          if (n == 2) sp.tau(1) = 0.75;
          sp.c.setZero();
          double slope = sym::var("slope", 0.5, 4), vmax = sym::var("vmax", 0.5, 4);
          for (int i = 0; i < n; i++) {
            sp.c(6 * i + 4) = slope;
            sp.c(6 * i + 5) = sym::var("offset" + S(i), -4, 4);
          }
          GSpline g = sp.make();
          double L = sp.tau.sum(), k = std::sqrt(2.0) / 4.0 * std::pow(al / (1.0 - al), 0.25), f = slope * 2 * k / vmax;
          GSpline h = sc ? g.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(vmax), std::optional<double>(1.0), 0.5)
                         : g.linear_scaling_new_execution_time_max_velocity_max_acceleration(OV(std::vector<double>{vmax}), OV(std::vector<double>{1.0}), 0.5);
          sym::check_eq("duration", h.get_domain_length(), L * f, 1e-6);
          for (int i = 0; i < n; i++)
            sym::check_eq("length " + S(i), h.get_interval_lengths()(i), f * sp.tau(i), 1e-6);
          double a2 = h.get_basis().get_parameters()(0);
          sym::check_eq("alpha", a2 * (1.0 - al) * f * f * f * f, al * (1.0 - a2), 1e-6);
          for (long i = 0; i < sp.c.size(); i++)
            sym::check_eq("coefficient " + S(i), h.get_coefficients()(i), sp.c(i), 1e-9);
        });
  sym::reg("limit_refused", 0, [=] {
    Spl sp(Leg(4), 2, 1);
    sp.t0 = 0.5;
    sp.tau(0) = 1.5;
    GSpline g = sp.make();
    double x = sym::var("x", 0.5, 4), dt = sym::var("dt", -2, 1e-9);
    auto call = [&](OV v, OV a, double d) { return sym::throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(v, a, d); }); };
    std::vector<double> o{x}, t{x, x}, r{x, x, x};
    sym::check_true("no limit", call({}, {}, 0.5));
    sym::check_true("no scalar limit", sym::throws([&] { g.linear_scaling_new_execution_time_max_velocity_max_acceleration(std::optional<double>(), std::optional<double>(), 0.5); }));
    sym::check_true("bad step", call(t, t, dt));
    sym::check_true("short velocity", call(o, t, 0.5));
    sym::check_true("short acceleration", call(t, o, 0.5));
    sym::check_true("long velocity", call(r, t, 0.5));
    sym::check_true("long acceleration", call(t, r, 0.5));
    sym::check_true("short velocity alone", call(o, {}, 0.5));
    sym::check_true("long acceleration alone", call({}, r, 0.5));
  });
}

// durations over several magnitudes; many intervals and components
CASES {
  for (auto b : {Leg(2), Leg(4), Gll(4), LagIn(3)})
    for (int v = 0; v < 4; v++)
      sym::reg("duration_" + b->name + "_v" + S(v), 0, [=] {
        static const double tab[4][5] = {{0.02, 0.05, 0.01, 0.03, 0.04}, {20, 35, 11, 50, 42}, {1, 0.1, 3, 0.4, 2}, {2, 2, 2, 2, 2}};
        int n = v < 3 ? 5 : 3, codom = v == 2 ? 4 : 1;
        Spl sp(b, codom, n, "", 0.25, 4, 100);
        for (int i = 0; i < n; i++)
          sp.tau(i) = tab[v][i];
        double T = sym::var("T", 0.01, 1000);
        GSpline g = sp.make();
        scaled("", sp, g.linear_scaling_new_execution_time(T), T / sp.tau.sum(), {-0.63, 0.17}, std::min(2, b->dim()), 1e-4);
      });
  // twice in a row, and back again
  for (auto b : {Leg(4), Gll(3)})
    for (int n = 1; n <= 3; n++)
      sym::reg("again_" + b->name + "_n" + S(n), 0, [=] {
        Spl sp(b, 2, n);
        for (int i = 0; i < n; i++)
          sp.tau(i) = 0.5 + 0.75 * i;
        double T = sym::var("T", 0.25, 8), U = sym::var("U", 0.25, 8), L = sp.tau.sum();
        GSpline g = sp.make(), h = g.linear_scaling_new_execution_time(T), k = h.linear_scaling_new_execution_time(U);
        scaled("twice ", sp, k, U / L, {-0.63, 0.17}, 2);
        scaled("back ", sp, k.linear_scaling_new_execution_time(L), 1.0, {-0.63, 0.17}, 2);
        // a derivative has the basis of the spline: it can be scaled as well
        sym::check_eq("derivative", g.derivate(1).linear_scaling_new_execution_time(T).get_domain_length(), T, 1e-7);
      });
}
// several components and samples, one of them unknown
CASES {
  for (int codom : {2, 3, 5})
    for (int who = 0; who < codom; who++)
      for (int mode = 0; mode < 3; mode++)
        for (int n : {1, 3})
          for (int seg : {4, 7})
            sym::reg("limit_many_c" + S(codom) + "_" + S(who) + "_m" + S(mode) + "_n" + S(n) + "_seg" + S(seg), 0, [=] {
              Spl sp(Leg(4), codom, n);
              sp.t0 = 0.5;
              for (int i = 0; i < n; i++)
                sp.tau(i) = 0.75 + 0.5 * i;
              for (long i = 0; i < sp.c.size(); i++) {
                int piece = i / (4 * codom), comp = i / 4 % codom;
                if (!(comp == who && piece == n - 1 && i % 4 == 1))
                  sp.c(i) = 0.25 * std::sin(3.0 + 7.0 * i);
              }
              std::vector<double> v, a;
              for (int j = 0; j < codom; j++) {
                v.push_back(0.75 + 0.5 * j);
                a.push_back(2.5 - 0.25 * j);
              }
              OV vb, ab;
              if (mode != 1) vb = v;
              if (mode != 0) ab = a;
              limits(sp, vb, ab, seg, false);
            });
}
