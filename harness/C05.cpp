// Interpolation: waypoints, smoothness, boundary conditions, reuse.
#include "interp.hpp"
static void spline(const Prob &p, GSpline g, double taumin, const std::string &L) {
  sym::check_true(L + "shape", (int)g.get_codom_dim() == p.codom && (int)g.get_number_of_intervals() == p.n && (int)g.get_basis_dim() == p.b->dim());
  sym::check_eq(L + "start time", g.get_domain().first, 0.0, 1e-12);
  sym::check_eq(L + "end time", g.get_domain().second, p.tau.sum(), 1e-9);
  Vec len = g.get_interval_lengths();
  for (int i = 0; i < p.n; i++)
    sym::check_eq(L + "length " + S(i), len(i), p.tau(i), 1e-12);
  p.check(L, g.get_coefficients(), taumin);
  // through evaluation
  double t = 0;
  for (int i = 0; i <= p.n; i++) {
    Mat v = g(one(t));
    for (int c = 0; c < p.codom; c++)
      sym::check_eq(L + "value at breakpoint " + S(i) + " component " + S(c), v(0, c), p.w(i, c), 1e-6);
    if (i < p.n) t += p.tau(i);
  }
}
static void all_ways(const Prob &p, double taumin) {
  auto B = p.b->make();
  {
    Interpolator I(p.codom, p.n, *B);
    spline(p, I.interpolate(p.tau, p.w), taumin, "");
    Vec y = I.solve_interpolation(p.tau, p.w);
    p.check("solve ", y, taumin);
  }
  spline(p, interpolate(p.tau, p.w, *B), taumin, "free ");
}
static void history(const Prob &p, const Prob &q, double taumin) {
  auto B = p.b->make();
  Interpolator I(p.codom, p.n, *B);
  Vec y0 = I.solve_interpolation(q.tau, q.w);
  q.check("before ", y0, taumin);
  for (int k = 0; k < p.n; k++)
    I.get_coeff_derivative_wrt_tau(y0, q.tau, k);
  p.check("after other data ", I.solve_interpolation(p.tau, p.w), taumin);
  I.get_coeff_derivative_wrt_tau(y0, q.tau, p.n - 1);
  p.check("same data again ", I.solve_interpolation(p.tau, p.w), taumin);
  // same lengths, other waypoints
  p.check("first ", I.solve_interpolation(p.tau, p.w), taumin);
  Prob r = q;
  r.tau = p.tau;
  r.check("new waypoints ", I.solve_interpolation(p.tau, q.w), taumin);
  Prob u = p;
  u.tau = q.tau;
  u.check("new lengths ", I.solve_interpolation(q.tau, p.w), taumin);
}
CASES {
  std::vector<std::pair<BS, int>> bs{{Leg(2), 0}, {Leg(4), 0}, {Leg(6), 0}, {Leg(8), 0}, {Gll(2), 0}, {Gll(4), 0}, {Gll(6), 0}, {LagIn(4), 0}, {LagIn(6), 1}, {Lag("uni", {-1, -0.25, 0.25, 1}), 0}};
  for (auto &q : bs)
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 5; n++) {
        BS b = q.first;
        int sz = b->dim() * codom * n;
        if (sz > 120) continue;
        int tier = (sz > 72 || q.second) ? 1 : 0;
        std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
        // every interval length in [0.5,2]
        sym::reg("sym_" + nm, tier, [=] {
          Prob p(b, codom, n, sym::vars("tau", n, 0.5, 2.0));
          all_ways(p, 0.5);
        });
        if (codom <= 2 && n <= 3)
          sym::reg("reuse_" + nm, sz > 48 || q.second, [=] {
            Prob p(b, codom, n, sym::vars("tau", n, 0.5, 2.0));
            Prob q2(b, codom, n, sym::vars("z", n, 0.5, 2.0), "z");
            history(p, q2, 0.5);
          });
        for (auto &ts : tau_table())
          sym::reg("lu" + ts.name + "_" + nm, (q.second || sz > 72) ? 1 : 0, [=] {
            Prob p(b, codom, n, head(ts.t, n));
            all_ways(p, 0.3);
            std::vector<double> o{2.0, 0.7, 1.3, 0.9, 1.1};
            Prob q2(b, codom, n, head(o, n), "z");
            history(p, q2, 0.3);
          });
      }
  for (int nc : {2, 4, 6})
    for (int n = 1; n <= 3; n++)
      sym::reg("pw" + S(nc) + "_n" + S(n), 0, [=] {
        Prob p(Leg(nc), 2, n, sym::vars("tau", n, 0.5, 2.0));
        spline(p, pw_polynomial_interpolation(p.tau, p.w, nc), 0.5, "pw ");
      });
}
// exponential-trigonometric basis
CASES {
  for (double al : {0.2, 0.5, 0.8, 0.95})
    for (int codom = 1; codom <= 2; codom++)
      for (int n = 1; n <= 4; n++) {
        std::string nm = "b0101_" + S(std::lround(al * 100)) + "_c" + S(codom) + "_n" + S(n);
        sym::reg("sym_" + nm, n > 3, [=] {
          Prob p(B01(al), codom, n, sym::vars("tau", n, 0.5, 2.0));
          all_ways(p, 0.5);
        });
        for (auto &ts : tau_table())
          sym::reg("lu" + ts.name + "_" + nm, n > 3, [=] {
            Prob p(B01(al), codom, n, head(ts.t, n));
            all_ways(p, 0.3);
            std::vector<double> o{2.0, 0.7, 1.3, 0.9, 1.1};
            Prob q2(B01(al), codom, n, head(o, n), "z");
            history(p, q2, 0.3);
          });
      }
}

// wide lengths, many intervals and components, objects used in turn
CASES {
  for (BS b : {Leg(2), Leg(4), Gll(2), Gll(4)})
    for (int n = 1; n <= 3; n++)
      sym::reg("wide_" + b->name + "_n" + S(n), 0, [=] {
        Prob p(b, 1, n, sym::vars("tau", n, 0.02, 50.0));
        auto B = b->make();
        Interpolator I(1, n, *B);
        p.check("solve ", I.solve_interpolation(p.tau, p.w), 0.02);
        spline(p, interpolate(p.tau, p.w, *B), 0.02, "free ");
      });
  struct Sh { BS b; int c, n, t; };
  for (Sh q : {Sh{Leg(2), 1, 8, 0}, Sh{Leg(2), 1, 10, 0}, Sh{Leg(2), 1, 16, 0}, Sh{Leg(2), 5, 3, 0}, Sh{Leg(2), 7, 2, 0}, Sh{Leg(4), 1, 6, 0}, Sh{Leg(4), 1, 7, 0}, Sh{Leg(4), 1, 9, 0}, Sh{Leg(4), 1, 12, 1}, Sh{Leg(4), 4, 2, 0}, Sh{Leg(4), 6, 2, 0}, Sh{Leg(4), 7, 1, 0}, Sh{Leg(6), 1, 6, 0}, Sh{Leg(6), 1, 8, 1}, Sh{Leg(6), 4, 2, 0}, Sh{Leg(10), 1, 2, 0}, Sh{Leg(10), 2, 1, 0}, Sh{Gll(4), 1, 7, 0}, Sh{Gll(8), 1, 2, 0}, Sh{Leg(12), 1, 1, 0}, Sh{Leg(12), 1, 2, 1}})
    sym::reg("large_" + q.b->name + "_c" + S(q.c) + "_n" + S(q.n), q.t, [=] {
      Prob p(q.b, q.c, q.n, sym::vars("tau", q.n, 0.5, 2.0));
      auto B = q.b->make();
      Interpolator I(q.c, q.n, *B);
      p.check("solve ", I.solve_interpolation(p.tau, p.w), 0.5);
      if (q.b->dim() <= 6)
        spline(p, interpolate(p.tau, p.w, *B), 0.5, "free ");
    });
  for (int v = 0; v < 3; v++)
    sym::reg("turns_" + S(v), 0, [=] {
      // three interpolators of different shape or basis, used in turn
      std::vector<Prob> ps;
      std::vector<Sh> sh = v == 0 ? std::vector<Sh>{{Leg(4), 1, 2, 0}, {Leg(4), 2, 1, 0}, {Leg(2), 1, 4, 0}}
                           : v == 1 ? std::vector<Sh>{{Leg(4), 1, 2, 0}, {Gll(4), 1, 2, 0}, {LagIn(4), 1, 2, 0}}
                                    : std::vector<Sh>{{Leg(4), 2, 2, 0}, {Leg(4), 2, 3, 0}, {Leg(6), 1, 2, 0}};
      std::vector<std::unique_ptr<Interpolator>> is;
      int k = 0;
      for (auto &q : sh) {
        std::string pre = "p" + S(k++);
        ps.emplace_back(q.b, q.c, q.n, sym::vars(pre + "tau", q.n, 0.5, 2.0), pre);
        is.push_back(std::make_unique<Interpolator>(q.c, q.n, *q.b->make()));
      }
      for (int i : {0, 1, 2, 1, 0, 2})
        ps[i].check("turn of " + S(i) + " ", is[i]->solve_interpolation(ps[i].tau, ps[i].w), 0.5);
      // and with fresh ones
      for (int i : {2, 0, 1, 2})
        ps[i].check("fresh " + S(i) + " ", interpolate(ps[i].tau, ps[i].w, *ps[i].b->make()).get_coefficients(), 0.5);
    });
}
