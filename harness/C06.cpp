// Derivative of the coefficients with respect to one interval length: the
// differentiated interpolation conditions hold for it.
#include "interp.hpp"
// y: coefficients fed in, dy: reported sensitivity
static void sens(const Prob &p, const std::string &L, const Vec &y, const Vec &dy, int idx, double taumin) {
  sym::check_true(L + "size", dy.size() == y.size());
  p.conditions([&](const std::string &l, int c, const std::vector<Prob::Term> &ts, double, int d) {
    double v = 0, e = 0;
    for (auto &t : ts) {
      v += t.sg * p.seg(dy, t.i, c, t.s, t.d);
      if (t.i == idx)
        for (int k = 0; k < p.b->dim(); k++)
          e += t.sg * y((t.i * p.codom + c) * p.b->dim() + k) * at_tau(*p.b, k, t.s, p.tau(t.i), t.d);
    }
    sym::check_eq(L + "d/dtau" + S(idx) + " " + l, v, -e, 4e-6 * p.scale(d + (p.b->poly() ? 0 : 1), taumin) / taumin);
  });
}
static Vec coefs(const Prob &p, const std::string &pre = "") { return sym::vars(pre + "y", p.n * p.codom * p.b->dim(), -4, 4); }
static void one_case(const Prob &p, double taumin) {
  auto B = p.b->make();
  Vec y = coefs(p);
  for (int k = 0; k < p.n; k++) {
    Interpolator I(p.codom, p.n, *B);
    Vec dy = I.get_coeff_derivative_wrt_tau(y, p.tau, k);
    sens(p, "fresh ", y, dy, k, taumin);
  }
}
static void interpolated(const Prob &p, double taumin) {
  auto B = p.b->make();
  Interpolator I(p.codom, p.n, *B);
  Vec y = I.solve_interpolation(p.tau, p.w);
  for (int k = p.n - 1; k >= 0; k--) {
    Vec dy = I.get_coeff_derivative_wrt_tau(y, p.tau, k);
    sens(p, "interpolated ", y, dy, k, taumin);
  }
  // without copying the interpolator's own buffer
  auto yr = I.solve_interpolation(p.tau, p.w);
  for (int k = 0; k < p.n; k++) {
    auto dy = I.get_coeff_derivative_wrt_tau(yr, p.tau, k);
    sens(p, "unbuffered ", yr, dy, k, taumin);
  }
}
static void history(const Prob &p, const Prob &q, double taumin) {
  auto B = p.b->make();
  Interpolator I(p.codom, p.n, *B);
  Vec y = coefs(p), z = coefs(p, "z");
  for (int k = 0; k < p.n; k++)
    I.get_coeff_derivative_wrt_tau(z, q.tau, k);
  I.solve_interpolation(q.tau, q.w);
  for (int k = p.n - 1; k >= 0; k--) {
    Vec dy = I.get_coeff_derivative_wrt_tau(y, p.tau, k);
    sens(p, "after other data ", y, dy, k, taumin);
  }
  Vec dz = I.get_coeff_derivative_wrt_tau(z, q.tau, 0);
  sens(q, "and back ", z, dz, 0, taumin);
}
static void bad(const Prob &p) {
  auto B = p.b->make();
  Interpolator I(p.codom, p.n, *B);
  Vec y = coefs(p);
  double sh = sym::var("short", -2, 1e-9);
  for (int k = 0; k < p.n; k++) {
    Vec t = p.tau;
    t(k) = sh;
    sym::check_true("length " + S(k) + " not positive", sym::throws([&] { I.get_coeff_derivative_wrt_tau(y, t, 0); }));
  }
}
CASES {
  std::vector<std::pair<BS, int>> bs{{Leg(2), 0}, {Leg(4), 0}, {Leg(6), 0}, {Leg(8), 0}, {Gll(2), 0}, {Gll(4), 0}, {Gll(6), 0}, {LagIn(4), 0}, {LagIn(6), 1}, {Lag("uni", {-1, -0.25, 0.25, 1}), 0}, {B01(0.2), 1}, {B01(0.5), 0}, {B01(0.8), 0}, {B01(0.95), 1}};
  for (auto &q : bs)
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 5; n++) {
        BS b = q.first;
        int sz = b->dim() * codom * n;
        if (sz > 96) continue;
        std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
        sym::reg("sym_" + nm, sz > 48 || q.second, [=] {
          Prob p(b, codom, n, sym::vars("tau", n, 0.5, 2.0));
          one_case(p, 0.5);
        });
        sym::reg("chain_" + nm, sz > 24 || q.second, [=] {
          Prob p(b, codom, n, sym::vars("tau", n, 0.5, 2.0));
          interpolated(p, 0.5);
        });
        if (codom <= 2 && n <= 4)
          sym::reg("reuse_" + nm, sz > 32 || q.second, [=] {
            Prob p(b, codom, n, sym::vars("tau", n, 0.5, 2.0));
            Prob q2(b, codom, n, sym::vars("z", n, 0.5, 2.0), "z");
            history(p, q2, 0.5);
          });
        if (codom <= 2)
          sym::reg("lu_" + nm, sz > 48 || q.second, [=] {
            for (auto &ts : tau_table()) {
              Prob p(b, codom, n, head(ts.t, n));
              one_case(p, 0.3);
              interpolated(p, 0.3);
            }
          });
        if (codom == 1 && b->name == "leg4")
          sym::reg("bad_" + nm, 0, [=] { bad(Prob(b, codom, n, sym::vars("tau", n, 0.5, 2.0))); });
      }
}

// wide lengths, many intervals and components
CASES {
  for (BS b : {Leg(2), Leg(4), Gll(2), Gll(4)})
    for (int n = 1; n <= 3; n++)
      sym::reg("wide_" + b->name + "_n" + S(n), 0, [=] {
        Prob p(b, 1, n, sym::vars("tau", n, 0.05, 20.0));
        one_case(p, 0.05);
      });
  struct Sh { BS b; int c, n, t; };
  for (Sh q : {Sh{Leg(2), 1, 8, 0}, Sh{Leg(2), 5, 3, 0}, Sh{Leg(4), 1, 6, 0}, Sh{Leg(4), 1, 8, 0}, Sh{Leg(4), 4, 2, 0}, Sh{Leg(4), 5, 1, 0}, Sh{Leg(6), 1, 5, 1}, Sh{Leg(6), 4, 1, 0}, Sh{Leg(10), 1, 2, 0}, Sh{Leg(12), 1, 1, 0}})
    sym::reg("large_" + q.b->name + "_c" + S(q.c) + "_n" + S(q.n), q.t, [=] {
      Prob p(q.b, q.c, q.n, sym::vars("tau", q.n, 0.5, 2.0));
      one_case(p, 0.5);
    });
}
