// The derivative of a spline is its derivative, for every degree.
#include "common.hpp"
static void derivs(const Spl &sp, int K, double s, double T = 1e-6) {
  GSpline f = sp.make();
  for (int k = 0; k <= K; k++) {
    GSpline d = f.derivate(k);
    std::string L = "D" + S(k);
    sym::check_eq(L + " left end", d.get_domain().first, sp.t0, 1e-9);
    sym::check_eq(L + " right end", d.get_domain().second, sp.tend(), 1e-9);
    sym::check_true(L + " shape", (int)d.get_codom_dim() == sp.codom && (int)d.get_number_of_intervals() == sp.n);
    for (int i = 0; i < sp.n; i++)
      sym::check_eq(L + " length", d.get_interval_lengths()(i), sp.tau(i), 1e-9);
    for (int i = 0; i < sp.n; i++) {
      Mat v = d(one(sp.point(i, s)));
      for (int j = 0; j < sp.codom; j++)
        sym::check_eq(L + " piece " + S(i) + " component " + S(j), v(0, j) * ipow(sp.tau(i), k), sp.win_at(i, j, s, k) * ipow(sp.tau(i), k), T * ipow(4.0, k));
    }
    // through the abstract interface
    std::unique_ptr<functions::FunctionBase> q = static_cast<const functions::FunctionBase &>(f).deriv(k);
    Mat v = q->value(one(sp.point(sp.n - 1, s)));
    sym::check_eq(L + " abstract", v(0, sp.codom - 1) * ipow(sp.tau(sp.n - 1), k), sp.win_at(sp.n - 1, sp.codom - 1, s, k) * ipow(sp.tau(sp.n - 1), k), T * ipow(4.0, k));
  }
  // whatever was asked before: orders in decreasing and in mixed sequence
  for (int seq = 0; seq < 2; seq++) {
    GSpline g = sp.make();
    for (int k = K; k >= 0; k--) {
      int o = seq == 0 ? k : (k * 3 + 2) % (K + 1);
      Mat v = g.derivate(o)(one(sp.point(sp.n - 1, s)));
      for (int j = 0; j < sp.codom; j++)
        sym::check_eq("sequence " + S(seq) + " D" + S(o) + " component " + S(j), v(0, j) * ipow(sp.tau(sp.n - 1), o), sp.win_at(sp.n - 1, j, s, o) * ipow(sp.tau(sp.n - 1), o), T * ipow(4.0, o));
    }
  }
  // iterated first derivatives
  std::unique_ptr<GSpline> it = f.clone();
  for (int k = 1; k <= K; k++) {
    it = it->deriv(1);
    for (int i = 0; i < sp.n; i++) {
      Mat v = (*it)(one(sp.point(i, s)));
      for (int j = 0; j < sp.codom; j++)
        sym::check_eq("iterated " + S(k) + " piece " + S(i), v(0, j) * ipow(sp.tau(i), k), sp.win_at(i, j, s, k) * ipow(sp.tau(i), k), T * ipow(4.0, k));
    }
  }
  if (K >= 3) {
    GSpline m = f.derivate(2).derivate(1);
    Mat v = m(one(sp.point(0, s)));
    sym::check_eq("D1 of D2", v(0, 0) * ipow(sp.tau(0), 3), sp.win_at(0, 0, s, 3) * ipow(sp.tau(0), 3), 100 * T);
    GSpline m2 = f.derivate(1).derivate(2);
    Mat v2 = m2(one(sp.point(0, s)));
    sym::check_eq("D2 of D1", v2(0, 0) * ipow(sp.tau(0), 3), sp.win_at(0, 0, s, 3) * ipow(sp.tau(0), 3), 100 * T);
  }
}
CASES {
  std::vector<std::pair<BS, int>> bs; // basis, tier
  for (int n = 1; n <= 8; n++)
    bs.push_back({Leg(n), n == 7});
  for (int n = 2; n <= 8; n++)
    bs.push_back({Gll(n), n >= 7});
  for (int n = 2; n <= 6; n++)
    bs.push_back({LagIn(n), n == 6 || n == 2});
  bs.push_back({Lag("uni", {-1, -0.5, 0, 0.5, 1}), 0});
  bs.push_back({Lag("left", {-1, -0.7, -0.3, 0.2}), 0});
  for (auto &q : bs)
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 3; n++) {
        BS b = q.first;
        sym::reg(b->name + "_c" + S(codom) + "_n" + S(n), codom + n > 4 ? 1 : q.second, [=] {
          Spl sp(b, codom, n);
          double s = off_nodes(*b, sym::var("s", -0.999, 0.999));
          derivs(sp, std::min(b->dim() + 1, 7), s);
        });
        if (codom == 1)
          sym::reg("ends_" + b->name + "_n" + S(n), q.second, [=] {
            Spl sp(b, codom, n);
            GSpline f = sp.make();
            for (int k = 0; k <= std::min(b->dim() + 1, 7); k++) {
              GSpline d = f.derivate(k);
              double a = d(one(sp.t0))(0, 0), e = d(one(sp.tend()))(0, 0);
              sym::check_eq("D" + S(k) + " at the start", a * ipow(sp.tau(0), k), sp.win_at(0, 0, -1.0, k) * ipow(sp.tau(0), k), 1e-5 * ipow(4.0, k));
              sym::check_eq("D" + S(k) + " at the end", e * ipow(sp.tau(n - 1), k), sp.win_at(n - 1, 0, 1.0, k) * ipow(sp.tau(n - 1), k), 1e-5 * ipow(4.0, k));
            }
          });
        if (auto *l = dynamic_cast<const LagSpec *>(b.get()))
          if (codom == 1 && n <= 2)
            sym::reg("at_nodes_" + b->name + "_n" + S(n), q.second, [=] {
              Spl sp(b, codom, n);
              for (long i = 0; i < l->nodes.size(); i++)
                if (std::abs(l->nodes(i)) < 0.999)
                  derivs(sp, std::min(b->dim() + 1, 7), l->nodes(i));
            });
      }
}
// trigonometric-exponential basis: tau and alpha from a table, everything else
// symbolic
CASES {
  for (double al : {0.2, 0.5, 0.8, 0.95})
    for (int codom = 1; codom <= 2; codom++)
      for (int n = 1; n <= 2; n++)
        sym::reg("b0101_" + S(std::lround(al * 100)) + "_c" + S(codom) + "_n" + S(n), (al == 0.8 || al == 0.95) && n + codom > 2, [=] {
          Spl sp(B01(al), codom, n);
          double s = sym::var("s", -0.999, 0.999);
          derivs(sp, 5, s);
        });
}

// many intervals and components, high dimensions and orders, wide data
CASES {
  for (int n : {5, 7, 9, 12})
    sym::reg("many_leg3_n" + S(n), n > 9, [=] {
      Spl sp(Leg(3), 1, n);
      derivs(sp, 3, sym::var("s", -0.999, 0.999));
    });
  for (int c : {4, 6, 7})
    sym::reg("comp_leg3_c" + S(c), 0, [=] {
      Spl sp(Leg(3), c, 2);
      derivs(sp, 3, sym::var("s", -0.999, 0.999));
    });
  for (int d : {9, 10, 12})
    sym::reg("high_leg" + S(d), 0, [=] {
      Spl sp(Leg(d), 1, 1);
      derivs(sp, d == 9 ? 9 : 6, sym::var("s", -0.999, 0.999), 1e-4);
    });
  for (int k : {8, 11, 15})
    for (BS b : {Leg(3), Leg(4), Gll(3), LagIn(3)})
      sym::reg("order" + S(k) + "_" + b->name, 0, [=] {
        Spl sp(b, 1, 2);
        double s = off_nodes(*b, sym::var("s", -0.999, 0.999));
        GSpline f = sp.make();
        for (int i = 0; i < 2; i++)
          sym::check_eq("D" + S(k) + " piece " + S(i), f.derivate(k)(one(sp.point(i, s)))(0, 0) * ipow(sp.tau(i), k), 0.0, 1e-6 * ipow(4.0, k));
      });
  for (BS b : {Leg(1), Leg(2), Leg(4), Gll(3)})
    for (int n : {1, 2})
      sym::reg("wide_" + b->name + "_n" + S(n), 0, [=] {
        Spl sp(b, 1, n, "", 1e-3, 1e3, 1e3, 1e2);
        double s = off_nodes(*b, sym::var("s", -0.999, 0.999));
        derivs(sp, b->dim(), s, 1e-4);
      });
}
