// Spline evaluation is its definition.
#include "common.hpp"
// every point of piece i is t = left + tau (s+1)/2 with s in (-1,1]; the first
// piece also owns everything to its left, the last everything to its right
static void eval_case(BS b, int codom, int n, int piece, bool wide = false) {
  Spl s = wide ? Spl(b, codom, n, "", 1e-3, 1e3, 1e4, 1e3) : Spl(b, codom, n);
  double w = sym::var("s", piece == 0 ? -2 : -1, piece == n - 1 ? 2 : 1);
  if (piece > 0)
    sym::assume(w > -1);
  double t = s.point(piece, w);
  GSpline g = s.make();
  Mat r = g(one(t));
  sym::check_true("shape", r.rows() == 1 && r.cols() == codom);
  for (int j = 0; j < codom; j++)
    sym::check_eq("value", r(0, j), s.win_at(piece, j, w, 0), wide ? 1e-3 : 1e-6);
}
static void breaks_case(BS b, int codom, int n) {
  Spl s(b, codom, n);
  GSpline g = s.make();
  Vec br = g.get_domain_breakpoints();
  Vec sb = s.breaks();
  sym::check_true("nbreaks", br.size() == n + 1);
  for (int i = 0; i <= n; i++)
    sym::check_eq("breakpoint", br(i), sb(i), 1e-9);
  Mat w = g.get_waypoints();
  sym::check_true("wshape", w.rows() == n + 1 && w.cols() == codom);
  for (int i = 0; i <= n; i++)
    for (int j = 0; j < codom; j++)
      sym::check_eq("waypoint", w(i, j),
                    s.piece_at(i == 0 ? 0 : i - 1, j, sb(i), 0), 1e-6);
}
CASES {
  auto add = [](BS b, int codom, int n, int tier) {
    std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
    for (int i = 0; i < n; i++)
      sym::reg("eval_" + nm + "_p" + S(i), tier, [=] { eval_case(b, codom, n, i); });
    if (b->name.substr(0, 3) != "lag")
      sym::reg("breaks_" + nm, tier, [=] { breaks_case(b, codom, n); });
  };
  for (int d = 2; d <= 8; d++)
    for (int c = 1; c <= 3; c++)
      for (int n = 1; n <= 5; n++) {
        int tier = (d <= 6 && c <= 2 && n <= 3) ? 0 : 1;
        if (d == 3 && n >= 4) tier = 0;
        add(Leg(d), c, n, tier);
      }
  for (int d = 2; d <= 6; d++)
    for (int c = 1; c <= 2; c++)
      for (int n = 1; n <= 3; n++)
        add(Gll(d), c, n, (d <= 4 && n <= 2) ? 0 : 1);
  for (int d = 2; d <= 5; d++)
    for (int n = 1; n <= 3; n++)
      add(LagIn(d), 1 + d % 2, n, (d <= 4 && n <= 2) ? 0 : 1);
  for (double a : {0.5, 0.9, 0.2})
    for (int c = 1; c <= 2; c++)
      for (int n = 1; n <= 3; n++)
        add(B01(a), c, n, (n <= 2 && a > 0.3) ? 0 : 1);
}

// many intervals, many components, high dimensions, wide ranges of the data
CASES {
  auto add = [](const std::string &pre, BS b, int codom, int n, std::vector<int> ps, bool wide, int tier) {
    for (int i : ps)
      sym::reg(pre + b->name + "_c" + S(codom) + "_n" + S(n) + "_p" + S(i), tier, [=] { eval_case(b, codom, n, i, wide); });
  };
  for (int n : {6, 8, 9, 11, 17, 20})
    add("many_", Leg(2), 1, n, {0, 1, n / 2, n - 2, n - 1}, false, n > 11 && n != 17);
  for (int n : {7, 10})
    add("many_", Gll(3), 2, n, {0, n / 2, n - 1}, false, n > 7);
  for (int c : {4, 5, 6, 7, 9})
    for (int n : {1, 2})
      add("comp_", Leg(c == 9 ? 2 : 3), c, n, {n - 1}, false, 0);
  for (int d : {9, 10, 11, 12, 13})
    add("high_", Leg(d), 1, 2, {0, 1}, false, d > 10 && d != 12);
  for (int n : {1, 2, 3}) {
    std::vector<int> ps;
    for (int i = 0; i < n; i++)
      ps.push_back(i);
    for (BS b : {Leg(1), Leg(2), Leg(4), Gll(2), Gll(3)})
      add("wide_", b, 1, n, ps, true, 0);
  }
}
