// Evaluation is a pure function of the object and the point.
#include "expr.hpp"
static bool conc(const BSpec &b) { return !dynamic_cast<const LegSpec *>(&b); }
static std::vector<BS> bases() { return {Leg(1), Leg(2), Leg(3), Leg(4), Leg(6), Gll(2), Gll(3), Gll(4), LagIn(3), LagIn(5), B01(0.5)}; }
static Spl data(BS b, int codom, int n, const std::string &pre = "") {
  Spl sp(b, codom, n, pre);
  if (conc(*b)) {
    sp.t0 = 0.5;
    for (int i = 0; i < n; i++)
      sp.tau(i) = 1.0 + 0.25 * i;
  }
  return sp;
}
// the k-th window coordinate
static double win(const BSpec &b, int k) {
  static const double W[] = {0.37, -0.71, 0.93, -0.12, 0.58};
  return conc(b) ? W[k % 5] : sym::var("s" + S(k), -0.99, 1);
}
static double tolk(int k) { return 1e-6 * ipow(10, k); }
// ---- one call with several points
CASES {
  // pieces of the points, in the order of the batch
  static const std::vector<std::vector<int>> orders{{0, 0}, {0, 1}, {1, 0}, {2, 0}, {0, 1, 2}, {2, 1, 0}, {1, 2, 1}, {2, 2, 0}, {0, 2, 0, 1}};
  for (auto b : bases())
    for (int codom = 1; codom <= 3; codom++)
      for (auto &o : orders) {
        int n = 1 + *std::max_element(o.begin(), o.end());
        std::string nm = b->name + "_c" + S(codom);
        for (int i : o)
          nm += "_" + S(i);
        for (int deg = 0; deg <= 2; deg++)
          sym::reg("batch" + S(deg) + "_" + nm, o.size() > 3 || (codom > 2 && deg > 1) || (b->dim() > 4 && o.size() > 2 && codom > 1), [=] {
            Spl sp = data(b, codom, n);
            GSpline f = sp.make(), g = deg ? GSpline(f.derivate(deg)) : f;
            Vec p(o.size());
            std::vector<double> s;
            for (size_t i = 0; i < o.size(); i++) {
              s.push_back(win(*b, (int)i));
              p(i) = sp.point(o[i], s[i]);
            }
            auto judge = [&](const std::string &L, const Mat &v) {
              for (size_t i = 0; i < o.size(); i++)
                for (int j = 0; j < codom; j++) {
                  double w = ipow(sp.tau(o[i]), deg);
                  sym::check_eq(L + "row " + S(i) + " component " + S(j), v(i, j) * w, sp.win_at(o[i], j, s[i], deg) * w, tolk(deg));
                }
            };
            Mat v = g(p);
            sym::check_true("shape", v.rows() == p.size() && v.cols() == codom);
            judge("batch ", v);
            Mat u(p.size(), codom);
            for (long i = p.size() - 1; i >= 0; i--)
              u.row(i) = g(one(p(i)));
            judge("alone ", u);
            // into part of a larger matrix
            Mat big = Mat::Constant(p.size() + 2, codom + 2, 5.0);
            g.value(p, big.block(1, 1, p.size(), codom));
            judge("in place ", big.block(1, 1, p.size(), codom));
            double out = 0;
            for (long i = 0; i < big.rows(); i++)
              for (long j = 0; j < big.cols(); j++)
                if (i == 0 || j == 0 || i + 1 == big.rows() || j + 1 == big.cols())
                  out += (big(i, j) - 5.0) * (big(i, j) - 5.0);
            sym::check_eq("outside", out, 0.0, 1e-12);
            judge("again ", g(p));
            // a strided vector of points
            Vec two(2 * p.size());
            for (long i = 0; i < p.size(); i++)
              two(2 * i) = p(i), two(2 * i + 1) = -100.0;
            judge("strided ", g(Vec(Eigen::Map<const Vec, 0, Eigen::InnerStride<2>>(two.data(), p.size()))));
            sym::check_true("no points", g(Vec(0)).rows() == 0 && g(Vec(0)).cols() == codom);
          });
      }
}
// ---- sequences of requests on a basis
static const int NB = 11;
static void ask(basis::Basis &B, int op, int r) {
  static const double Z[] = {-1.0, 0.4, 1.0, -0.55}, T[] = {0.5, 2.0, 1.25, 3.0};
  double s = Z[r % 4], tau = T[r % 4];
  int d = (int)B.get_dim();
  Vec v(d);
  Mat q = Mat::Zero(d, d);
  bool ex = B.get_name() == "basis0101";
  switch (op) {
  case 0: B.eval_on_window(s, tau, v); break;
  case 1: B.eval_derivative_on_window(s, tau, 1, v); break;
  case 2: B.eval_derivative_on_window(s, tau, 2, v); break;
  case 3: B.eval_derivative_on_window(s, tau, 3, v); break;
  case 4: B.eval_derivative_wrt_tau_on_window(s, tau, 1, v); break;
  case 5: B.add_derivative_matrix(tau, 1, q); break;
  case 6: B.add_derivative_matrix_deriv_wrt_tau(tau, ex ? 1 : 0, q); break;
  case 7: B.get_derivative_matrix_block(1 + r % 3); break;
  case 8: B.continuity_matrix(2, 1, 1, Vec::Constant(2, tau)); break;
  case 9: B.gspline_derivative_matrix(2, 1, 1, Vec::Constant(2, tau)); break;
  default: {
    auto c = B.clone();
    c->eval_derivative_on_window(s, tau, 2, v);
    c->get_derivative_matrix_block(2);
    auto m = c->move_clone();
    m->eval_derivative_wrt_tau_on_window(s, tau, 2, v);
  }
  }
}
static void judge(const std::string &L, basis::Basis &B, const BS &b, double s, double tau, int K) {
  int d = b->dim();
  Vec v = Vec::Constant(d, 9.0);
  for (int k = K; k >= 0; k--) {
    B.eval_derivative_on_window(s, tau, k, v);
    for (int i = 0; i < d; i++)
      sym::check_eq(L + "D" + S(k) + " function " + S(i), v(i) * ipow(tau, k), b->at(i, s, tau, k) * ipow(tau, k), tolk(k));
  }
  B.eval_on_window(s, tau, v);
  for (int i = 0; i < d; i++)
    sym::check_eq(L + "function " + S(i), v(i), b->at(i, s, tau, 0), 1e-6);
}
CASES {
  for (auto b : bases()) {
    for (int x = 0; x < NB; x++)
      sym::reg("requests_" + b->name + "_" + S(x), 0, [=] {
        double tau = conc(*b) && !b->poly() ? 1.7 : sym::var("tau", 0.25, 4), s = win(*b, 0);
        auto B = b->make();
        for (int y = 0; y < NB; y++) {
          ask(*B, x, y);
          ask(*B, y, y + 1);
          judge("after " + S(x) + "," + S(y) + " ", *B, b, s, tau, 2);
        }
        auto F = b->make();
        ask(*F, x, 0);
        judge("first ", *F, b, s, tau, 2);
      });
    // values into a strided column, row, or segment
    sym::reg("buffers_" + b->name, 0, [=] {
      double tau = conc(*b) && !b->poly() ? 1.7 : sym::var("tau", 0.25, 4), s = win(*b, 0);
      int d = b->dim();
      auto B = b->make();
      Mat m = Mat::Constant(d + 2, d + 2, 3.0);
      B->eval_on_window(s, tau, m.row(1).segment(1, d).transpose());
      for (int i = 0; i < d; i++)
        sym::check_eq("row " + S(i), m(1, 1 + i), b->at(i, s, tau, 0), 1e-6);
      sym::check_eq("left of row", m(1, 0), 3.0, 0);
      sym::check_eq("right of row", m(1, d + 1), 3.0, 0);
      sym::check_eq("below row", m(2, 1), 3.0, 0);
      for (int k = 0; k <= 3; k++) {
        m.setConstant(3.0);
        B->eval_derivative_on_window(s, tau, k, m.row(1).segment(1, d).transpose());
        for (int i = 0; i < d; i++)
          sym::check_eq("row D" + S(k) + " " + S(i), m(1, 1 + i) * ipow(tau, k), b->at(i, s, tau, k) * ipow(tau, k), tolk(k));
        sym::check_eq("left of row", m(1, 0), 3.0, 0);
        sym::check_eq("right of row", m(1, d + 1), 3.0, 0);
        sym::check_eq("below row", m(2, 1), 3.0, 0);
        m.setConstant(3.0);
        B->eval_derivative_on_window(s, tau, k, m.col(1).segment(1, d));
        for (int i = 0; i < d; i++)
          sym::check_eq("column D" + S(k) + " " + S(i), m(1 + i, 1) * ipow(tau, k), b->at(i, s, tau, k) * ipow(tau, k), tolk(k));
        sym::check_eq("above column", m(0, 1), 3.0, 0);
        sym::check_eq("below column", m(d + 1, 1), 3.0, 0);
      }
    });
  }
}
// ---- sequences of requests on splines, sharing a basis object
static void piece(const std::string &L, const GSpline &g, const Spl &sp, double s) {
  for (int i = sp.n - 1; i >= 0; i--) {
    Mat v = g(one(sp.point(i, s)));
    for (int j = 0; j < sp.codom; j++)
      sym::check_eq(L + "piece " + S(i) + " component " + S(j), v(0, j), sp.win_at(i, j, s, 0), 1e-6);
  }
}
static const int NS = 9;
static void askS(GSpline &g, GSpline &h, int op, const Spl &sp) {
  switch (op) {
  case 0: g(one(sp.point(0, -0.4))); break;
  case 1: g(one(sp.point(sp.n - 1, 0.85))); break;
  case 2: g.derivate(1)(one(sp.point(0, 0.15))); break;
  case 3: g.derivate(2).derivate(1)(one(sp.point(sp.n - 1, 0.15))); break;
  case 4: g.linear_scaling_new_execution_time(2.0)(one(sp.t0 + 1.0)); break;
  case 5: g.get_waypoints(); break;
  case 6: {
    GSpline c(g);
    GSpline m(std::move(c));
    m(one(sp.point(0, 0.25)));
    GSpline q = 3.0 * std::move(m);
    q(one(sp.point(0, 0.25)));
    break;
  }
  case 7: {
    GSpline q = g + g, r = -g, u = g - 2.0 * g;
    u(one(sp.point(0, 0.25)));
    FunctionExpression e = g.to_expression() + h, f = e.derivate();
    f(one(sp.point(0, 0.25)));
    break;
  }
  default: {
    h(one(sp.point(0, 0.6)));
    h.derivate(1)(one(sp.point(0, 0.6)));
    h.get_basis().get_derivative_matrix_block(3);
    h.get_basis().continuity_matrix(2, 1, 1, Vec::Constant(2, 0.75));
    g.get_basis().gspline_derivative_matrix(2, 1, 1, Vec::Constant(2, 0.75));
  }
  }
}
CASES {
  for (auto b : bases())
    for (int codom = 1; codom <= 2; codom++)
      for (int n = 1; n <= 2; n++)
        for (int x = 0; x < NS; x++)
          sym::reg("spline_" + b->name + "_c" + S(codom) + "_n" + S(n) + "_" + S(x), b->dim() > 4 && n * codom > 2, [=] {
            Spl sp = data(b, codom, n), sq = sp;
            for (long i = 0; i < sq.c.size(); i++)
              sq.c(i) = sym::var("d" + S(i), -4, 4);
            auto B = b->make();
            GSpline g({sp.t0, sp.tend()}, codom, n, *B, sp.c, sp.tau), h({sp.t0, sp.tend()}, codom, n, *B, sq.c, sp.tau);
            double s = win(*b, 0);
            for (int y = 0; y < NS; y++) {
              askS(g, h, x, sp);
              askS(g, h, y, sp);
              if (y == 4)
                B.reset();
              piece("after " + S(y) + " ", g, sp, s);
            }
            piece("other ", h, sq, s);
            for (long i = 0; i < sp.c.size(); i++) {
              sym::check_eq("coefficient " + S(i), g.get_coefficients()(i), sp.c(i), 1e-12);
              sym::check_eq("other coefficient " + S(i), h.get_coefficients()(i), sq.c(i), 1e-12);
            }
            for (int i = 0; i < n; i++)
              sym::check_eq("length " + S(i), g.get_interval_lengths()(i), sp.tau(i), 1e-12);
          });
}
// ---- expressions: batches, in any order, before and after differentiation
CASES {
  for (Op op : {ADD, SUB, NEG, MUL, COMP, CAT})
    for (Op lo : ALL)
      for (Op ro : ALL)
        for (int codom = 1; codom <= 2; codom++) {
          if (op == NEG && ro != LEAF)
            continue;
          sym::reg(std::string("expression_") + opname[op] + "_" + opname[lo] + "_" + opname[ro] + "_c" + S(codom), codom == 2 && lo != ro && lo != LEAF && ro != LEAF, [=] {
            double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.5, 3), d2 = sym::var("d2", 0.5, 3);
            double m = a + d1, b = m + d2;
            Gen g;
            N n = root(g, op, lo, ro, codom, false, a, m, b);
            FunctionExpression e = build(n);
            // one point in each quarter, given out of order
            auto q = [&](int k, double u) { return k == 0 ? a + 0.5 * d1 * u : k == 1 ? a + 0.5 * d1 * (1 + u) : k == 2 ? m + 0.5 * d2 * u : m + 0.5 * d2 * (1 + u); };
            double u0 = sym::var("u0", 0.05, 0.95), u1 = sym::var("u1", 0.05, 0.95);
            Vec p(5);
            p << q(3, u0), q(0, u1), q(2, 0.5), q(1, u0), q(0, u1);
            auto judge = [&](const std::string &L, const FunctionBase &f, int deg) {
              Mat v = f(p);
              sym::check_true(L + "shape", v.rows() == 5 && v.cols() == codom);
              for (int i = 0; i < 5; i++) {
                Jet j = jet(n, p(i), deg);
                for (int c = 0; c < codom; c++)
                  sym::check_eq(L + "row " + S(i) + " component " + S(c), v(i, c), j[c][deg], 1e-9);
              }
            };
            judge("", e, 0);
            FunctionExpression d = e.derivate(1);
            judge("derivative ", d, 1);
            judge("after differentiation ", e, 0);
            Mat one_by_one(5, codom);
            for (int i = 4; i >= 0; i--)
              one_by_one.row(i) = e(one(p(i)));
            for (int i = 0; i < 5; i++) {
              Jet j = jet(n, p(i), 0);
              for (int c = 0; c < codom; c++)
                sym::check_eq("alone row " + S(i) + " component " + S(c), one_by_one(i, c), j[c][0], 1e-9);
            }
            Mat big = Mat::Constant(7, codom + 2, 5.0);
            e.value(p, big.block(1, 1, 5, codom));
            for (int i = 0; i < 5; i++) {
              Jet j = jet(n, p(i), 0);
              for (int c = 0; c < codom; c++)
                sym::check_eq("in place row " + S(i) + " component " + S(c), big(1 + i, 1 + c), j[c][0], 1e-9);
            }
            sym::check_eq("outside", big(0, 1) + big(6, 1) + big(1, 0) + big(1, codom + 1), 20.0, 0);
          });
        }
}

// ---- long batches over many pieces: repeated, unsorted, with breakpoints
CASES {
  struct Q { BS b; int c, n, np; };
  std::vector<Q> qs{{Leg(3), 1, 6, 40}, {Leg(4), 3, 4, 17}, {Leg(2), 6, 2, 9}, {Gll(4), 2, 5, 33}, {LagIn(3), 1, 3, 65}, {B01(0.5), 2, 3, 16}, {Leg(8), 1, 2, 12}};
  for (auto &q : qs)
    for (int kind = 0; kind < 4; kind++) // ascending, descending, all equal but one, shuffled
      for (int deg = 0; deg <= 1; deg++)
        sym::reg("long_batch" + S(kind) + "_D" + S(deg) + "_" + q.b->name + "_c" + S(q.c) + "_n" + S(q.n), 0, [=] {
          Spl sp(q.b, q.c, q.n);
          sp.t0 = -1.25;
          for (int i = 0; i < q.n; i++)
            sp.tau(i) = 0.5 + 0.25 * ((i * 3) % 5);
          GSpline f = sp.make(), g = deg ? GSpline(f.derivate(deg)) : f;
          // pairs (piece, window); the pieces are closed on the right
          std::vector<std::pair<int, double>> w;
          for (int i = 0; i < q.np; i++) {
            double u = (i + 0.5) / q.np * q.n;
            int pc = std::min((int)u, q.n - 1);
            w.push_back({pc, i % 7 == 3 ? 1.0 : 2 * (u - pc) - 1 + 1e-3});
          }
          if (kind == 1)
            std::reverse(w.begin(), w.end());
          if (kind == 2)
            for (size_t i = 0; i < w.size(); i++)
              w[i] = i == w.size() / 3 ? std::make_pair(0, -0.25) : std::make_pair(q.n - 1, 0.4);
          if (kind == 3)
            for (size_t i = 0; i < w.size(); i++)
              std::swap(w[i], w[(i * 11 + 5) % w.size()]);
          Vec p(q.np);
          for (int i = 0; i < q.np; i++)
            p(i) = w[i].second == 1.0 ? sp.breaks()(w[i].first + 1) : sp.point(w[i].first, w[i].second);
          auto judge = [&](const std::string &L, const Mat &v) {
            sym::check_true(L + "shape", v.rows() == q.np && v.cols() == q.c);
            for (int i = 0; i < q.np; i++)
              for (int j = 0; j < q.c; j++)
                sym::check_eq(L + "row " + S(i) + " component " + S(j), v(i, j), sp.win_at(w[i].first, j, w[i].second, deg), tolk(deg));
          };
          judge("batch ", g(p));
          Mat u(q.np, q.c);
          for (int i = 0; i < q.np; i++)
            u.row(i) = g(one(p(i)));
          judge("alone ", u);
          FunctionExpression e = f.to_expression();
          if (deg)
            judge("expression ", FunctionExpression(e.derivate(deg))(p));
          else {
            judge("expression ", e(p));
            FunctionExpression z = e + e, y = z - e;
            judge("sum of expressions ", y(p));
          }
        });
}
// ---- many pieces joined: batches across all of them
CASES {
  for (int n : {3, 6})
    for (int np : {2, 7, 20})
      for (int right = 0; right < 2; right++)
        sym::reg("joined" + S(n) + "_" + S(np) + (right ? "_r" : "_l"), 0, [=] {
          double a = sym::var("a", -4, 4);
          Vec c = cuts(a, n), p(np);
          Gen g;
          N x = chain(g, CAT, n, 2, right, 0, c);
          FunctionExpression e = build(x);
          for (int i = 0; i < np; i++) {
            int k = (i * 5 + 2) % n;
            p(i) = c(k) + (c(k + 1) - c(k)) * (0.1 + 0.8 * i / np);
          }
          auto judge = [&](const std::string &L, const FunctionBase &f, int deg) {
            Mat v = f(p);
            for (int i = 0; i < np; i++) {
              Jet s = jet(x, p(i), deg);
              for (int j = 0; j < 2; j++)
                sym::check_eq(L + "row " + S(i), v(i, j), s[j][deg], 1e-9);
            }
          };
          judge("", e, 0);
          judge("D1 ", e.derivate(1), 1);
          judge("again ", e, 0);
        });
}
