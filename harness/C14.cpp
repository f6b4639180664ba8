// Continuity and derivative matrices.
#include "common.hpp"
using SpMat = Eigen::SparseMatrix<double, Eigen::RowMajor>;
static std::vector<double> wins(const BSpec &b) {
  if (!dynamic_cast<const LagSpec *>(&b))
    return {sym::var("s", -1, 1)};
  std::vector<double> r;
  for (int i = 0; i <= b.dim(); i++)
    r.push_back(-0.97 + 1.9 * i / b.dim());
  return r;
}
static double tolr(int K) { return 1e-6 * ipow(10.0, K); }
// rows: order, then breakpoint, then component
static void cont(const std::string &L, const basis::Basis &B, const Spl &sp, const Vec &tau, const Vec &c, int n, int codom, int K) {
  int d = sp.b->dim();
  const SpMat &M = B.continuity_matrix(n, codom, K, tau);
  sym::check_true(L + "shape", M.rows() == (n - 1) * codom * (K + 1) && M.cols() == n * codom * d);
  Vec y = M * c.head(n * codom * d);
  Spl q = sp;
  q.n = n;
  q.codom = codom;
  q.tau = tau;
  q.c = c.head(n * codom * d);
  double tm = 1;
  for (int k = 0; k <= K; k++)
    for (int i = 0; i + 1 < n; i++)
      for (int j = 0; j < codom; j++) {
        long r = (long)codom * (n - 1) * k + i * codom + j;
        double w = ipow(tau(i), k) * ipow(tau(i + 1), k);
        sym::check_eq(L + "jump of D" + S(k) + " at break " + S(i) + " component " + S(j), y(r) * w, (q.win_at(i, j, 1.0, k) - q.win_at(i + 1, j, -1.0, k)) * w, tolr(k) * tm);
      }
}
static void deriv(const std::string &L, const basis::Basis &B, const Spl &sp, const Vec &tau, const Vec &c, int n, int codom, int k, const std::vector<double> &ss) {
  int d = sp.b->dim();
  const SpMat &M = B.gspline_derivative_matrix(n, codom, k, tau);
  sym::check_true(L + "shape", M.rows() == n * codom * d && M.cols() == n * codom * d);
  Vec y = M * c.head(n * codom * d);
  Spl q = sp, dq = sp;
  q.n = dq.n = n;
  q.codom = dq.codom = codom;
  q.tau = dq.tau = tau;
  q.c = c.head(n * codom * d);
  dq.c = y;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < codom; j++)
      for (double s : ss)
        sym::check_eq(L + "D" + S(k) + " piece " + S(i) + " component " + S(j), dq.win_at(i, j, s, 0) * ipow(tau(i), k), q.win_at(i, j, s, k) * ipow(tau(i), k), tolr(k));
}
static std::vector<BS> bases() { return {Leg(2), Leg(3), Leg(4), Leg(6), Leg(8), Gll(2), Gll(3), Gll(4), Gll(6), LagIn(3), LagIn(4)}; }
CASES {
  for (auto b : bases())
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 4; n++) {
        std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
        bool big = codom * n > 4;
        for (int K = 0; K <= std::min(b->dim(), 5); K++) {
          sym::reg("jump_" + nm + "_D" + S(K), big, [=] {
            Spl sp(b, codom, n);
            auto B = b->make();
            cont("", *B, sp, sp.tau, sp.c, n, codom, K);
          });
          sym::reg("deriv_" + nm + "_D" + S(K), big, [=] {
            Spl sp(b, codom, n);
            auto B = b->make();
            deriv("", *B, sp, sp.tau, sp.c, n, codom, K, wins(*b));
          });
        }
      }
}
// histories: any sequence of requests; every request judged
CASES {
  struct Rq { int what, n, codom, K, t; };
  std::vector<std::vector<Rq>> H{
      {{0, 2, 1, 2, 0}, {0, 2, 1, 2, 1}, {0, 2, 1, 2, 0}},
      {{1, 2, 1, 2, 0}, {1, 2, 1, 2, 1}, {1, 2, 1, 2, 0}},
      {{0, 2, 1, 1, 0}, {0, 2, 1, 2, 1}, {0, 2, 1, 1, 1}, {0, 2, 1, 0, 0}},
      {{1, 2, 1, 1, 0}, {1, 2, 1, 2, 1}, {1, 2, 1, 0, 1}, {1, 2, 1, 1, 1}},
      {{0, 3, 1, 1, 0}, {0, 2, 1, 1, 1}, {0, 2, 2, 1, 0}, {0, 3, 1, 1, 1}, {0, 3, 2, 1, 0}},
      {{1, 3, 1, 1, 0}, {1, 2, 1, 1, 1}, {1, 2, 2, 1, 0}, {1, 1, 2, 1, 1}, {1, 3, 1, 1, 1}},
      {{1, 2, 2, 1, 0}, {0, 2, 2, 2, 1}, {1, 2, 2, 3, 0}, {0, 2, 2, 2, 0}, {0, 2, 2, 1, 1}},
      {{0, 2, 3, 2, 0}, {1, 2, 3, 2, 1}, {0, 3, 2, 2, 1}, {1, 3, 2, 2, 0}, {0, 2, 3, 2, 1}},
      {{0, 1, 1, 2, 0}, {0, 2, 1, 2, 0}, {0, 1, 1, 2, 1}, {0, 2, 1, 2, 1}},
  };
  for (auto b : {Leg(3), Leg(4), Leg(6), Gll(3), Gll(4), LagIn(3)})
    for (size_t h = 0; h < H.size(); h++)
      for (int kind = 0; kind < 3; kind++) // same object, through a clone, evaluations in between
        sym::reg("history" + S(h) + "_k" + S(kind) + "_" + b->name, 0, [=] {
          Spl sp(b, 3, 3);
          Vec t2 = sym::vars("other", 3, 0.25, 4), buf(b->dim());
          auto B = b->make();
          std::vector<double> ss = dynamic_cast<const LagSpec *>(b.get()) ? std::vector<double>{-0.5, 0.25} : wins(*b);
          int st = 0;
          for (const Rq &r : H[h]) {
            Vec tau = (r.t ? t2 : sp.tau).head(r.n);
            std::string L = "step " + S(st++) + " ";
            if (r.what == 0)
              cont(L, *B, sp, tau, sp.c, r.n, r.codom, r.K);
            else
              deriv(L, *B, sp, tau, sp.c, r.n, r.codom, r.K, ss);
            if (kind == 1)
              B = B->clone();
            if (kind == 2) {
              B->eval_derivative_on_window(0.25, 1.5, 1, buf);
              B->get_derivative_matrix_block(4);
            }
          }
        });
}

// many intervals and components; lengths over several magnitudes
CASES {
  struct Q { BS b; int c, n; };
  std::vector<Q> qs{{Leg(3), 1, 8}, {Leg(3), 6, 2}, {Leg(2), 5, 5}, {Leg(5), 2, 5}, {Leg(10), 1, 2}, {Leg(12), 1, 1}, {Gll(5), 2, 3}, {Gll(8), 1, 2}, {Gll(3), 4, 4}};
  for (auto &q : qs)
    for (int K = 0; K <= std::min(q.b->dim(), 4); K++) {
      sym::reg("large_" + q.b->name + "_c" + S(q.c) + "_n" + S(q.n) + "_D" + S(K), 0, [=] {
        Spl sp(q.b, q.c, q.n);
        auto B = q.b->make();
        cont("", *B, sp, sp.tau, sp.c, q.n, q.c, K);
        deriv("", *B, sp, sp.tau, sp.c, q.n, q.c, K, q.b->dim() > 8 ? std::vector<double>{-0.63, 0.17, 0.9} : wins(*q.b));
      });
    }
  for (auto b : {Leg(4), Gll(4), LagIn(3)})
    for (int v = 0; v < 5; v++)
      for (int K = 0; K <= 3; K++)
        sym::reg("lengths_" + b->name + "_v" + S(v) + "_D" + S(K), 0, [=] {
          static const double tab[5][3] = {{2, 2, 2}, {1, 1, 1}, {0.02, 0.05, 0.02}, {30, 30, 75}, {2, 1, 0.5}};
          Spl sp(b, 2, 3);
          for (int i = 0; i < 3; i++)
            sp.tau(i) = tab[v][i];
          auto B = b->make();
          cont("", *B, sp, sp.tau, sp.c, 3, 2, K);
          deriv("", *B, sp, sp.tau, sp.c, 3, 2, K, {-0.63, 0.17, 0.9});
          // one of the lengths changes to anything at all, then back
          Vec t = sp.tau;
          t(1) = sym::var("other", 0.01, 100);
          cont("changed ", *B, sp, t, sp.c, 3, 2, K);
          deriv("changed ", *B, sp, t, sp.c, 3, 2, K, {-0.63, 0.17, 0.9});
          cont("back ", *B, sp, sp.tau, sp.c, 3, 2, K);
          deriv("back ", *B, sp, sp.tau, sp.c, 3, 2, K, {-0.63, 0.17, 0.9});
        });
}
