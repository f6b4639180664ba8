// Derivatives of function expressions.
#include "mixed.hpp"
static void check_d(const N &n, double t, int K, bool iter) {
  FunctionExpression e = build(n);
  Jet s = jet(n, t, K);
  for (int k = 0; k <= K; k++) {
    FunctionExpression d = e.derivate(k);
    Mat v = d(one(t));
    for (int j = 0; j < n->codom; j++)
      sym::check_eq("D" + S(k) + " " + n->str(), v(0, j), s[j][k], 1e-9);
    std::unique_ptr<FunctionExpression> p = e.deriv(k);
    Mat w = p->value(one(t));
    for (int j = 0; j < n->codom; j++)
      sym::check_eq("deriv" + S(k) + " " + n->str(), w(0, j), s[j][k], 1e-9);
  }
  if (iter && K >= 2) {
    FunctionExpression d = e.derivate(1).derivate(K - 1);
    Mat v = d(one(t));
    for (int j = 0; j < n->codom; j++)
      sym::check_eq("D1D" + S(K - 1) + " " + n->str(), v(0, j), s[j][K], 1e-9);
    FunctionExpression d2 = e.derivate(0).derivate(1).derivate(0).derivate(K - 1);
    Mat v2 = d2(one(t));
    for (int j = 0; j < n->codom; j++)
      sym::check_eq("D0D1D0D" + S(K - 1) + " " + n->str(), v2(0, j), s[j][K], 1e-9);
  }
}
CASES {
  for (Op op : ALL)
    for (Op lo : ALL)
      for (Op ro : ALL) {
        if (op == LEAF && (lo != LEAF || ro != LEAF))
          continue;
        if (op == NEG && ro != LEAF)
          continue;
        for (int codom = 1; codom <= 2; codom++)
          for (int flip = 0; flip < (op == MUL && codom > 1 ? 2 : 1); flip++)
            for (int K = 2; K <= 3; K++)
              sym::reg(std::string(opname[op]) + "_" + opname[lo] + "_" + opname[ro] + "_c" + S(codom) + (flip ? "f" : "") + "_K" + S(K),
                       K == 3 || (codom == 1 && lo != LEAF && ro != LEAF) ? 1 : 0, [=] {
                         double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
                         double m = a + d1, b = m + d2;
                         double t = point_in(a, b);
                         for (int cat = 0; cat < 4; cat += 3) {
                           Gen g;
                           N n = op == LEAF ? g.leaf(codom, a, b) : root(g, op, lo, ro, codom, flip, a, m, b);
                           n->cat = cat;
                           check_d(n, t, K, true);
                         }
                       });
      }
}
// chains of three: x op1 (y op2 z), (x op1 y) op2 z, degree 2 and 3
CASES {
  for (Op o1 : ALL)
    for (Op o2 : ALL)
      for (Op o3 : ALL) {
        if (o1 == LEAF || o2 == LEAF || o3 == LEAF)
          continue;
        sym::reg(std::string("chain_") + opname[o1] + "_" + opname[o2] + "_" + opname[o3], 0, [=] {
          double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
          double m = a + d1, b = m + d2, t = point_in(a, b);
          Gen g;
          N n = root(g, o1, o2, LEAF, 2, false, a, m, b);
          n->cat = 3;
          N in = n->l;
          double ia = in->l->a, ib = in->l->b;
          in->l = g.mk(o3, in->l->codom, ia, ib, (ia + ib) / 2);
          check_d(n, t, 1, false);
        });
      }
}
// the dot product of two vector functions and its derivatives
CASES {
  for (Op lo : ALL)
    for (Op ro : ALL)
      for (int codom = 1; codom <= 2; codom++)
        for (int cat = 0; cat < 4; cat++)
          sym::reg(std::string("dot_") + opname[lo] + "_" + opname[ro] + "_c" + S(codom) + "_" + S(cat), cat % 3 == 0 ? 0 : 1, [=] {
            double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
            double m = a + d1, b = m + d2, t = point_in(a, b);
            Gen g;
            N l = g.mk(lo, codom, a, b, m), r = g.mk(ro, codom, a, b, m);
            FunctionExpression A = build(l), B = build(r);
            Jet x = jet(l, t, 2), y = jet(r, t, 2);
            DotProduct p = cat == 0 ? A.dot(B) : cat == 1 ? A.dot(std::move(B)) : cat == 2 ? std::move(A).dot(B) : std::move(A).dot(std::move(B));
            sym::check_true("scalar", p.get_codom_dim() == 1);
            for (int k = 0; k <= 2; k++) {
              double w = 0, c = 1;
              for (int i = 0; i <= k; i++) {
                for (int j = 0; j < codom; j++)
                  w += c * x[j][i] * y[j][k - i];
                c = c * (k - i) / (i + 1);
              }
              if (k == 0)
                sym::check_eq("dot", p(one(t))(0, 0), w, 1e-9);
              else
                sym::check_eq("dot D" + S(k), p.deriv(k)->value(one(t))(0, 0), w, 1e-9);
            }
          });
}

// long chains of one operation and many components
CASES {
  for (Op op : {ADD, SUB, MUL, COMP, CAT})
    for (int n = 2; n <= 6; n++)
      for (int codom : {1, 5})
        for (int right = 0; right < 2; right++)
          sym::reg(std::string("long_") + opname[op] + S(n) + "_c" + S(codom) + (right ? "_r" : "_l"), n == 3 || n == 6 ? 1 : 0, [=] {
            double a = sym::var("a", -4, 4);
            Vec c = cuts(a, n);
            double t = point_in(a, c(n), 30);
            for (int cat = 0; cat < 4; cat += 3) {
              Gen g;
              check_d(chain(g, op, n, codom, right, cat, c), t, n <= 4 ? 2 : 1, n <= 3);
            }
          });
  for (int codom : {3, 4, 7})
    for (int cat = 0; cat < 4; cat += 3)
      sym::reg("dot_wide_c" + S(codom) + "_" + S(cat), 0, [=] {
        double a = sym::var("a", -4, 4), b = a + sym::var("d", 0.25, 3), t = point_in(a, b);
        Gen g;
        N l = g.leaf(codom, a, b), r = g.leaf(codom, a, b);
        FunctionExpression A = build(l), B = build(r);
        Jet x = jet(l, t, 3), y = jet(r, t, 3);
        DotProduct p = cat == 0 ? A.dot(B) : std::move(A).dot(std::move(B));
        for (int k = 0; k <= 3; k++) {
          double w = 0, c = 1;
          for (int i = 0; i <= k; i++) {
            for (int j = 0; j < codom; j++)
              w += c * x[j][i] * y[j][k - i];
            c = c * (k - i) / (i + 1);
          }
          sym::check_eq("dot D" + S(k), k == 0 ? p(one(t))(0, 0) : p.deriv(k)->value(one(t))(0, 0), w, 1e-9);
        }
      });
}
CASES {
  mixed_cases(1, 0);
  mixed_cases(2, 0);
}
