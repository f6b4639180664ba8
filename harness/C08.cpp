// Pointwise meaning of function expressions.
#include "mixed.hpp"
static void check_val(const N &n, double t) {
  FunctionExpression e = build(n);
  Jet s = jet(n, t, 0);
  sym::check_true("codom " + n->str(), (int)e.get_codom_dim() == n->codom);
  Mat v = e(one(t));
  for (int j = 0; j < n->codom; j++)
    sym::check_eq(n->str(), v(0, j), s[j][0], 1e-9);
}
CASES {
  for (Op op : ALL) {
    if (op == LEAF)
      continue;
    for (Op lo : ALL)
      for (Op ro : ALL) {
        if (op == NEG && ro != LEAF)
          continue;
        for (int codom = 1; codom <= 2; codom++)
          for (int flip = 0; flip < (op == MUL && codom > 1 ? 2 : 1); flip++)
            sym::reg(std::string(opname[op]) + "_" + opname[lo] + "_" + opname[ro] + "_c" + S(codom) + (flip ? "f" : ""),
                     (lo == CAT && ro == CAT) || (codom == 1 && (lo != LEAF && ro != LEAF) && op != COMP) ? 1 : 0, [=] {
                       double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
                       double m = a + d1, b = m + d2;
                       double t = point_in(a, b);
                       for (int cat = 0; cat < 4; cat++)
                         for (int raw = 0; raw < (lo == LEAF ? 2 : 1); raw++) {
                           if (op == NEG && (cat & 1))
                             continue;
                           Gen g;
                           N n = root(g, op, lo, ro, codom, flip, a, m, b);
                           n->cat = cat;
                           n->raw = raw;
                           // inner value categories vary with the outer one
                           n->l->cat = (cat + 1) % 4;
                           if (n->r)
                             n->r->cat = (cat + 2) % 4;
                           check_val(n, t);
                         }
                     });
      }
  }
}

// in-place operators, and a second level of nesting under the left operand
CASES {
  for (Op lo : ALL)
    for (Op ro : ALL)
      for (int codom = 1; codom <= 2; codom++)
        for (int mul = 0; mul < 2; mul++)
          sym::reg(std::string(mul ? "imul_" : "iadd_") + opname[lo] + "_" + opname[ro] + "_c" + S(codom), 0, [=] {
            double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
            double m = a + d1, b = m + d2, t = point_in(a, b);
            for (int rv = 0; rv < 2; rv++)
              for (int rep = 1; rep <= 2; rep++) {
                Gen g;
                N l = g.mk(lo, codom, a, b, m);
                FunctionExpression e = build(l);
                std::vector<double> want(codom);
                Jet jl = jet(l, t, 0);
                for (int j = 0; j < codom; j++)
                  want[j] = jl[j][0];
                for (int k = 0; k < rep; k++) {
                  N r = g.mk(ro, mul ? 1 : codom, a, b, m);
                  FunctionExpression f = build(r);
                  if (mul) {
                    if (rv) e *= std::move(f); else e *= f;
                  } else {
                    if (rv) e += std::move(f); else e += f;
                  }
                  Jet jr = jet(r, t, 0);
                  for (int j = 0; j < codom; j++)
                    want[j] = mul ? want[j] * jr[0][0] : want[j] + jr[j][0];
                }
                Mat v = e(one(t));
                std::string L = "in-place " + S(rv) + " x" + S(rep) + " on " + l->str();
                sym::check_true("codom " + L, (int)e.get_codom_dim() == codom);
                for (int j = 0; j < codom; j++)
                  sym::check_eq(L, v(0, j), want[j], 1e-9);
              }
          });
}
// three operand chains: (x op1 y) op2 z and x op1 (y op2 z)
CASES {
  for (Op o1 : ALL)
    for (Op o2 : ALL)
      for (int right = 0; right < 2; right++) {
        if (o1 == LEAF || o2 == LEAF || o1 == NEG)
          continue;
        for (Op o3 : ALL)
          sym::reg(std::string("chain_") + opname[o1] + "_" + opname[o2] + "_" + opname[o3] + (right ? "_r" : "_l"), 0, [=] {
            double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
            double m = a + d1, b = m + d2, t = point_in(a, b);
            for (int cat = 0; cat < 4; cat++) {
              Gen g;
              N n = root(g, o1, right ? LEAF : o2, right ? o2 : LEAF, 2, false, a, m, b);
              n->cat = cat;
              N in = right ? n->r : n->l;
              in->cat = (cat + 3) % 4;
              // deepen: the inner node's left operand gets an operation too
              if (in->l && o3 != LEAF) {
                double ia = in->l->a, ib = in->l->b;
                N k = g.mk(o3, in->l->codom, ia, ib, (ia + ib) / 2);
                k->cat = (cat + 1) % 4;
                in->l = k;
              }
              check_val(n, t);
            }
          });
      }
}
// scalar times a function
CASES {
  for (Op lo : ALL)
    for (int codom = 1; codom <= 2; codom++)
      sym::reg(std::string("scale_") + opname[lo] + "_c" + S(codom), 0, [=] {
        double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
        double m = a + d1, b = m + d2, t = point_in(a, b), k = sym::var("k", -4, 4);
        Gen g;
        N l = g.mk(lo, codom, a, b, m);
        FunctionExpression e = build(l), e2 = build(l);
        FunctionExpression r1 = k * e, r2 = k * std::move(e2);
        Jet s = jet(l, t, 0);
        Mat v1 = r1(one(t)), v2 = r2(one(t));
        for (int j = 0; j < codom; j++) {
          sym::check_eq("scaled const", v1(0, j), k * s[j][0], 1e-9);
          sym::check_eq("scaled rvalue", v2(0, j), k * s[j][0], 1e-9);
        }
      });
}

// long chains of one operation, up to eight operands, folded either way
CASES {
  for (Op op : {ADD, SUB, MUL, COMP, CAT})
    for (int n = 4; n <= 8; n++)
      for (int codom : {1, 3})
        for (int right = 0; right < 2; right++)
          sym::reg(std::string("long_") + opname[op] + S(n) + "_c" + S(codom) + (right ? "_r" : "_l"), n == 5 || n == 7 ? 1 : 0, [=] {
            double a = sym::var("a", -4, 4);
            Vec c = cuts(a, n);
            double t = point_in(a, c(n), 30);
            for (int cat = 0; cat < 4; cat++) {
              Gen g;
              check_val(chain(g, op, n, codom, right, cat, c), t);
            }
          });
}
// several points at once, in any order, and many components
CASES {
  for (Op op : ALL)
    for (Op lo : ALL)
      for (Op ro : {LEAF, ADD, MUL, COMP, CAT}) {
        if (op == LEAF || (op == NEG && ro != LEAF))
          continue;
        for (int codom : {1, 4})
          for (int np : {3, 9})
            sym::reg(std::string("batch") + S(np) + "_" + opname[op] + "_" + opname[lo] + "_" + opname[ro] + "_c" + S(codom),
                     np == 9 && lo != LEAF && ro != LEAF ? 1 : 0, [=] {
                       double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
                       double m = a + d1, b = m + d2;
                       // one symbolic point among fixed fractions of the domain, in no order
                       double t = point_in(a, b);
                       Vec p(np);
                       for (int i = 0; i < np; i++)
                         p(i) = i == np / 2 ? t : i % 2 ? b - (b - m) * i / 16 : a + (m - a) * i / 16;
                       for (int cat = 0; cat < 4; cat += 3) {
                         Gen g;
                         N n = root(g, op, lo, ro, codom, false, a, m, b);
                         n->cat = cat;
                         FunctionExpression e = build(n);
                         Mat v = e(p);
                         sym::check_true("shape", v.rows() == np && v.cols() == codom);
                         for (int i = 0; i < np; i++) {
                           Jet s = jet(n, p(i), 0);
                           for (int j = 0; j < codom; j++)
                             sym::check_eq(n->str() + " point " + S(i), v(i, j), s[j][0], 1e-9);
                         }
                       }
                     });
      }
}
CASES { mixed_cases(0, 0); }
