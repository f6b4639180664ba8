// Domain and codomain bookkeeping of expressions, rejection of incompatible
// operands.
#include "expr.hpp"
static void book(const std::string &L, const FunctionBase &e, const N &n) {
  sym::check_eq("left end " + L, e.get_domain().first, n->a, 1e-9);
  sym::check_eq("right end " + L, e.get_domain().second, n->b, 1e-9);
  sym::check_eq("length " + L, e.get_domain_length(), n->b - n->a, 1e-9);
  sym::check_true("codomain " + L, (int)e.get_codom_dim() == n->codom);
}
CASES {
  for (Op op : ALL)
    for (Op lo : ALL)
      for (Op ro : ALL)
        for (Op o3 : ALL) {
          if (op == LEAF || (op == NEG && ro != LEAF) || (lo == LEAF && o3 != LEAF))
            continue;
          sym::reg(std::string("book_") + opname[op] + "_" + opname[lo] + "_" + opname[ro] + "_" + opname[o3],
                   ro != LEAF && o3 != LEAF && (op == ADD || op == SUB) ? 1 : 0, [=] {
            double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
            double m = a + d1, b = m + d2;
            for (int codom = 1; codom <= 2; codom++)
              for (int flip = 0; flip < (op == MUL && codom > 1 ? 2 : 1); flip++)
                for (int cat = 0; cat < 4; cat++) {
                  Gen g;
                  N n = root(g, op, lo, ro, codom, flip, a, m, b);
                  n->cat = cat;
                  n->l->cat = (cat + 1) % 4;
                  if (n->r)
                    n->r->cat = (cat + 2) % 4;
                  if (o3 != LEAF && n->l->l) {
                    double ia = n->l->l->a, ib = n->l->l->b;
                    n->l->l = g.mk(o3, n->l->l->codom, ia, ib, (ia + ib) / 2);
                    n->l->l->cat = cat;
                  }
                  std::string L = n->str() + (flip ? "f" : "") + " c" + S(codom);
                  FunctionExpression e = build(n);
                  book(L, e, n);
                  FunctionExpression c(e);
                  book("copy " + L, c, n);
                  book("clone " + L, *e.clone(), n);
                  book("D0 " + L, e.derivate(0), n);
                  book("D1 " + L, e.derivate(1), n);
                  if (o3 == LEAF)
                    book("D2 " + L, *e.deriv(2), n);
                  book("neg " + L, -e, n);
                  book("scaled " + L, 2.0 * e, n);
                  book("moved " + L, FunctionExpression(std::move(c)), n);
                }
          });
        }
}
template <class F> static int attempt(F f) { // 0 accepted, 1 exception
  try {
    f();
  } catch (const std::exception &) {
    return 1;
  }
  return 0;
}
// every binary operation on operands whose domains differ by a symbolic
// amount, with every combination of codomains
CASES {
  for (Op lo : ALL)
    for (Op ro : ALL)
      for (int cl = 1; cl <= 2; cl++)
        for (int cr = 1; cr <= 2; cr++)
          for (int where = 0; where < 3; where++)
            sym::reg(std::string("reject_") + opname[lo] + "_" + opname[ro] + "_" + S(cl) + S(cr) + "_" + S(where), 0, [=] {
              double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3), d3 = sym::var("d3", 0.25, 3);
              double m = a + d1, b = m + d2, c = b + d3;
              double gap = sym::var("gap", -2, 2);
              bool same = where == 2;
              if (!same)
                sym::assume(gap >= 1e-6 || gap <= -1e-6);
              double da = where == 0 ? gap : 0, db = where == 1 ? gap : 0;
              sym::assume(b + db - (a + da) >= 0.125);
              for (int cat = 0; cat < 4; cat++) {
                Gen g;
                N l = g.mk(lo, cl, a, b, m), r = g.mk(ro, cr, a + da, b + db, (a + da + b + db) / 2);
                auto run = [&](Op op) {
                  N n = std::make_shared<Node>();
                  n->op = op;
                  n->cat = cat;
                  n->l = l;
                  n->r = r;
                  return attempt([&] { build(n); });
                };
                std::string L = " cat" + S(cat);
                sym::check_true("sum" + L, run(ADD) == (same && cl == cr ? 0 : 1));
                sym::check_true("difference" + L, run(SUB) == (same && cl == cr ? 0 : 1));
                sym::check_true("product" + L, run(MUL) == (same && (cl == 1 || cr == 1) ? 0 : 1));
                sym::check_true("composition" + L, run(COMP) == (cr == 1 ? 0 : 1));
                sym::check_true("in-place sum" + L, attempt([&] {
                                                       FunctionExpression x = build(l), y = build(r);
                                                       if (cat & 1) x += std::move(y); else x += y;
                                                     }) == (same && cl == cr ? 0 : 1));
                sym::check_true("in-place product" + L, attempt([&] {
                                                           FunctionExpression x = build(l), y = build(r);
                                                           if (cat & 1) x *= std::move(y); else x *= y;
                                                         }) == (same && cr == 1 ? 0 : 1));
                // concatenation: the left end of the right operand is displaced by da
                N q = g.mk(ro, cr, b + (where == 2 ? 0.0 : gap), c + 4.0, c + 2.0);
                r = q;
                sym::check_true("concatenation" + L, run(CAT) == (same && cl == cr ? 0 : 1));
              }
              });
}
// a chain of rvalue concatenations / compositions keeps its domain
CASES {
  for (int n = 2; n <= 5; n++)
    for (int cat = 0; cat < 4; cat++) {
      sym::reg("cat_chain" + S(n) + "_" + S(cat), 0, [=] {
        double a = sym::var("a", -4, 4);
        Vec d = sym::vars("d", n, 0.25, 3);
        Gen g;
        N acc = g.leaf(1, a, a + d(0));
        FunctionExpression e = build(acc);
        double end = a + d(0);
        std::vector<FunctionExpression> keep;
        for (int i = 1; i < n; i++) {
          FunctionExpression f = build(g.leaf(1, end, end + d(i)));
          end += d(i);
          FunctionExpression r = cat == 0 ? e.concat(f) : cat == 1 ? e.concat(std::move(f)) : cat == 2 ? std::move(e).concat(f) : std::move(e).concat(std::move(f));
          sym::check_eq("left " + S(i), r.get_domain().first, a, 1e-9);
          sym::check_eq("right " + S(i), r.get_domain().second, end, 1e-9);
          FunctionExpression dr = r.derivate();
          sym::check_eq("right of the derivative " + S(i), dr.get_domain().second, end, 1e-9);
          keep.clear();
          keep.push_back(std::move(r));
          e.~FunctionExpression();
          new (&e) FunctionExpression(std::move(keep[0]));
        }
      });
      sym::reg("comp_chain" + S(n) + "_" + S(cat), 0, [=] {
        Gen g;
        Vec a = sym::vars("a", n, -4, 4), d = sym::vars("d", n, 0.25, 3);
        FunctionExpression e = build(g.leaf(2, a(0), a(0) + d(0)));
        std::vector<FunctionExpression> keep;
        for (int i = 1; i < n; i++) {
          FunctionExpression f = build(g.leaf(1, a(i), a(i) + d(i)));
          FunctionExpression r = cat == 0 ? e.compose(f) : cat == 1 ? e.compose(std::move(f)) : cat == 2 ? std::move(e).compose(f) : std::move(e).compose(std::move(f));
          sym::check_eq("left " + S(i), r.get_domain().first, a(i), 1e-9);
          sym::check_eq("right " + S(i), r.get_domain().second, a(i) + d(i), 1e-9);
          sym::check_true("codomain " + S(i), r.get_codom_dim() == 2);
          keep.clear();
          keep.push_back(std::move(r));
          e.~FunctionExpression();
          new (&e) FunctionExpression(std::move(keep[0]));
        }
      });
    }
}
// long chains of every operation, many components
CASES {
  for (Op op : {ADD, SUB, MUL, COMP, CAT})
    for (int n = 3; n <= 9; n += 2)
      for (int codom : {1, 3, 6})
        for (int right = 0; right < 2; right++)
          sym::reg(std::string("long_") + opname[op] + S(n) + "_c" + S(codom) + (right ? "_r" : "_l"), 0, [=] {
            Vec c = cuts(sym::var("a", -4, 4), n);
            for (int cat = 0; cat < 4; cat++) {
              Gen g;
              N x = chain(g, op, n, codom, right, cat, c);
              FunctionExpression e = build(x);
              std::string L = opname[op] + S(n) + " cat" + S(cat);
              book(L, e, x);
              book("clone " + L, *e.clone(), x);
              if (n <= 5)
                book("D1 " + L, e.derivate(1), x);
              book("neg " + L, -e, x);
              book("moved " + L, FunctionExpression(std::move(e)), x);
            }
          });
}
// rejection with larger codomains, and of an operand nested in a chain
CASES {
  for (int cl : {1, 2, 3, 5})
    for (int cr : {1, 2, 3, 5})
      for (int n = 1; n <= 4; n++)
        for (int right = 0; right < 2; right++)
          sym::reg("reject_wide_" + S(cl) + S(cr) + "_n" + S(n) + (right ? "_r" : "_l"), 0, [=] {
            Vec c = cuts(sym::var("a", -4, 4), n);
            for (Op in : {ADD, MUL, CAT})
              for (int cat = 0; cat < 4; cat++) {
                Gen g;
                N x = n == 1 ? g.leaf(right ? cr : cl, c(0), c(n)) : chain(g, in, n, right ? cr : cl, false, cat, c);
                N y = g.leaf(right ? cl : cr, c(0), c(n));
                N z = right ? g.leaf(cl, c(0) - 1, c(0)) : g.leaf(cr, c(n), c(n) + 1);
                auto run = [&](Op op) {
                  N k = std::make_shared<Node>();
                  k->op = op;
                  k->cat = cat;
                  N o = op == CAT ? z : y;
                  k->l = right ? o : x;
                  k->r = right ? x : o;
                  return attempt([&] { build(k); });
                };
                std::string L = std::string(" ") + opname[in] + " cat" + S(cat);
                sym::check_true("sum" + L, run(ADD) == (cl != cr));
                sym::check_true("difference" + L, run(SUB) == (cl != cr));
                sym::check_true("product" + L, run(MUL) == (cl != 1 && cr != 1));
                sym::check_true("composition" + L, run(COMP) == (cr != 1));
                sym::check_true("concatenation" + L, run(CAT) == (cl != cr));
              }
          });
}
// domains far from zero, very short and very long
CASES {
  for (Op lo : {LEAF, ADD, CAT})
    for (Op ro : {LEAF, MUL, COMP, CAT})
      for (int where = 0; where < 3; where++)
        for (int kind = 0; kind < 2; kind++)
          sym::reg(std::string("far_") + opname[lo] + "_" + opname[ro] + "_" + S(where) + (kind ? "_long" : "_short"), 0, [=] {
            double s = kind ? 1e3 : 1e-3;
            double a = sym::var("a", -1e4, 1e4), d1 = s * sym::var("d1", 0.5, 3), d2 = s * sym::var("d2", 0.5, 3);
            double m = a + d1, b = m + d2, gap = sym::var("gap", -4, 4);
            bool same = where == 2;
            if (!same)
              sym::assume(gap >= 1e-6 || gap <= -1e-6);
            double da = where == 0 ? gap : 0, db = where == 1 ? gap : 0;
            sym::assume(b + db - (a + da) >= 1e-4);
            for (int cat = 0; cat < 4; cat++) {
              Gen g;
              N l = g.mk(lo, 1, a, b, m), r = g.mk(ro, 1, a + da, b + db, (a + da + b + db) / 2);
              auto run = [&](Op op) {
                N n = std::make_shared<Node>();
                n->op = op;
                n->cat = cat;
                n->l = l;
                n->r = r;
                return attempt([&] { build(n); });
              };
              std::string L = " cat" + S(cat);
              sym::check_true("sum" + L, run(ADD) == !same);
              sym::check_true("difference" + L, run(SUB) == !same);
              sym::check_true("product" + L, run(MUL) == !same);
              sym::check_true("composition" + L, run(COMP) == 0);
              sym::check_true("in-place sum" + L, attempt([&] {
                                                     FunctionExpression x = build(l), y = build(r);
                                                     if (cat & 1) x += std::move(y); else x += y;
                                                   }) == !same);
              sym::check_true("in-place product" + L, attempt([&] {
                                                         FunctionExpression x = build(l), y = build(r);
                                                         if (cat & 1) x *= std::move(y); else x *= y;
                                                       }) == !same);
              N q = g.mk(ro, 1, b + (same ? 0.0 : gap), b + 10 * s + 8, b + 5 * s + 6);
              r = q;
              sym::check_true("concatenation" + L, run(CAT) == !same);
              if (same) {
                N n = std::make_shared<Node>();
                n->op = CAT;
                n->cat = cat;
                n->l = l;
                n->r = r;
                n->codom = 1;
                n->a = a;
                n->b = b + 10 * s + 8;
                book("joined" + L, build(n), n);
              }
            }
          });
}
// splines, elementary functions and expressions mixed as operands
CASES {
  for (int kind = 0; kind < 3; kind++)
    for (int codom = 1; codom <= 3; codom += 2)
      for (int where = 0; where < 3; where++)
        sym::reg("mixed_spline" + S(kind) + "_c" + S(codom) + "_" + S(where), 0, [=] {
          Spl sp(kind == 0 ? Leg(3) : kind == 1 ? Gll(3) : B01(0.5), codom, 2);
          double a = sp.t0, b = sp.t0 + sp.tau.sum(), gap = sym::var("gap", -2, 2);
          bool same = where == 2;
          if (!same)
            sym::assume(gap >= 1e-6 || gap <= -1e-6);
          double da = where == 0 ? gap : 0, db = where == 1 ? gap : 0;
          sym::assume(b + db - (a + da) >= 0.125);
          auto spline = sp.make();
          const FunctionBase &G = spline; // the operations of functions, not of splines
          Vec half = Vec::Constant(codom, 0.5);
          std::pair<double, double> dom{a + da, b + db};
          Identity id(dom);
          CanonicPolynomial cp(dom, Vec(Vec::Constant(2, 1.5)));
          ConstFunction cv(dom, half);
          Opaque op(dom, codom, "q");
          FunctionExpression e = op + cv;
          sym::check_true("spline + constant", attempt([&] { FunctionExpression r = G + cv; }) == !same);
          sym::check_true("constant + spline", attempt([&] { FunctionExpression r = cv + G; }) == !same);
          sym::check_true("spline - opaque", attempt([&] { FunctionExpression r = G - op; }) == !same);
          sym::check_true("spline + expression", attempt([&] { FunctionExpression r = G + e; }) == !same);
          sym::check_true("expression + spline", attempt([&] { FunctionExpression r = e + G; }) == !same);
          sym::check_true("spline * polynomial", attempt([&] { FunctionExpression r = G * cp; }) == !same);
          sym::check_true("polynomial * spline", attempt([&] { FunctionExpression r = cp * G; }) == !same);
          sym::check_true("spline * vector", attempt([&] { FunctionExpression r = G * e; }) == !(same && codom == 1));
          sym::check_true("spline of identity", attempt([&] { FunctionExpression r = G.compose(id); }) == 0);
          sym::check_true("identity of spline", attempt([&] { FunctionExpression r = id.compose(G); }) == (codom != 1));
          ConstFunction nx({b + (same ? 0.0 : gap), b + 5.0}, half);
          sym::check_true("spline then constant", attempt([&] { FunctionExpression r = G.concat(nx); }) == !same);
          if (same) {
            FunctionExpression r = G * cp, s = G.compose(id), u = G.concat(nx);
            sym::check_eq("left", r.get_domain().first, a, 1e-9);
            sym::check_eq("right", r.get_domain().second, b, 1e-9);
            sym::check_eq("right of concatenation", u.get_domain().second, b + 5.0, 1e-9);
            sym::check_eq("left of composition", s.get_domain().first, a, 1e-9);
            sym::check_true("codomains", (int)r.get_codom_dim() == codom && (int)s.get_codom_dim() == codom && (int)u.get_codom_dim() == codom);
          }
        });
}

// what functions say about their domains
CASES {
  for (int ca : {1, 2, 3})
    for (int cb : {1, 2, 3})
      for (int side = 0; side < 3; side++) // equal domains, left end apart, right end apart
        for (int sign = 0; sign < 2; sign++)
          sym::reg("queries_c" + S(ca) + S(cb) + "_s" + S(side) + S(sign), 0, [=] {
            double a = sym::var("a", -4, 4), L = sym::var("L", 1, 4), e = (sign ? -1.0 : 1.0) * sym::var("e", 1e-6, 0.5);
            double a2 = side == 1 ? a + e : a, b = a + L, b2 = side == 2 ? b + e : b;
            Opaque f({a, b}, ca, "f"), g({a2, b2}, cb, "g");
            FunctionExpression ef = f.to_expression(), eg = -g;
            auto q = [&](const std::string &L, const FunctionBase &x, const FunctionBase &y) {
              sym::check_true(L + "same domain", x.same_domain(y) == (side == 0) && FunctionBase::same_domain(x, y) == (side == 0));
              sym::check_true(L + "same codomain", x.same_codomain(y) == (ca == cb) && FunctionBase::same_codomain(x, y) == (ca == cb));
            };
            q("fg ", f, g);
            q("gf ", g, f);
            q("expressions ", ef, eg);
            q("expression and function ", g, ef);
            sym::check_true("own", f.same_domain(f) && f.same_codomain(f) && ef.same_domain(f) && f.same_codomain(ef));
            sym::check_eq("length of f", ef.get_domain_length(), L, 1e-9);
            sym::check_eq("length of g", eg.get_domain_length(), b2 - a2, 1e-9);
            double in = sym::var("r", 1e-6, 0.999999);
            double t = a + L * in;
            sym::check_true("inside", f.is_point_in_domain(t) && ef.is_point_in_domain(t));
            double out = sym::var("o", 1e-6, 3);
            sym::check_true("outside", !f.is_point_in_domain(a - out) && !f.is_point_in_domain(b + out) && !eg.is_point_in_domain(a2 - out) && !eg.is_point_in_domain(b2 + out));
            sym::check_true("names", f.get_name() == Opaque(f).get_name());
          });
}
