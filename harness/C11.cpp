// Value semantics: operands are unchanged, copies are independent, results do
// not depend on the lifetime of the operands.
#include "expr.hpp"
static void same_as(const std::string &L, const FunctionBase &e, const N &n, double t) {
  Mat v = e(one(t));
  Jet s = jet(n, t, 0);
  sym::check_true("codomain " + L, (int)e.get_codom_dim() == n->codom);
  sym::check_eq("left " + L, e.get_domain().first, n->a, 1e-9);
  sym::check_eq("right " + L, e.get_domain().second, n->b, 1e-9);
  for (int j = 0; j < n->codom; j++)
    sym::check_eq(L, v(0, j), s[j][0], 1e-9);
}
CASES {
  for (Op lo : ALL)
    for (Op ro : ALL)
      for (int codom = 1; codom <= 2; codom++)
        sym::reg(std::string("operands_") + opname[lo] + "_" + opname[ro] + "_c" + S(codom), 0, [=] {
          double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
          double m = a + d1, b = m + d2, t = point_in(a, b);
          Gen g;
          N l = g.mk(lo, codom, a, b, m), r = g.mk(ro, codom, a, b, m), sc = g.mk(ro, 1, a, b, m);
          N nx = g.mk(ro, codom, b, b + d1, b + d1 / 2);
          N wide = g.mk(lo, codom, -1000, 1000, 0.5);
          FunctionExpression A = build(l), B = build(r), C = build(sc), X = build(nx), W = build(wide);
          // const operands, results dropped
          { FunctionExpression q = A + B; (void)q; }
          same_as("A after A+B", A, l, t); same_as("B after A+B", B, r, t);
          { FunctionExpression q = A - B; (void)q; }
          same_as("A after A-B", A, l, t); same_as("B after A-B", B, r, t);
          { FunctionExpression q = A * C; (void)q; }
          same_as("A after A*C", A, l, t); same_as("C after A*C", C, sc, t);
          { FunctionExpression q = C * A; (void)q; }
          same_as("A after C*A", A, l, t); same_as("C after C*A", C, sc, t);
          { FunctionExpression q = -A; (void)q; }
          same_as("A after -A", A, l, t);
          { FunctionExpression q = 3.0 * A; (void)q; }
          same_as("A after 3*A", A, l, t);
          { FunctionExpression q = W.compose(C); (void)q; }
          same_as("C after compose", C, sc, t);
          sym::check_eq("W domain after compose", W.get_domain().second, 1000, 1e-9);
          { FunctionExpression q = A.concat(X); (void)q; }
          same_as("A after concat", A, l, t);
          sym::check_eq("X left after concat", X.get_domain().first, b, 1e-9);
          { FunctionExpression q = A.derivate(1); (void)q; }
          same_as("A after derivative", A, l, t);
          { DotProduct q = A.dot(B); (void)q; }
          same_as("A after dot", A, l, t); same_as("B after dot", B, r, t);
          // only the right operand is an rvalue: the left one is untouched
          { FunctionExpression tmp(B); FunctionExpression q = A + std::move(tmp); (void)q; }
          same_as("A after A+rvalue", A, l, t);
          { FunctionExpression tmp(B); FunctionExpression q = A - std::move(tmp); (void)q; }
          same_as("A after A-rvalue", A, l, t);
          { FunctionExpression tmp(C); FunctionExpression q = A * std::move(tmp); (void)q; }
          same_as("A after A*rvalue", A, l, t);
          { FunctionExpression tmp(A); FunctionExpression q = std::move(tmp) + B; (void)q; }
          same_as("B after rvalue+B", B, r, t);
          { FunctionExpression tmp(A); FunctionExpression q = std::move(tmp) * C; (void)q; }
          same_as("C after rvalue*C", C, sc, t);
          { FunctionExpression tmp(W); FunctionExpression q = std::move(tmp).compose(C); (void)q; }
          same_as("C after rvalue compose", C, sc, t);
          { FunctionExpression tmp(A); FunctionExpression q = std::move(tmp).concat(X); (void)q; }
          sym::check_eq("X right after rvalue concat", X.get_domain().second, b + d1, 1e-9);
          same_as("B at the end", B, r, t);
        });
}
CASES {
  for (Op lo : ALL)
    for (Op ro : ALL)
      sym::reg(std::string("copies_") + opname[lo] + "_" + opname[ro], 0, [=] {
        double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
        double m = a + d1, b = m + d2, t = point_in(a, b);
        Gen g;
        N l = g.mk(lo, 2, a, b, m), r = g.mk(ro, 2, a, b, m), sc = g.mk(ro, 1, a, b, m);
        FunctionExpression A = build(l);
        {
          FunctionExpression c(A);
          c += build(r);
          same_as("original after copy +=", A, l, t);
          std::unique_ptr<FunctionExpression> k = A.clone();
          *k *= build(sc);
          same_as("original after clone *=", A, l, t);
          FunctionExpression c2(A);
          A += build(r);
          same_as("copy after original +=", c2, l, t);
          Mat v = A(one(t));
          Jet x = jet(l, t, 0), y = jet(r, t, 0);
          sym::check_eq("changed original", v(0, 1), x[1][0] + y[1][0], 1e-9);
          FunctionExpression mv(std::move(c2));
          same_as("moved copy", mv, l, t);
        }
        // results outlive their operands
        std::unique_ptr<FunctionExpression> p = std::make_unique<FunctionExpression>(build(l)), q = std::make_unique<FunctionExpression>(build(r));
        FunctionExpression s = *p + *q, dd = p->derivate(1), ng = -*p;
        std::unique_ptr<FunctionExpression> sp = std::make_unique<FunctionExpression>(s);
        p.reset();
        q.reset();
        Jet x = jet(l, t, 1), y = jet(r, t, 0);
        for (int j = 0; j < 2; j++) {
          sym::check_eq("sum after its operands are gone", s(one(t))(0, j), x[j][0] + y[j][0], 1e-9);
          sym::check_eq("derivative after its operand is gone", dd(one(t))(0, j), x[j][1], 1e-9);
          sym::check_eq("negation after its operand is gone", ng(one(t))(0, j), -x[j][0], 1e-9);
        }
        s += build(r);
        for (int j = 0; j < 2; j++)
          sym::check_eq("copy of the sum", (*sp)(one(t))(0, j), x[j][0] + y[j][0], 1e-9);
      });
}
// splines are values as well
CASES {
  std::vector<BS> bases = {Leg(4), Gll(4), B01(0.5), Leg(2)};
  for (BS b : bases)
    for (int n = 1; n <= 2; n++)
      sym::reg("spline_" + b->name + "_n" + S(n), 0, [=] {
        Spl sp(b, 2, n);
        double s = sym::var("s", -0.99, 0.99), k = sym::var("k", -4, 4);
        GSpline f = sp.make();
        auto chk = [&](const std::string &L, const GSpline &g) {
          for (int i = 0; i < n; i++) {
            Mat v = g(one(sp.point(i, s)));
            for (int j = 0; j < 2; j++)
              sym::check_eq(L + " piece " + S(i), v(0, j), sp.win_at(i, j, s, 0), 1e-6);
          }
          sym::check_eq("left " + L, g.get_domain().first, sp.t0, 1e-9);
          sym::check_eq("right " + L, g.get_domain().second, sp.tend(), 1e-9);
          for (int i = 0; i < n; i++)
            sym::check_eq("length " + S(i) + " " + L, g.get_interval_lengths()(i), sp.tau(i), 1e-9);
          for (long i = 0; i < sp.c.size(); i++)
            sym::check_eq("coefficient " + S(i) + " " + L, g.get_coefficients()(i), sp.c(i), 1e-9);
        };
        GSpline g(f);
        { GSpline h = k * g; (void)h; }
        chk("after scaling", g);
        { GSpline h = -g; (void)h; }
        chk("after negation", g);
        { GSpline h = g + f; (void)h; }
        chk("left of a sum", g);
        chk("right of a sum", f);
        { GSpline h = g.derivate(1); (void)h; }
        chk("after a derivative", g);
        { GSpline h = g.linear_scaling_new_execution_time(2.0); (void)h; }
        chk("after time scaling", g);
        { FunctionExpression e = g.to_expression() + (-f.to_expression()); FunctionExpression e2 = e.derivate(); (void)e2; }
        chk("after an expression", g);
        auto c = g.clone();
        chk("clone", *c);
        GSpline mv(std::move(*c));
        chk("moved", mv);
        { GSpline h = g - f; (void)h; }
        chk("left of a difference", g);
        chk("right of a difference", f);
        {
          GSpline h(g);
          h += f;
          h -= 0.5 * f;
          chk("right of an in-place sum", f);
          chk("original of a changed copy", g);
        }
      });
}
// every operation outlives its operands; operands combined with themselves
CASES {
  for (Op lo : ALL)
    for (Op ro : ALL)
      for (int codom : {1, 3})
        sym::reg(std::string("outlive_") + opname[lo] + "_" + opname[ro] + "_c" + S(codom), 0, [=] {
          double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
          double m = a + d1, b = m + d2, t = point_in(a, b);
          Gen g;
          N l = g.mk(lo, codom, a, b, m), r = g.mk(ro, codom, a, b, m), sc = g.mk(ro, 1, a, b, m);
          N wide = g.mk(lo, codom, -1000, 1000, 0.5), l1 = g.mk(lo, codom, a, m, (a + m) / 2), r1 = g.mk(ro, codom, m, b, (m + b) / 2);
          auto U = [](const N &n) { return std::make_unique<FunctionExpression>(build(n)); };
          auto A = U(l), B = U(r), C = U(sc), W = U(wide), L1 = U(l1), R1 = U(r1);
          FunctionExpression pr = *A * *C, cm = W->compose(*C), ct = L1->concat(*R1), df = *A - *B, sc3 = 3.0 * *A;
          FunctionExpression both = (*A + *B).derivate(1);
          std::unique_ptr<DotProduct> dt = std::make_unique<DotProduct>(A->dot(*B));
          auto ddt = dt->deriv(1);
          auto ecl = pr.clone();
          DotProduct dt2(*dt);
          A.reset(); B.reset(); C.reset(); W.reset(); L1.reset(); R1.reset(); dt.reset();
          Jet x = jet(l, t, 1), y = jet(r, t, 1), z = jet(sc, t, 0), cc = t < m ? jet(l1, t, 0) : jet(r1, t, 0), wc = jet(wide, z[0][0], 0);
          Mat vpr = pr(one(t)), vcm = cm(one(t)), vct = ct(one(t)), vdf = df(one(t)), vsc = sc3(one(t)), vb = both(one(t)), vcl = ecl->value(one(t));
          double dot = 0, ddot = 0;
          for (int j = 0; j < codom; j++) {
            sym::check_eq("product", vpr(0, j), x[j][0] * z[0][0], 1e-9);
            sym::check_eq("clone of the product", vcl(0, j), x[j][0] * z[0][0], 1e-9);
            sym::check_eq("composition", vcm(0, j), wc[j][0], 1e-9);
            sym::check_eq("concatenation", vct(0, j), cc[j][0], 1e-9);
            sym::check_eq("difference", vdf(0, j), x[j][0] - y[j][0], 1e-9);
            sym::check_eq("multiple", vsc(0, j), 3.0 * x[j][0], 1e-9);
            sym::check_eq("derivative of a sum", vb(0, j), x[j][1] + y[j][1], 1e-9);
            dot += x[j][0] * y[j][0];
            ddot += x[j][1] * y[j][0] + x[j][0] * y[j][1];
          }
          sym::check_eq("copy of the dot product", dt2(one(t))(0, 0), dot, 1e-9);
          sym::check_eq("derivative of the dot product", ddt->value(one(t))(0, 0), ddot, 1e-9);
        });
  for (Op lo : ALL)
    sym::reg(std::string("self_") + opname[lo], 0, [=] {
      double a = sym::var("a", -4, 4), d1 = sym::var("d1", 0.25, 3), d2 = sym::var("d2", 0.25, 3);
      double m = a + d1, b = m + d2, t = point_in(a, b);
      Gen g;
      N l = g.mk(lo, 1, a, b, m);
      Jet x = jet(l, t, 1);
      double v = x[0][0], w = x[0][1];
      FunctionExpression A = build(l);
      sym::check_eq("A+A", (A + A)(one(t))(0, 0), 2 * v, 1e-9);
      sym::check_eq("A-A", (A - A)(one(t))(0, 0), 0.0, 1e-9);
      sym::check_eq("A*A", (A * A)(one(t))(0, 0), v * v, 1e-9);
      sym::check_eq("A.A", A.dot(A)(one(t))(0, 0), v * v, 1e-9);
      sym::check_eq("(A*A)'", (A * A).derivate()(one(t))(0, 0), 2 * v * w, 1e-9);
      same_as("A afterwards", A, l, t);
      FunctionExpression B(A);
      B += A;
      B += A;
      sym::check_eq("A+A+A", B(one(t))(0, 0), 3 * v, 1e-9);
      FunctionExpression C(A);
      C *= A;
      C *= A;
      sym::check_eq("A*A*A", C(one(t))(0, 0), v * v * v, 1e-9);
      same_as("A at the end", A, l, t);
    });
}

// every class of function through every form of copying, the source gone
#include "mixed.hpp"
#include <gsplines/Collocation/GaussLobattoLagrange.hpp>
template <typename T> static void all_forms(std::unique_ptr<T> src, double t, int codom, std::function<double(int, int)> want, double tol = 1e-6) {
  double a = src->get_domain().first, b = src->get_domain().second;
  auto is = [&](const std::string &L, const FB &f, int k) {
    Mat v = f(one(t));
    sym::check_true(L + " codomain", (int)f.get_codom_dim() == codom);
    sym::check_eq(L + " left", f.get_domain().first, a, 1e-12);
    sym::check_eq(L + " right", f.get_domain().second, b, 1e-12);
    for (int j = 0; j < codom; j++)
      sym::check_eq(L + " component " + S(j), v(0, j), want(j, k), tol);
  };
  auto copy = std::make_unique<T>(*src);
  auto clone = src->clone();
  auto base = static_cast<const FB &>(*src).clone();
  auto ex = std::make_unique<FunctionExpression>(src->to_expression());
  auto d1 = src->deriv(1);
  auto bd1 = static_cast<const FB &>(*src).deriv(1);
  is("source", *src, 0);
  auto tmp = std::make_unique<T>(*src), tmp2 = std::make_unique<T>(*src), tmp3 = std::make_unique<T>(*src), tmp4 = std::make_unique<T>(*src);
  auto moved = std::make_unique<T>(std::move(*tmp));
  auto mclone = tmp2->move_clone();
  auto bmclone = static_cast<FB &>(*tmp3).move_clone();
  auto rclone = std::move(*tmp4).clone();
  is("source afterwards", *src, 0);
  src.reset();
  tmp.reset();
  tmp2.reset();
  tmp3.reset();
  tmp4.reset();
  is("copy", *copy, 0);
  is("clone", *clone, 0);
  is("clone through the base", *base, 0);
  is("expression", *ex, 0);
  is("moved", *moved, 0);
  is("moving clone", *mclone, 0);
  is("moving clone through the base", *bmclone, 0);
  is("clone of a temporary", *rclone, 0);
  is("derivative", *d1, 1);
  is("derivative through the base", *bd1, 1);
  // what they give in turn
  auto dc = mclone->deriv(1);
  auto db = base->deriv(1);
  auto cc = rclone->clone();
  auto dd = d1->clone();
  mclone.reset();
  base.reset();
  rclone.reset();
  d1.reset();
  is("derivative of the moving clone", *dc, 1);
  is("derivative of the clone", *db, 1);
  is("clone of a clone", *cc, 0);
  is("clone of the derivative", *dd, 1);
  FunctionExpression sum = *copy + *clone, e2 = ex->derivate(1);
  copy.reset();
  clone.reset();
  ex.reset();
  Mat v = sum(one(t));
  for (int j = 0; j < codom; j++)
    sym::check_eq("sum of copies component " + S(j), v(0, j), 2.0 * want(j, 0), tol);
  is("derivative of the expression", e2, 1);
}
CASES {
  auto reg = [](const std::string &nm, std::function<void(double, double, double)> f) {
    sym::reg("forms_" + nm, 0, [=] {
      double a = sym::var("a", -3, 3), b = a + sym::var("L", 0.25, 3);
      f(a, b, point_in(a, b));
    });
  };
  using P = std::pair<double, double>;
  reg("sine", [](double a, double b, double t) { all_forms(std::make_unique<Sin>(P{a, b}), t, 1, [=](int, int k) { return k ? std::cos(t) : std::sin(t); }); });
  reg("cosine", [](double a, double b, double t) { all_forms(std::make_unique<Cos>(P{a, b}), t, 1, [=](int, int k) { return k ? -std::sin(t) : std::cos(t); }); });
  reg("exponential", [](double a, double b, double t) { all_forms(std::make_unique<Exponential>(P{a, b}), t, 1, [=](int, int) { return std::exp(t); }); });
  reg("identity", [](double a, double b, double t) { all_forms(std::make_unique<Identity>(P{a, b}), t, 1, [=](int, int k) { return k ? 1.0 : t; }); });
  reg("dilation", [](double a, double b, double t) {
    double q = sym::var("q", -3, 3);
    all_forms(std::make_unique<DomainLinearDilation>(P{a, b}, q), t, 1, [=](int, int k) { return k ? q : q * t; });
  });
  for (int codom : {1, 2, 4})
    reg("constant_c" + S(codom), [=](double a, double b, double t) {
      Vec v = sym::vars("v", codom, -4, 4), u = v;
      all_forms(std::make_unique<ConstFunction>(P{a, b}, u), t, codom, [=](int j, int k) { return k ? 0.0 : v(j); });
    });
  for (int n : {1, 2, 4})
    reg("polynomial_" + S(n), [=](double a, double b, double t) {
      Vec c = sym::vars("c", n, -4, 4);
      all_forms(std::make_unique<CanonicPolynomial>(P{a, b}, c), t, 1, [=](int, int k) { return k ? (n == 1 ? 0.0 : mono(pder(c, 1), t)) : mono(c, t); });
    });
  for (int codom : {1, 3})
    reg("dot_c" + S(codom), [=](double a, double b, double t) {
      Opaque f({a, b}, codom, "f"), g({a, b}, codom, "g");
      all_forms(std::make_unique<DotProduct>(f.dot(g)), t, 1, [=](int, int k) {
        double s = 0;
        for (int j = 0; j < codom; j++) {
          auto u = [&](const char *n) { return sym::uf(Opaque::comp(n, j), t); };
          s += k ? u("f'") * u("g") + u("f") * u("g'") : u("f") * u("g");
        }
        return s;
      });
    });
  for (int codom : {1, 2})
    reg("expression_c" + S(codom), [=](double a, double b, double t) {
      Opaque f({a, b}, codom, "f"), g({a, b}, codom, "g");
      all_forms(std::make_unique<FunctionExpression>(f - g), t, codom, [=](int j, int k) { return k ? sym::uf(Opaque::comp("f'", j), t) - sym::uf(Opaque::comp("g'", j), t) : sym::uf(Opaque::comp("f", j), t) - sym::uf(Opaque::comp("g", j), t); });
    });
  for (auto b : {Leg(3), Leg(5), Gll(3), LagIn(3), B01(0.5)})
    for (int codom : {1, 3})
      sym::reg("forms_spline_" + b->name + "_c" + S(codom), 0, [=] {
        Spl sp(b, codom, 2);
        sp.t0 = -0.5;
        sp.tau(0) = 0.75;
        sp.tau(1) = 1.5;
        double w = sym::var("w", -0.9, 0.9);
        off_nodes(*sp.b, w);
        double t = sp.point(1, w);
        all_forms(std::make_unique<GSpline>(sp.make()), t, codom, [&](int j, int k) { return sp.win_at(1, j, w, k); }, 1e-5);
      });
  for (int n : {2, 3, 4})
    sym::reg("forms_collocation_" + S(n), 0, [=] {
      Spl sp(Gll(n), 2, 2);
      sp.t0 = -0.5;
      sp.tau(0) = 0.75;
      sp.tau(1) = 1.5;
      double w = 0.37, t = sp.point(1, w);
      all_forms(std::make_unique<collocation::GaussLobattoLagrangeSpline>(P{sp.t0, sp.tend()}, 2, 2, n, sp.c, sp.tau), t, 2, [&](int j, int k) { return sp.win_at(1, j, w, k); }, 1e-5);
    });
}
