// Operations whose operands are the library's own functions (splines, elementary
// functions) and arbitrary ones, in every pairing.
#pragma once
#include "expr.hpp"
#include "poly.hpp"
using FB = functions::FunctionBase;
struct Operand {
  std::shared_ptr<FB> f;
  std::function<double(int, int)> at;             // component, order; at the point t
  std::function<double(double, int)> outer;       // scalar function of any argument, or empty
};
static const char *kinds[] = {"spline", "polynomial", "sine", "exponential", "identity", "dilation", "constant", "arbitrary", "expression"};
// operand of the given kind on [a,b] and its data at the point t
inline Operand operand(int kind, int codom, const std::string &nm, double a, double b, double t, const Spl &sp, int piece, double w) {
  Operand o;
  std::pair<double, double> d{a, b};
  auto scalar = [&](std::function<double(double, int)> g) {
    o.outer = g;
    o.at = [=](int, int k) { return g(t, k); };
  };
  switch (kind) {
  case 0: {
    Spl q = sp;
    q.codom = codom;
    q.c = sym::vars(nm + "c", q.n * codom * q.b->dim(), -1, 1);
    o.f = std::make_shared<GSpline>(q.make());
    o.at = [=](int j, int k) { return q.win_at(piece, j, w, k); };
    break;
  }
  case 1: {
    Vec c = sym::vars(nm + "p", 3, -1, 1);
    o.f = std::make_shared<CanonicPolynomial>(d, c);
    scalar([=](double x, int k) { return mono(pder(c, k), x); });
    break;
  }
  case 2:
    o.f = std::make_shared<Sin>(d);
    scalar([](double x, int k) { return k % 4 == 0 ? std::sin(x) : k % 4 == 1 ? std::cos(x) : k % 4 == 2 ? -std::sin(x) : -std::cos(x); });
    break;
  case 3:
    o.f = std::make_shared<Exponential>(d);
    scalar([](double x, int) { return std::exp(x); });
    break;
  case 4:
    o.f = std::make_shared<Identity>(d);
    scalar([](double x, int k) { return k == 0 ? x : k == 1 ? 1.0 : 0.0; });
    break;
  case 5: {
    double q = sym::var(nm + "q", -2, 2);
    o.f = std::make_shared<DomainLinearDilation>(d, q);
    scalar([=](double x, int k) { return k == 0 ? q * x : k == 1 ? q : 0.0; });
    break;
  }
  case 6: {
    Vec v = sym::vars(nm + "v", codom, -2, 2), u = v;
    o.f = std::make_shared<ConstFunction>(d, u);
    o.at = [=](int j, int k) { return k ? 0.0 : v(j); };
    break;
  }
  case 7:
    o.f = std::make_shared<Opaque>(d, codom, nm);
    o.at = [=](int j, int k) { return sym::uf(Opaque::comp(nm + std::string(k, '\''), j), t); };
    if (codom == 1)
      o.outer = [=](double x, int k) { return sym::uf(Opaque::comp(nm + std::string(k, '\''), 0), x); };
    break;
  default: {
    Vec v = sym::vars(nm + "v", codom, -2, 2), u = v;
    o.f = std::make_shared<FunctionExpression>(Opaque(d, codom, nm) - ConstFunction(d, u));
    o.at = [=](int j, int k) { return sym::uf(Opaque::comp(nm + std::string(k, '\''), j), t) - (k ? 0.0 : v(j)); };
  }
  }
  return o;
}
// values (order K = 0) or derivatives 0..K of every operation on the pairing
inline void mixed(int kl, int kr, int codom, int basis, int K) {
  Spl sp(basis == 0 ? Leg(3) : basis == 1 ? Gll(3) : B01(0.5), 1, 2);
  sp.t0 = -0.5;
  sp.tau(1) = 0.75;
  double a = sp.t0, b = sp.tend(), tol = 1e-6;
  int piece = K % 2;
  double w = sym::var("w", -0.9, 0.9);
  off_nodes(*sp.b, w);
  double t = sp.point(piece, w);
  bool lv = kl == 0 || kl >= 6, rv = kr == 0 || kr >= 6; // vector kinds
  int cl = lv ? codom : 1, cr = rv ? codom : 1;
  Operand l = operand(kl, cl, "l", a, b, t, sp, piece, w), r = operand(kr, cr, "r", a, b, t, sp, piece, w);
  auto is = [&](const std::string &L, const FunctionExpression &e, int c, std::function<double(int, int)> want) {
    sym::check_true(L + "codomain", (int)e.get_codom_dim() == c);
    for (int k = 0; k <= K; k++) {
      Mat v = k == 0 ? e(one(t)) : k == 1 ? FunctionExpression(e.derivate(1))(one(t)) : e.deriv(k)->value(one(t));
      for (int j = 0; j < c; j++)
        sym::check_eq(L + "D" + S(k) + " component " + S(j), v(0, j), want(j, k), tol);
    }
  };
  const FB &F = *l.f, &G = *r.f;
  FunctionExpression eF(F), eG(G);
  is("left ", eF, cl, l.at);
  if (cl == cr) {
    auto sum = [&](int j, int k) { return l.at(j, k) + r.at(j, k); };
    auto dif = [&](int j, int k) { return l.at(j, k) - r.at(j, k); };
    is("sum ", F + G, cl, sum);
    is("sum with expression ", F + eG, cl, sum);
    is("sum of expression ", eF + G, cl, sum);
    is("difference ", F - G, cl, dif);
    is("difference of expressions ", eF - eG, cl, dif);
    FunctionExpression x(eF);
    x += eG;
    is("in place ", x, cl, sum);
  }
  if (cl == 1 || cr == 1) {
    int c = std::max(cl, cr);
    auto mul = [&](int j, int k) {
      double s = 0, q = 1;
      for (int i = 0; i <= k; i++) {
        s += q * l.at(cl > 1 ? j : 0, i) * r.at(cr > 1 ? j : 0, k - i);
        q = q * (k - i) / (i + 1);
      }
      return s;
    };
    is("product ", F * G, c, mul);
    is("product of expressions ", eF * eG, c, mul);
  }
  double z = sym::var("z", -5, 5);
  is("multiple ", z * F, cl, [&](int j, int k) { return z * l.at(j, k); });
  is("negative ", -F, cl, [&](int j, int k) { return -l.at(j, k); });
  // right operand applied to the left one
  if (r.outer && cl == 1 && !(kl == 0 && basis == 1 && kr == 1 && K == 2)) { // that one: open for the solver
    auto comp = [&](int, int k) {
      double x = F(one(t))(0, 0); // judged above as the value of the left operand
      if (k == 0) return r.outer(x, 0);
      if (k == 1) return r.outer(x, 1) * l.at(0, 1);
      return r.outer(x, 2) * l.at(0, 1) * l.at(0, 1) + r.outer(x, 1) * l.at(0, 2);
    };
    is("composition ", G.compose(F), 1, comp);
    is("composition of expressions ", eG.compose(eF), 1, comp);
  }
  // the left operand next to a constant on either side
  Vec u = sym::vars("u", cl, -2, 2);
  ConstFunction before({a - 1.0, a}, u), after({b, b + 2.0}, u);
  is("before ", F.concat(after), cl, l.at);
  is("after ", before.concat(F), cl, l.at);
  double bt = a - 0.25, at = b + 0.5;
  for (int j = 0; j < cl; j++) {
    sym::check_eq("joined before", FunctionExpression(before.concat(F))(one(bt))(0, j), u(j), 1e-9);
    sym::check_eq("joined after", FunctionExpression(F.concat(after))(one(at))(0, j), u(j), 1e-9);
  }
}
inline void mixed_cases(int K, int tier) {
  for (int kl = 0; kl < 9; kl++)
    for (int kr = 0; kr < 9; kr++)
      for (int codom = 1; codom <= 2; codom++)
        for (int basis = 0; basis < (kl && kr ? 1 : 3); basis++) {
          if (codom > 1 && kl > 0 && kl < 6 && kr > 0 && kr < 6)
            continue;
          if (kl == 3 && kr == 3) // exp of exp
            continue;
          sym::reg(std::string("mixed_D") + S(K) + "_" + kinds[kl] + "_" + kinds[kr] + "_c" + S(codom) + "_b" + S(basis), tier, [=] { mixed(kl, kr, codom, basis, K); });
        }
}
