// Splines of one space form a vector space.
#include "common.hpp"
using collocation::GaussLobattoLagrangeSpline;
template <class T> static T make(const Spl &p);
template <> GSpline make<GSpline>(const Spl &p) { return p.make(); }
template <> GaussLobattoLagrangeSpline make<GaussLobattoLagrangeSpline>(const Spl &p) {
  return GaussLobattoLagrangeSpline({p.t0, p.tend()}, p.codom, p.n, p.b->dim(), p.c, p.tau);
}
// symbolic where the value is cheap to normalise, otherwise a fixed interior point
static double window(const BSpec &b) {
  if (dynamic_cast<const LagSpec *>(&b) && b.dim() > 3)
    return 0.37;
  return off_nodes(b, sym::var("s", -0.999, 0.999));
}
struct Ctx {
  const Spl &a, &b;
  double s;
};
// the result is ka*a + kb*b
template <class T> static void is(const Ctx &x, const std::string &L, const T &r, double ka, double kb) {
  const Spl &a = x.a;
  sym::check_true(L + " shape", (int)r.get_codom_dim() == a.codom && (int)r.get_number_of_intervals() == a.n && r.get_basis() == *a.b->make());
  sym::check_eq(L + " start", r.get_domain().first, a.t0, 1e-9);
  sym::check_eq(L + " end", r.get_domain().second, a.tend(), 1e-9);
  for (int i = 0; i < a.n; i++) {
    sym::check_eq(L + " length " + S(i), r.get_interval_lengths()(i), a.tau(i), 1e-9);
    for (int j = 0; j < a.codom; j++)
      for (int k = 0; k < a.b->dim(); k++) {
        int o = (i * a.codom + j) * a.b->dim() + k;
        sym::check_eq(L + " coefficient " + S(o), r.get_coefficients()(o), ka * x.a.c(o) + kb * x.b.c(o), 1e-9);
      }
    Mat v = r(one(a.point(i, x.s)));
    for (int j = 0; j < a.codom; j++)
      sym::check_eq(L + " piece " + S(i) + " component " + S(j), v(0, j), ka * x.a.win_at(i, j, x.s, 0) + kb * x.b.win_at(i, j, x.s, 0), 1e-6);
  }
}
template <class T> static void ops(const Ctx &x) {
  T a = make<T>(x.a), b = make<T>(x.b);
  double k = sym::var("k", -3, 3);
  auto A = [&] { return make<T>(x.a); };
  auto B = [&] { return make<T>(x.b); };
  is(x, "a+b", T(a + b), 1, 1);
  is(x, "a+tmp", T(a + B()), 1, 1);
  is(x, "tmp+b", T(A() + b), 1, 1);
  is(x, "tmp+tmp", T(A() + B()), 1, 1);
  is(x, "a-b", T(a - b), 1, -1);
  is(x, "a-tmp", T(a - B()), 1, -1);
  is(x, "tmp-b", T(A() - b), 1, -1);
  is(x, "tmp-tmp", T(A() - B()), 1, -1);
  {
    T c(a);
    T &r = (c += b);
    sym::check_true("+= returns itself", &r == &c);
    is(x, "+=", c, 1, 1);
    c -= b;
    is(x, "+= then -=", c, 1, 0);
    T &r2 = (c -= b);
    sym::check_true("-= returns itself", &r2 == &c);
    is(x, "-=", c, 1, -1);
    T d(a);
    d += d;
    is(x, "+= itself", d, 2, 0);
    d -= d;
    is(x, "-= itself", d, 0, 0);
  }
  is(x, "a+a", T(a + a), 2, 0);
  is(x, "a-a", T(a - a), 0, 0);
  is(x, "-a", T(-a), -1, 0);
  is(x, "-tmp", T(-A()), -1, 0);
  is(x, "k*a", T(k * a), k, 0);
  is(x, "k*tmp", T(k * A()), k, 0);
  is(x, "a*k", T(a * k), k, 0);
  is(x, "tmp*k", T(A() * k), k, 0);
  is(x, "0*a", T(0.0 * a), 0, 0);
  is(x, "1*a", T(1.0 * a), 1, 0);
  is(x, "k*(a-b)+b", T(k * (a - b) + b), k, 1.0 - k);
  is(x, "a-(a-b)", T(a - (a - b)), 0, 1);
  is(x, "-(a+b)", T(-(a + b)), -1, -1);
  is(x, "(a+b)-k*b", T((a + b) - k * b), 1, 1.0 - k);
  // the operands kept their values
  is(x, "left operand", a, 1, 0);
  is(x, "right operand", b, 0, 1);
}
CASES {
  std::vector<std::pair<BS, int>> bs{{Leg(1), 0}, {Leg(2), 0}, {Leg(4), 0}, {Leg(6), 0}, {Gll(3), 0}, {Gll(5), 0}, {LagIn(3), 0}, {B01(0.5), 0}, {B01(0.9), 1}};
  for (auto &q : bs)
    for (int codom = 1; codom <= 3; codom++)
      for (int n = 1; n <= 3; n++) {
        BS b = q.first;
        std::string nm = b->name + "_c" + S(codom) + "_n" + S(n);
        int tier = q.second || codom + n > 4 || (b->dim() >= 6 && codom + n > 3);
        sym::reg("ops_" + nm, tier, [=] {
          Spl x(b, codom, n), y = x;
          y.c = sym::vars("d", y.c.size(), -4, 4);
          double s = window(*b);
          ops<GSpline>(Ctx{x, y, s});
        });
        if (b->name.substr(0, 3) == "gll")
          sym::reg("gll_" + nm, tier, [=] {
            Spl x(b, codom, n), y = x;
            y.c = sym::vars("d", y.c.size(), -4, 4);
            double s = window(*b);
            ops<GaussLobattoLagrangeSpline>(Ctx{x, y, s});
          });
      }
}
// operands of different spaces
static void refuse(const Spl &x, const Spl &y, bool ok) {
  GSpline a = x.make(), b = y.make();
  auto chk = [&](const std::string &l, const std::function<void()> &f) { sym::check_true(l + (ok ? " accepted" : " refused"), sym::throws(f) != ok); };
  chk("a+b", [&] { a + b; });
  chk("b+a", [&] { b + a; });
  chk("a+tmp", [&] { a + y.make(); });
  chk("tmp+b", [&] { x.make() + b; });
  chk("tmp+tmp", [&] { x.make() + y.make(); });
  chk("a-b", [&] { a - b; });
  chk("a-tmp", [&] { a - y.make(); });
  chk("tmp-b", [&] { x.make() - b; });
  chk("tmp-tmp", [&] { x.make() - y.make(); });
  chk("a+=b", [&] { GSpline c(a); c += b; });
  chk("a-=b", [&] { GSpline c(a); c -= b; });
  sym::check_true("same_vector_space", a.same_vector_space(b) == ok && b.same_vector_space(a) == ok);
  if (ok)
    return;
  // a refused in-place operation changed nothing
  GSpline c(a);
  sym::throws([&] { c += b; });
  sym::throws([&] { c -= b; });
  sym::check_true("size kept", c.get_coefficients().size() == x.c.size());
  for (long i = 0; i < x.c.size(); i++)
    sym::check_eq("kept " + S(i), c.get_coefficients()(i), x.c(i), 1e-12);
}
CASES {
  for (int codom = 1; codom <= 2; codom++)
    for (int n = 1; n <= 2; n++) {
      std::string nm = "_c" + S(codom) + "_n" + S(n);
      sym::reg("basis_dim" + nm, 0, [=] { refuse(Spl(Leg(4), codom, n), Spl(Leg(5), codom, n, "z"), false); });
      sym::reg("basis_dim_lagrange" + nm, 0, [=] { refuse(Spl(Gll(4), codom, n), Spl(Gll(5), codom, n, "z"), false); });
      auto same = [](Spl x, BS b) {
        Spl y = x;
        y.b = b;
        y.c = sym::vars("d", y.n * y.codom * b->dim(), -4, 4);
        return y;
      };
      sym::reg("basis_kind" + nm, 0, [=] { Spl x(Leg(4), codom, n); refuse(x, same(x, Gll(4)), false); });
      sym::reg("basis_kind6" + nm, 0, [=] { Spl x(Leg(6), codom, n); refuse(x, same(x, B01(0.5)), false); });
      sym::reg("basis_nodes" + nm, 0, [=] { Spl x(Gll(3), codom, n); refuse(x, same(x, LagIn(3)), false); });
      sym::reg("basis_alpha" + nm, 0, [=] { Spl x(B01(0.5), codom, n); refuse(x, same(x, B01(0.6)), false); });
      sym::reg("basis_equal" + nm, 0, [=] { Spl x(LagIn(3), codom, n); refuse(x, same(x, LagIn(3)), true); });
      sym::reg("basis_equal0101" + nm, 0, [=] { Spl x(B01(0.5), codom, n); refuse(x, same(x, B01(0.5)), true); });
      sym::reg("codomain" + nm, 0, [=] {
        Spl x(Leg(4), codom, n), y = x;
        y.codom = codom + 1;
        y.c = sym::vars("d", n * y.codom * 4, -4, 4);
        refuse(x, y, false);
      });
      // the same number of coefficients, split differently
      sym::reg("split" + nm, 0, [=] {
        Spl x(Leg(4), codom + 1, n), y(Leg(4), n, codom + 1, "z");
        if (codom + 1 != n) refuse(x, y, false);
        else sym::mark("same shape");
      });
      sym::reg("intervals" + nm, 0, [=] {
        Spl x(Leg(4), codom, n), y(Leg(4), codom, n + 1, "z");
        refuse(x, y, false);
      });
      for (int k = 0; k < n; k++)
        sym::reg("length" + S(k) + nm, 0, [=] {
          Spl x(Leg(4), codom, n), y = x;
          y.c = sym::vars("d", y.c.size(), -4, 4);
          y.tau(k) = sym::var("other", 0.25, 4);
          sym::assume(y.tau(k) > x.tau(k) + 1e-6 || y.tau(k) < x.tau(k) - 1e-6);
          refuse(x, y, false);
        });
      if (n == 2)
        sym::reg("lengths_swapped" + nm, 0, [=] {
          Spl x(Leg(4), codom, n), y = x;
          sym::assume(x.tau(0) > x.tau(1) + 1e-6);
          std::swap(y.tau(0), y.tau(1));
          refuse(x, y, false);
        });
      sym::reg("start" + nm, 0, [=] {
        Spl x(Leg(4), codom, n), y = x;
        y.t0 = sym::var("other", -4, 4);
        sym::assume(y.t0 > x.t0 + 1e-6 || y.t0 < x.t0 - 1e-6);
        refuse(x, y, false);
      });
    }
}

// more intervals, more components, values and times over several magnitudes
CASES {
  struct Q { BS b; int c, n; };
  std::vector<Q> qs{{Leg(3), 1, 5}, {Leg(3), 5, 1}, {Leg(2), 2, 6}, {Leg(8), 1, 2}, {Gll(4), 4, 2}, {B01(0.75), 2, 3}, {Gll(8), 1, 1}, {Leg(2), 1, 12}, {Leg(2), 9, 2}, {Leg(12), 1, 1}};
  for (auto &q : qs)
    for (int wide = 0; wide < 2; wide++)
      sym::reg(std::string(wide ? "wide_" : "large_") + q.b->name + "_c" + S(q.c) + "_n" + S(q.n), 0, [=] {
        Spl x(q.b, q.c, q.n, "", wide ? 0.01 : 0.25, wide ? 100 : 4, wide ? 1000 : 4, wide ? 1000 : 4);
        for (int i = 2; i < q.n && q.n > 6; i++) // every pair of lengths compared is a branch
          x.tau(i) = 0.5 + 0.25 * i;
        Spl y = x;
        y.c = sym::vars("d", y.c.size(), wide ? -1000 : -4, wide ? 1000 : 4);
        GSpline a = x.make(), b = y.make();
        double k = sym::var("k", wide ? -1000 : -3, wide ? 1000 : 3);
        Ctx z{x, y, 0.37};
        is(z, "a+b", a + b, 1, 1);
        is(z, "a-b", a - b, 1, -1);
        is(z, "k*a-b", k * a - b, k, -1);
        is(z, "-a", -a, -1, 0);
        GSpline c(a);
        c += b;
        c -= k * a;
        is(z, "a+b-k*a", c, 1.0 - k, 1);
      });
  for (int n : {3, 4, 7})
    for (int k = 0; k < n; k++)
      for (int wide = 0; wide < 2; wide++)
        sym::reg("length" + S(k) + "_of" + S(n) + (wide ? "_wide" : ""), 0, [=] {
          Spl x(Leg(3), 2, n, "", wide ? 0.01 : 0.25, wide ? 100 : 4), y = x;
          y.tau(k) = sym::var("other", wide ? 0.01 : 0.25, wide ? 100 : 4);
          sym::assume(y.tau(k) > x.tau(k) + 1e-6 || y.tau(k) < x.tau(k) - 1e-6);
          refuse(x, y, false);
        });
  // the same domain, a breakpoint displaced
  for (int n : {2, 3, 5})
    for (int k = 0; k + 1 < n; k++)
      sym::reg("breakpoint" + S(k) + "_of" + S(n), 0, [=] {
        Spl x(Leg(3), 1, n), y = x;
        double d = sym::var("shift", -2, 2);
        sym::assume(d > 1e-6 || d < -1e-6);
        y.tau(k) = x.tau(k) + d;
        y.tau(k + 1) = x.tau(k + 1) - d;
        sym::assume(y.tau(k) >= 0.125 && y.tau(k + 1) >= 0.125);
        refuse(x, y, false);
      });
  for (int dim = 1; dim <= 8; dim++)
    for (int e = 1; e <= 8; e++)
      sym::reg("dims_" + S(dim) + "_" + S(e), 0, [=] {
        Spl x(Leg(dim), 1, 2), y = x;
        y.b = Leg(e);
        y.c = sym::vars("d", 2 * e, -4, 4);
        refuse(x, y, dim == e);
      });
}
