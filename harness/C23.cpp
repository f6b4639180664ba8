// Linear functionals of collocation splines.
#include "poly.hpp"
#include <gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp>
using namespace gsplines::collocation;
using GLL = GaussLobattoLagrangeSpline;
using SpRow = Eigen::SparseMatrix<double, Eigen::RowMajor>;
// a collocation spline with symbolic node values and its definition
struct Col {
  int N, n, codom;
  double t0;
  Vec tau, c;
  std::shared_ptr<LagSpec> b;
  Col(int N_, int n_, int codom_, bool equal, const std::string &pre = "") : N(N_), n(n_), codom(codom_), b(std::make_shared<LagSpec>("gll", gll_nodes(N_))) {
    t0 = sym::var(pre + "t0", -4, 4);
    tau = Vec(n);
    if (equal)
      tau.setConstant(sym::var(pre + "tau", 0.25, 4));
    else
      for (int i = 0; i < n; i++)
        tau(i) = sym::var(pre + "tau" + S(i), 0.25, 4);
    c = sym::vars(pre + "c", N * n * codom, -2, 2);
  }
  Col with(const std::string &pre, int cd) const { // other values, same intervals
    Col r = *this;
    r.codom = cd;
    r.c = sym::vars(pre + "c", N * n * cd, -2, 2);
    return r;
  }
  std::pair<double, double> dom() const { return {t0, t0 + tau.sum()}; }
  GLL make() const { return GLL(dom(), codom, n, N, c, tau); }
  double v(int i, int j, int k) const { return c((i * codom + j) * N + k); }
  // derivative of the interpolating polynomial of piece i, component j, at node k
  double d(int i, int j, int k, int deg) const {
    double r = 0;
    for (int q = 0; q < N; q++)
      r += v(i, j, q) * b->at(q, b->nodes(k), tau(i), deg);
    return r;
  }
};
static std::string ix(int i, int j, int k) { return "interval " + S(i) + " component " + S(j) + " node " + S(k); }
// what a linear functional does, in every form it can be asked
template <class F> static void forms(const std::string &L, const F &A, const GLL &x, const std::function<double(long)> &want, long rows, double tol) {
  sym::check_true(L + "rows", (long)A.get_codom_dim() == rows && A.to_matrix().rows() == rows && A.to_matrix().cols() == x.get_coefficients().size());
  Vec y = A(x);
  for (long i = 0; i < rows; i++)
    sym::check_eq(L + "value " + S(i), y(i), want(i), tol);
  Mat D = A.to_dense_matrix();
  Vec z = D * x.get_coefficients();
  for (long i = 0; i < rows; i++)
    sym::check_eq(L + "dense " + S(i), z(i), want(i), tol);
}
static double tolk(int k) { return 1e-5 * ipow(10, k); }
static void deriv(const std::string &L, const Derivative &D, const Col &p, int deg) {
  double w = 1;
  (void)w;
  GLL x = p.make();
  Vec sc(p.n * p.codom * p.N);
  auto at = [&](long r) { long i = r / (p.N * p.codom), j = r / p.N % p.codom, k = r % p.N; return p.d(i, j, k, deg) ; };
  forms(L, D, x, at, p.n * p.codom * p.N, tolk(deg) * ipow(8, deg));
  GLL y = D * x;
  sym::check_true(L + "shape", (int)y.get_codom_dim() == p.codom && (int)y.get_number_of_intervals() == p.n && (int)y.get_nglp() == p.N);
  sym::check_eq(L + "start", y.get_domain().first, p.t0, 1e-12);
  for (int i = 0; i < p.n; i++) {
    sym::check_eq(L + "length " + S(i), y.get_interval_lengths()(i), p.tau(i), 1e-12);
    for (int j = 0; j < p.codom; j++)
      for (int k = 0; k < p.N; k++)
        sym::check_eq(L + "spline " + ix(i, j, k), y.get_coefficients()((i * p.codom + j) * p.N + k) * ipow(p.tau(i), deg), p.d(i, j, k, deg) * ipow(p.tau(i), deg), tolk(deg));
  }
}
CASES {
  for (int N = 2; N <= 5; N++)
    for (int n = 1; n <= 3; n++)
      for (int codom = 1; codom <= 3; codom++)
        for (int deg = 0; deg <= 3; deg++) {
          std::string nm = "_N" + S(N) + "_n" + S(n) + "_c" + S(codom) + "_D" + S(deg);
          bool big = n * codom > 3 || N > 4;
          sym::reg("derivative" + nm, big, [=] {
            Col p(N, n, codom, false);
            Derivative D(codom, N, p.tau, deg);
            deriv("", D, p, deg);
            Col q(N, n, codom, false, "q");
            D.update(q.tau);
            deriv("updated ", D, q, deg);
            D.update(p.tau);
            deriv("back ", D, p, deg);
            if (deg == 1) {
              GLL x = q.make();
              deriv("of a spline ", Derivative(x), q, 1);
            }
          });
          sym::reg("derivative_equal" + nm, big, [=] {
            Col p(N, n, codom, true), q(N, n, codom, true, "q");
            Derivative D(p.dom(), codom, N, n, deg);
            deriv("", D, p, deg);
            D.update(q.tau(0));
            deriv("updated ", D, q, deg);
          });
        }
}
// ---- integral
static double total(const Col &p) {
  Vec w = gll_weights(p.N);
  double r = 0;
  for (int i = 0; i < p.n; i++)
    for (int k = 0; k < p.N; k++)
      r += p.tau(i) / 2.0 * w(k) * p.v(i, 0, k);
  return r;
}
CASES {
  for (int N = 2; N <= 6; N++)
    for (int n = 1; n <= 4; n++) {
      std::string nm = "_N" + S(N) + "_n" + S(n);
      sym::reg("integral" + nm, 0, [=] {
        Col p(N, n, 1, true), q(N, n, 1, true, "q"), u(N, n, 1, false, "u");
        Integral I(p.dom(), N, n);
        forms("domain ", I, p.make(), [&](long) { return total(p); }, 1, 1e-5);
        I.update(q.dom(), N, n);
        forms("updated ", I, q.make(), [&](long) { return total(q); }, 1, 1e-5);
        I.update(u.tau);
        forms("updated to lengths ", I, u.make(), [&](long) { return total(u); }, 1, 1e-5);
        I.update(q.dom(), N, n);
        forms("back ", I, q.make(), [&](long) { return total(q); }, 1, 1e-5);
        GLL x = u.make();
        Integral J(x);
        forms("of a spline ", J, x, [&](long) { return total(u); }, 1, 1e-5);
        Col e(N + 1, n, 1, false, "e");
        I.update(e.dom(), N + 1, n);
        I.update(e.tau);
        forms("other nodes ", I, e.make(), [&](long) { return total(e); }, 1, 1e-5);
        sym::check_true("wrong number of lengths", sym::throws([&] { I.update(Vec(Vec::Constant(n + 1, 1.0))); }));
      });
    }
}
// ---- products at the nodes
CASES {
  for (int N = 2; N <= 4; N++)
    for (int n = 1; n <= 3; n++)
      for (int codom = 1; codom <= 3; codom++) {
        std::string nm = "_N" + S(N) + "_n" + S(n) + "_c" + S(codom);
        sym::reg("transpose" + nm, n * codom > 6, [=] {
          Col p(N, n, codom, true), q = p.with("q", codom), u = p.with("u", codom);
          auto dot = [&](const Col &a, const Col &b) { return [&](long r) { long i = r / N, k = r % N; double s = 0; for (int j = 0; j < codom; j++) s += a.v(i, j, k) * b.v(i, j, k); return s; }; };
          TransposeLeftMultiplication T(p.make());
          forms("", T, q.make(), dot(p, q), n * N, 1e-9);
          GLL y = T * q.make();
          sym::check_true("scalar result", y.get_codom_dim() == 1 && (int)y.get_number_of_intervals() == n && (int)y.get_nglp() == N);
          for (long r = 0; r < n * N; r++)
            sym::check_eq("spline node " + S(r), y.get_coefficients()(r), dot(p, q)(r), 1e-9);
          T = u.make();
          forms("assigned ", T, q.make(), dot(u, q), n * N, 1e-9);
          TransposeLeftMultiplication E(codom, N, n);
          E = p.make();
          forms("empty, assigned ", E, q.make(), dot(p, q), n * N, 1e-9);
          E = u.make();
          forms("assigned again ", E, q.make(), dot(u, q), n * N, 1e-9);
          // a polynomial, taken at the nodes
          auto c = polys("f", codom, 2);
          VP f(p.dom(), c);
          const FunctionBase &fb = f;
          E = fb;
          Col a = p;
          double l = p.t0;
          for (int i = 0; i < n; i++) {
            for (int k = 0; k < N; k++)
              for (int j = 0; j < codom; j++)
                a.c((i * codom + j) * N + k) = mono(c[j], l + p.tau(i) * (p.b->nodes(k) + 1.0) / 2.0);
            l += p.tau(i);
          }
          forms("function ", E, q.make(), dot(a, q), n * N, 1e-2);
          Col other = p.with("o", codom + 1);
          sym::check_true("other codomain refused", sym::throws([&] { E = other.make(); }));
        });
        for (int rows = 1; rows <= 3; rows++)
          sym::reg("matrix" + nm + "_r" + S(rows), n * codom * rows > 9, [=] {
            Col p(N, n, codom, true);
            std::vector<Mat> ms;
            for (int r = 0; r < n * N; r++) {
              Mat m(rows, codom);
              for (int a = 0; a < rows; a++)
                for (int b = 0; b < codom; b++)
                  m(a, b) = r < 3 || r == n * N - 1 ? sym::var("m" + S(r) + "_" + S(a) + S(b), -2, 2) : 0.25 * ((r * 5 + a * 3 + b) % 7) - 0.6;
              ms.push_back(m);
            }
            GLL x = p.make();
            auto prod = [&](const std::vector<Mat> &M, double f) { return [&M, &p, f, N, rows, codom](long r) {
              long i = r / (N * rows), a = r / N % rows, k = r % N;
              double s = 0;
              for (int b = 0; b < codom; b++) s += f * M[i * N + k](a, b) * p.v(i, b, k);
              return s; }; };
            MatrixLeftMultiplication A(codom, N, n, rows);
            forms("initial ", A, x, [&](long) { return 0.0; }, n * N * rows, 1e-12);
            A.update(ms.begin(), ms.end());
            forms("list ", A, x, prod(ms, 1.0), n * N * rows, 1e-9);
            GLL y = A * x;
            sym::check_true("shape", (int)y.get_codom_dim() == rows && (int)y.get_number_of_intervals() == n && (int)y.get_nglp() == N);
            for (long r = 0; r < n * N * rows; r++)
              sym::check_eq("spline " + S(r), y.get_coefficients()(r), prod(ms, 1.0)(r), 1e-9);
            A.update(ms.begin(), ms.end(), [](const Mat &m) { return Mat(3.0 * m); });
            forms("mapped ", A, x, prod(ms, 3.0), n * N * rows, 1e-9);
            std::vector<Mat> same(n * N, ms[0]);
            A.update(ms[0]);
            forms("constant ", A, x, prod(same, 1.0), n * N * rows, 1e-9);
            A.update(ms.begin(), ms.end());
            forms("list again ", A, x, prod(ms, 1.0), n * N * rows, 1e-9);
            std::vector<Mat> few(ms.begin(), ms.end() - 1), odd(n * N, Mat::Zero(rows + 1, codom));
            sym::check_true("too few refused", sym::throws([&] { A.update(few.begin(), few.end()); }));
            sym::check_true("wrong shape refused", sym::throws([&] { A.update(odd.begin(), odd.end()); }));
            sym::check_true("wrong constant refused", sym::throws([&] { A.update(odd[0]); }));
          });
      }
}
// ---- continuity
CASES {
  for (int N = 2; N <= 5; N++)
    for (int n = 2; n <= 3; n++)
      for (int codom = 1; codom <= 2; codom++)
        for (int deg = 0; deg <= 2; deg++)
          sym::reg("continuity_N" + S(N) + "_n" + S(n) + "_c" + S(codom) + "_D" + S(deg), n * codom > 4, [=] {
            auto jump = [&](const Col &p) { return [&](long r) { int k = r / ((n - 1) * codom), i = r / codom % (n - 1), j = r % codom; return p.d(i, j, N - 1, k) - p.d(i + 1, j, 0, k); }; };
            Col p(N, n, codom, false), q(N, n, codom, false, "q");
            long rows = (n - 1) * codom * (deg + 1);
            GLL x = p.make(), y = q.make();
            ContinuityError E(x, deg), F(N, q.tau, codom, deg);
            forms("of a spline ", E, x, jump(p), rows, tolk(deg) * ipow(8, deg));
            forms("of lengths ", F, y, jump(q), rows, tolk(deg) * ipow(8, deg));
            E.update(q.tau);
            forms("updated ", E, y, jump(q), rows, tolk(deg) * ipow(8, deg));
            F.update(p.tau);
            forms("updated of lengths ", F, x, jump(p), rows, tolk(deg) * ipow(8, deg));
          });
}
// ---- algebra
CASES {
  for (int codom = 1; codom <= 2; codom++)
    for (int m = 2; m <= 3; m++)
      sym::reg("algebra_c" + S(codom) + "_m" + S(m), 0, [=] {
        Col p(m, 1, codom, true);
        GLL x = p.make();
        long n = m * codom;
        Mat a(n, n), b(n, n);
        for (int i = 0; i < n; i++)
          for (int j = 0; j < n; j++) {
            a(i, j) = i == j || j == 0 ? sym::var("a" + S(i) + S(j), 0.5, 2) : 0.5 * i - j;
            b(i, j) = i + j == n - 1 ? sym::var("b" + S(i) + S(j), -2, -0.5) : 0.25 * i * j + 0.5;
          }
        double f = sym::var("f", 0.5, 2);
        LinearFunctionalDense A(a), B(b);
        LinearFunctionalSparse SA(Eigen::SparseMatrix<double>(a.sparseView())), SB(Eigen::SparseMatrix<double>(b.sparseView()));
        Vec xa = a * p.c, xb = b * p.c, xab = a * xb;
        auto is = [&](const std::string &L, const auto &F, const Vec &w) { forms(L, F, x, [&](long i) { return w(i); }, n, 1e-7); };
        is("A ", A, xa);
        is("SA ", SA, xa);
        is("sum ", A + B, xa + xb);
        is("difference ", A - B, xa - xb);
        is("product ", A * B, xab);
        is("negative ", -A, -xa);
        is("multiple ", f * A, f * xa);
        is("temporary multiple ", f * LinearFunctionalDense(a), f * xa);
        is("sparse sum ", SA + SB, xa + xb);
        is("sparse difference ", SA - SB, xa - xb);
        is("sparse product ", SA * SB, xab);
        is("dense sparse product ", A * SB, xab);
        is("sparse negative ", -SA, -xa);
        is("sparse multiple ", f * SA, f * xa);
        is("A unchanged ", A, xa);
        is("B unchanged ", B, xb);
        is("SA unchanged ", SA, xa);
        LinearFunctionalDense C(n, n);
        C.set(A);
        is("set ", C, xa);
        C.set(SB);
        is("set sparse ", C, xb);
        C.set(A * B);
        is("set temporary ", C, xab);
        C.set(SA * SB);
        is("set sparse temporary ", C, xab);
        LinearFunctionalSparse D(n, n);
        D.set(SB);
        is("sparse set ", D, xb);
        auto d = A.differential(x), sd = SA.differential(x);
        Vec y = d->to_dense_matrix() * p.c, z = sd->to_dense_matrix() * p.c, u = d->to_sparse_matrix() * p.c, v = sd->to_sparse_matrix() * p.c;
        for (long i = 0; i < n; i++) {
          sym::check_eq("differential " + S(i), y(i), xa(i), 1e-9);
          sym::check_eq("sparse differential " + S(i), z(i), xa(i), 1e-9);
          sym::check_eq("differential as sparse " + S(i), u(i), xa(i), 1e-9);
          sym::check_eq("sparse differential as sparse " + S(i), v(i), xa(i), 1e-9);
        }
        LinearFunctionalDense copy(A), moved(std::move(copy));
        is("moved ", moved, xa);
      });
}
// ---- distance to a function and its differential
CASES {
  for (int N = 2; N <= 4; N++)
    for (int n = 1; n <= 2; n++)
      for (int codom = 1; codom <= 2; codom++)
        sym::reg("distance_N" + S(N) + "_n" + S(n) + "_c" + S(codom), N * n * codom > 12, [=] {
          Col p(N, n, codom, true);
          p.t0 = 0.5;
          p.tau.setConstant(1.5);
          auto c = polys("f", codom, 2);
          VP f(p.dom(), c);
          SobolevDistance dist(f, N, n, 1);
          Vec w = gll_weights(N);
          GLL x = p.make();
          double want = 0;
          Vec grad = Vec::Zero(p.c.size());
          for (int i = 0; i < n; i++)
            for (int k = 0; k < N; k++) {
              double t = p.t0 + 1.5 * i + 1.5 * (p.b->nodes(k) + 1.0) / 2.0, wt = 1.5 / 2.0 * w(k);
              for (int j = 0; j < codom; j++) {
                double e = mono(c[j], t) - p.v(i, j, k), de = mono(pder(c[j], 1), t) - p.d(i, j, k, 1);
                want += wt * (e * e + de * de);
                for (int q = 0; q < N; q++)
                  grad((i * codom + j) * N + q) += -2.0 * wt * ((q == k) * e + de * p.b->at(q, p.b->nodes(k), 1.5, 1));
              }
            }
          for (int again = 0; again < 2; again++) {
            Vec r = dist(x);
            sym::check_true("one number", r.size() == 1 && dist.get_codom_dim() == 1);
            sym::check_eq("distance", r(0), want, 1e-4);
            Mat g = dist.differential(x)->to_dense_matrix();
            sym::check_true("row", g.rows() == 1 && g.cols() == p.c.size());
            for (long i = 0; i < p.c.size(); i++)
              sym::check_eq("differential " + S(i), g(0, i), grad(i), 1e-4);
          }
          Col far = p;
          far.t0 = 3.0;
          sym::check_true("other domain refused", sym::throws([&] { dist(far.make()); }));
        });
}
// ---- as terms of a nonlinear program
CASES {
  for (int N = 2; N <= 3; N++)
    for (int n = 1; n <= 2; n++)
      sym::reg("program_N" + S(N) + "_n" + S(n), 0, [=] {
        Col p(N, n, 1, true), q = p.with("q", 1);
        p.t0 = q.t0 = 0.25;
        if (n * N > 4) // storing the gradient drops zeros, a case split per entry
          for (int i = 0; i < n * N; i++)
            p.c(i) = 0.3 * i - 0.7, q.c(i) = i % 2 ? q.c(i) : 0.4 - 0.2 * i;
        p.tau.setConstant(1.25);
        q.tau = p.tau;
        auto c = polys("f", 1, 1);
        VP f(p.dom(), c);
        auto var = std::make_shared<GLLSplineVariable>(p.make());
        auto cost = std::make_shared<CostWrapper<SobolevDistance>>(f, (std::size_t)N, (std::size_t)n, (std::size_t)1);
        auto con = std::make_shared<ConstraintWrapper<Integral>>(-1.5, 2.5, p.make());
        auto all = std::make_shared<ifopt::Composite>("variables", false);
        all->AddComponent(var);
        cost->LinkWithVariables(all);
        con->LinkWithVariables(all);
        SobolevDistance ref(f, N, n, 1);
        Integral ri(p.make());
        sym::check_true("sizes", var->GetRows() == n * N && con->GetRows() == 1 && cost->GetRows() == 1);
        sym::check_true("name", var->GetName() == "GLL");
        for (auto &b : var->GetBounds())
          sym::check_true("free variables", b.lower_ <= -1e19 && b.upper_ >= 1e19);
        sym::check_true("bounds of all", (int)var->GetBounds().size() == n * N && con->GetBounds().size() == 1);
        sym::check_eq("lower", con->GetBounds()[0].lower_, -1.5, 0);
        sym::check_eq("upper", con->GetBounds()[0].upper_, 2.5, 0);
        for (int round = 0; round < 2; round++) {
          const Col &now = round ? q : p;
          if (round)
            all->SetVariables(q.c);
          GLL x = now.make();
          for (int i = 0; i < n * N; i++)
            sym::check_eq("variable " + S(i), var->GetValues()(i), now.c(i), 1e-12);
          sym::check_eq("cost", cost->GetValues()(0), ref(x)(0), 1e-6);
          sym::check_eq("constraint", con->GetValues()(0), total(now), 1e-6);
          ifopt::Component::Jacobian jb(1, n * N), jc(1, n * N);
          cost->FillJacobianBlock("GLL", jb);
          con->FillJacobianBlock("GLL", jc);
          Mat g = ref.differential(x)->to_dense_matrix();
          for (int i = 0; i < n * N; i++) {
            sym::check_eq("cost gradient " + S(i), jb.coeff(0, i), g(0, i), 1e-6);
            sym::check_eq("constraint gradient " + S(i), jc.coeff(0, i), p.tau(0) / 2.0 * gll_weights(N)(i % N), 1e-6);
          }
        }
        ifopt::Component::Jacobian jb(1, n * N);
        sym::check_true("other variables refused", sym::throws([&] { cost->FillJacobianBlock("other", jb); }) && sym::throws([&] { con->FillJacobianBlock("other", jb); }));
      });
}
// ---- larger shapes, lengths over several magnitudes
CASES {
  struct Q { int N, n, c; };
  for (Q q : {Q{6, 1, 1}, Q{8, 1, 1}, Q{3, 5, 1}, Q{3, 1, 5}, Q{2, 6, 2}, Q{4, 4, 1}, Q{2, 2, 6}, Q{5, 2, 2}})
    for (int deg = 1; deg <= 3; deg += 2) {
      std::string nm = "_N" + S(q.N) + "_n" + S(q.n) + "_c" + S(q.c) + "_D" + S(deg);
      for (double s : {0.02, 1.0, 30.0})
        sym::reg("large_derivative" + nm + "_s" + S(std::lround(s * 100)), 0, [=] {
          Col p(q.N, q.n, q.c, false), u(q.N, q.n, q.c, false, "u");
          p.t0 = u.t0 = 0.5;
          for (int i = 0; i < q.n; i++) {
            p.tau(i) = s * (0.5 + 0.25 * ((i * 3) % 5));
            u.tau(i) = s * (1.0 + 0.5 * (i % 3));
          }
          Derivative D(q.c, q.N, p.tau, deg);
          auto is = [&](const std::string &L, const Col &x) {
            Vec y = D(x.make());
            for (int i = 0; i < q.n; i++)
              for (int j = 0; j < q.c; j++)
                for (int k = 0; k < q.N; k++)
                  sym::check_eq(L + ix(i, j, k), y((i * q.c + j) * q.N + k), x.d(i, j, k, deg), 1e-7 * ipow(std::max(1.0, 20 / s), deg) * ipow(q.N, 2 * deg));
          };
          is("", p);
          D.update(u.tau);
          is("updated ", u);
          D.update(p.tau);
          is("back ", p);
        });
    }
  for (int N : {2, 3, 5, 8, 10})
    for (int n : {5, 8, 12})
      sym::reg("large_integral_N" + S(N) + "_n" + S(n), 0, [=] {
        Col p(N, n, 1, true), u(N, n, 1, false, "u");
        u.tau = sym::vars("wide", n, 0.01, 100);
        Integral I(p.dom(), N, n);
        forms("domain ", I, p.make(), [&](long) { return total(p); }, 1, 1e-5);
        I.update(u.tau);
        forms("lengths ", I, u.make(), [&](long) { return total(u); }, 1, 1e-4);
        Integral J(u.make());
        forms("of a spline ", J, u.make(), [&](long) { return total(u); }, 1, 1e-4);
        I.update(p.dom(), N, n);
        forms("back ", I, p.make(), [&](long) { return total(p); }, 1, 1e-5);
      });
  for (Q q : {Q{3, 5, 1}, Q{2, 2, 6}, Q{6, 1, 2}, Q{3, 2, 4}})
    sym::reg("large_products_N" + S(q.N) + "_n" + S(q.n) + "_c" + S(q.c), 0, [=] {
      Col p(q.N, q.n, q.c, true), x = p.with("x", q.c);
      p.tau.setConstant(0.75);
      x.tau = p.tau;
      x.t0 = p.t0 = -0.5;
      TransposeLeftMultiplication T(p.make());
      Vec y = T(x.make());
      for (int i = 0; i < q.n; i++)
        for (int k = 0; k < q.N; k++) {
          double s = 0;
          for (int j = 0; j < q.c; j++)
            s += p.v(i, j, k) * x.v(i, j, k);
          sym::check_eq("dot " + S(i) + "," + S(k), y(i * q.N + k), s, 1e-9);
        }
      for (int rows : {1, q.c, q.c + 2}) {
        std::vector<Mat> ms;
        for (int r = 0; r < q.n * q.N; r++) {
          Mat m(rows, q.c);
          for (int a = 0; a < rows; a++)
            for (int b = 0; b < q.c; b++)
              m(a, b) = 0.25 * ((r * 5 + a * 3 + b * 2) % 11) - 1.1;
          ms.push_back(m);
        }
        MatrixLeftMultiplication A(q.c, q.N, q.n, rows);
        A.update(ms.begin(), ms.end());
        Vec z = A(x.make());
        A.update(ms.back());
        Vec u = A(x.make());
        sym::check_true("rows", z.size() == q.n * q.N * rows && u.size() == z.size());
        for (int i = 0; i < q.n; i++)
          for (int k = 0; k < q.N; k++)
            for (int a = 0; a < rows; a++) {
              double s = 0, e = 0;
              for (int b = 0; b < q.c; b++) {
                s += ms[i * q.N + k](a, b) * x.v(i, b, k);
                e += ms.back()(a, b) * x.v(i, b, k);
              }
              sym::check_eq("matrix " + ix(i, a, k), z((i * rows + a) * q.N + k), s, 1e-9);
              sym::check_eq("constant matrix " + ix(i, a, k), u((i * rows + a) * q.N + k), e, 1e-9);
            }
      }
    });
  for (Q q : {Q{3, 6, 1}, Q{4, 4, 2}, Q{3, 2, 5}, Q{6, 3, 1}, Q{2, 9, 1}})
    for (int deg = 0; deg <= 3; deg++)
      sym::reg("large_continuity_N" + S(q.N) + "_n" + S(q.n) + "_c" + S(q.c) + "_D" + S(deg), 0, [=] {
        Col p(q.N, q.n, q.c, false), u(q.N, q.n, q.c, false, "u");
        p.t0 = u.t0 = 0.5;
        for (int i = 0; i < q.n; i++) {
          p.tau(i) = 0.5 + 0.25 * ((i * 3) % 5);
          u.tau(i) = 2.0 - 0.25 * (i % 4);
        }
        auto jump = [&](const Col &x) { return [&](long r) { int k = r / ((q.n - 1) * q.c), i = r / q.c % (q.n - 1), j = r % q.c; return x.d(i, j, q.N - 1, k) - x.d(i + 1, j, 0, k); }; };
        ContinuityError E(p.make(), deg);
        long rows = (q.n - 1) * q.c * (deg + 1);
        double tol = 1e-7 * ipow(8.0 * q.N, 2 * deg);
        forms("", E, p.make(), jump(p), rows, tol);
        E.update(u.tau);
        forms("updated ", E, u.make(), jump(u), rows, tol);
        E.update(p.tau);
        forms("back ", E, p.make(), jump(p), rows, tol);
      });
}
