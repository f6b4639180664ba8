// The optimisation of interval lengths: the program handed to the solver and
// what is made of the solver's answer. The solver is an arbitrary environment.
#include "interp.hpp"
#include <gsplines/FunctionalAnalysis/Sobolev.hpp>
#include <gsplines/Optimization/ipopt_solver.hpp>
#include <ifopt/ipopt_solver.h>
using namespace gsplines::optimization;
using W = std::vector<std::pair<std::size_t, double>>;
using Ipopt = ifopt::IpoptSolver;
using gsplines::GSpline;
static std::vector<double> row(const Vec &v) { return std::vector<double>(v.data(), v.data() + v.size()); }
// lengths of the table, scaled to the total time
static Vec share(const std::string &set, int n, double total) {
  Vec v;
  for (auto &t : tau_table())
    if (t.name == set) {
      auto x = t.t;
      for (int i = 5; i < n; i++)
        x.push_back(0.8 + 0.1 * i);
      v = head(x, n);
    }
  double s = v.sum();
  return v * total / s;
}
// the program: n nonnegative lengths adding up to T, minimising the norm
static void posed(const std::string &L, ifopt::Problem &nlp, const Mat &w, const gsplines::basis::Basis &b, const W &ws, double T, const std::vector<Vec> &points, double tol) {
  int n = (int)w.rows() - 1;
  sym::check_true(L + "a length per interval", nlp.GetNumberOfOptimizationVariables() == n);
  sym::check_true(L + "one constraint and a cost", nlp.GetNumberOfConstraints() == 1 && nlp.HasCostTerms());
  Vec start = nlp.GetVariableValues();
  sym::check_eq(L + "start adds up", start.sum(), T, 1e-9);
  auto vb = nlp.GetBoundsOnOptimizationVariables();
  sym::check_true(L + "bounds of all lengths", (int)vb.size() == n);
  for (int i = 0; i < n; i++) {
    sym::check_true(L + "start positive", start(i) > 0);
    sym::check_true(L + "any positive length allowed", vb[i].lower_ == 0.0 && vb[i].upper_ >= 1e19);
  }
  auto cb = nlp.GetBoundsOnConstraints();
  sym::check_true(L + "one bound", cb.size() == 1);
  // evaluated at every point, there and back again
  gsplines::functional_analysis::SobolevNorm ref(w, b, ws);
  auto at = [&](const std::string &l, const Vec &x, bool value_first) {
    auto v = row(x);
    auto value = [&] { sym::check_eq(l + "cost", nlp.EvaluateCostFunction(v.data()), ref(x), tol); };
    if (value_first)
      value();
    Vec g = nlp.EvaluateCostFunctionGradient(v.data()), rg(n);
    ref(x);
    ref.deriv_wrt_interval_len(x, rg);
    sym::check_true(l + "gradient size", g.size() == n);
    for (int i = 0; i < n; i++)
      sym::check_eq(l + "gradient " + S(i), g(i), rg(i), tol);
    if (!value_first)
      value();
    Vec c = nlp.EvaluateConstraints(v.data());
    sym::check_eq(l + "not below the total", c(0) - cb[0].lower_, x.sum() - T, 1e-9);
    sym::check_eq(l + "not above the total", c(0) - cb[0].upper_, x.sum() - T, 1e-9);
    Mat J = nlp.GetJacobianOfConstraints().toDense();
    sym::check_true(l + "constraint gradient size", J.rows() == 1 && J.cols() == n);
    for (int i = 0; i < n; i++)
      sym::check_eq(l + "constraint gradient " + S(i), J(0, i), 1.0, 1e-12);
  };
  for (size_t k = 0; k < points.size(); k++)
    at(L + "point " + S((int)k) + " ", points[k], k % 2 == 0);
  if (points.size() > 1)
    at(L + "back at point 0 ", points[0], false);
}
// the last answer
struct Opt {
  std::unique_ptr<GSpline> g;
  void operator<<(const std::optional<GSpline> &o) { g = o.has_value() ? std::make_unique<GSpline>(*o) : nullptr; }
  bool has_value() const { return !!g; }
  const GSpline &operator*() const { return *g; }
  const GSpline *operator->() const { return g.get(); }
};
static int run(const std::function<int(ifopt::Problem &, Ipopt &)> &env, const std::function<void()> &f) {
  int calls = 0;
  Ipopt::environment() = [&](ifopt::Problem &p, Ipopt &s) { calls++; return env(p, s); };
  f();
  Ipopt::environment() = nullptr;
  return calls;
}
// the curve through p.w with lengths p.tau starting at 0
static void curve(const std::string &L, const GSpline &g, const Prob &p, double total, double taumin, const std::string &basis) {
  sym::check_true(L + "shape", (int)g.get_codom_dim() == p.codom && (int)g.get_number_of_intervals() == p.n);
  sym::check_true(L + "basis", g.get_basis_name() == basis && (int)g.get_basis().get_dim() == p.b->dim());
  sym::check_eq(L + "start", g.get_domain().first, 0.0, 1e-9);
  sym::check_eq(L + "total time", g.get_domain().second, total, 1e-9);
  for (int i = 0; i < p.n; i++)
    sym::check_eq(L + "length " + S(i), g.get_interval_lengths()(i), p.tau(i), 1e-9);
  p.check(L, g.get_coefficients(), taumin);
}
static W orders(const std::vector<int> &o, const std::string &pre = "g") {
  W w;
  for (int k : o)
    w.push_back({(std::size_t)k, sym::var(pre + S(k), 0.25, 2)});
  return w;
}
struct BB { std::string name; BS b; std::vector<int> ord; };
static std::vector<BB> bases() {
  return {{"legendre", Leg(2), {1}}, {"legendre", Leg(4), {1, 2}}, {"legendre", Leg(6), {1, 3}}, {"legendre", Leg(8), {4}}, {"basis0101", B01(0.75), {1, 3}}};
}
CASES {
  for (auto &bb : bases())
    for (int n = 2; n <= 5; n++)
      for (int codom = 1; codom <= 3; codom++)
        for (std::string set : {"A", "B", "C"}) {
          std::string nm = bb.name + S(bb.b->dim()) + "_n" + S(n) + "_c" + S(codom) + set;
          int D = bb.b->dim();
          sym::reg("answer_" + nm, n * codom * D > 60, [=] {
            double T = 3.0;
            Prob p(bb.b, codom, n, share(set, n, T));
            W ws = orders(bb.ord);
            auto lib = bb.b->make();
            std::vector<Vec> pts = {share("B", n, T), share(set, n, T), share("C", n, 2.0)};
            Opt r;
            int status = 0;
            int calls = run([&](ifopt::Problem &nlp, Ipopt &) {
              if (status == 0)
                posed("", nlp, p.w, *lib, ws, T, pts, 1e-6);
              auto v = row(p.tau);
              nlp.SetVariables(v.data());
              return status; }, [&] { r << optimal_sobolev_norm(p.w, *lib, ws, T); });
            sym::check_true("solved once", calls == 1);
            sym::check_true("an answer", r.has_value());
            if (r.has_value())
              curve("", *r, p, T, p.tau.minCoeff(), bb.name);
            for (int s : {1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -10, -11, -12, -13, -100, -101, -102, -199, 100}) {
              status = s;
              run([&](ifopt::Problem &nlp, Ipopt &) {
                auto v = row(p.tau);
                nlp.SetVariables(v.data());
                return status; }, [&] { r << optimal_sobolev_norm(p.w, *lib, ws, T); });
              sym::check_true("no answer for status " + S(s), !r.has_value());
            }
          });
        }
  // every total time and every feasible answer
  for (int D = 2; D <= 4; D += 2)
    for (int n = 2; n <= 3; n++)
      for (int codom = 1; codom <= 2; codom++)
        sym::reg("times_D" + S(D) + "_n" + S(n) + "_c" + S(codom), D == 4 && n * codom > 3, [=] {
          BS b = Leg(D);
          Vec tau = sym::vars("tau", n, 0.25, 4);
          double T = tau.sum();
          Prob p(b, codom, n, tau);
          auto lib = b->make();
          Opt r;
          run([&](ifopt::Problem &nlp, Ipopt &) {
            Vec start = nlp.GetVariableValues();
            sym::check_eq("start adds up", start.sum(), T, 1e-9);
            auto v = row(tau);
            Vec c = nlp.EvaluateConstraints(v.data());
            sym::check_eq("answer is feasible", c(0), nlp.GetBoundsOnConstraints()[0].lower_, 1e-9);
            sym::check_eq("answer is feasible from above", c(0), nlp.GetBoundsOnConstraints()[0].upper_, 1e-9);
            Vec x = sym::vars("x", n, 0.25, 4);
            auto u = row(x);
            c = nlp.EvaluateConstraints(u.data());
            sym::check_eq("constraint", c(0) - nlp.GetBoundsOnConstraints()[0].lower_, x.sum() - T, 1e-9);
            nlp.SetVariables(v.data());
            return 0; }, [&] { r << optimal_sobolev_norm(p.w, *lib, W{{1, 1.0}}, T); });
          sym::check_true("an answer", r.has_value());
          if (r.has_value())
            curve("", *r, p, T, 0.25, "legendre");
        });
  // two waypoints: nothing to choose
  for (auto &bb : bases())
    for (int codom = 1; codom <= 3; codom++)
      sym::reg("single_" + bb.name + S(bb.b->dim()) + "_c" + S(codom), 0, [=] {
        double T = bb.b->poly() ? sym::var("T", 0.25, 4) : 1.75;
        Vec tau(1);
        tau(0) = T;
        Prob p(bb.b, codom, 1, tau);
        auto lib = bb.b->make();
        for (int status : {0, 2, -1}) {
          Opt r;
          run([&](ifopt::Problem &nlp, Ipopt &) {
            auto v = row(tau);
            nlp.SetVariables(v.data());
            return status; }, [&] { r << optimal_sobolev_norm(p.w, *lib, orders(bb.ord, "g" + S(status) + "_"), T); });
          if (status == 0)
            sym::check_true("an answer", r.has_value());
          if (r.has_value())
            curve("", *r, p, T, 0.25, bb.name);
        }
      });
}
// many intervals and components, short and long total times, other weights
CASES {
  struct Q { BS b; std::vector<int> ord; int c, n; double T; };
  for (Q q : {Q{Leg(2), {1}, 1, 8, 10}, Q{Leg(2), {1}, 1, 12, 15}, Q{Leg(2), {0, 1}, 6, 2, 2}, Q{Leg(4), {1, 2}, 1, 7, 9}, Q{Leg(4), {2}, 5, 2, 0.5}, Q{Leg(4), {1}, 1, 3, 60}, Q{Leg(4), {1, 2, 3}, 2, 2, 0.1}, Q{Leg(6), {3}, 4, 2, 4}, Q{Leg(6), {1}, 1, 6, 7}, Q{Leg(6), {0, 1, 2, 3}, 1, 2, 2}, Q{Gll(4), {1, 2}, 2, 3, 3}, Q{Gll(6), {3}, 1, 2, 2}, Q{LagIn(4), {2}, 1, 3, 3}})
    for (std::string set : {"A", "B"})
      sym::reg("large_" + q.b->name + "_c" + S(q.c) + "_n" + S(q.n) + "_o" + S((long)q.ord.size()) + "_T" + S(std::lround(10 * q.T)) + set, 0, [=] {
        Prob p(q.b, q.c, q.n, share(set, q.n, q.T));
        W ws = orders(q.ord);
        auto lib = q.b->make();
        Opt r;
        double scale = ipow(std::max(1.0, q.n / q.T), 2 * q.ord.back() - 1);
        int calls = run([&](ifopt::Problem &nlp, Ipopt &) {
          posed("", nlp, p.w, *lib, ws, q.T, {share("B", q.n, q.T), share(set, q.n, q.T), share("A", q.n, 0.7 * q.T)}, 1e-5 * scale);
          auto v = row(p.tau);
          nlp.SetVariables(v.data());
          return 0; }, [&] { r << optimal_sobolev_norm(p.w, *lib, ws, q.T); });
        sym::check_true("solved once", calls == 1);
        sym::check_true("an answer", r.has_value());
        if (r.has_value())
          curve("", *r, p, q.T, p.tau.minCoeff(), lib->get_name());
      });
}
// ---- the named paths
struct Path {
  std::string name;
  std::optional<GSpline> (*f)(const Eigen::Ref<const Eigen::MatrixXd> &);
  int dim, order;
};
static std::vector<Path> paths() {
  return {{"lines", broken_lines_path, 2, 1}, {"acceleration", minimum_acceleration_path, 4, 2}, {"jerk", minimum_jerk_path, 6, 3}, {"snap", minimum_snap_path, 8, 4}, {"crackle", minimum_crackle_path, 10, 5}};
}
// what the path does, with the program's total time taken from the program
static void path(const std::function<std::optional<GSpline>(const Mat &)> &f, BS b, const std::string &bname, const W &ws, int n, int codom, const std::string &set) {
  double T = 0;
  Prob p(b, codom, n, share(set, n, 1.0));
  auto lib = b->make();
  Opt r;
  run([&](ifopt::Problem &nlp, Ipopt &) {
    T = nlp.GetBoundsOnConstraints()[0].lower_;
    sym::check_true("positive time", T > 0);
    posed("", nlp, p.w, *lib, ws, T, {share("B", n, T), share(set, n, T)}, 1e-6 * ipow(20, b->dim() / 2));
    auto v = row(share(set, n, T));
    nlp.SetVariables(v.data());
    return 0; }, [&] { r << f(p.w); });
  sym::check_true("an answer", r.has_value());
  if (r.has_value()) {
    if (b->poly())
      curve("", *r, p, 1.0, p.tau.minCoeff() / (b->dim() > 8 ? 1.5 : 1.0), bname);
    else {
      sym::check_eq("start", r->get_domain().first, 0.0, 1e-9);
      sym::check_eq("total time", r->get_domain().second, 1.0, 1e-9);
      for (int i = 0; i < n; i++)
        sym::check_eq("length " + S(i), r->get_interval_lengths()(i), p.tau(i), 1e-9);
      Vec t(n + 1);
      t(0) = 0;
      for (int i = 0; i < n; i++)
        t(i + 1) = i + 1 == n ? 1.0 : t(i) + p.tau(i);
      Mat v = r->value(t);
      sym::check_true("values", v.rows() == n + 1 && v.cols() == codom);
      for (int i = 0; i <= n; i++)
        for (int j = 0; j < codom; j++)
          sym::check_eq("waypoint " + S(i) + " component " + S(j), v(i, j), p.w(i, j), 1e-5);
    }
  }
  for (int s : {1, 2, -1, -199}) {
    run([&](ifopt::Problem &nlp, Ipopt &) {
      auto v = row(share(set, n, T));
      nlp.SetVariables(v.data());
      return s; }, [&] { r << f(p.w); });
    sym::check_true("no answer for status " + S(s), !r.has_value());
  }
}
CASES {
  for (auto &h : paths())
    for (int n = 2; n <= (h.dim <= 6 ? 5 : 3); n++)
      for (int codom = 1; codom <= (h.dim <= 4 ? 4 : 2); codom++)
        for (std::string set : {"A", "B"})
          sym::reg("path_" + h.name + "_n" + S(n) + "_c" + S(codom) + set, n * codom * h.dim > 32, [=] {
            path([&](const Mat &w) { return h.f(w); }, Leg(h.dim), "legendre", W{{(std::size_t)h.order, 1.0}}, n, codom, set);
          });
  for (int n = 2; n <= 3; n++)
    for (double k : {1.0, 1.5, 3.0})
      for (std::string set : {"A", "B"})
        sym::reg("path_rojas_n" + S(n) + "_k" + S((int)(k * 10)) + set, 0, [=] {
          double alpha = ipow(k, 4) / (1.0 + ipow(k, 4));
          path([&](const Mat &w) { return rojas_path(w, k); }, B01(alpha), "basis0101", W{{1, alpha}, {3, 1 - alpha}}, n, 1, set);
        });
}
// ---- options of the solver
CASES {
  for (int seq = 0; seq < 4; seq++)
    sym::reg("options_" + S(seq), 0, [=] {
      double a = sym::var("a", 1e-6, 1), b = sym::var("b", 1e-6, 1);
      Mat w = Mat::Zero(3, 1);
      w << 0, 1, 3;
      std::map<std::string, std::string> strs;
      std::map<std::string, int> ints;
      std::map<std::string, double> dbls;
      auto solve = [&] {
        run([&](ifopt::Problem &, Ipopt &s) {
          strs = s.strings, ints = s.ints, dbls = s.doubles;
          return 2; }, [&] { optimal_sobolev_norm(w, gsplines::basis::BasisLegendre(2), W{{1, 1.0}}, 2.0); });
      };
      IpoptSolverOptions::set_option("tol", 1e-3);
      solve();
      auto s0 = strs;
      auto i0 = ints;
      auto d0 = dbls;
      sym::check_eq("tolerance", dbls["tol"], 1e-3, 0);
      std::string known = s0.begin()->first;
      if (seq == 0) {
        IpoptSolverOptions::set_option("tol", a);
        solve();
        sym::check_eq("changed", dbls["tol"], a, 0);
        IpoptSolverOptions::set_option("tol", b);
        solve();
        sym::check_eq("changed again", dbls["tol"], b, 0);
        solve();
        sym::check_eq("kept", dbls["tol"], b, 0);
        sym::check_true("others alone", strs == s0 && ints == i0 && dbls.size() == d0.size());
      } else if (seq == 1) {
        IpoptSolverOptions::set_option("max_cpu_time", a);
        solve();
        sym::check_eq("added", dbls["max_cpu_time"], a, 0);
        sym::check_eq("tolerance alone", dbls["tol"], 1e-3, 0);
        IpoptSolverOptions::set_option("max_cpu_time", b);
        solve();
        sym::check_eq("added then changed", dbls["max_cpu_time"], b, 0);
        sym::check_true("others alone", strs == s0 && ints == i0);
      } else if (seq == 2) {
        IpoptSolverOptions::set_option("max_iter", 17);
        IpoptSolverOptions::set_option("print_level", 3);
        solve();
        sym::check_true("integers", ints["max_iter"] == 17 && ints["print_level"] == 3);
        IpoptSolverOptions::set_option("max_iter", 18);
        solve();
        sym::check_true("integer changed", ints["max_iter"] == 18 && ints["print_level"] == 3);
        sym::check_true("others alone", strs == s0 && dbls["tol"] == 1e-3);
        IpoptSolverOptions::set_option("print_level", 0);
      } else {
        IpoptSolverOptions::set_option("output_file", std::string("x"));
        IpoptSolverOptions::set_option("linear_solver", std::string("ma27"));
        solve();
        sym::check_true("strings", strs["output_file"] == "x" && strs["linear_solver"] == "ma27");
        IpoptSolverOptions::set_option("linear_solver", std::string("mumps"));
        solve();
        sym::check_true("string changed", strs["output_file"] == "x" && strs["linear_solver"] == "mumps");
        for (auto &p : s0)
          sym::check_true("others alone", p.first == "output_file" || strs[p.first] == p.second);
        sym::check_true("numbers alone", ints == i0 && dbls["tol"] == 1e-3);
      }
      IpoptSolverOptions::set_option("tol", 1e-3);
    });
}
