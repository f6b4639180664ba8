// Harness API, shared by the symbolic build (-DSYM, instrumented by SymPass,
// linked with runtime.cpp) and the native replay build (linked with
// replay.cpp, no instrumentation at all).
#pragma once
#include <Eigen/Core>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace sym {
// ---- inputs
double var(const std::string &name, double lo, double hi);
// ---- constraints on inputs (applies to the current path)
void assume(bool c);
// assume a == b (symbolically, without forking)
void assume_eq(double a, double b);
// ---- assertions
void check_eq(const std::string &label, double impl, double spec, double tol);
void check_true(const std::string &label, bool cond);
void fail(const std::string &label);
void mark(const std::string &label); // reachability witness
// exact functional equality, no tolerance, for "unchanged" properties: bit
// identity of the value/term
void check_same(const std::string &label, double a, double b);
// n-th formal derivative of e with respect to variable x (x must be a var())
double D(double e, double x, int n = 1);
// formal integral of e (polynomial/exp/trig in x) over x in [lo,hi]
double integral(double e, double x, double lo, double hi);
// formal substitution of x by v in e
double subst(double e, double x, double v);
// an arbitrary smooth function: uninterpreted in the solver (|.| <= 16), the
// k-th derivative of "f" is named "f" followed by k primes. Numerically (native
// replay, candidate evaluation) it is the fixed function uf_num.
double uf(const std::string &name, double x);
inline double uf_num(const std::string &name, double x) {
  unsigned h = 2166136261u;
  int k = 0;
  for (char c : name)
    if (c == '\'') k++;
    else h = (h ^ (unsigned char)c) * 16777619u;
  double a = 0.5 + (h % 97) / 97.0, b = 0.6 + (h / 97 % 89) / 120.0, c = (h / 8633 % 83) / 13.0;
  double r = a;
  for (int i = 0; i < k; i++) r *= b;
  double y = b * x + c;
  switch (k % 4) {
  case 0: return r * __builtin_sin(y);
  case 1: return r * __builtin_cos(y);
  case 2: return -r * __builtin_sin(y);
  default: return -r * __builtin_cos(y);
  }
}
bool symbolic();
// assumed bound on the components of symbolic linear solves (default 1e4)
void lu_bound(double b);
// ---- cases
struct Case {
  std::string name;
  int tier; // 0 quick+thorough, 1 thorough only
  std::function<void()> fn;
};
std::vector<Case> &cases();
inline void reg(const std::string &n, int tier, std::function<void()> f) {
  cases().push_back({n, tier, f});
}
struct Reg {
  Reg(void (*f)()) { f(); }
};

// helpers
inline Eigen::VectorXd vars(const std::string &n, int k, double lo, double hi) {
  Eigen::VectorXd v(k);
  for (int i = 0; i < k; i++)
    v(i) = var(n + std::to_string(i), lo, hi);
  return v;
}
template <class E> bool throws(E &&e) {
  try {
    e();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
} // namespace sym
#define SYM_CAT_(a, b) a##b
#define SYM_CAT(a, b) SYM_CAT_(a, b)
#define CASES                                                                  \
  static void SYM_CAT(regfn_, __LINE__)();                                     \
  static sym::Reg SYM_CAT(reg_, __LINE__)(SYM_CAT(regfn_, __LINE__));          \
  static void SYM_CAT(regfn_, __LINE__)()
