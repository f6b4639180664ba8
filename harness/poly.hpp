// Vectors of polynomials as functions, with exact derivatives and integrals.
#pragma once
#include "common.hpp"
using namespace gsplines::functions;
inline double mono(const Vec &c, double t) {
  double r = 0;
  for (long k = c.size() - 1; k >= 0; k--)
    r = r * t + c(k);
  return r;
}
// integral of sum c_k t^k over [a,b]
inline double exact(const Vec &c, double a, double b) {
  double r = 0, pa = a, pb = b;
  for (long k = 0; k < c.size(); k++) {
    r += c(k) * (pb - pa) / (k + 1.0);
    pa *= a;
    pb *= b;
  }
  return r;
}
inline Vec pmul(const Vec &x, const Vec &y) {
  Vec r = Vec::Zero(x.size() + y.size() - 1);
  for (long i = 0; i < x.size(); i++)
    for (long j = 0; j < y.size(); j++)
      r(i + j) += x(i) * y(j);
  return r;
}
inline Vec pder(Vec c, int k) {
  for (; k > 0; k--) {
    if (c.size() == 1)
      return Vec::Zero(1);
    Vec r(c.size() - 1);
    for (long i = 1; i < c.size(); i++)
      r(i - 1) = c(i) * i;
    c = r;
  }
  return c;
}
// a vector of polynomials
class VP : public FunctionInheritanceHelper<VP, Function, VP> {
public:
  std::vector<Vec> c;
  VP(std::pair<double, double> d, std::vector<Vec> cc) : FunctionInheritanceHelper(d, cc.size(), "vp"), c(cc) {}
  VP(const VP &o) : FunctionInheritanceHelper(o), c(o.c) {}
  void value_impl(const Eigen::Ref<const Eigen::VectorXd> p, Eigen::Ref<Eigen::MatrixXd> r) const override {
    for (long i = 0; i < p.size(); i++)
      for (size_t j = 0; j < c.size(); j++)
        r(i, j) = mono(c[j], p(i));
  }

protected:
  VP *deriv_impl(std::size_t deg) const override {
    auto d = c;
    for (auto &v : d)
      v = pder(v, deg);
    return new VP(get_domain(), d);
  }
};
inline std::vector<Vec> polys(const std::string &nm, int codom, int deg) {
  std::vector<Vec> r;
  for (int j = 0; j < codom; j++)
    r.push_back(sym::vars(nm + S(j) + "_", deg + 1, -2, 2));
  return r;
}
inline double inner(const std::vector<Vec> &f, const std::vector<Vec> &g, double a, double b, const std::vector<std::pair<std::size_t, double>> &w) {
  double r = 0;
  for (auto &t : w)
    for (size_t j = 0; j < f.size(); j++)
      r += t.second * exact(pmul(pder(f[j], t.first), pder(g[j], t.first)), a, b);
  return r;
}
