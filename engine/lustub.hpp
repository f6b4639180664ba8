// Contract of Eigen::SparseLU for the symbolic build.  A matrix without symbolic
// entries goes through the real factorisation; one with symbolic entries is
// solved by the runtime, which introduces the solution as terms constrained by
// the rows of A y = b and nothing else.
#pragma once
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/SparseCore>
#include <eigen3/Eigen/SparseLU>
#include <cstring>
#include <string>
extern "C" void __sym_lusolve(int n, const double *A, const double *b, double *y);
namespace symlu {
struct Ord : Eigen::COLAMDOrdering<int> {};
inline bool symbolic(double d) {
  unsigned long u;
  std::memcpy(&u, &d, 8);
  return (u >> 48) == 0x7FFCul;
}
} // namespace symlu
namespace Eigen {
template <> class SparseLU<SparseMatrix<double, ColMajor, int>, COLAMDOrdering<int>> {
  using M = SparseMatrix<double, ColMajor, int>;
  SparseLU<M, symlu::Ord> real_;
  MatrixXd a_;
  bool sym_ = false;

public:
  SparseLU() = default;
  explicit SparseLU(const M &m) { compute(m); }
  void analyzePattern(const M &m) {
    load(m);
    if (!sym_) real_.analyzePattern(m);
  }
  void factorize(const M &m) {
    load(m);
    if (!sym_) {
      real_.analyzePattern(m);
      real_.factorize(m);
    }
  }
  void compute(const M &m) { factorize(m); }
  void isSymmetric(bool s) { real_.isSymmetric(s); }
  void setPivotThreshold(const double &t) { real_.setPivotThreshold(t); }
  ComputationInfo info() const { return sym_ ? Success : real_.info(); }
  std::string lastErrorMessage() const { return sym_ ? std::string() : real_.lastErrorMessage(); }
  Index rows() const { return a_.rows(); }
  Index cols() const { return a_.cols(); }
  template <class R> Matrix<double, Dynamic, R::ColsAtCompileTime> solve(const MatrixBase<R> &b_) const {
    Matrix<double, Dynamic, R::ColsAtCompileTime> b = b_, y(a_.cols(), b.cols());
    if (!sym_) {
      bool sb = false;
      for (Index i = 0; i < b.size(); i++) sb = sb || symlu::symbolic(b.data()[i]);
      if (!sb) return real_.solve(b);
      // the same factorisation applied to the unit vectors: the library's
      // forward substitution would branch on every right hand side being zero
      MatrixXd inv = real_.solve(MatrixXd(MatrixXd::Identity(a_.rows(), a_.cols())));
      y = inv * b;
      return y;
    }
    for (Index j = 0; j < b.cols(); j++)
      __sym_lusolve((int)a_.rows(), a_.data(), b.data() + j * b.rows(), y.data() + j * y.rows());
    return y;
  }

private:
  void load(const M &m) {
    a_ = MatrixXd::Zero(m.rows(), m.cols());
    sym_ = false;
    for (Index k = 0; k < m.outerSize(); k++)
      for (M::InnerIterator it(m, k); it; ++it) {
        a_(it.row(), it.col()) = it.value();
        if (symlu::symbolic(it.value())) sym_ = true;
      }
  }
};
} // namespace Eigen
