// Stand-in for the ifopt interfaces the library uses (ifopt is not installed
// here). Classes, member names, access and call order follow ifopt 2.1; only the
// solver is replaced (ipopt_solver.h).
#pragma once
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace ifopt {
static constexpr double inf = 1.0e20;
struct Bounds {
  Bounds(double lower = 0.0, double upper = 0.0) : lower_(lower), upper_(upper) {}
  double lower_, upper_;
  void operator+=(double s) { lower_ += s, upper_ += s; }
  void operator-=(double s) { lower_ -= s, upper_ -= s; }
};
static const Bounds NoBound = Bounds(-inf, +inf);
static const Bounds BoundZero = Bounds(0.0, 0.0);
static const Bounds BoundGreaterZero = Bounds(0.0, +inf);
static const Bounds BoundSmallerZero = Bounds(-inf, 0.0);

// every entry stored (ifopt leaves zeros out of its triplets; the values are the same)
inline Eigen::SparseMatrix<double, Eigen::RowMajor> full(const Eigen::MatrixXd &m) {
  Eigen::SparseMatrix<double, Eigen::RowMajor> r(m.rows(), m.cols());
  for (int i = 0; i < m.rows(); i++)
    for (int j = 0; j < m.cols(); j++)
      r.coeffRef(i, j) = m(i, j);
  return r;
}

class Component {
public:
  using Ptr = std::shared_ptr<Component>;
  using Jacobian = Eigen::SparseMatrix<double, Eigen::RowMajor>;
  using VectorXd = Eigen::VectorXd;
  using VecBound = std::vector<Bounds>;
  static const int kSpecifyLater = -1;
  Component(int num_rows, const std::string &name) : num_rows_(num_rows), name_(name) {}
  virtual ~Component() = default;
  virtual VectorXd GetValues() const = 0;
  virtual VecBound GetBounds() const = 0;
  virtual void SetVariables(const VectorXd &x) = 0;
  virtual Jacobian GetJacobian() const = 0;
  int GetRows() const { return num_rows_; }
  std::string GetName() const { return name_; }
  void SetRows(int n) { num_rows_ = n; }

private:
  int num_rows_ = kSpecifyLater;
  const std::string name_;
};

class Composite : public Component {
public:
  using Ptr = std::shared_ptr<Composite>;
  using ComponentVec = std::vector<Component::Ptr>;
  Composite(const std::string &name, bool is_cost) : Component(0, name), is_cost_(is_cost) {}
  VectorXd GetValues() const override {
    if (is_cost_) {
      VectorXd v = VectorXd::Zero(GetRows());
      for (auto &c : components_)
        v += c->GetValues();
      return v;
    }
    VectorXd v(GetRows());
    int row = 0;
    for (auto &c : components_) {
      VectorXd g = c->GetValues();
      v.middleRows(row, c->GetRows()) = g;
      row += c->GetRows();
    }
    return v;
  }
  Jacobian GetJacobian() const override {
    if (components_.empty())
      return Jacobian();
    Eigen::MatrixXd r = Eigen::MatrixXd::Zero(is_cost_ ? 1 : GetRows(), components_.front()->GetJacobian().cols());
    int row = 0;
    for (auto &c : components_) {
      Eigen::MatrixXd j = c->GetJacobian().toDense();
      r.middleRows(row, j.rows()) += j;
      if (!is_cost_)
        row += c->GetRows();
    }
    return full(r);
  }
  VecBound GetBounds() const override {
    VecBound b;
    for (auto &c : components_) {
      VecBound x = c->GetBounds();
      b.insert(b.end(), x.begin(), x.end());
    }
    return b;
  }
  void SetVariables(const VectorXd &x) override {
    int row = 0;
    for (auto &c : components_) {
      c->SetVariables(x.middleRows(row, c->GetRows()));
      row += c->GetRows();
    }
  }
  void AddComponent(const Component::Ptr &c) {
    components_.push_back(c);
    if (is_cost_)
      SetRows(1);
    else
      SetRows(GetRows() + c->GetRows());
  }
  void ClearComponents() { components_.clear(), SetRows(0); }
  const Component::Ptr GetComponent(std::string name) const {
    for (auto &c : components_)
      if (c->GetName() == name)
        return c;
    throw std::runtime_error("component not found: " + name);
  }
  template <typename T> std::shared_ptr<T> GetComponent(const std::string &name) const {
    return std::dynamic_pointer_cast<T>(GetComponent(name));
  }
  const ComponentVec GetComponents() const { return components_; }
  int GetComponentCount() const { return (int)components_.size(); }

private:
  ComponentVec components_;
  bool is_cost_;
};
} // namespace ifopt
