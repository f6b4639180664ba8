#pragma once
#include "composite.h"
namespace ifopt {
class ConstraintSet : public Component {
public:
  using Ptr = std::shared_ptr<ConstraintSet>;
  using VariablesPtr = Composite::Ptr;
  ConstraintSet(int n_constraints, const std::string &name) : Component(n_constraints, name) {}
  virtual ~ConstraintSet() = default;
  void LinkWithVariables(const VariablesPtr &x) {
    variables_ = x;
    InitVariableDependedQuantities(x);
  }
  Jacobian GetJacobian() const final {
    Eigen::MatrixXd r = Eigen::MatrixXd::Zero(GetRows(), variables_->GetRows());
    int col = 0;
    for (const auto &v : variables_->GetComponents()) {
      Jacobian jac(GetRows(), v->GetRows());
      FillJacobianBlock(v->GetName(), jac);
      r.middleCols(col, v->GetRows()) = jac.toDense();
      col += v->GetRows();
    }
    return full(r);
  }
  virtual void FillJacobianBlock(std::string var_set, Jacobian &jac_block) const = 0;

protected:
  const VariablesPtr GetVariables() const { return variables_; }

private:
  VariablesPtr variables_;
  virtual void InitVariableDependedQuantities(const VariablesPtr &) {}
  void SetVariables(const VectorXd &) final { throw std::runtime_error("not implemented for constraints"); }
};
} // namespace ifopt
