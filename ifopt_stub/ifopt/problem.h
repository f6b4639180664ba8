#pragma once
#include "constraint_set.h"
#include "cost_term.h"
#include "variable_set.h"
namespace ifopt {
class Problem {
public:
  using VecBound = Component::VecBound;
  using Jacobian = Component::Jacobian;
  using VectorXd = Component::VectorXd;
  Problem() : variables_(std::make_shared<Composite>("variable-sets", false)), constraints_("constraint-sets", false), costs_("cost-terms", true) {}
  virtual ~Problem() = default;
  void AddVariableSet(VariableSet::Component::Ptr v) { variables_->AddComponent(v); }
  void AddConstraintSet(ConstraintSet::Ptr c) {
    c->LinkWithVariables(variables_);
    constraints_.AddComponent(c);
  }
  void AddCostSet(ConstraintSet::Ptr c) {
    c->LinkWithVariables(variables_);
    costs_.AddComponent(c);
  }
  int GetNumberOfOptimizationVariables() const { return variables_->GetRows(); }
  int GetNumberOfConstraints() const { return constraints_.GetRows(); }
  bool HasCostTerms() const { return costs_.GetRows() > 0; }
  VecBound GetBoundsOnOptimizationVariables() const { return variables_->GetBounds(); }
  VectorXd GetVariableValues() const { return variables_->GetValues(); }
  void SetVariables(const double *x) { variables_->SetVariables(Eigen::Map<const VectorXd>(x, GetNumberOfOptimizationVariables())); }
  double EvaluateCostFunction(const double *x) {
    SetVariables(x);
    return costs_.GetValues().sum();
  }
  VectorXd EvaluateCostFunctionGradient(const double *x) {
    SetVariables(x);
    return costs_.GetJacobian().row(0).transpose();
  }
  VecBound GetBoundsOnConstraints() const { return constraints_.GetBounds(); }
  VectorXd EvaluateConstraints(const double *x) {
    SetVariables(x);
    return constraints_.GetValues();
  }
  Jacobian GetJacobianOfConstraints() const { return constraints_.GetJacobian(); }
  Jacobian GetJacobianOfCosts() const { return costs_.GetJacobian(); }
  Composite::Ptr GetOptVariables() const { return variables_; }
  const Composite &GetConstraints() const { return constraints_; }
  const Composite &GetCosts() const { return costs_; }
  void PrintCurrent() const {}
  void SetOptVariablesFinal() {}

private:
  Composite::Ptr variables_;
  Composite constraints_, costs_;
};
} // namespace ifopt
