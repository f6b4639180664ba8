#pragma once
#include "constraint_set.h"
namespace ifopt {
class CostTerm : public ConstraintSet {
public:
  CostTerm(const std::string &name) : ConstraintSet(1, name) {}
  virtual ~CostTerm() = default;

private:
  virtual double GetCost() const = 0;

public:
  VectorXd GetValues() const final {
    VectorXd cost(1);
    cost(0) = GetCost();
    return cost;
  }
  VecBound GetBounds() const final { return VecBound(GetRows(), NoBound); }
};
} // namespace ifopt
