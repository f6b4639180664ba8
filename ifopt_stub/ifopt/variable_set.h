#pragma once
#include "composite.h"
namespace ifopt {
class VariableSet : public Component {
public:
  VariableSet(int n_var, const std::string &name) : Component(n_var, name) {}
  virtual ~VariableSet() = default;
  Jacobian GetJacobian() const final { throw std::runtime_error("not implemented for variables"); }
};
} // namespace ifopt
