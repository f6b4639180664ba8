#pragma once
#include "problem.h"
namespace ifopt {
class Solver {
public:
  using Ptr = std::shared_ptr<Solver>;
  virtual ~Solver() = default;
  virtual void Solve(Problem &nlp) = 0;
  int GetReturnStatus() const { return return_status_; }
  void SetReturnStatus(int s) { return_status_ = s; }

protected:
  int return_status_ = 100;
};
} // namespace ifopt
