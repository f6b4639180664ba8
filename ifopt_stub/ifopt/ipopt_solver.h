// The solver is an arbitrary environment: what it does to the problem and what
// it returns is decided by the harness.
#pragma once
#include "solver.h"
#include <functional>
#include <map>
namespace ifopt {
class IpoptSolver : public Solver {
public:
  using Ptr = std::shared_ptr<IpoptSolver>;
  std::map<std::string, std::string> strings;
  std::map<std::string, int> ints;
  std::map<std::string, double> doubles;
  static std::function<int(Problem &, IpoptSolver &)> &environment() {
    static std::function<int(Problem &, IpoptSolver &)> f;
    return f;
  }
  void Solve(Problem &nlp) override { return_status_ = environment()(nlp, *this); }
  void SetOption(const std::string &n, const std::string &v) { strings[n] = v; }
  void SetOption(const std::string &n, const char *v) { strings[n] = v; }
  void SetOption(const std::string &n, int v) { ints[n] = v; }
  void SetOption(const std::string &n, double v) { doubles[n] = v; }
  double GetTotalWallclockTime() { return 0; }
};
} // namespace ifopt
