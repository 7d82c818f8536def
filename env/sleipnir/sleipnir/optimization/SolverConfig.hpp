#pragma once

#include <chrono>
#include <limits>

namespace sleipnir {

struct SolverConfig {
  double tolerance = 1e-8;
  int maxIterations = 5000;
  double acceptableTolerance = 1e-6;
  int maxAcceptableIterations = 15;
  std::chrono::duration<double> timeout{std::numeric_limits<double>::infinity()};
  bool feasibleIPM = false;
  bool diagnostics = false;
  bool spy = false;
};

}  // namespace sleipnir
