#pragma once

namespace sleipnir {

/// (The real one also carries Eigen vectors and matrices.)
struct SolverIterationInfo {
  int iteration = 0;
};

}  // namespace sleipnir
