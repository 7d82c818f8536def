// The operations of the threads, compiled with instrumentation.
#include "checks/C13_ops.hpp"

#include "RustFFI.hpp"
#include "trajoptlib/src/lib.rs.h"
#include "trajopt/util/Cancellation.hpp"

namespace c13 {
bool diagnostics = false;
void Cancel(int value) {
  if (value == kForeign) {
    trajopt::rsffi::cancel_all();
    return;
  }
  trajopt::GetCancellationFlag() = value;
}
int Flag() { return trajopt::GetCancellationFlag(); }
const void* FlagAddress() { return &trajopt::GetCancellationFlag(); }
std::optional<std::string> Generate(trajopt::SwerveTrajectoryGenerator& g) {
  auto r = diagnostics ? g.Generate(true) : g.Generate();
  if (r.has_value()) return std::nullopt;
  return r.error();
}
std::shared_ptr<void> MakeForeign() {
  auto b = std::make_shared<trajopt::rsffi::SwervePathBuilder>();
  trajopt::rsffi::SwerveDrivetrain d;
  d.mass = 10;
  d.moi = 3;
  d.modules.push_back(trajopt::rsffi::SwerveModule{0.5, -0.25, 0.05, 100.0, 10.0});
  b->set_drivetrain(d);
  b->pose_wpt(0, 0, 0, 0);
  b->pose_wpt(1, 1, 0, 0);
  rust::Vec<size_t> n;
  n.push_back(1);
  b->set_control_interval_counts(std::move(n));
  return b;
}
std::optional<std::string> GenerateForeign(void* builder, int64_t handle) {
  try {
    static_cast<trajopt::rsffi::SwervePathBuilder*>(builder)->generate(diagnostics, handle);
    return std::nullopt;
  } catch (const std::exception& e) {
    return e.what();
  }
}
}  // namespace c13
