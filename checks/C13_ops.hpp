#pragma once
#include <memory>
#include <optional>
#include <string>

#include "trajopt/SwerveTrajectoryGenerator.hpp"

namespace c13 {
// (as a value: the request is made through the foreign-function interface)
constexpr int kForeign = 12345;
/// What RustFFI's cancel_all and every C++ user does to cancel.
void Cancel(int value);
int Flag();
/// Generations ask for diagnostics.
extern bool diagnostics;
const void* FlagAddress();
/// The error text, or nothing if a trajectory was generated.
std::optional<std::string> Generate(trajopt::SwerveTrajectoryGenerator& g);
/// The same through the foreign-function interface.
std::shared_ptr<void> MakeForeign();
std::optional<std::string> GenerateForeign(void* builder, int64_t handle);
}  // namespace c13
