#pragma once

#include <functional>
#include <optional>
#include <string>
#include <vector>

#include "trajopt/SwerveTrajectoryGenerator.hpp"
#include "trajopt/path/SwervePathBuilder.hpp"

// The programs of the threads, compiled with instrumentation.
namespace c14 {

constexpr int kPaths = 6;
/// Describes a path; point() is called between the calls.
void Describe(trajopt::SwervePathBuilder& b, int kind, void (*point)(const char*),
              void (*report)(int, trajopt::SwerveSolution&, int64_t));
/// Builds, constructs and generates; hands the solution to `result`.
std::string Produce(int kind, void (*point)(const char*), void (*report)(int, trajopt::SwerveSolution&, int64_t),
                    const std::function<void(const trajopt::SwerveSolution&)>& result);
/// The same through the foreign-function interface; hands over every number of
/// each report and of the result.
constexpr int kForeign = 3;
std::string ProduceForeign(int kind, void (*point)(const char*), void (*number)(double));
/// Everything that needs no solver: interpolation, indices, trajectories.
std::vector<double> Utilities(int kind, void (*point)(const char*));
/// Fills a builder, hands over to another thread via the generator object.
std::optional<trajopt::SwerveTrajectoryGenerator> Prepare(int kind, int64_t handle, void (*point)(const char*),
                                                          void (*report)(int, trajopt::SwerveSolution&, int64_t));
std::string Generate(trajopt::SwerveTrajectoryGenerator& g, const std::function<void(const trajopt::SwerveSolution&)>& result);

}  // namespace c14
