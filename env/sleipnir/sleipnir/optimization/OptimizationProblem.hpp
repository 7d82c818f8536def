// Stand-in for sleipnir/optimization/OptimizationProblem.hpp. Solve() does not
// solve: it hands the problem to the environment hook, which plays the solver.
#pragma once

#include <cmath>
#include <concepts>
#include <functional>
#include <numeric>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"
#include "sleipnir/optimization/Constraints.hpp"
#include "sleipnir/optimization/SolverConfig.hpp"
#include "sleipnir/optimization/SolverExitCondition.hpp"
#include "sleipnir/optimization/SolverIterationInfo.hpp"
#include "sleipnir/optimization/SolverStatus.hpp"

namespace sleipnir {

class OptimizationProblem;

namespace env {
/// The environment: plays the solver.
using SolveHook = std::function<SolverStatus(OptimizationProblem&, const SolverConfig&)>;
inline SolveHook& Hook() {
  static SolveHook hook;
  return hook;
}
}  // namespace env

class OptimizationProblem {
 public:
  OptimizationProblem() noexcept = default;

  [[nodiscard]] Variable DecisionVariable() {
    Variable v{detail::MakeLeaf(0.0, detail::Op::kVar)};
    v.expr->id = static_cast<int32_t>(m_decisionVariables.size());
    m_decisionVariables.push_back(v);
    return v;
  }
  [[nodiscard]] VariableMatrix DecisionVariable(int rows, int cols = 1) {
    VariableMatrix out{rows, cols};
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j) out(i, j) = DecisionVariable();
    return out;
  }
  [[nodiscard]] VariableMatrix SymmetricDecisionVariable(int rows) {
    VariableMatrix out{rows, rows};
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j <= i; ++j) {
        out(i, j) = DecisionVariable();
        out(j, i) = out(i, j);
      }
    return out;
  }

  void Minimize(const Variable& cost) { m_f = cost; }
  void Minimize(Variable&& cost) { m_f = std::move(cost); }
  void Maximize(const Variable& objective) { m_f = -objective; }
  void Maximize(Variable&& objective) { m_f = -objective; }

  void SubjectTo(const EqualityConstraints& c) {
    for (auto& v : c.constraints) m_equality.push_back(v);
  }
  void SubjectTo(EqualityConstraints&& c) {
    for (auto& v : c.constraints) m_equality.push_back(std::move(v));
  }
  void SubjectTo(const InequalityConstraints& c) {
    for (auto& v : c.constraints) m_inequality.push_back(v);
  }
  void SubjectTo(InequalityConstraints&& c) {
    for (auto& v : c.constraints) m_inequality.push_back(std::move(v));
  }

  SolverStatus Solve(const SolverConfig& config = SolverConfig{}) {
    if (env::Hook()) {
      return env::Hook()(*this, config);
    }
    return SolverStatus{};
  }

  template <typename F>
    requires requires(F f, const SolverIterationInfo& info) {
      { f(info) } -> std::same_as<void>;
    }
  void Callback(F&& callback) {
    m_callback = [callback = std::forward<F>(callback)](const SolverIterationInfo& info) {
      callback(info);
      return false;
    };
  }
  template <typename F>
    requires requires(F f, const SolverIterationInfo& info) {
      { f(info) } -> std::same_as<bool>;
    }
  void Callback(F&& callback) {
    m_callback = std::forward<F>(callback);
  }

  // Environment side -------------------------------------------------------
  std::vector<Variable>& EnvDecisionVariables() { return m_decisionVariables; }
  std::vector<Variable>& EnvEquality() { return m_equality; }
  std::vector<Variable>& EnvInequality() { return m_inequality; }
  std::optional<Variable>& EnvCost() { return m_f; }
  /// Runs the user's callback; true if it asks the solver to stop.
  bool EnvIterate(int iteration) {
    SolverIterationInfo info;
    info.iteration = iteration;
    return m_callback ? m_callback(info) : false;
  }
  bool EnvHasCallback() const { return static_cast<bool>(m_callback); }

 private:
  std::vector<Variable> m_decisionVariables;
  std::optional<Variable> m_f;
  std::vector<Variable> m_equality;
  std::vector<Variable> m_inequality;
  std::function<bool(const SolverIterationInfo&)> m_callback;
};

}  // namespace sleipnir
