// Stand-in for sleipnir/optimization/Constraints.hpp.
#pragma once

#include <cassert>
#include <concepts>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/Variable.hpp"
#include "sleipnir/autodiff/VariableMatrix.hpp"

namespace sleipnir {

namespace detail {

template <typename T>
struct IsBlock : std::false_type {};
template <typename M>
struct IsBlock<VariableBlock<M>> : std::true_type {};

template <typename T>
concept AutodiffLike = std::same_as<std::decay_t<T>, Variable> ||
                       std::same_as<std::decay_t<T>, VariableMatrix> ||
                       IsBlock<std::decay_t<T>>::value;
template <typename T>
concept Operand = AutodiffLike<T> || std::is_arithmetic_v<std::decay_t<T>>;

template <typename T>
VariableMatrix ToMatrix(const T& v) {
  if constexpr (std::is_arithmetic_v<T>) {
    return VariableMatrix{Variable{static_cast<double>(v)}};
  } else {
    return VariableMatrix{v};
  }
}

// lhs - rhs elementwise, broadcasting a scalar on either side
template <typename L, typename R>
std::vector<Variable> MakeConstraints(const L& lhs, const R& rhs) {
  auto l = ToMatrix(lhs);
  auto r = ToMatrix(rhs);
  std::vector<Variable> out;
  bool ls = l.size() == 1;
  bool rs = r.size() == 1;
  assert(ls || rs || (l.Rows() == r.Rows() && l.Cols() == r.Cols()));
  size_t n = ls ? r.size() : l.size();
  for (size_t i = 0; i < n; ++i) {
    out.push_back(l(ls ? 0 : static_cast<int>(i)) - r(rs ? 0 : static_cast<int>(i)));
  }
  return out;
}

}  // namespace detail

/// Equality constraints cₑ(x) = 0.
struct EqualityConstraints {
  std::vector<Variable> constraints;

  EqualityConstraints(std::initializer_list<EqualityConstraints> list) {  // NOLINT
    for (auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  explicit EqualityConstraints(const std::vector<EqualityConstraints>& list) {
    for (auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  template <detail::Operand L, detail::Operand R>
    requires(detail::AutodiffLike<L> || detail::AutodiffLike<R>)
  EqualityConstraints(const L& lhs, const R& rhs)
      : constraints{detail::MakeConstraints(lhs, rhs)} {}

  operator bool() const {  // NOLINT
    for (auto& c : constraints)
      if (c.Value() != 0.0) return false;
    return true;
  }
};

/// Inequality constraints cᵢ(x) ≥ 0.
struct InequalityConstraints {
  std::vector<Variable> constraints;

  InequalityConstraints(std::initializer_list<InequalityConstraints> list) {  // NOLINT
    for (auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  explicit InequalityConstraints(const std::vector<InequalityConstraints>& list) {
    for (auto& c : list)
      constraints.insert(constraints.end(), c.constraints.begin(), c.constraints.end());
  }
  template <detail::Operand L, detail::Operand R>
    requires(detail::AutodiffLike<L> || detail::AutodiffLike<R>)
  InequalityConstraints(const L& lhs, const R& rhs)
      : constraints{detail::MakeConstraints(lhs, rhs)} {}

  operator bool() const {  // NOLINT
    for (auto& c : constraints)
      if (!(c.Value() >= 0.0)) return false;
    return true;
  }
};

template <detail::Operand L, detail::Operand R>
  requires(detail::AutodiffLike<L> || detail::AutodiffLike<R>)
EqualityConstraints operator==(const L& lhs, const R& rhs) {
  return EqualityConstraints{lhs, rhs};
}
template <detail::Operand L, detail::Operand R>
  requires(detail::AutodiffLike<L> || detail::AutodiffLike<R>)
InequalityConstraints operator>=(const L& lhs, const R& rhs) {
  return InequalityConstraints{lhs, rhs};
}
template <detail::Operand L, detail::Operand R>
  requires(detail::AutodiffLike<L> || detail::AutodiffLike<R>)
InequalityConstraints operator>(const L& lhs, const R& rhs) {
  return lhs >= rhs;
}
template <detail::Operand L, detail::Operand R>
  requires(detail::AutodiffLike<L> || detail::AutodiffLike<R>)
InequalityConstraints operator<=(const L& lhs, const R& rhs) {
  return rhs >= lhs;
}
template <detail::Operand L, detail::Operand R>
  requires(detail::AutodiffLike<L> || detail::AutodiffLike<R>)
InequalityConstraints operator<(const L& lhs, const R& rhs) {
  return rhs >= lhs;
}

}  // namespace sleipnir
