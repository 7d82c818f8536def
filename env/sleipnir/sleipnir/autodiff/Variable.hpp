// Stand-in for sleipnir/autodiff/Variable.hpp.
#pragma once

#include <concepts>
#include <initializer_list>
#include <type_traits>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/Expression.hpp"

namespace sleipnir {

class Variable {
 public:
  Variable() : expr{detail::MakeLeaf(0.0)} {}
  Variable(double value) : expr{detail::MakeLeaf(value)} {}  // NOLINT
  Variable(int value) : expr{detail::MakeLeaf(value)} {}     // NOLINT
  explicit Variable(const detail::ExpressionPtr& e) : expr{e} {}
  explicit Variable(detail::ExpressionPtr&& e) : expr{std::move(e)} {}

  Variable& operator=(double value) {
    expr = detail::MakeLeaf(value);
    return *this;
  }

  void SetValue(double value) { expr->value = value; }

  double Value() const { return detail::Update(expr.get()); }
  void Update() { detail::Update(expr.get()); }
  ExpressionType Type() const { return detail::TypeOf(expr.get()); }

  friend Variable operator*(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kMul, l.expr, r.expr)};
  }
  friend Variable operator/(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kDiv, l.expr, r.expr)};
  }
  friend Variable operator+(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kAdd, l.expr, r.expr)};
  }
  friend Variable operator-(const Variable& l, const Variable& r) {
    return Variable{detail::MakeNode(detail::Op::kSub, l.expr, r.expr)};
  }
  friend Variable operator-(const Variable& l) {
    return Variable{detail::MakeNode(detail::Op::kNeg, l.expr)};
  }
  friend Variable operator+(const Variable& l) { return l; }

  Variable& operator*=(const Variable& r) { return *this = *this * r; }
  Variable& operator/=(const Variable& r) { return *this = *this / r; }
  Variable& operator+=(const Variable& r) { return *this = *this + r; }
  Variable& operator-=(const Variable& r) { return *this = *this - r; }

  detail::ExpressionPtr expr;
};

#define SLEIPNIR_ENV_UNARY(fn, op)                                 \
  inline Variable fn(const Variable& x) {                          \
    return Variable{detail::MakeNode(detail::Op::op, x.expr)};     \
  }
SLEIPNIR_ENV_UNARY(abs, kAbs)
SLEIPNIR_ENV_UNARY(acos, kAcos)
SLEIPNIR_ENV_UNARY(asin, kAsin)
SLEIPNIR_ENV_UNARY(atan, kAtan)
SLEIPNIR_ENV_UNARY(cos, kCos)
SLEIPNIR_ENV_UNARY(cosh, kCosh)
SLEIPNIR_ENV_UNARY(erf, kErf)
SLEIPNIR_ENV_UNARY(exp, kExp)
SLEIPNIR_ENV_UNARY(log, kLog)
SLEIPNIR_ENV_UNARY(log10, kLog10)
SLEIPNIR_ENV_UNARY(sign, kSign)
SLEIPNIR_ENV_UNARY(sin, kSin)
SLEIPNIR_ENV_UNARY(sinh, kSinh)
SLEIPNIR_ENV_UNARY(sqrt, kSqrt)
SLEIPNIR_ENV_UNARY(tan, kTan)
SLEIPNIR_ENV_UNARY(tanh, kTanh)
#undef SLEIPNIR_ENV_UNARY

inline Variable atan2(const Variable& y, const Variable& x) {
  return Variable{detail::MakeNode(detail::Op::kAtan2, y.expr, x.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y) {
  return Variable{detail::MakeNode(detail::Op::kHypot, x.expr, y.expr)};
}
inline Variable hypot(const Variable& x, const Variable& y, const Variable& z) {
  return sqrt(x * x + y * y + z * z);
}
inline Variable pow(const Variable& x, const Variable& y) {
  return Variable{detail::MakeNode(detail::Op::kPow, x.expr, y.expr)};
}

// (The constraint classes and comparison operators live in Variable.hpp in some
// versions of the real library and in Constraints.hpp in others: both headers
// provide them here.)

}  // namespace sleipnir

#include "sleipnir/autodiff/VariableMatrix.hpp"
#include "sleipnir/optimization/Constraints.hpp"
