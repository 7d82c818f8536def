// Stand-in for sleipnir/autodiff/Expression.hpp: an expression graph with
// intrusive, NON-atomic reference counts and reference semantics, like the real
// library's.
#pragma once

#include <stddef.h>
#include <stdint.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <numbers>
#include <numeric>
#include <span>
#include <string>
#include <utility>
#include <vector>

#include "sleipnir/autodiff/ExpressionType.hpp"

namespace sleipnir::detail {

enum class Op : uint8_t {
  kConst, kVar, kAdd, kSub, kMul, kDiv, kNeg, kAbs, kAcos, kAsin, kAtan, kAtan2, kCos, kCosh,
  kErf, kExp, kHypot, kLog, kLog10, kPow, kSign, kSin, kSinh, kSqrt, kTan, kTanh
};

struct Expression;

inline void IncRef(Expression* e);
inline void DecRef(Expression* e);

class ExpressionPtr {
 public:
  ExpressionPtr() = default;
  ExpressionPtr(std::nullptr_t) {}  // NOLINT
  explicit ExpressionPtr(Expression* e) : m_ptr{e} { IncRef(m_ptr); }
  ExpressionPtr(const ExpressionPtr& o) : m_ptr{o.m_ptr} { IncRef(m_ptr); }
  ExpressionPtr(ExpressionPtr&& o) noexcept : m_ptr{std::exchange(o.m_ptr, nullptr)} {}
  ExpressionPtr& operator=(const ExpressionPtr& o) {
    if (this != &o) {
      IncRef(o.m_ptr);
      DecRef(m_ptr);
      m_ptr = o.m_ptr;
    }
    return *this;
  }
  ExpressionPtr& operator=(ExpressionPtr&& o) noexcept {
    std::swap(m_ptr, o.m_ptr);
    return *this;
  }
  ~ExpressionPtr() { DecRef(m_ptr); }
  Expression* get() const { return m_ptr; }
  Expression& operator*() const { return *m_ptr; }
  Expression* operator->() const { return m_ptr; }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool operator==(std::nullptr_t) const { return m_ptr == nullptr; }

 private:
  Expression* m_ptr = nullptr;
};

struct Expression {
  double value = 0.0;
  Op op = Op::kConst;
  int32_t id = -1;  // decision variable number within its problem
  uint32_t refCount = 0;
  ExpressionPtr lhs;
  ExpressionPtr rhs;
};

inline void IncRef(Expression* e) {
  if (e != nullptr) {
    ++e->refCount;
  }
}

inline void DecRef(Expression* e) {
  if (e != nullptr && --e->refCount == 0) {
    delete e;
  }
}

inline double Sign(double x) {
  return x < 0.0 ? -1.0 : (x == 0.0 ? 0.0 : 1.0);
}

inline double Apply(Op op, double a, double b) {
  switch (op) {
    case Op::kAdd: return a + b;
    case Op::kSub: return a - b;
    case Op::kMul: return a * b;
    case Op::kDiv: return a / b;
    case Op::kNeg: return -a;
    case Op::kAbs: return std::abs(a);
    case Op::kAcos: return std::acos(a);
    case Op::kAsin: return std::asin(a);
    case Op::kAtan: return std::atan(a);
    case Op::kAtan2: return std::atan2(a, b);
    case Op::kCos: return std::cos(a);
    case Op::kCosh: return std::cosh(a);
    case Op::kErf: return std::erf(a);
    case Op::kExp: return std::exp(a);
    case Op::kHypot: return std::hypot(a, b);
    case Op::kLog: return std::log(a);
    case Op::kLog10: return std::log10(a);
    case Op::kPow: return std::pow(a, b);
    case Op::kSign: return Sign(a);
    case Op::kSin: return std::sin(a);
    case Op::kSinh: return std::sinh(a);
    case Op::kSqrt: return std::sqrt(a);
    case Op::kTan: return std::tan(a);
    case Op::kTanh: return std::tanh(a);
    default: return a;
  }
}

inline ExpressionPtr MakeLeaf(double value, Op op = Op::kConst) {
  auto* e = new Expression;
  e->value = value;
  e->op = op;
  return ExpressionPtr{e};
}

inline ExpressionPtr MakeNode(Op op, const ExpressionPtr& l, const ExpressionPtr& r = {}) {
  auto* e = new Expression;
  e->op = op;
  e->lhs = l;
  e->rhs = r;
  e->value = Apply(op, l->value, r ? r->value : 0.0);
  return ExpressionPtr{e};
}

// Re-evaluates the graph, storing into the nodes, as the real library does.
inline double Update(Expression* e) {
  if (e->op == Op::kConst || e->op == Op::kVar) {
    return e->value;
  }
  double l = Update(e->lhs.get());
  double r = e->rhs ? Update(e->rhs.get()) : 0.0;
  e->value = Apply(e->op, l, r);
  return e->value;
}

inline ExpressionType TypeOf(const Expression* e) {
  using enum ExpressionType;
  if (e == nullptr) return kNone;
  if (e->op == Op::kConst) return kConstant;
  if (e->op == Op::kVar) return kLinear;
  auto l = TypeOf(e->lhs.get());
  auto r = e->rhs ? TypeOf(e->rhs.get()) : kConstant;
  switch (e->op) {
    case Op::kAdd:
    case Op::kSub:
    case Op::kNeg:
      return std::max(l, r);
    case Op::kMul:
      if (l == kConstant) return r;
      if (r == kConstant) return l;
      if (l == kLinear && r == kLinear) return kQuadratic;
      return kNonlinear;
    case Op::kDiv:
      return r == kConstant ? l : kNonlinear;
    default:
      return l == kConstant && r == kConstant ? kConstant : kNonlinear;
  }
}

}  // namespace sleipnir::detail
