// Stand-in for sleipnir/autodiff/ExpressionType.hpp (see /verif/DESIGN.md).
#pragma once

#include <stdint.h>

namespace sleipnir {

enum class ExpressionType : uint8_t { kNone, kConstant, kLinear, kQuadratic, kNonlinear };

}  // namespace sleipnir
