#pragma once
#include "sleipnir/autodiff/VariableMatrix.hpp"
