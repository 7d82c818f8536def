#include "trajopt/geometry/Pose2.hpp"
trajopt::Pose2d a{1.0, 2.0, {3.0}};
trajopt::Pose2v b{sleipnir::Variable{1.0}, sleipnir::Variable{2.0}, {sleipnir::Variable{3.0}}};
