#include "trajopt/geometry/Pose2.hpp"
trajopt::Translation2v t{trajopt::Translation2d{1.0, 2.0}};
trajopt::Rotation2v r{trajopt::Rotation2d{0.5}};
trajopt::Pose2v p{trajopt::Pose2d{1.0, 2.0, {3.0}}};
