#include "trajopt/geometry/Pose2.hpp"
trajopt::Translation2v t{sleipnir::Variable{1.0}, sleipnir::Variable{2.0}};
trajopt::Translation2d u{1.0, 2.0};
trajopt::Rotation2v r{sleipnir::Variable{0.5}};
trajopt::Rotation2d s{0.5};
auto a = r.RotateBy(s);
auto b = s.RotateBy(r);
auto c = t.RotateBy(s);
auto d = u.RotateBy(r);
auto e = t + u;
auto f = u - t;
auto g = t.Dot(u);
auto h = u.Cross(t);
auto i = u.Distance(t);
auto j = t == u;
auto k = r == s;
