// C27: the solver can start: every derivative it needs at the starting point exists.
#define CHECK_DERIVATIVES
#include "checks/C24.cpp"

namespace {

void Further(Problem& p, const FieldMap& m, const std::string& what) {
  auto at = p.tape.Singularities();
  mc::count("outputs_judged", static_cast<int64_t>(p.tape.outputs()));
  for (auto& s : at) {
    bool known = false;
    if (!strcmp(s.op, "hypot") && s.a == 0 && s.b == 0 && s.output >= p.nEq && s.output < p.nEq + p.nIneq) {
      for (size_t i = 0; i < m.x.size() && !known; ++i) {
        if (s.vars != std::set<int>{m.x[i], m.y[i], m.c[i], m.s[i]}) continue;
        for (auto& q : g_pointAt) known |= p.init[m.x[i]] == q.first && p.init[m.y[i]] == q.second;
      }
    }
    if (known) {
      mc::known("point-at/robot-on-the-point", "%s: inequality constraint %zu has no derivative at the start: %s(%g, %g)", what.c_str(), s.output, s.op, s.a, s.b);
      continue;
    }
    mc::fail("%s: %s %zu has no finite derivative where the solver starts: %s(%g, %g)", what.c_str(),
             s.output < p.nEq ? "equality constraint" : s.output < p.nEq + p.nIneq ? "inequality constraint" : "the objective", s.output, s.op, s.a, s.b);
  }
}

// The guess puts a point of the robot exactly onto the point or line that the
// constraint or obstacle is about; or exactly beside it.
void Touching() {
  int kind = kPointAt + mc::choose(5, "constraint or obstacle");  // kKinds: an obstacle
  static const double where[][2] = {{0, 0}, {4, 4}, {5, 4}, {6, 4}, {4, 2}, {7, 4}, {3, 4}};
  auto& on = where[mc::choose(7, "place")];
  static const double points[][2] = {{0, 0}, {0.25, 0}, {0.5, 0.5}, {-0.5, 0.5}, {0, 0.5}};
  auto& at = points[mc::choose(5, "point of the robot")];
  static const double headings[][3] = {{0, 1, 0}, {std::numbers::pi / 2, 0, 1}, {std::numbers::pi, -1, 0}, {-std::numbers::pi / 2, 0, -1}};
  auto& h = headings[mc::choose(4, "heading")];
  int robot = mc::choose(3, "robot") * 2;
  size_t n = mc::flip("three intervals") ? 3 : 1;
  bool span = mc::flip("on the segment"), stay = mc::flip("the next guess is the same");
  double x = on[0] - (at[0] * h[1] - at[1] * h[2]), y = on[1] - (at[0] * h[2] + at[1] * h[1]);
  SwervePathBuilder b;
  auto d = Robot(robot);
  b.SetDrivetrain(d);
  b.WptInitialGuessPoint(0, {x, y, {h[0]}});
  b.WptInitialGuessPoint(1, {stay ? x : x + 1, stay ? y : y - 1, {h[0]}});
  b.ControlIntervalCounts({n});
  g_pointAt.clear();
  std::string name;
  if (kind == kKinds) {
    b.AddBumpers(Bumpers{0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
    Obstacle o{0.25, {{4, 4}, {6, 4}, {5, 7}}};
    if (span) b.SgmtObstacle(0, 1, o);
    else b.WptObstacle(0, o);
    name = "obstacle";
  } else {
    auto con = Usual(kind);
    if (span) b.SgmtConstraint(0, 1, con.Make());
    else b.WptConstraint(0, con.Make());
    if (kind == kPointAt) g_pointAt.assign(1, {con.a[0], con.a[1]});
    name = con.Text();
  }
  Check(b, {n}, d.modules.size(),
        mc::fmt("%s, %s %s, robot point (%g, %g) on (%g, %g), heading %g, %s", kRobots[robot], name.c_str(), span ? "on the segment" : "on the waypoint", at[0], at[1], on[0],
                on[1], h[0], Show({n}).c_str()));
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"layouts", Layouts, 4}, {"constraints", Constraints, 5}, {"magnitudes", Magnitudes, 3}, {"touching", Touching, 4}, {"obstacles", Obstacles, 5},
                               {"guess-points", Guesses, 5}, {"mixtures", Mixtures, 3}, {"company", Company, 4}});
}
