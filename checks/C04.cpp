// C04: obstacle constraints keep every bumper clear of every obstacle edge.
#include "checks/constraints.hpp"
#include "trajopt/obstacle/Obstacle.hpp"

namespace {

using namespace tp;
using trajopt::Obstacle;
struct Pt {
  double x, y;
};
struct Shape {
  double safety;
  std::vector<Pt> p;
  Obstacle Make() const {
    Obstacle o;
    o.safetyDistance = safety;
    for (auto& q : p) o.points.push_back({q.x, q.y});
    return o;
  }
};
const Shape kBumpers[] = {
    {0.1, {{0.3, -0.1}}},
    {0.15, {{0.5, 0.2}, {-0.4, 0.1}}},
    {0.05, {{0.6, 0}, {-0.3, 0.4}, {-0.3, -0.5}}},
    {0.1, {{0.5, 0.4}, {-0.5, 0.4}, {-0.5, -0.4}, {0.5, -0.4}}},
    {0.0, {{0.6, 0}, {0.2, 0.5}, {-0.5, 0.3}, {-0.5, -0.3}, {0.2, -0.5}}},
    {0.25, {{-0.7, 0.0}}},
    // as many corners and as much distance as others, elsewhere
    {0.1, {{-0.6, 0.35}}},
    {0.1, {{0.9, 0.4}, {0.6, 0.4}, {0.6, -0.4}, {0.9, -0.4}}},
    {0.15, {{-0.4, 0.1}, {-0.5, -0.6}}},
};
const Shape kObstacles[] = {
    {0.3, {{1.1, 0.4}}},
    {0.2, {{1.0, 0.5}, {0.2, 1.3}}},
    {0.1, {{1.3, 0.2}, {2.5, 0.4}, {1.6, 1.9}}},
    {0.25, {{0.9, -0.6}, {0.9, -1.8}, {2.3, -1.8}, {2.3, -0.6}}},
    {0.05, {{-1.0, 0.3}, {-0.8, 1.2}, {-1.6, 1.9}, {-2.6, 1.1}, {-2.0, 0.2}}},
    {0.15, {{2.2, -0.4}, {3.4, -0.2}, {3.9, 0.8}, {3.3, 1.6}, {2.4, 1.4}, {1.9, 0.4}}},
    {0.3, {{-1.3, 0.9}}},
    {0.25, {{0.9, 0.6}, {0.9, 1.8}, {-0.3, 1.8}, {-0.3, 0.6}}},
};

/// How far the pose is from being clear; <= 0: clear.
double Miss(const Shape& b, const Shape& o, const Sample& q) {
  std::vector<Pt> w;
  for (auto& p : b.p) w.push_back({q.x + p.x * q.c - p.y * q.s, q.y + p.x * q.s + p.y * q.c});
  double d = INFINITY;
  auto edges = [&](const std::vector<Pt>& a, const std::vector<Pt>& corners) {
    size_t n = a.size();
    for (auto& c : corners) {
      if (n == 1) {
        d = std::min(d, hypot(a[0].x - c.x, a[0].y - c.y));
        continue;
      }
      for (size_t i = 0; i < (n == 2 ? 1 : n); ++i) {
        auto &u = a[i], &v = a[(i + 1) % n];
        d = std::min(d, Con::SegDist(u.x, u.y, v.x, v.y, c.x, c.y));
      }
    }
  };
  edges(w, o.p);
  edges(o.p, w);
  return b.safety + o.safety - d;
}
double Miss(const std::vector<int>& bs, const std::vector<int>& os, const Sample& q) {
  double m = -INFINITY;
  for (int b : bs)
    for (int o : os) m = std::max(m, Miss(kBumpers[b], kObstacles[o], q));
  return m;
}

Sample Pose(double x, double y, double th) {
  Sample s;
  s.x = x;
  s.y = y;
  s.c = cos(th);
  s.s = sin(th);
  return s;
}

const std::vector<int> kSets[] = {{0},    {1},    {2},    {3},    {4},       {0, 5},    {0, 3},   {3, 0},
                                  {2, 1}, {5, 2}, {3, 4}, {1, 0}, {0, 5, 3}, {3, 0, 2}, {0, 0, 4}, {0, 6}, {3, 7}, {8, 1}, {6, 3, 0}};
const std::vector<int> kObstacleSets[] = {{0}, {1}, {2}, {3}, {4}, {5}, {0, 3}, {2, 0}, {4, 1}, {3, 2, 0}, {0, 6}, {3, 7}};

// The robot rests at a pose: it must be admitted exactly if it is clear.
void Poses() {
  static const std::vector<int> few[] = {{3}, {1}, {0, 3}};
  auto& bs = company > 0 ? mc::pick(few, "bumpers") : mc::pick(kSets, "bumpers");
  auto& os = company > 0 ? mc::pick(few, "obstacles") : mc::pick(kObstacleSets, "obstacles");
  int form = mc::choose(2, "obstacle on waypoint / span");
  std::vector<size_t> N{1};
  SwerveDrivetrain d = Drive(3);
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    for (int i : bs) pb.AddBumpers(kBumpers[i].Make());
    for (int i : os) {
      if (form == 0) pb.WptObstacle(1, kObstacles[i].Make());
      else pb.SgmtObstacle(0, 1, kObstacles[i].Make());
    }
  });
  std::vector<double> v;
  auto probe = [&](double x, double y, double th) {
    Traj t;
    t.dt = {0.03};
    t.p = {Pose(x, y, th), Pose(x, y, th)};
    for (auto& q : t.p) SolveForces(d, q);
    Assign(t, b.m, N, b.p.init, v);
    double miss = Miss(bs, os, t.p[1]);
    Compare(b.p, v, Viol(miss), mc::fmt("robot at rest at (%.4f, %.4f) heading %.2f", x, y, th).c_str());
    mc::state(mc::Hash{}.add(x).add(y).add(th).add(static_cast<uint64_t>((bs.size() * 20 + static_cast<size_t>(bs[0])) * 1000 + os.size() * 20 + static_cast<size_t>(os.back()))).add(static_cast<uint64_t>(form)));
  };
  double step = mc::thorough() ? 0.2 : 0.75;
  int headings = company > 0 ? 1 : mc::thorough() ? 12 : 5;
  for (int k = 0; k < headings; ++k) {
    double th = 0.3 + 2 * std::numbers::pi * k / headings;
    for (double x = -3; x <= 4.2; x += step)
      for (double y = -3; y <= 3; y += step) probe(x, y, th);
    // rays towards the obstacle: both sides of the boundary
    int rays = mc::thorough() ? 48 : 12;
    for (int r = 0; r < rays; ++r) {
      double a = 2 * std::numbers::pi * r / rays + 0.1;
      for (int o : os) {
        double cx = 0, cy = 0;
        for (auto& p : kObstacles[o].p) {
          cx += p.x / static_cast<double>(kObstacles[o].p.size());
          cy += p.y / static_cast<double>(kObstacles[o].p.size());
        }
        auto miss = [&](double t) { return Miss(bs, os, Pose(cx + t * cos(a), cy + t * sin(a), th)); };
        double hi = 8, lo = 0;
        if (miss(hi) > 0) continue;
        while (hi > 0.02 && miss(hi - 0.02) <= 0) hi -= 0.02;
        if (hi <= 0.02) continue;
        lo = hi - 0.02;
        for (int it = 0; it < 40; ++it) {
          double mid = (lo + hi) / 2;
          (miss(mid) > 0 ? lo : hi) = mid;
        }
        for (double e : {-0.02, -0.003, 0.001, 0.02}) probe(cx + (hi + e) * cos(a), cy + (hi + e) * sin(a), th);
      }
    }
  }
}

// The same at other places of the field and in other sizes, with guesses near or
// far, known before or after the obstacle.
void Places() {
  static const Pt offsets[] = {{0, 0}, {120, -80}, {-2000, 35}, {-0.5, 400}};
  int oi = mc::choose(4, "place");
  auto off = offsets[oi];
  double scale = mc::pick({1.0, 0.05, 30.0}, "size");
  static const std::vector<int> bumpers[] = {{0}, {1}, {3}, {5, 2}}, obstacles[] = {{0}, {1}, {3}, {4, 1}};
  int bi = mc::choose(4, "bumpers"), ki = mc::choose(4, "obstacles");
  int form = mc::choose(2, "obstacle on waypoint / span");
  int guess = mc::choose(4, "guesses at the origin / at the obstacle / there after the obstacle is added / inner ones");
  auto scaled = [&](const Shape& s, bool placed) {
    Shape r{s.safety * scale, {}};
    for (auto& p : s.p) r.p.push_back({p.x * scale + (placed ? off.x : 0), p.y * scale + (placed ? off.y : 0)});
    return r;
  };
  std::vector<Shape> bs, os;
  for (int i : bumpers[bi]) bs.push_back(scaled(kBumpers[i], false));
  for (int i : obstacles[ki]) os.push_back(scaled(kObstacles[i], true));
  std::vector<size_t> N{1};
  SwerveDrivetrain d = Drive(3);
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    auto pose = [&] {
      pb.WptInitialGuessPoint(0, {off.x, off.y, {0.5}});
      pb.WptInitialGuessPoint(1, {off.x + 0.5, off.y, {0.5}});
    };
    if (guess == 1) pose();
    if (guess == 3) pb.SgmtInitialGuessPoints(0, {{off.x, off.y, {1.0}}, {0.0, 0.0, {0.0}}});
    for (auto& s : bs) pb.AddBumpers(s.Make());
    for (auto& s : os) {
      if (form == 0) pb.WptObstacle(1, s.Make());
      else pb.SgmtObstacle(0, 1, s.Make());
    }
    if (guess == 2) pose();
  });
  auto missAt = [&](const Sample& q) {
    double m = -INFINITY;
    for (auto& x : bs)
      for (auto& o : os) m = std::max(m, Miss(x, o, q));
    return m;
  };
  std::vector<double> v;
  auto probe = [&](double x, double y, double th) {
    Traj t;
    t.dt = {0.03};
    t.p = {Pose(x, y, th), Pose(x, y, th)};
    for (auto& q : t.p) SolveForces(d, q);
    Assign(t, b.m, N, b.p.init, v);
    double miss = missAt(t.p[1]);
    Compare(b.p, v, miss <= 1e-7 * scale ? 0 : miss, mc::fmt("robot at rest at (%.4f, %.4f) heading %.2f, size %g", x, y, th, scale).c_str());
    mc::state(mc::Hash{}.add(x).add(y).add(th).add(static_cast<uint64_t>(((oi * 4 + bi) * 4 + ki) * 8 + form * 4 + guess)).add(scale));
  };
  int headings = mc::thorough() ? 6 : 2, rays = mc::thorough() ? 24 : 6;
  for (int k = 0; k < headings; ++k) {
    double th = 0.3 + 2 * std::numbers::pi * k / headings;
    for (int r = 0; r < rays; ++r) {
      double a = 2 * std::numbers::pi * r / rays + 0.1;
      for (auto& o : os) {
        double cx = 0, cy = 0;
        for (auto& p : o.p) {
          cx += p.x / static_cast<double>(o.p.size());
          cy += p.y / static_cast<double>(o.p.size());
        }
        probe(cx, cy, th);
        auto miss = [&](double t) { return missAt(Pose(cx + t * scale * cos(a), cy + t * scale * sin(a), th)); };
        double hi = 8;
        if (miss(hi) > 0) continue;
        while (hi > 0.02 && miss(hi - 0.02) <= 0) hi -= 0.02;
        if (hi <= 0.02) continue;
        double lo = hi - 0.02;
        for (int it = 0; it < 40; ++it) {
          double mid = (lo + hi) / 2;
          (miss(mid) > 0 ? lo : hi) = mid;
        }
        for (double e : {-0.02, -0.003, 0.001, 0.02, 5.0}) {
          double at = (hi + e) * scale;
          probe(cx + at * cos(a), cy + at * sin(a), th);
        }
      }
    }
  }
}

// Shapes and sizes of every kind: many corners, corners millimetres apart,
// slivers, edges along the axes, no distance to keep, many bumpers, many obstacles.
constexpr int kShapeKinds = 14;
Shape Special(int kind, double size, Pt at, double safety) {
  Shape r{safety * size, {}};
  auto add = [&](double x, double y) { r.p.push_back({at.x + x * size, at.y + y * size}); };
  auto ring = [&](int n) {
    for (int i = 0; i < n; ++i) {
      double a = 2 * std::numbers::pi * (i + 0.25) / n;
      add(0.8 * cos(a), 0.6 * sin(a));
    }
  };
  switch (kind) {
    case 0: add(0, 0); break;
    case 1: add(0.5, 0), add(-0.5, 0); break;
    case 2: add(0, 0.5), add(0, -0.5); break;
    case 3: add(0.5, 0.5), add(-0.5, -0.5); break;
    case 4: add(0.004, 0.002), add(-0.002, -0.001); break;                               // hardly two corners
    case 5: add(0.5, 0.5), add(0.5, 0.4968), add(-0.5, -0.5); break;                     // a cut-off corner
    case 6: add(0.8, 0.0), add(0.8, 0.003), add(-0.8, 0.003), add(-0.8, 0.0); break;     // a sliver
    case 7: add(0.002, 0.5), add(0.002, -0.5), add(0.0, -0.5), add(0.0, 0.5); break;     // the other way round
    case 8: add(0.6, 0), add(0.1, 0.1), add(0, 0.6), add(-0.1, 0.1), add(-0.6, 0), add(-0.1, -0.1), add(0, -0.6), add(0.1, -0.1); break;
    case 9: ring(17); break;
    case 10: ring(40); break;
    case 11: ring(70); break;
    case 12: ring(140); break;
    case 13: ring(300); break;
    // with notches
    case 14: add(-1, -1), add(1, -1), add(1, 1), add(0.6, 1), add(0.6, -0.8), add(-0.6, -0.8), add(-0.6, 1), add(-1, 1); break;
    case 15: add(-0.8, -0.5), add(0.8, 0.5), add(0.8, -0.5), add(-0.8, 0.5); break;  // crosses itself
    case 16: add(1, -1), add(0.2, 0.9), add(0, -0.7), add(-0.2, 0.9), add(-1, -1), add(-0.2, -0.75), add(0.2, -0.75); break;
    case 17: add(0.9, 0), add(-0.9, 0.7), add(-0.3, 0), add(-0.9, -0.7); break;  // an arrowhead
    default: add(0.15, 0.15), add(-0.15, 0.15), add(-0.15, -0.15), add(0.15, -0.15);
  }
  return r;
}
void Among(int ok, int bk, double size, int form, int crowd, double safety);
void Shapes() {
  int ok = mc::choose(kShapeKinds, "shape of the obstacle"), bk = mc::choose(kShapeKinds, "shape of the bumper");
  if (bk >= 9 && ok >= 9 && (bk > 9 || ok > 9)) throw mc::Prune{};
  if ((bk >= 11 || ok >= 11) && ((bk >= 5 && bk <= 8) || (ok >= 5 && ok <= 8))) throw mc::Prune{};
  double size = mc::thorough() ? mc::pick({1.0, 0.01, 4.0, 150.0}, "size") : mc::pick({1.0, 0.01}, "size");
  int form = mc::choose(2, "obstacle on waypoint / span");
  int crowd = mc::choose(3, "alone / one of 20 bumpers / one of 20 obstacles");
  double safety = mc::pick({0.0, 0.3}, "distance to keep");
  if (crowd && (size != 1.0 || bk > 6 || ok > 6)) throw mc::Prune{};
  if ((bk > 9 || ok > 9) && (size != 1.0 || safety == 0)) throw mc::Prune{};
  if (!mc::thorough() && (bk == 8 || bk == 12 || ok == 8 || ok == 11)) throw mc::Prune{};
  Among(ok, bk, size, form, crowd, safety);
}
void Notches() {
  static const int kinds[] = {14, 15, 16, 17, 8, 18, 0, 1};
  int ok = mc::pick(kinds, "shape of the obstacle"), bk = mc::pick(kinds, "shape of the bumper");
  if ((ok == 18 || ok < 2) && (bk == 18 || bk < 2)) throw mc::Prune{};
  if (!mc::thorough() && ok != 18 && ok > 1 && bk != 18 && bk > 1 && ok != bk) throw mc::Prune{};
  Among(ok, bk, mc::pick({1.0, 0.05}, "size"), mc::choose(2, "obstacle on waypoint / span"), 0, mc::pick({0.0, 0.15}, "distance to keep"));
}
void Among(int ok, int bk, double size, int form, int crowd, double safety) {
  std::vector<Shape> bs, os;
  Pt at{1.5, -0.75};
  if (crowd == 1)
    for (int i = 0; i < 19; ++i) bs.push_back(Special(i % 5, 0.1, {0.01 * i, 0.3 - 0.02 * i}, safety * i));
  bs.push_back(Special(bk, size, {0.0, 0.0}, safety / 3));
  if (crowd == 2)
    for (int i = 0; i < 19; ++i) os.push_back(Special(i % 5, 0.1, {at.x + 4 + 0.1 * i, at.y}, safety));
  os.push_back(Special(ok, size, at, safety));
  std::vector<size_t> N{1};
  SwerveDrivetrain d = Drive(3);
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    for (auto& s : bs) pb.AddBumpers(s.Make());
    for (auto& s : os) {
      if (form == 0) pb.WptObstacle(1, s.Make());
      else pb.SgmtObstacle(0, 1, s.Make());
    }
  });
  auto missAt = [&](const Sample& q) {
    double m = -INFINITY;
    for (auto& x : bs)
      for (auto& o : os) m = std::max(m, Miss(x, o, q));
    return m;
  };
  std::vector<double> v;
  auto probe = [&](double x, double y, double th) {
    Traj t;
    t.dt = {0.03};
    t.p = {Pose(x, y, th), Pose(x, y, th)};
    for (auto& q : t.p) SolveForces(d, q);
    Assign(t, b.m, N, b.p.init, v);
    double miss = missAt(t.p[1]);
    Compare(b.p, v, miss <= 1e-7 * size ? 0 : miss, mc::fmt("robot at rest at (%.4f, %.4f) heading %.2f, size %g", x, y, th, size).c_str());
    mc::state(mc::Hash{}.add(x).add(y).add(th).add(static_cast<uint64_t>(((ok * 32 + bk) * 2 + form) * 3 + crowd)).add(size).add(safety));
  };
  bool big = (bk > 9 && bk < 14) || (ok > 9 && ok < 14);
  int headings = mc::thorough() ? 5 : 2;
  static const double th5[] = {0.0, 2.1, 1.5707963267948966, -0.8, 3.14159265358979};
  // every corner of the one against every corner of the other, just touching and just not
  auto& bp = bs.back().p;
  auto& op = os.back().p;
  for (int k = 0; k < headings; ++k) {
    double th = th5[k];
    size_t si = op.size() > 40 ? 7 : 1, sj = bp.size() > 40 ? 7 : 1;
    if (op.size() > 8 && bp.size() > 8) si = sj = 2;
    for (size_t i = 0; i < op.size(); i += si)
      for (size_t j = 0; j < bp.size(); j += sj) {
        // the bumper's corner outside the obstacle's, away from its middle
        double dx = op[i].x - at.x, dy = op[i].y - at.y;
        double len = hypot(dx, dy);
        if (len < 1e-9) dx = 0.6, dy = -0.8, len = 1;
        double keep = bs.back().safety + os.back().safety;
        for (double e : {-0.03, 0.03}) {
          double r = keep + e * size;
          double wx = op[i].x + r * dx / len, wy = op[i].y + r * dy / len;
          probe(wx - bp[j].x * cos(th) + bp[j].y * sin(th), wy - bp[j].x * sin(th) - bp[j].y * cos(th), th);
        }
        if (big) continue;
        // and on each edge of the obstacle
        auto& n = op[(i + 1) % op.size()];
        double mx = (op[i].x + n.x) / 2, my = (op[i].y + n.y) / 2;
        double ex = n.y - op[i].y, ey = op[i].x - n.x, el = hypot(ex, ey);
        if (el < 1e-9) continue;
        for (double sg : {1.0, -1.0})
          for (double e : {-0.03, 0.03}) {
            double r = sg * (keep + e * size);
            double wx = mx + r * ex / el, wy = my + r * ey / el;
            probe(wx - bp[j].x * cos(th) + bp[j].y * sin(th), wy - bp[j].x * sin(th) - bp[j].y * cos(th), th);
          }
      }
  }
}

// The ends of an edge, and the stretches next to them: a single corner passes a
// long or short edge, open at both ends, just touching and just not.
void Ends() {
  double L = mc::pick({100.0, 1.0, 0.01}, "length of the edge");
  double at = mc::pick({0.3, 1.9, -2.4}, "direction of the edge");
  double keep = mc::pick({0.05, 0.3, 0.0}, "distance to keep");
  int who = mc::choose(2, "edge of the obstacle / of the bumper");
  int form = mc::choose(2, "obstacle on waypoint / span");
  double cx = cos(at), cy = sin(at);
  Shape edge{keep * 0.75, {{0.5 - L * 0.25 * cx, -0.25 - L * 0.25 * cy}, {0.5 + L * 0.75 * cx, -0.25 + L * 0.75 * cy}}};
  Shape point{keep * 0.25, {{0.0, 0.0}}};
  std::vector<size_t> N{1};
  SwerveDrivetrain d = Drive(3);
  auto& obs = who == 0 ? edge : point;
  auto& bump = who == 0 ? point : edge;
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    pb.AddBumpers(bump.Make());
    if (form == 0) pb.WptObstacle(1, obs.Make());
    else pb.SgmtObstacle(0, 1, obs.Make());
  });
  std::vector<double> v;
  for (double u : {-0.3, -0.001, 0.0, 1e-4, 0.001, 0.004, 0.02, 0.5, 0.98, 0.996, 0.999, 0.9999, 1.0, 1.001, 1.3})
    for (double way : {0.0, 0.7, 1.5707963267948966, 2.4, 3.14159265358979, -0.7, -1.5707963267948966, -2.4})
      for (double e : {-0.003, 0.003, -0.03, 0.03}) {
        // a point beside the edge (or beyond an end of it)
        double r = keep + e, a = at + way;
        double px = edge.p[0].x + u * L * cx + r * cos(a), py = edge.p[0].y + u * L * cy + r * sin(a);
        for (double th : {0.0, 2.1}) {
          Traj t;
          t.dt = {0.03};
          // (where the edge is the bumper, the robot is where that point is the obstacle's)
          double x = who == 0 ? px : -(px * cos(th) - py * sin(th)), y = who == 0 ? py : -(px * sin(th) + py * cos(th));
          t.p = {Pose(x, y, th), Pose(x, y, th)};
          for (auto& q : t.p) SolveForces(d, q);
          Assign(t, b.m, N, b.p.init, v);
          double miss = Miss(bump, obs, t.p[1]);
          Compare(b.p, v, miss <= 0 ? 0 : miss, mc::fmt("edge of %g, corner passes it at %g of its length, %g from touching", L, u, e).c_str());
          mc::state(mc::Hash{}.add(L).add(at).add(keep).add((uint64_t)who).add((uint64_t)form).add(u).add(way).add(e).add(th));
        }
      }
}

// Which samples an obstacle covers: the robot dips into the obstacle at any one
// sample and is clear at all others.
void Coverage() {
  static const std::vector<size_t> layouts[] = {{1}, {2}, {2, 1}, {1, 3}, {1, 1, 2}, {3, 2, 1}};
  auto& N = mc::pick(layouts, "interval counts");
  size_t wpts = N.size() + 1;
  int form = mc::choose(2, "waypoint / span");
  size_t from = static_cast<size_t>(mc::choose(static_cast<int>(form == 0 ? wpts : wpts - 1), "from"));
  size_t to = form == 0 ? from : from + 1 + static_cast<size_t>(mc::choose(static_cast<int>(wpts - 1 - from), "to - from - 1"));
  static const std::vector<int> sets[] = {{0}, {3}, {1}, {0, 5}, {2, 0}};
  static const std::vector<int> obst[] = {{0}, {1}, {2}, {3}};
  auto& bs = mc::pick(sets, "bumpers");
  auto& os = mc::pick(obst, "obstacles");
  if (company > 0 && (N.size() < 2 || &bs == sets || &bs == sets + 2 || &os < obst + 2)) throw mc::Prune{};
  SwerveDrivetrain d{10, 3, {SwerveModule{{50, 50}, 0.5, 2000, 1e7}, SwerveModule{{-50, -50}, 0.5, 2000, 1e7}}};
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    for (int i : bs) pb.AddBumpers(kBumpers[i].Make());
    for (int i : os) {
      if (form == 0) pb.WptObstacle(from, kObstacles[i].Make());
      else pb.SgmtObstacle(from, to, kObstacles[i].Make());
    }
  });
  size_t first = SampleOfWpt(N, from), last = SampleOfWpt(N, to);
  size_t total = SampleOfWpt(N, wpts - 1) + 1;
  std::vector<double> v;
  // the first corner of the first bumper almost meets the first obstacle corner
  auto& bc = kBumpers[bs[0]].p[0];
  double cx = kObstacles[os[0]].p[0].x - bc.x * cos(0.4) + bc.y * sin(0.4);
  double cy = kObstacles[os[0]].p[0].y - bc.x * sin(0.4) - bc.y * cos(0.4);
  for (size_t dip = 0; dip <= total; ++dip) {
    Traj t;
    t.dt.assign(N.size(), 0.05);
    t.p.resize(total);
    std::vector<double> th(total, 0.4);
    for (size_t i = 0; i < total; ++i) {
      t.p[i] = Pose(cx - 0.03, cy + (i == dip ? 0.02 : -6.0), 0.4);
    }
    MC_CHECK(FromPoses(t, th, N, d), "harness: no forces");
    MC_CHECK(WithinLimits(t, d), "harness: the trajectory exceeds the limits of the robot");
    Assign(t, b.m, N, b.p.init, v);
    bool covered = dip < total && dip >= first && dip <= last;
    double miss = -1;
    for (size_t i = 0; i < total; ++i)
      if (i >= first && i <= last) miss = std::max(miss, Miss(bs, os, t.p[i]));
    MC_CHECK((miss > 0) == covered, "harness: the dip is not a dip");
    Compare(b.p, v, Viol(miss),
            mc::fmt("obstacle on waypoints %zu..%zu of %s, robot inside it at sample %zu only", from, to, Show(N).c_str(), dip).c_str());
    mc::state(mc::Hash{}.add(static_cast<uint64_t>(&N - layouts)).add(from * 64 + to).add(dip).add(static_cast<uint64_t>(&bs - sets) * 8 + static_cast<uint64_t>(&os - obst)).add(static_cast<uint64_t>(form)));
  }
}

// Every part of the obstacle counts at every sample of the span: the robot is
// near the boundary of the clear region at one sample only, and far off at all others.
void Inside() {
  static const std::vector<size_t> layouts[] = {{2}, {1, 1}, {2, 2}, {3}, {1, 2, 1}};
  auto& N = mc::pick(layouts, "interval counts");
  size_t wpts = N.size() + 1, total = SampleOfWpt(N, wpts - 1) + 1;
  int form = mc::choose(2, "span / all its waypoints");
  size_t at = static_cast<size_t>(mc::choose(static_cast<int>(total), "sample"));
  bool covered = form == 0;
  for (size_t w = 0; w < wpts; ++w) covered = covered || SampleOfWpt(N, w) == at;
  static const std::vector<int> few[] = {{2}, {3}, {4}, {1, 3}, {3, 2}}, fewObstacles[] = {{1}, {2}, {3}, {4}, {0, 5}};
  auto& bs = mc::pick(few, "bumpers");
  auto& os = mc::pick(fewObstacles, "obstacles");
  SwerveDrivetrain d{10, 3, {SwerveModule{{50, 50}, 0.5, 2000, 1e7}, SwerveModule{{-50, -50}, 0.5, 2000, 1e7}}};
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    for (int i : bs) pb.AddBumpers(kBumpers[i].Make());
    for (int i : os) {
      if (form == 0) pb.SgmtObstacle(0, wpts - 1, kObstacles[i].Make());
      for (size_t w = 0; w < wpts && form == 1; ++w) pb.WptObstacle(w, kObstacles[i].Make());
    }
  });
  MC_LOG("%s of %s, sample %zu", form == 0 ? "span" : "waypoints", Show(N).c_str(), at);
  std::vector<double> v;
  auto probe = [&](double x, double y, double th) {
    Traj t;
    t.dt.assign(N.size(), 0.05);
    t.p.resize(total);
    std::vector<double> ths(total, th);
    for (size_t i = 0; i < total; ++i) t.p[i] = Pose(i == at ? x : -15.0, i == at ? y : -14.0, th);
    MC_CHECK(FromPoses(t, ths, N, d) && WithinLimits(t, d), "harness: the trajectory exceeds the limits of the robot");
    Assign(t, b.m, N, b.p.init, v);
    double miss = covered ? Miss(bs, os, t.p[at]) : -1;
    Compare(b.p, v, Viol(miss), mc::fmt("robot at (%.4f, %.4f) heading %.2f at sample %zu only, of %s", x, y, th, at, Show(N).c_str()).c_str());
    mc::state(mc::Hash{}.add(x).add(y).add(th).add(static_cast<uint64_t>(&N - layouts)).add(at).add(static_cast<uint64_t>(form)).add(static_cast<uint64_t>((&bs - few) * 5 + (&os - fewObstacles))));
  };
  int headings = mc::thorough() ? 4 : 1, rays = mc::thorough() ? 36 : 14;
  for (int k = 0; k < headings; ++k) {
    double th = 0.3 + 1.7 * k;
    for (int o : os) {
      double cx = 0, cy = 0;
      for (auto& p : kObstacles[o].p) {
        cx += p.x / static_cast<double>(kObstacles[o].p.size());
        cy += p.y / static_cast<double>(kObstacles[o].p.size());
      }
      for (int r = 0; r < rays; ++r) {
        double a = 2 * std::numbers::pi * r / rays + 0.1;
        auto miss = [&](double t) { return Miss(bs, os, Pose(cx + t * cos(a), cy + t * sin(a), th)); };
        double hi = 8;
        if (miss(hi) > 0) continue;
        while (hi > 0.05 && miss(hi - 0.05) <= 0) hi -= 0.05;
        if (hi <= 0.05) continue;
        double lo = hi - 0.05;
        for (int it = 0; it < 30; ++it) {
          double mid = (lo + hi) / 2;
          (miss(mid) > 0 ? lo : hi) = mid;
        }
        for (double e : {-0.01, 0.001}) probe(cx + (hi + e) * cos(a), cy + (hi + e) * sin(a), th);
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"poses", Poses, 3}, {"places", Places, 3}, {"shapes", Shapes, 3}, {"notches", Notches, 3}, {"ends", Ends, 3}, {"coverage", Coverage, 4}, {"inside", Inside, 4}, {"company", [] { InCompany([] { mc::choose(2, "poses / coverage") == 0 ? Poses() : Coverage(); }); }, 4}});
}
