// C05: admitted trajectories obey rigid-body kinematics and dynamics.
#include "checks/common.hpp"

using namespace tp;
using std::vector;

static const vector<vector<size_t>> kLayouts{{1}, {2}, {1, 1}, {2, 1}, {1, 2}, {1, 1, 1}, {3}, {2, 2}, {1, 3, 1}};

struct Cache {
  int key = -1;
  Built b;
};

static void Judge(Built& b, const Traj& t, const vector<size_t>& N, const SwerveDrivetrain& d, vector<double>& v,
                  const char* what) {
  bool antipode = false;
  double viol = std::max(KinematicsViolation(t, N, &antipode), DynamicsViolation(t, d));
  if (antipode) {
    mc::count("antipodal_headings_not_judged");
    return;
  }
  if (!WithinLimits(t, d)) {
    mc::count("beyond_module_limits_not_judged");
    return;
  }
  Assign(t, b.m, N, b.p.init, v);
  Compare(b.p, v, viol, what);
}

/// A trajectory of which exactly one relation is broken: of one sample, one
/// quantity is not what follows from the sample before (or the forces are not
/// those of its acceleration). All that comes after starts from there.
constexpr int kJumps = 9;
static const char* const kJumpNames[kJumps] = {"x", "y", "heading", "vx", "vy", "omega", "force along x", "force along y", "moment"};
static bool Jumped(Traj& t, const vector<size_t>& N, const SwerveDrivetrain& d, int what, size_t at, double eps) {
  for (size_t i = 0; i < t.p.size(); ++i) {
    auto& q = t.p[i];
    auto jump = [&](int k) { return i == at && k == what ? eps : 0.0; };
    if (i > 0) {
      auto& a = t.p[i - 1];
      double h = t.dt[SegOf(N, i)];
      q.vx = a.vx + q.ax * h + jump(3);
      q.vy = a.vy + q.ay * h + jump(4);
      q.w = a.w + q.al * h + jump(5);
      q.x = a.x + q.vx * h + jump(0);
      q.y = a.y + q.vy * h + jump(1);
      double turn = q.w * h + jump(2);
      q.c = a.c * cos(turn) - a.s * sin(turn);
      q.s = a.s * cos(turn) + a.c * sin(turn);
    }
    Sample other = q;
    other.ax += jump(6);
    other.ay += jump(7);
    other.al += jump(8);
    if (!SolveForces(d, other)) return false;
    q.fx = other.fx;
    q.fy = other.fy;
  }
  return true;
}

// Lattice of trajectories x all one- and two-coordinate deviations
static void Body() {
  int layouts = mc::thorough() ? 9 : 7;
  int li = mc::choose(layouts, "segment layout");
  static const int robots[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
  int di = mc::pick(robots, "drivetrain");
  if (company > 0 && ((li != 2 && li != 3) || (di > 1 && di != 3))) throw mc::Prune{};
  if (di >= 10 && li > 2 && !mc::thorough()) throw mc::Prune{};
  auto& N = kLayouts[li];
  auto d = Drive(di);
  size_t n = 1, M = d.modules.size();
  for (auto k : N) n += k;

  static Cache cache;
  if (cache.key != (company * 10 + li) * 100 + di) {
    cache.b = Build(N, d, [](SwervePathBuilder&) {});
    cache.key = (company * 10 + li) * 100 + di;
  }
  auto& b = cache.b;
  MC_CHECK(!b.p.tape.foreign, "the problem mentions a variable the solver does not control");

  // a trajectory: initial state, accelerations per sample, steps
  Traj t;
  t.p.resize(n);
  for (size_t s = 0; s < N.size(); ++s) t.dt.push_back(0.015 * (1 + static_cast<double>((s * 2 + li) % 3)));
  double th = company > 0 ? -2.2 : mc::pick({0.0, 0.7, -2.2, 3.0}, "initial heading");
  auto& q = t.p[0];
  q.c = cos(th);
  q.s = sin(th);
  q.x = 1.5;
  q.y = -0.5;
  q.vx = company > 0 ? 1.25 : mc::pick({0.0, 1.25}, "vx0");
  q.vy = -0.5;
  q.w = mc::pick({0.0, -6.0}, "omega0");
  static const double pat[3][3] = {{0, 0, 0}, {20.0, -10, 70}, {-12, 6, -90}};
  for (size_t i = 0; i < n; ++i) {
    int k = mc::choose(company > 0 && !mc::thorough() ? (i == 1 ? 3 : 1) : (i < 3 && di < 4) || (i < 1 && di >= 4) || mc::thorough() ? 3 : 2, "acceleration");
    t.p[i].ax = pat[k][0];
    t.p[i].ay = pat[k][1];
    t.p[i].al = pat[k][2];
    t.p[i].fx.assign(M, 0.0);
    t.p[i].fy.assign(M, 0.0);
    for (size_t j = 0; j < M; ++j) {
      t.p[i].fx[j] = 0.3 * static_cast<double>(j) * k;
      t.p[i].fy[j] = -0.2 * static_cast<double>(j + i) * k;
    }
  }
  if (M == 1) {  // a single module: forces first, accelerations follow
    auto& r = d.modules[0].translation;
    for (size_t i = 0; i < n; ++i) {
      auto& s = t.p[i];
      // choose the angular acceleration, then the heading, then the force
      if (i > 0) {
        double h = t.dt[SegOf(N, i)];
        auto& a = t.p[i - 1];
        s.w = a.w + s.al * h;
        s.c = a.c * cos(s.w * h) - a.s * sin(s.w * h);
        s.s = a.s * cos(s.w * h) + a.c * sin(s.w * h);
      }
      double rx = r.X() * s.c - r.Y() * s.s, ry = r.X() * s.s + r.Y() * s.c;
      double f = d.moi * s.al / (rx * rx + ry * ry);
      s.fx[0] = -ry * f + rx * s.ax;
      s.fy[0] = rx * f + ry * s.ax;
      s.ax = s.fx[0] / d.mass;
      s.ay = s.fy[0] / d.mass;
      if (i > 0) {
        double h = t.dt[SegOf(N, i)];
        auto& a = t.p[i - 1];
        s.vx = a.vx + s.ax * h;
        s.vy = a.vy + s.ay * h;
        s.x = a.x + s.vx * h;
        s.y = a.y + s.vy * h;
      }
    }
  } else {
    MC_CHECK(Integrate(t, N, d), "harness: cannot integrate");
  }

  vector<double> v;
  if (mc::tracing()) {
    mc::logf("layout %s, drivetrain %d (%zu modules)", Show(N).c_str(), di, M);
    for (auto& s : t.p)
      mc::logf("  x=%.3f y=%.3f c=%.3f s=%.3f v=(%.3f,%.3f) w=%.3f a=(%.3f,%.3f) al=%.3f", s.x, s.y, s.c, s.s, s.vx,
               s.vy, s.w, s.ax, s.ay, s.al);
  }
  mc::Hash h;
  h.add((uint64_t)li).add((uint64_t)di).add((uint64_t)company);
  for (auto& s : t.p) h.add(s.x).add(s.y).add(s.c).add(s.vx).add(s.w).add(s.al).add(s.ax);
  mc::state(h);
  MC_LOG("the physical trajectory");
  Judge(b, t, N, d, v, "physical trajectory");

  // deviations: every coordinate of every sample, and time steps
  int K = 10 + 2 * static_cast<int>(M);
  for (double eps : {0.05, -1.5}) {
    for (size_t i = 0; i < n; ++i)
      for (int k = 0; k < K; ++k) {
        Traj u = t;
        Coord(u.p[i], k, M) += eps;
        MC_LOG("deviation %s[%zu] += %g", CoordName(k, M), i, eps);
        Judge(b, u, N, d, v, CoordName(k, M));
      }
    for (size_t s = 0; s < N.size(); ++s) {
      Traj u = t;
      double e = eps > 0 ? 0.003 : -0.01;
      u.dt[s] += e;
      MC_LOG("deviation dt[%zu] += %g", s, e);
      Judge(b, u, N, d, v, "time step");
    }
  }
  // one relation broken, all else consistent
  if (M > 1)
    for (size_t i = 0; i < n; ++i)
      for (int k = i == 0 ? 6 : 0; k < kJumps; ++k)
        for (double eps : {0.03, -1.0}) {
          Traj u = t;
          if (!Jumped(u, N, d, k, i, eps)) continue;
          MC_LOG("%s of sample %zu jumps by %g", kJumpNames[k], i, eps);
          Judge(b, u, N, d, v, kJumpNames[k]);
        }
  // scaled headings: one sample, all, alternating
  for (int mode = 0; mode < 3; ++mode)
    for (double r : {0.5, 2.0}) {
      Traj u = t;
      for (size_t i = 0; i < n; ++i) {
        double f = mode == 0 ? (i == n - 1 ? r : 1) : mode == 1 ? r : (i % 2 ? r : 1 / r);
        u.p[i].c *= f;
        u.p[i].s *= f;
        SolveForces(d, u.p[i]);
      }
      MC_LOG("headings scaled by %g, mode %d", r, mode);
      Judge(b, u, N, d, v, "heading of non-unit length");
    }
  // pairs of coordinates of one sample, or of neighbouring samples
  if (mc::thorough() || (n <= 3 && M <= 2)) {
    for (size_t i = 0; i < n; ++i)
      for (size_t j = i; j < std::min(n, i + 2); ++j)
        for (int k = 0; k < K; ++k)
          for (int l = (i == j ? k + 1 : 0); l < K; ++l)
            for (double s : {0.1, -0.1}) {
              Traj u = t;
              Coord(u.p[i], k, M) += 0.1;
              Coord(u.p[j], l, M) += s;
              MC_LOG("deviation coord %d[%zu] += 0.1, coord %d[%zu] += %g", k, i, l, j, s);
              Judge(b, u, N, d, v, "two coordinates");
            }
  }
}

// Many samples, or many segments: every coordinate of samples here and there.
static void Long() {
  static const vector<size_t> layouts[] = {{300}, {2, 270}, vector<size_t>(70, 1), vector<size_t>(20, 7), {1200}};
  auto& N = mc::pick(layouts, "layout");
  int di = mc::pick({0, 1, 6}, "drivetrain");
  bool turning = mc::choose(2, "hardly turning / turning steadily") == 1;
  auto d = Drive(di);
  size_t n = SampleOfWpt(N, N.size()) + 1, M = d.modules.size();
  auto b = Build(N, d, [](SwervePathBuilder&) {});
  Traj t;
  t.p.resize(n);
  for (size_t s = 0; s < N.size(); ++s) t.dt.push_back((turning ? 0.015 : 0.004) * (1 + static_cast<double>(s % 3)));
  t.p[0].w = turning ? 1.25 : 0;
  t.p[0].c = cos(0.7);
  t.p[0].s = sin(0.7);
  t.p[0].vx = 1.25;
  t.p[0].vy = -0.5;
  for (size_t i = 0; i < n; ++i) {
    t.p[i].ax = 3 * sin(0.9 * static_cast<double>(i));
    t.p[i].ay = 4 * cos(0.7 * static_cast<double>(i));
    t.p[i].al = 5 * sin(1.3 * static_cast<double>(i) + 0.5);
  }
  MC_CHECK(Integrate(t, N, d) && WithinLimits(t, d), "harness: the trajectory is not admissible");
  vector<double> v;
  MC_LOG("layout %s, drivetrain %d", Show(N).c_str(), di);
  Judge(b, t, N, d, v, "physical trajectory");
  vector<size_t> where;
  for (size_t i : {size_t{0}, size_t{1}, size_t{7}, size_t{63}, size_t{64}, size_t{127}, size_t{128}, size_t{254}, size_t{255}, size_t{256}, size_t{257}, size_t{511}, size_t{512}, size_t{1023}, size_t{1024}, n - 2, n - 1})
    if (i < n && (where.empty() || i > where.back())) where.push_back(i);
  int K = 10 + 2 * static_cast<int>(M);
  for (size_t i : where)
    for (int k = 0; k < K; ++k)
      for (double eps : {0.05, -1.5}) {
        Traj u = t;
        Coord(u.p[i], k, M) += eps;
        MC_LOG("deviation %s[%zu] += %g", CoordName(k, M), i, eps);
        Judge(b, u, N, d, v, CoordName(k, M));
        mc::state(mc::Hash{}.add(static_cast<uint64_t>(&N - layouts)).add((uint64_t)di).add(static_cast<uint64_t>(turning)).add(i).add((uint64_t)k).add(eps));
      }
  for (size_t i : where)
    for (int k = i == 0 ? 6 : 0; k < kJumps; ++k) {
      Traj u = t;
      if (!Jumped(u, N, d, k, i, 0.03)) continue;
      MC_LOG("%s of sample %zu jumps", kJumpNames[k], i);
      Judge(b, u, N, d, v, kJumpNames[k]);
    }
  for (size_t s = 0; s < N.size(); ++s) {
    Traj u = t;
    u.dt[s] += 0.002;
    Judge(b, u, N, d, v, "time step");
  }
}

// Waypoints that the trajectory passes, given as constraints and guesses: it
// still has to be a robot's movement.
static void Posed() {
  static const vector<size_t> layouts[] = {{1}, {2, 1}, {3, 1, 2}, {1, 1, 1, 1}};
  auto& N = mc::pick(layouts, "layout");
  int di = mc::pick({0, 1, 2, 4}, "drivetrain");
  auto d = Drive(di);
  size_t n = SampleOfWpt(N, N.size()) + 1, M = d.modules.size(), wpts = N.size() + 1;
  bool moving = mc::choose(2, "resting / moving at the start") == 1;
  // how every waypoint is given
  int how = mc::choose(8, "poses / translations / alternating / ends only / all but the ends / with stops at the ends / with limits all along / with an obstacle");
  Traj t;
  t.p.resize(n);
  for (size_t s = 0; s < N.size(); ++s) t.dt.push_back(0.012 * (1 + static_cast<double>(s % 3)));
  t.p[0].c = cos(0.7);
  t.p[0].s = sin(0.7);
  t.p[0].x = -1;
  t.p[0].vx = moving ? 1.25 : 0;
  t.p[0].w = moving ? -1.5 : 0;
  for (size_t i = 0; i < n; ++i) {
    t.p[i].ax = i == 0 && how == 5 ? 0 : 9 * cos(0.9 * static_cast<double>(i));
    t.p[i].ay = i == 0 && how == 5 ? 0 : 7 * cos(0.7 * static_cast<double>(i));
    t.p[i].al = i == 0 && how == 5 ? 0 : 10 * cos(1.3 * static_cast<double>(i) + 0.5);
    t.p[i].fx.assign(M, 0.0);
    t.p[i].fy.assign(M, 0.0);
  }
  if (how == 5 && moving) throw mc::Prune{};
  MC_CHECK(Integrate(t, N, d) && WithinLimits(t, d), "harness: the trajectory is not admissible");
  // what the constraints ask
  struct Pin {
    size_t wpt;
    bool pose;
  };
  vector<Pin> pins;
  for (size_t w = 0; w < wpts; ++w) {
    bool end = w == 0 || w + 1 == wpts;
    if ((how == 3 && !end) || (how == 4 && end)) continue;
    pins.push_back({w, how == 0 || how == 3 || how >= 5 || (how == 2 && w % 2 == 0)});
  }
  const Traj start = t;
  Built b;
  auto build = [&] { b = Build(N, d, [&](SwervePathBuilder& pb) {
    for (auto& pin : pins) {
      auto& q = t.p[SampleOfWpt(N, pin.wpt)];
      if (pin.pose) pb.PoseWpt(pin.wpt, q.x, q.y, atan2(q.s, q.c));
      else pb.TranslationWpt(pin.wpt, q.x, q.y, 0.3);
    }
    if (how == 5) {
      pb.WptConstraint(0, trajopt::LinearVelocityMaxMagnitudeConstraint{0.0});
      pb.WptConstraint(0, trajopt::AngularVelocityMaxMagnitudeConstraint{0.0});
    }
    if (how == 6) {
      pb.SgmtConstraint(0, wpts - 1, trajopt::LinearVelocityMaxMagnitudeConstraint{300.0});
      pb.SgmtConstraint(0, wpts - 1, trajopt::AngularVelocityMaxMagnitudeConstraint{300.0});
      pb.SgmtConstraint(0, wpts - 1, trajopt::LinearAccelerationMaxMagnitudeConstraint{1e6});
    }
    if (how == 7) {
      pb.AddBumpers({0.1, {{0.5, 0.5}, {-0.5, 0.5}, {-0.5, -0.5}, {0.5, -0.5}}});
      pb.SgmtObstacle(0, wpts - 1, {0.5, {{50.0, 60.0}}});
    }
  }); };
  build();
  vector<double> v;
  auto judge = [&](const Traj& u, const char* what) {
    bool antipode = false;
    double viol = std::max(KinematicsViolation(u, N, &antipode), DynamicsViolation(u, d));
    if (antipode) return mc::count("antipodal_headings_not_judged");
    if (!WithinLimits(u, d)) return mc::count("beyond_module_limits_not_judged");
    for (auto& pin : pins) {
      const Sample &q = t.p[SampleOfWpt(N, pin.wpt)], &o = u.p[SampleOfWpt(N, pin.wpt)];
      viol = std::max({viol, std::abs(q.x - o.x), std::abs(q.y - o.y)});
      if (pin.pose) viol = std::max({viol, std::abs(q.c * o.s - q.s * o.c), q.c * o.c + q.s * o.s > 0 ? 0.0 : 1.0});
    }
    // (speeds squared)
    if (how == 5) viol = std::max({viol, u.p[0].vx * u.p[0].vx + u.p[0].vy * u.p[0].vy, u.p[0].w * u.p[0].w});
    Assign(u, b.m, N, b.p.init, v);
    Compare(b.p, v, viol, what);
  };
  MC_LOG("layout %s, drivetrain %d, how %d, moving %d", Show(N).c_str(), di, how, moving);
  judge(t, "physical trajectory");
  int K = 10 + 2 * static_cast<int>(M);
  for (double eps : {0.05, -1.5})
    for (size_t i = 0; i < n; ++i)
      for (int k = 0; k < K; ++k) {
        Traj u = t;
        Coord(u.p[i], k, M) += eps;
        MC_LOG("deviation %s[%zu] += %g", CoordName(k, M), i, eps);
        judge(u, CoordName(k, M));
        mc::state(mc::Hash{}.add(Show(N)).add((uint64_t)di).add((uint64_t)how).add((uint64_t)moving).add(i).add((uint64_t)k).add(eps));
      }
  for (size_t s = 0; s < N.size(); ++s) {
    Traj u = t;
    u.dt[s] += 0.002;
    judge(u, "time step");
  }
  // the waypoints given where a trajectory passes that jumps once
  for (size_t at = 0; at < n; ++at)
    for (int k = at == 0 ? 6 : 0; k < kJumps; ++k)
      for (double eps : {0.03, -1.0}) {
        t = start;
        if (!Jumped(t, N, d, k, at, eps * (k == 8 ? 3 : 1))) continue;
        MC_LOG("through waypoints, %s of sample %zu jumping by %g", kJumpNames[k], at, eps);
        build();
        judge(t, kJumpNames[k]);
        mc::state(mc::Hash{}.add(Show(N)).add((uint64_t)di).add((uint64_t)how).add((uint64_t)moving).add(at).add((uint64_t)k).add(eps).add("jump"));
      }
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"trajectories", Body, 4}, {"long-paths", Long, 2}, {"company", [] { InCompany(Body); }, 3}, {"posed", Posed, 2}});
}
