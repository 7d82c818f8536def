// C06: wheel speed and wheel force limits hold for every module at every sample.
#include "checks/common.hpp"

using namespace tp;
using std::vector;

static const vector<vector<size_t>> kLayouts{{1}, {2}, {1, 1}, {1, 2}, {2, 1, 1}};
static const vector<vector<size_t>> kLong{{300}, {3, 260}, vector<size_t>(40, 2)};

static SwerveDrivetrain Tight(int kind) {
  auto mod = [&](double x, double y, double r, double v, double f) { return SwerveModule{{x, y}, r, v / r, f * r}; };
  switch (kind) {
    case 0:
      return {45.0, 6.0, {mod(0.5, 0.5, 0.04, 3.0, 60), mod(0.5, -0.5, 0.05, 3.5, 50), mod(-0.5, 0.5, 0.06, 4.0, 40),
                          mod(-0.5, -0.5, 0.07, 4.5, 70)}};
    case 1:
      return {10.0, 3.0, {mod(0.75, 0.25, 0.05, 2.0, 30), mod(-0.5, -1.0, 0.04, 2.5, 20)}};
    case 2:
      return {20.0, 2.0, {mod(0.0, 0.0, 0.05, 2.0, 40), mod(1.0, -0.75, 0.04, 3.0, 25), mod(-0.5, 0.5, 0.1, 2.5, 35)}};
    case 3:
      return {5.0, 1.5, {mod(0.5, -0.25, 0.05, 2.0, 15)}};
    case 5:  // a module without torque, one that may not roll, both on an axis
      return {12.0, 2.0, {mod(0.5, 0.0, 0.05, 3.0, 0), mod(-0.5, 0.25, 0.04, 0.0, 30), mod(0.0, -0.75, 0.06, 2.5, 20)}};
    case 8:  // a square of four equal modules
      return {45.0, 6.0, {mod(0.5, 0.5, 0.05, 3.0, 60), mod(0.5, -0.5, 0.05, 3.0, 60), mod(-0.5, 0.5, 0.05, 3.0, 60), mod(-0.5, -0.5, 0.05, 3.0, 60)}};
    case 9:  // equal modules in a row, and one elsewhere
      return {25.0, 3.0, {mod(-0.75, 0.25, 0.05, 2.5, 40), mod(0.0, 0.25, 0.05, 2.5, 40), mod(0.75, 0.25, 0.05, 2.5, 40), mod(0.0, -1.0, 0.05, 2.5, 40)}};
    case 10:  // a slow heavy robot of large dimensions
      return {4000.0, 9000.0, {mod(6.0, 3.0, 0.2, 0.25, 9000), mod(-6.0, 3.0, 0.2, 0.25, 9000), mod(0.0, -4.5, 0.2, 0.25, 9000)}};
    case 11:  // a fast one
      return {45.0, 6.0, {mod(0.5, 0.5, 0.05, 300.0, 6000), mod(0.5, -0.5, 0.05, 300.0, 6000), mod(-0.75, 0.0, 0.06, 250.0, 5000)}};
    case 12:  // a gigantic one
      return {8e7, 6e9, {mod(40.0, 20.0, 1.5, 12.0, 2e8), mod(-40.0, 20.0, 1.5, 14.0, 1e8), mod(0.0, -35.0, 2.5, 9.0, 4e7)}};
    case 13:  // a tiny one
      return {1e-3, 2e-8, {mod(4e-3, 2e-3, 5e-4, 0.0625, 3e-3), mod(-4e-3, 2e-3, 5e-4, 0.125, 2e-3), mod(0.0, -3e-3, 1e-3, 0.25, 1e-3)}};
    case 14:
    case 15: {  // a dozen modules, or forty
      SwerveDrivetrain d{90.0, 30.0, {}};
      for (int i = 0; i < (kind == 14 ? 12 : 40); ++i) d.modules.push_back(mod(0.75 * cos(i * 0.6), 0.75 * sin(i * 0.6), 0.05, 3.0 + 0.125 * i, 25.0 + i));
      return d;
    }
    case 6:  // no torque at all
      return {12.0, 2.0, {mod(0.5, 0.5, 0.05, 3.0, 0), mod(-0.5, 0.25, 0.04, 2.0, 0)}};
    case 7:  // seven modules, some at one place with other limits
      return {70.0, 12.0, {mod(0.5, 0.5, 0.05, 3.0, 20), mod(0.5, 0.5, 0.05, 2.0, 30), mod(-0.5, 0.5, 0.05, 2.5, 25), mod(-0.5, -0.5, 0.05, 3.5, 15),
                           mod(0.5, -0.5, 0.02, 3.25, 22), mod(0.0, 1.5, 0.2, 4.5, 28), mod(1.5, 0.0, 0.1, 4.0, 35)}};
    default: {  // five modules, same parameters for all but the last
      SwerveDrivetrain d{30.0, 4.0, {}};
      for (int i = 0; i < 5; ++i) d.modules.push_back(mod(0.5 * i - 1, 0.25 * i * i - 1, 0.05, i == 4 ? 2.0 : 4.0, i == 4 ? 20.0 : 60.0));
      return d;
    }
  }
}

// The state of one sample is put at (just inside / just outside) the limit of
// one module: speed from translation, rotation or both, or force.
static void Limits(bool longPath) {
  int li = mc::choose(longPath ? 3 : mc::thorough() ? 5 : 4, "segment layout");
  int di = longPath ? mc::pick({0, 8}, "drivetrain") : mc::choose(16, "drivetrain");
  if (company > 0 && ((li != 2 && li != 3) || (di != 0 && di != 3 && di != 5))) throw mc::Prune{};
  if (di == 15 && li > 0 && !mc::thorough()) throw mc::Prune{};
  auto& N = longPath ? kLong[static_cast<size_t>(li)] : kLayouts[static_cast<size_t>(li)];
  auto d = Tight(di);
  size_t n = 1, M = d.modules.size();
  for (auto k : N) n += k;
  static int key = -1;
  static Built b;
  if (key != (company * 10 + li) * 100 + di) {
    b = Build(N, d, [](SwervePathBuilder&) {});
    key = (company * 10 + li) * 100 + di;
  }
  double hmax = MaxTimeStep(d);
  double h0 = std::isfinite(hmax) ? hmax * 0.4 : 0.05;

  vector<size_t> where;
  if (longPath)
    for (size_t i : {size_t{0}, size_t{1}, size_t{2}, size_t{63}, size_t{64}, size_t{127}, size_t{254}, size_t{255}, size_t{256}, size_t{257}, n - 2, n - 1})
      if (i < n && (where.empty() || i > where.back())) where.push_back(i);
  if (!longPath)
    for (size_t i = 0; i < n; ++i) where.push_back(i);
  size_t at = mc::pick(where, "sample");
  size_t mj = mc::choose(static_cast<int>(M), "module");
  double th = longPath || company > 0 ? 0.9 : mc::pick({0.0, 0.9, -2.5, 3.1}, "heading");
  int kind = mc::choose(4, "speed by translation / rotation / both / force");
  double frac = longPath || company > 0 ? mc::pick({1.0 - 1e-3, 1.0 + 1e-3}, "fraction of the limit") : mc::pick({1.0 - 1e-3, 1.0 + 1e-3, 0.5, 1.0, 1.5}, "fraction of the limit");
  double dir = longPath || company > 0 ? mc::pick({1.0, -1.6}, "direction") : mc::pick({0.0, 1.0, 2.4, -1.6, -0.3}, "direction");
  auto& m = d.modules[mj];
  double rx = m.translation.X(), ry = m.translation.Y();
  double vmax = m.wheelRadius * m.wheelMaxAngularVelocity, fmax = m.wheelMaxTorque / m.wheelRadius;

  // target state of sample `at`
  double ux = 0, uy = 0, w = 0;  // robot-frame velocity, omega
  // (of a limit of zero: 0 or a little more)
  double target = vmax > 0 ? frac * vmax : 0.05 * (frac > 1 ? frac - 1 : 0), force = fmax > 0 ? frac * fmax : 2 * (frac > 1 ? frac - 1 : 0);
  if (kind == 0) {
    ux = target * cos(dir);
    uy = target * sin(dir);
  } else if (kind == 1) {
    double r = hypot(rx, ry);
    if (r == 0) return;
    w = target / r * (dir > 0.5 ? 1 : -1);
  } else if (kind == 2) {
    double r = hypot(rx, ry);
    w = (vmax > 0 && r > 0 ? std::min(0.7, 0.6 * vmax / r) : 0.7) * (dir > 0 ? 1 : -1);
    ux = target * cos(dir) + ry * w;
    uy = target * sin(dir) - rx * w;
  }
  Traj t;
  t.p.resize(n);
  t.dt.assign(N.size(), h0);
  // velocities: zero except at sample `at` ... constant there and after, so that
  // forces elsewhere stay zero; with kind 3 forces act at sample `at` only.
  auto& s = t.p[at];
  // Put headings: constant omega would turn the robot; integrate exactly.
  // Sample `at` must have heading th: choose the initial heading accordingly.
  vector<double> omega(n, 0.0), vx(n, 0.0), vy(n, 0.0);
  if (kind < 3) {
    // the same world-frame velocity and rotation at every sample, so that no
    // force is needed; other samples then see rotated robot-frame speeds.
    double c = cos(th), sn = sin(th);
    for (size_t i = 0; i < n; ++i) {
      omega[i] = w;
      vx[i] = ux * c - uy * sn;
      vy[i] = ux * sn + uy * c;
    }
  }
  double th0 = th;
  for (size_t i = 1; i <= at; ++i) th0 -= omega[i] * t.dt[SegOf(N, i)];
  t.p[0].c = cos(th0);
  t.p[0].s = sin(th0);
  t.p[0].x = 0.25;
  t.p[0].y = -1.0;
  for (size_t i = 0; i < n; ++i) {
    auto& q = t.p[i];
    q.vx = vx[i];
    q.vy = vy[i];
    q.w = omega[i];
    q.fx.assign(M, 0.0);
    q.fy.assign(M, 0.0);
  }
  if (kind == 3) {
    if (M == 1) {
      // a force of the chosen size; the accelerations follow
      s.fx[0] = force * cos(dir);
      s.fy[0] = force * sin(dir);
      s.ax = s.fx[0] / d.mass;
      s.ay = s.fy[0] / d.mass;
    } else {
      s.fx[mj] = force * cos(dir);
      s.fy[mj] = force * sin(dir);
      s.ax = s.fx[mj] / d.mass;
      s.ay = s.fy[mj] / d.mass;
    }
    double r2x = rx * cos(th), r2y = rx * sin(th);
    r2x -= ry * sin(th);
    r2y += ry * cos(th);
    s.al = (r2x * s.fy[mj] - r2y * s.fx[mj]) / d.moi;
    // heading at `at` is th: omega jumps at `at`
    double hh = at > 0 ? t.dt[SegOf(N, at)] : 0;
    double wprev = 0;
    double thp = th - (wprev + s.al * hh) * hh;
    t.p[0].c = cos(at > 0 ? thp : th);
    t.p[0].s = sin(at > 0 ? thp : th);
  }
  // integrate
  for (size_t i = 1; i < n; ++i) {
    auto &a = t.p[i - 1], &q = t.p[i];
    double h = t.dt[SegOf(N, i)];
    if (kind == 3) {
      q.vx = a.vx + q.ax * h;
      q.vy = a.vy + q.ay * h;
      q.w = a.w + q.al * h;
    }
    q.x = a.x + q.vx * h;
    q.y = a.y + q.vy * h;
    q.c = a.c * cos(q.w * h) - a.s * sin(q.w * h);
    q.s = a.s * cos(q.w * h) + a.c * sin(q.w * h);
  }
  double phys = std::max(KinematicsViolation(t, N), DynamicsViolation(t, d));
  // sizes far from one: rounding of forces and torques, smallest excess possible
  double big = 1, small = 1;
  for (auto& mm : d.modules) {
    double f = mm.wheelMaxTorque / mm.wheelRadius, sp = mm.wheelRadius * mm.wheelMaxAngularVelocity;
    big = std::max({big, f, f * mm.translation.X(), f * mm.translation.Y()});
    if (f > 0) small = std::min(small, f);
    if (sp > 0) small = std::min(small, sp);
  }
  MC_CHECK(phys < 1e-8 + 1e-14 * big, "harness: not physical (%g)", phys);
  double excess = LimitsExcess(t, d);
  // on the limit itself (within rounding) is allowed
  double viol = excess <= 1e-9 * std::min(1.0, small) + 1e-15 * big ? 0 : excess;
  vector<double> v;
  Assign(t, b.m, N, b.p.init, v);
  mc::Hash hh;
  hh.add((uint64_t)li).add((uint64_t)di).add((uint64_t)company).add((uint64_t)at).add((uint64_t)mj).add(th).add((uint64_t)kind).add(frac).add(dir);
  mc::state(hh);
  MC_LOG("layout %s drivetrain %d: module %zu at sample %zu of %zu, heading %.2f, %s at %.3f of its limit; largest excess %g",
         Show(N).c_str(), di, mj, at, n, th,
         kind == 0 ? "translation" : kind == 1 ? "rotation" : kind == 2 ? "translation+rotation" : "force", frac, excess);
  auto what = kind == 3 ? "wheel force limit" : "wheel speed limit";
  if (big > 1e6 || small < 1e-2) {
    mc::op();
    double worst = b.p.Worst(v);
    if (viol == 0) MC_CHECK(worst <= 1e-6 + 1e-13 * big * big, "%s: a trajectory within the limits is excluded (constraint violated by %g)", what, worst);
    else if (viol > 1e-4 * std::min(1.0, small)) MC_CHECK(worst > 1e-10, "%s: a trajectory that exceeds a limit by %g is admitted", what, viol);
    return;
  }
  Compare(b.p, v, viol, what);
}

// One sample alone is as fast as a wheel allows, or faster; the robot is strong
// enough to be slow before and after.
static void Burst() {
  static const vector<vector<size_t>> layouts{{1}, {2}, {1, 1}, {2, 1}, {1, 2}, {2, 2, 1}, {5}};
  auto& N = mc::pick(layouts, "segment layout");
  int di = mc::pick({0, 1, 2, 4, 7, 8, 9, 14}, "drivetrain");
  if (company > 0 && (N.size() < 2 || SampleOfWpt(N, N.size()) > 3 || (di != 0 && di != 1))) throw mc::Prune{};
  auto d = Tight(di);
  for (auto& m : d.modules) m.wheelMaxTorque = 1e5;
  size_t n = SampleOfWpt(N, N.size()) + 1, M = d.modules.size();
  static int key = -1;
  static Built b;
  int mine = (company * 10 + static_cast<int>(&N - layouts.data())) * 100 + di;
  if (key != mine) {
    b = Build(N, d, [](SwervePathBuilder&) {});
    key = mine;
  }
  double hmax = MaxTimeStep(d);
  size_t at = static_cast<size_t>(mc::choose(static_cast<int>(n), "sample"));
  size_t mj = static_cast<size_t>(mc::choose(static_cast<int>(M), "module"));
  double th0 = company > 0 ? 0.9 : mc::pick({0.0, 0.9, -2.5}, "heading");
  int kind = mc::choose(3, "speed by translation / rotation / both");
  double frac = mc::pick({1.0 - 1e-3, 1.0 + 1e-3, 0.7, 1.4}, "fraction of the limit");
  double dir = mc::pick({0.0, 1.0, 2.4, -1.6, -0.3}, "direction");
  auto& m = d.modules[mj];
  double rx = m.translation.X(), ry = m.translation.Y(), r = hypot(rx, ry), target = frac * m.wheelRadius * m.wheelMaxAngularVelocity;
  if (kind == 1 && r == 0) throw mc::Prune{};
  double ux = 0, uy = 0, w = 0;
  if (kind == 0) {
    ux = target * cos(dir);
    uy = target * sin(dir);
  } else if (kind == 1) {
    w = target / r * (dir > 0.5 ? 1 : -1);
  } else {
    w = (r > 0 ? std::min(0.7, 0.6 * target / r) : 0.7) * (dir > 0 ? 1 : -1);
    ux = target * cos(dir) + ry * w;
    uy = target * sin(dir) - rx * w;
  }
  // the slowest wheel's share of the speed elsewhere
  double worst = 0;
  for (auto& o : d.modules)
    worst = std::max(worst, hypot(ux - o.translation.Y() * w, uy + o.translation.X() * w) / (o.wheelRadius * o.wheelMaxAngularVelocity));
  double share = 0.3 / worst;
  Traj t;
  t.p.resize(n);
  t.dt.assign(N.size(), (std::isfinite(hmax) ? hmax : 0.1) * 0.4);
  double th = th0;
  for (size_t i = 0; i < n; ++i) {
    auto& q = t.p[i];
    double f = i == at ? 1 : share;
    q.w = f * w;
    if (i > 0) th += q.w * t.dt[SegOf(N, i)];
    q.vx = f * (ux * cos(th) - uy * sin(th));
    q.vy = f * (ux * sin(th) + uy * cos(th));
  }
  t.p[0].c = cos(th0);
  t.p[0].s = sin(th0);
  MC_CHECK(FromVelocities(t, N, d), "harness: no forces");
  double phys = std::max(KinematicsViolation(t, N), DynamicsViolation(t, d));
  MC_CHECK(phys < 1e-8, "harness: not physical (%g)", phys);
  double excess = LimitsExcess(t, d);
  Traj rest = t;
  rest.p.erase(rest.p.begin() + static_cast<long>(at));
  MC_CHECK(LimitsExcess(rest, d) < 0, "harness: too fast elsewhere");
  vector<double> v;
  Assign(t, b.m, N, b.p.init, v);
  mc::state(mc::Hash{}.add((uint64_t)mine).add(at).add(mj).add(th0).add((uint64_t)kind).add(frac).add(dir));
  MC_LOG("layout %s drivetrain %d: module %zu at sample %zu only, heading %.2f, kind %d, at %.3f of its limit; largest excess %g", Show(N).c_str(), di, mj, at, th0, kind, frac, excess);
  Compare(b.p, v, excess <= 1e-9 ? 0 : excess, "wheel speed limit at one sample");
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"limits", [] { Limits(false); }, 4}, {"long-paths", [] { Limits(true); }, 3}, {"company", [] { InCompany([] { mc::choose(2, "limits / burst") == 0 ? Limits(false) : Burst(); }); }, 3}, {"one-sample", Burst, 3}});
}
