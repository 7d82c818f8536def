// C07: the solver minimises total travel time under sane time steps.
#include <algorithm>

#include "checks/common.hpp"

using namespace tp;
using std::vector;

static const vector<vector<size_t>> kLayouts{{1}, {2}, {1, 1}, {1, 2}, {4, 1}, {2, 1, 3}, {1, 1, 1, 1}, {5, 7, 3}, {40, 40},
                                            // counts beyond 7 and 8 bits; for these the modules keep their order
                                            {200}, {300, 3}, vector<size_t>(20, 1), vector<size_t>(70, 2),
                                            // and 15 and 16 bits; only with one module and with four
                                            {40000}, {70000}, {3, 35000}};
static constexpr int kUsual = 8, kLarge = 9, kHuge = 13;

static SwerveDrivetrain Layout(int kind) {
  auto mod = [&](double x, double y, int i) { return SwerveModule{{x, y}, 0.04 + 0.01 * i, 60.0 + 7.0 * ((i * 2) % 3), 1e5 + 1e4 * i}; };
  switch (kind) {
    case 0: return {45, 6, {mod(0.6, 0.5, 0), mod(0.6, -0.5, 1), mod(-0.6, 0.5, 2), mod(-0.6, -0.5, 3)}};
    case 1:  // trapezoid: the narrowest spacing is between non-neighbours of some orders
      return {45, 6, {mod(0.5, 0.5, 0), mod(-0.5, 0.2, 1), mod(0.8, -0.5, 2), mod(-0.7, -0.6, 3)}};
    case 2:  // triangle
      return {20, 2, {mod(0.5, 0.0, 0), mod(-0.4, 0.45, 1), mod(-0.6, -0.45, 2)}};
    case 3:  // in line along y
      return {20, 2, {mod(0.0, 0.9, 0), mod(0.0, 0.0, 1), mod(0.0, -0.3, 2)}};
    case 4:  // one module: no spacing, no bound
      return {5, 1, {mod(0.2, 0.3, 0)}};
    case 5:  // two modules at one place: no spacing, no bound
      return {5, 1, {mod(0.2, 0.3, 0), mod(0.2, 0.3, 1)}};
    case 7:  // modules within a millimetre of each other
      return {20, 2, {mod(0.2, 0.3, 0), mod(0.2004, 0.3003, 1), mod(-0.5, 0.1, 2)}};
    case 8:
      return {20, 2, {mod(0.0, 0.0, 0), mod(-0.5, 0.1, 1), mod(0.0, 0.009, 2)}};
    case 9:
      return {20, 2, {mod(0.03, 0.0, 0), mod(-0.03, 0.0, 1), mod(0.0, 0.04, 2)}};
    case 10:  // and a building apart
      return {900, 9000, {mod(25, 20, 0), mod(-25, 20, 1), mod(-25, -31, 2)}};
    case 11:  // two at one place among others
      return {20, 2, {mod(0.5, 0.4, 0), mod(-0.5, -0.4, 1), mod(0.5, 0.4, 2), mod(-0.5, -0.35, 0)}};
    case 12:  // all on one axis, one at the centre, far from it
      return {20, 2, {mod(100, 0.0, 0), mod(100.25, 0.0, 1), mod(0, 0.0, 2)}};
    case 13:
    case 14: {  // a dozen modules, or forty, the last two of which are the closest
      SwerveDrivetrain d{60, 9, {}};
      int n = kind == 13 ? 12 : 40;
      for (int i = 0; i < n - 1; ++i) d.modules.push_back(mod(0.25 * (i % 7), 0.25 * (i / 7), i % 3));
      auto t = d.modules.back().translation;
      d.modules.push_back(mod(t.X() + 0.08, t.Y(), 1));
      return d;
    }
    default:  // diagonal pair
      return {10, 3, {mod(0.4, 0.1, 0), mod(-0.3, -0.5, 1)}};
  }
}

static double Total(const vector<size_t>& N, const vector<double>& dt) {
  double t = 0;
  for (size_t i = 0; i < N.size(); ++i) t += static_cast<double>(N[i]) * dt[i];
  return t;
}

static void Body() {
  int li = mc::choose(static_cast<int>(kLayouts.size()), "segment layout");
  if (li == kUsual && !mc::thorough()) return;
  int di = mc::choose(15, "module layout");
  if (li >= kHuge && di != 4 && !(di == 0 && li == kHuge && mc::thorough())) return;
  if (li > kHuge && !mc::thorough()) return;
  if (di >= 13 && li != 0 && li != 2) return;
  if (company > 0 && ((li != 3 && li != 5) || (di != 0 && di != 2 && di != 4 && di != 11))) throw mc::Prune{};
  auto& N = kLayouts[li];
  auto base = Layout(di);
  size_t M = base.modules.size();
  // order in which the modules are listed
  vector<int> perm(M);
  for (size_t i = 0; i < M; ++i) perm[i] = static_cast<int>(i);
  {
    vector<int> left = perm;
    if (di >= 13) std::rotate(perm.begin(), perm.begin() + mc::pick({0, 1, 2, 5}, "listed from"), perm.end());
    if (di >= 13 && mc::choose(2, "or backwards")) std::reverse(perm.begin(), perm.end());
    for (size_t i = 0; i < M && di < 13; ++i) {
      int k = li >= kLarge || company > 0 ? 0 : mc::choose(static_cast<int>(left.size()), "next module");
      perm[i] = left[k];
      left.erase(left.begin() + k);
    }
  }
  auto d = base;
  for (size_t i = 0; i < M; ++i) d.modules[i] = base.modules[perm[i]];
  size_t n = 1;
  for (auto k : N) n += k;

  auto b = Build(N, d, [](SwervePathBuilder&) {});
  MC_CHECK(b.p.hasCost, "no objective");
  double hmax = MaxTimeStep(base);  // of the unpermuted listing
  double u = std::isfinite(hmax) ? hmax : 1.0;
  vector<double> v;
  Traj t;
  t.p.resize(n);
  for (auto& q : t.p) {
    q.x = 1;
    q.y = -2;
    q.c = cos(0.4);
    q.s = sin(0.4);
    q.fx.assign(M, 0);
    q.fy.assign(M, 0);
  }
  MC_LOG("intervals %s, module layout %d, order %s; longest legal step %g", Show(N).c_str(), di, mc::pathJson(perm).c_str(), hmax);

  // objective: affine in the total duration with positive slope, nothing else
  auto cost = [&](const vector<double>& dt) {
    t.dt = dt;
    Assign(t, b.m, N, b.p.init, v);
    mc::op();
    return b.p.Cost(v);
  };
  vector<double> one(N.size(), u * 0.5);
  double c1 = cost(one);
  double slope = (cost(vector<double>(N.size(), u)) - c1) / (Total(N, vector<double>(N.size(), u)) - Total(N, one));
  MC_CHECK(slope > 1e-9, "longer trajectories do not cost more");
  double offset = c1 - slope * Total(N, one);
  static const double lat[] = {0.0, 0.3, 0.7, 1.0};
  size_t S = N.size();
  size_t combos = 1;
  bool all = S <= 6;  // every combination; else one segment at a time
  for (size_t i = 0; i < S && all; ++i) combos *= 4;
  if (!all) combos = 4 * S;
  for (size_t k = 0; k < combos; ++k) {
    vector<double> dt(S);
    size_t r = k;
    for (size_t i = 0; i < S; ++i, r /= 4) dt[i] = u * (all ? lat[r % 4] : k % S == i ? lat[k / S] : lat[1 + i % 3]);
    double c = cost(dt), want = slope * Total(N, dt) + offset;
    MC_CHECK(std::abs(c - want) <= 1e-9 * (1 + std::abs(want)),
             "objective %g is not the total duration (expected %g for steps starting %g)", c, want, dt[0]);
    mc::Hash h;
    h.add((uint64_t)li).add((uint64_t)di).add((uint64_t)company);
    for (double e : dt) h.add(e);
    mc::state(h);
  }
  {
    t.dt = one;
    Assign(t, b.m, N, b.p.init, v);
    vector<bool> isDt(b.p.nvar, false);
    for (int i : b.m.dt) isDt[i] = true;
    // (all others at once for the large ones)
    if (li >= kLarge) {
      for (size_t i = 0; i < b.p.nvar; ++i)
        if (!isDt[i]) v[i] += 0.75 + 0.01 * static_cast<double>(i % 7);
      double c = b.p.Cost(v);
      MC_CHECK(std::abs(c - c1) <= 1e-9 * (1 + std::abs(c1)), "the objective depends on something other than time steps");
    }
    for (size_t i = 0; i < b.p.nvar; ++i) {
      if (isDt[i] || li >= kLarge) continue;
      double old = v[i];
      v[i] = old + 0.75;
      mc::op();
      double c = b.p.Cost(v);
      v[i] = old;
      MC_CHECK(std::abs(c - c1) <= 1e-9 * (1 + std::abs(c1)), "the objective depends on something other than time steps");
    }
  }
  // time steps of a robot at rest: admitted iff 0 <= dt <= hmax, per segment
  vector<double> steps{-0.1 * u, -0.01 * u, 0.0, 1e-3 * u, 0.5 * u, 0.99 * u, u};
  if (std::isfinite(hmax)) {
    steps.push_back(1.01 * u);
    steps.push_back(1.5 * u);
    steps.push_back(30 * u);
  } else {
    steps.push_back(1e4);
  }
  for (size_t s = 0; s < S; ++s)
    for (double h : steps) {
      t.dt = one;
      t.dt[s] = h;
      double scale = 1.0 / u;  // relative violation
      double viol = h < 0 ? -h * scale : h > hmax * (1 + 1e-12) ? (h - hmax) * scale : 0.0;
      MC_LOG("step of segment %zu = %g", s, h);
      Assign(t, b.m, N, b.p.init, v);
      mc::op();
      double w = b.p.Worst(v);
      if (viol == 0)
        MC_CHECK(w <= 1e-9, "a legal time step %g (limit %g) is excluded (constraint violated by %g)", h, hmax, w);
      else
        MC_CHECK(w > 1e-9, "an illegal time step %g (limit %g) is admitted", h, hmax);
    }
  // a moving trajectory and its limit deviations are judged alike in any order
  if (n <= 5) {
    t.dt = vector<double>(S, u * 0.3);
    for (int mode = 0; mode < static_cast<int>(2 * M) + 1; ++mode) {
      // velocity of the robot: brings module (mode/2) of the base listing just
      // inside or just outside its wheel speed limit
      for (auto& q : t.p) {
        q.w = 0;
        q.vx = q.vy = 0;
      }
      if (mode > 0) {
        auto& m = base.modules[(mode - 1) / 2];
        double lim = m.wheelRadius * m.wheelMaxAngularVelocity * (mode % 2 ? 0.999 : 1.001);
        for (auto& q : t.p) {
          q.vx = lim * 0.6;
          q.vy = -lim * 0.8;
        }
      }
      for (size_t i = 1; i < n; ++i) {
        double h = t.dt[SegOf(N, i)];
        t.p[i].x = t.p[i - 1].x + t.p[i].vx * h;
        t.p[i].y = t.p[i - 1].y + t.p[i].vy * h;
      }
      double ex = LimitsExcess(t, d);
      Assign(t, b.m, N, b.p.init, v);
      MC_LOG("moving, mode %d, excess %g", mode, ex);
      Compare(b.p, v, ex < 1e-9 ? 0 : ex, "module order");
    }
  }
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"objective", Body, 3}, {"company", [] { InCompany(Body); }, 3}});
}
