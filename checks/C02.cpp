// C02: waypoint and segment constraints bind exactly the right samples.
#include "checks/constraints.hpp"

namespace {

using namespace tp;

// A robot no trajectory below takes to its limits.
SwerveDrivetrain Strong() {
  return {10, 3, {SwerveModule{{200, 200}, 0.5, 20000, 1e9}, SwerveModule{{-200, -200}, 0.5, 20000, 1e9}}};
}

/// (variant 1: a stricter bound, or another value)
Con Example(int kind, int variant = 0) {
  if (variant == 1) {
    switch (kind) {
      case kPose: return {kPose, {0.5, 0.25, 0.4}};
      case kTrans: return {kTrans, {0.5, 0.25}};
      case kLinVel: return {kLinVel, {1.35}};
      case kLinDir: return {kLinDir, {0.9}};
      case kAngVel: return {kAngVel, {0.72}};
      case kLinAcc: return {kLinAcc, {1.95}};
      case kPointAt: return {kPointAt, {5, 1, 0.25}};
      case kPointPoint: return {kPointPoint, {0.25, 0, 4, 4, 2.5}};
      case kLinePoint: return {kLinePoint, {0.5, 0.5, -0.5, 0.5, 4, 4, 2.2}};
      default: return {kPointLine, {0.25, 0, 4, 4, 6, 4, 2.5}};
    }
  }
  switch (kind) {
    case kPose: return {kPose, {1, -0.5, 0.7}};
    case kTrans: return {kTrans, {1, -0.5}};
    case kLinVel: return {kLinVel, {1.5}};
    case kLinDir: return {kLinDir, {0.5}};
    case kAngVel: return {kAngVel, {0.75}};
    case kLinAcc: return {kLinAcc, {2.0}};
    case kPointAt: return {kPointAt, {5, 1, 0.3}};
    case kPointPoint: return {kPointPoint, {0.25, 0, 4, 4, 2.0}};
    case kLinePoint: return {kLinePoint, {0.5, 0.5, -0.5, 0.5, 4, 4, 2.0}};
    default: return {kPointLine, {0.25, 0, 4, 4, 6, 4, 2.0}};
  }
}

/// A trajectory that misses the constraint at sample `bad` only (none: npos), or
/// only the stricter variant there (mild); other(i): what of equality
/// constraints holds at sample i is the other variant.
Traj Dip(int kind, size_t bad, const std::vector<size_t>& N, const SwerveDrivetrain& d, bool mild = false,
         const std::function<bool(size_t)>& other = [](size_t) { return false; }) {
  size_t n = SampleOfWpt(N, N.size()) + 1;
  Traj t;
  for (size_t s = 0; s < N.size(); ++s) t.dt.push_back(0.02 + 0.005 * static_cast<double>(s % 3));
  t.p.resize(n);
  std::vector<double> th(n, 0.7);
  bool ok = false;
  switch (kind) {
    case kPose:
    case kTrans:
      for (size_t i = 0; i < n; ++i) {
        t.p[i].x = (other(i) ? 0.5 : 1) + (i == bad ? 0.01 : 0);
        t.p[i].y = other(i) ? 0.25 : -0.5;
        th[i] = other(i) ? 0.4 : 0.7;
      }
      ok = FromPoses(t, th, N, d);
      break;
    case kPointAt:
      for (size_t i = 0; i < n; ++i) {
        t.p[i].x = t.p[i].y = 1;
        th[i] = i == bad ? (mild ? 0.27 : 0.5) : 0.2;
      }
      ok = FromPoses(t, th, N, d);
      break;
    case kPointPoint:
    case kLinePoint:
    case kPointLine:
      for (size_t i = 0; i < n; ++i) {
        t.p[i].x = 4;
        t.p[i].y = i == bad ? (!mild ? 2.5 : kind == kLinePoint ? 1.2 : 1.6) : 1.0;
      }
      ok = FromPoses(t, th, N, d);
      break;
    case kLinVel:
    case kLinDir:
    case kAngVel:
      for (size_t i = 0; i < n; ++i) {
        auto& q = t.p[i];
        if (kind == kLinVel) q.vx = i == bad ? (mild ? 1.42 : 1.7) : 1.3;
        if (kind == kLinDir) {
          double a = i == bad ? 0.6 : other(i) ? 0.9 : 0.5;
          q.vx = 2 * cos(a);
          q.vy = 2 * sin(a);
        }
        if (kind == kAngVel) q.w = i == bad ? (mild ? -0.735 : -0.8) : 0.7;
      }
      ok = FromVelocities(t, N, d);
      break;
    default:
      for (size_t i = 0; i < n; ++i) t.p[i].ay = i == bad ? (mild ? 1.97 : 2.1) : -1.9;
      ok = Integrate(t, N, d);
      break;
  }
  MC_CHECK(ok && WithinLimits(t, d), "harness: the trajectory is not admissible by itself");
  return t;
}

struct Request {
  int kind;
  bool span;
  size_t from, to;
  int variant = 0;
  void Add(SwervePathBuilder& b) const {
    auto c = Example(kind, variant);
    if (span) b.SgmtConstraint(from, to, c.Make());
    else if (kind == kTrans) b.TranslationWpt(from, c.a[0], c.a[1], 0.25);
    else if (kind == kPose) b.PoseWpt(from, c.a[0], c.a[1], c.a[2]);
    else b.WptConstraint(from, c.Make());
  }
  bool Covers(const std::vector<size_t>& N, size_t i) const {
    return i >= SampleOfWpt(N, from) && i <= SampleOfWpt(N, span ? to : from);
  }
  std::string Text() const {
    const char* v = variant == 0 ? "" : "another ";
    return span ? mc::fmt("%s%s on waypoints %zu..%zu", v, KindName(kind), from, to) : mc::fmt("%s%s on waypoint %zu", v, KindName(kind), from);
  }
};

Request ChooseRequest(size_t wpts, int kind) {
  Request r;
  r.kind = kind;
  // all waypoints, then all spans
  int n = static_cast<int>(wpts), c = mc::choose(n + n * (n - 1) / 2, "waypoint or span");
  r.span = c >= n;
  if (!r.span) {
    r.from = r.to = static_cast<size_t>(c);
    return r;
  }
  c -= n;
  for (size_t a = 0; a < wpts; ++a)
    for (size_t b = a + 1; b < wpts; ++b)
      if (c-- == 0) {
        r.from = a;
        r.to = b;
      }
  return r;
}

void Check(const std::vector<size_t>& N, const std::vector<Request>& rs, bool sparse = false) {
  static const SwerveDrivetrain d = Strong();
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    for (auto& r : rs) r.Add(pb);
  });
  size_t n = SampleOfWpt(N, N.size()) + 1;
  std::vector<double> v;
  std::string all;
  for (auto& r : rs) all += (all.empty() ? "" : ", ") + r.Text();
  MC_LOG("  %s of %s", all.c_str(), Show(N).c_str());
  for (size_t k = 0; k < rs.size(); ++k)
    for (size_t bad = 0; bad <= n; ++bad) {
      // near the ends and the middle, and every 31st
      if (sparse && bad > 4 && bad + 5 < n && (bad < n / 2 - 2 || bad > n / 2 + 2) && bad % 31 != 7 && bad != 255 && bad != 256 && bad != 32767 && bad != 32768 && bad != 65535 && bad != 65536) continue;
      if (n > 5000 && ((bad > 1 && bad + 4 < n && bad % 31 == 7) || (bad > n / 2 - 5 && bad < n / 2 + 5 && bad != n / 2))) continue;
      auto t = Dip(rs[k].kind, bad, N, d);
      Assign(t, b.m, N, b.p.init, v);
      double miss = -1;
      for (auto& r : rs) {
        auto c = Example(r.kind);
        for (size_t i = 0; i < n; ++i)
          if (r.Covers(N, i)) miss = std::max(miss, c.Miss(t.p[i]));
      }
      if (rs.size() == 1)
        MC_CHECK((miss > 1e-4) == (bad < n && rs[0].Covers(N, bad)), "harness: sample %zu of %s", bad, all.c_str());
      Compare(b.p, v, Viol(miss), mc::fmt("%s of %s, missed at sample %zu of %zu only", all.c_str(), Show(N).c_str(), bad, n).c_str());
      mc::state(mc::Hash{}.add(all).add(Show(N)).add(bad));
    }
}

std::vector<size_t> ChooseLayout(int maxSegments, const std::vector<size_t>& counts) {
  std::vector<size_t> N;
  int segs = 1 + mc::choose(maxSegments, "segments, less one");
  for (int i = 0; i < segs; ++i) N.push_back(mc::pick(counts, "intervals"));
  return N;
}

void One() {
  auto N = ChooseLayout(3, mc::thorough() ? std::vector<size_t>{1, 2, 3, 5} : std::vector<size_t>{1, 2, 3});
  int kind = mc::choose(kKinds, "constraint");
  Check(N, {ChooseRequest(N.size() + 1, kind)});
}
void Long() {
  static const std::vector<size_t> layouts[] = {{40}, {17, 40}, {1, 64, 2}, {1, 1, 1, 1, 1, 1, 1, 1}, {2, 1, 3, 1, 2, 1, 4}, {300}, {2, 260},
                                                // beyond here for one kind only
                                                {1030}, std::vector<size_t>(40, 1), std::vector<size_t>(70, 2), {33000, 2}, {2, 66000}};
  auto N = mc::pick(layouts, "layout");
  if (N.back() > 60000 && !mc::thorough()) throw mc::Prune{};
  if (SampleOfWpt(N, N.size()) > 1000 || N.size() > 20) {
    // every sample missed in turn is quadratic: some of them, but all kinds of place
    size_t S = N.size();
    Request r{kLinVel, false, 0, 0};
    int how = mc::choose(S > 1 ? 6 : 3, "where");
    if (SampleOfWpt(N, S) > 5000 && how == 4) throw mc::Prune{};
    const size_t spans[][2] = {{0, S}, {0, 0}, {S, S}, {S / 2, S}, {S / 3, S / 2}, {S - 1, S}};
    r.from = spans[how][0];
    r.to = spans[how][1];
    r.span = r.from != r.to;
    return Check(N, {r}, true);
  }
  static const int kinds[] = {kPose, kLinVel, kPointLine};
  int kind = mc::thorough() ? mc::choose(kKinds, "constraint") : mc::pick(kinds, "constraint");
  Check(N, {ChooseRequest(N.size() + 1, kind)});
}
void Two() {
  auto N = ChooseLayout(2, mc::thorough() ? std::vector<size_t>{1, 2, 3} : std::vector<size_t>{1, 2});
  static const int first[] = {kTrans, kLinVel, kPointAt, kAngVel};
  int a = mc::thorough() ? mc::choose(kKinds, "first constraint") : mc::pick(first, "first constraint");
  int b = mc::choose(kKinds, "second constraint");
  auto ra = ChooseRequest(N.size() + 1, a);
  auto rb = ChooseRequest(N.size() + 1, b);
  Check(N, {ra, rb});
}

/// Two constraints of one type with different bounds or values, in either order.
void SameType() {
  auto N = ChooseLayout(2, mc::thorough() ? std::vector<size_t>{1, 2, 3} : std::vector<size_t>{1, 2});
  int kind = mc::choose(kKinds, "constraint");
  auto ra = ChooseRequest(N.size() + 1, kind);
  auto rb = ChooseRequest(N.size() + 1, kind);
  if (mc::choose(2, "stricter one first") == 1) ra.variant = 1;
  else rb.variant = 1;
  auto& other = ra.variant == 1 ? ra : rb;
  static const SwerveDrivetrain d = Strong();
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    ra.Add(pb);
    rb.Add(pb);
  });
  size_t n = SampleOfWpt(N, N.size()) + 1;
  std::vector<double> v;
  auto all = ra.Text() + ", " + rb.Text();
  MC_LOG("  %s of %s", all.c_str(), Show(N).c_str());
  for (size_t bad = 0; bad <= n; ++bad)
    for (int mild = 0; mild < 2; ++mild) {
      auto t = Dip(kind, bad, N, d, mild == 1, [&](size_t i) { return other.Covers(N, i); });
      Assign(t, b.m, N, b.p.init, v);
      double miss = -1;
      for (auto* r : {&ra, &rb}) {
        auto c = Example(kind, r->variant);
        for (size_t i = 0; i < n; ++i)
          if (r->Covers(N, i)) miss = std::max(miss, c.Miss(t.p[i]));
      }
      Compare(b.p, v, Viol(miss), mc::fmt("%s of %s, %smissed at sample %zu of %zu only", all.c_str(), Show(N).c_str(), mild ? "slightly " : "", bad, n).c_str());
      mc::state(mc::Hash{}.add(all).add(Show(N)).add(bad).add((uint64_t)mild));
    }
}

/// A trajectory whose samples all differ and keep the constraint, except that one
/// of them misses it (by one coordinate or another), or moves within it.
constexpr int kWays = 4;
Traj Varied(int kind, int way, size_t bad, const std::vector<size_t>& N, const SwerveDrivetrain& d) {
  size_t n = SampleOfWpt(N, N.size()) + 1;
  Traj t;
  for (size_t s = 0; s < N.size(); ++s) t.dt.push_back(0.03 - 0.001 * static_cast<double>(s % 3));
  t.p.resize(n);
  std::vector<double> th(n, 0.7);
  bool ok = false;
  auto sway = [](size_t i, double a) { return i % 2 == 0 ? a : -a; };
  for (size_t i = 0; i < n; ++i) {
    auto& q = t.p[i];
    bool b = i == bad;
    double k = static_cast<double>(i), phi = 0.4 + 0.25 * k;
    switch (kind) {
      case kPose:
      case kTrans:
        q.x = 1 + (b && way == 0 ? 0.01 : b && way == 3 ? -0.02 : 0);
        q.y = -0.5 + (b && way == 1 ? 0.01 : b && way == 3 ? 0.015 : 0);
        th[i] = (kind == kTrans ? 0.7 + 0.2 * k : 0.7) + (b && way == 2 ? 0.2 : 0);
        break;
      case kPointAt: {
        double r = 1 + 0.25 * static_cast<double>(i % 3);
        q.x = 5 - r * cos(phi) - (b && way == 1 ? 1.5 * r * sin(phi) : b && way == 2 ? -0.2 * r * sin(phi) : 0);
        q.y = 1 - r * sin(phi) + (b && way == 1 ? 1.5 * r * cos(phi) : b && way == 2 ? -0.2 * r * cos(phi) : 0);
        th[i] = phi + sway(i, 0.1) + (b && way == 0 ? 0.5 : b && way == 3 ? -0.8 : 0);
        break;
      }
      case kPointPoint:
      case kLinePoint:
      case kPointLine: {
        // the body point or line is on the far side of the robot
        double r = kind == kLinePoint ? 1.7 : 1.9;
        if (b && way == 0) r -= 0.5;
        if (b && way == 3) r += 0.3;
        double dir = kind == kPointLine ? M_PI / 2 : phi;
        q.x = 4 + r * cos(dir) + (kind == kPointLine ? fmod(0.7 * k, 2) : 0) + (b && way == 2 ? 0.05 : 0);
        q.y = 4 + r * sin(dir) - (b && way == 2 ? 0.05 : 0);
        th[i] = dir + sway(i, 0.1) - (kind == kLinePoint ? M_PI / 2 : 0) + (b && way == 1 ? 1.3 : 0);
        break;
      }
      case kLinVel: {
        double a = 0.8 * k, v = b && way == 0 ? 1.7 : b && way == 1 ? 0.2 : b && way == 2 ? 1.48 : 1.3;
        if (b && way == 3) a += 2;
        q.vx = v * cos(a);
        q.vy = v * sin(a);
        q.w = sway(i, 0.3);
        break;
      }
      case kLinDir: {
        double v = 1 + static_cast<double>(i % 3);
        q.vx = v * cos(0.5) * (b && way == 0 ? 1.2 : 1);
        q.vy = v * sin(0.5) * (b && way == 1 ? 1.2 : 1);
        if (b && way == 2) q.vx *= 1.5, q.vy *= 1.5;
        if (b && way == 3) q.vx -= 0.2;
        q.w = sway(i, 0.3);
        break;
      }
      case kAngVel:
        q.w = sway(i, 0.7) + (b && way < 2 ? (way == 0 ? 0.2 : -0.2) : 0);
        q.vx = 2 * cos(k);
        q.vy = 3 * sin(k) + (b && way == 2 ? 5 : 0);
        break;
      default: {
        double a = 0.8 * k, g = b && way == 0 ? 2.1 : b && way == 1 ? 0.5 : b && way == 2 ? 1.97 : 1.9;
        if (b && way == 3) a += 2;
        q.ax = g * cos(a);
        q.ay = g * sin(a);
        q.al = sway(i, 1.0);
      }
    }
  }
  if (kind == kLinVel || kind == kLinDir || kind == kAngVel) ok = FromVelocities(t, N, d);
  else if (kind == kLinAcc) ok = Integrate(t, N, d);
  else ok = FromPoses(t, th, N, d);
  MC_CHECK(ok && WithinLimits(t, d), "harness: the trajectory is not admissible by itself");
  return t;
}

/// Samples that differ: what a sample is asked for is not another sample's.
void Differing() {
  static const SwerveDrivetrain d{10, 3, {SwerveModule{{200, 0}, 0.5, 26000, 1e9}, SwerveModule{{-200, 0}, 0.5, 26000, 1e9}}};
  static const std::vector<size_t> more[] = {{5}, {12}, {4, 6}};
  auto N = mc::choose(2, "longer") == 1 ? mc::pick(more, "layout") : ChooseLayout(3, mc::thorough() ? std::vector<size_t>{1, 2, 3, 5} : std::vector<size_t>{1, 2, 3});
  int kind = mc::choose(kKinds, "constraint");
  auto r = ChooseRequest(N.size() + 1, kind);
  auto b = Build(N, d, [&](SwervePathBuilder& pb) { r.Add(pb); });
  size_t n = SampleOfWpt(N, N.size()) + 1;
  MC_LOG("  %s of %s", r.Text().c_str(), Show(N).c_str());
  auto c = Example(kind);
  std::vector<double> v;
  for (size_t bad = 0; bad <= n; ++bad)
    for (int way = 0; way < (bad < n ? kWays : 1); ++way) {
      auto t = Varied(kind, way, bad, N, d);
      Assign(t, b.m, N, b.p.init, v);
      double miss = -1;
      for (size_t i = 0; i < n; ++i) {
        double m = c.Miss(t.p[i]);
        MC_CHECK(!std::isnan(m) && (m < 1e-9 || m > 1e-3) && (i == bad || m < 1e-9), "harness: %s at sample %zu, way %d, misses by %g", r.Text().c_str(), i, way, m);
        if (r.Covers(N, i)) miss = std::max(miss, m);
      }
      Compare(b.p, v, Viol(miss), mc::fmt("%s of %s, samples that differ, sample %zu of %zu (way %d)", r.Text().c_str(), Show(N).c_str(), bad, n, way).c_str());
      mc::state(mc::Hash{}.add(r.Text()).add(Show(N)).add(bad).add((uint64_t)way));
    }
}

/// One constraint that matters among many that never do.
void Crowded() {
  static const SwerveDrivetrain d = Strong();
  static const std::vector<size_t> layouts[] = {{2}, {1, 2}};
  auto N = mc::pick(layouts, "layout");
  int kind = mc::choose(kKinds, "constraint");
  auto r = ChooseRequest(N.size() + 1, kind);
  int before = mc::pick({0, 1, 9, 17, 40, 70, 130, 260, 1030}, "constraints before"), after = mc::choose(2, "and after") == 1 ? 20 : 0;
  int others = mc::choose(3, "others");
  auto loose = [&](SwervePathBuilder& pb, int k) {
    trajopt::Constraint c = trajopt::LinearVelocityMaxMagnitudeConstraint{1e5 + k};
    int type = others == 0 ? kind : others == 1 ? k % 6 : (kind + 1) % kKinds;
    if (type == kAngVel) c = trajopt::AngularVelocityMaxMagnitudeConstraint{1e5 + k};
    if (type == kLinAcc) c = trajopt::LinearAccelerationMaxMagnitudeConstraint{1e7 + k};
    if (type == kPointAt) c = trajopt::PointAtConstraint{{500.0 + k, 1.0}, 3.2};
    if (type == kPointPoint) c = trajopt::PointPointConstraint{{0.0, 0.0}, {500.0 + k, 1.0}, 1.0};
    if (type == kLinePoint) c = trajopt::LinePointConstraint{{0.0, 0.0}, {1.0, 0.0}, {500.0 + k, 1.0}, 1.0};
    if (type == kPointLine) c = trajopt::PointLineConstraint{{0.0, 0.0}, {500.0 + k, 1.0}, {5000.0, 1.0}, 1.0};
    if (r.span) pb.SgmtConstraint(r.from, r.to, c);
    else pb.WptConstraint(r.from, c);
  };
  auto b = Build(N, d, [&](SwervePathBuilder& pb) {
    for (int k = 0; k < before; ++k) loose(pb, k);
    r.Add(pb);
    for (int k = 0; k < after; ++k) loose(pb, before + k);
  });
  size_t n = SampleOfWpt(N, N.size()) + 1;
  auto all = mc::fmt("%s after %d and before %d others (%d)", r.Text().c_str(), before, after, others);
  MC_LOG("  %s of %s", all.c_str(), Show(N).c_str());
  auto c = Example(kind);
  std::vector<double> v;
  for (size_t bad = 0; bad <= n; ++bad) {
    auto t = Dip(kind, bad, N, d);
    Assign(t, b.m, N, b.p.init, v);
    double miss = -1;
    for (size_t i = 0; i < n; ++i)
      if (r.Covers(N, i)) miss = std::max(miss, c.Miss(t.p[i]));
    Compare(b.p, v, Viol(miss), mc::fmt("%s of %s, missed at sample %zu of %zu only", all.c_str(), Show(N).c_str(), bad, n).c_str());
    mc::state(mc::Hash{}.add(all).add(Show(N)).add(bad));
  }
}

/// One constraint of a path, a builder or a generator that has seen other things.
void Company() {
  InCompany([] {
    static const std::vector<size_t> layouts[] = {{1}, {2, 1}, {1, 2, 1}};
    auto N = mc::pick(layouts, "layout");
    int kind = mc::choose(kKinds, "constraint");
    Check(N, {ChooseRequest(N.size() + 1, kind)});
  });
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"one-constraint", One, 4}, {"long-paths", Long, 3}, {"two-constraints", Two, 5}, {"same-type", SameType, 5}, {"differing", Differing, 3}, {"crowded", Crowded, 3}, {"company", Company, 3}});
}
