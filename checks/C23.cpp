// C23: the Rust wrapper forwards every call faithfully. The native side is
// replaced by one that records every call with its arguments.
#include "checks/rust_side.hpp"

namespace {

using ffi::Call;
using ffi::Op;

struct Record {
  std::string what;  // "new", "drop", "cancel", or the operation
  const void* self = nullptr;
  Call call;
  bool diagnostics = false;
  int64_t handle = 0;
  rust::Fn<void(ffi::HolonomicTrajectory, int64_t)> fn;
};
std::vector<Record> g_log;
std::set<const void*> g_alive;

// what the native generate does next
struct Answer {
  bool ok = true;
  ffi::HolonomicTrajectory t;
  std::string error;
} g_answer;

void Note(const void* self, int op, std::vector<double> x = {}, std::vector<double> y = {}, size_t i = 0, size_t j = 0, std::vector<size_t> n = {}) {
  g_log.push_back({"call", self, {op, i, j, std::move(x), std::move(y), std::move(n)}});
}
std::vector<double> List(const rust::Vec<double>& v) { return {v.begin(), v.end()}; }

}  // namespace

// The recording native side ----------------------------------------------------
namespace trajopt {
std::atomic<int>& GetCancellationFlag() {
  static std::atomic<int> flag{0};
  return flag;
}
namespace rsffi {
void SwervePathBuilder::set_drivetrain(const SwerveDrivetrain& d) {
  std::vector<double> x{d.mass, d.moi};
  for (auto& m : d.modules)
    for (double v : {m.x, m.y, m.wheel_radius, m.wheel_max_angular_velocity, m.wheel_max_torque}) x.push_back(v);
  Note(this, Op::kDrivetrain, x);
}
void SwervePathBuilder::set_bumpers(double l, double w) { Note(this, Op::kBumpers, {l, w}); }
void SwervePathBuilder::set_control_interval_counts(const rust::Vec<size_t> c) { Note(this, Op::kCounts, {}, {}, 0, 0, {c.begin(), c.end()}); }
void SwervePathBuilder::pose_wpt(size_t i, double x, double y, double h) { Note(this, Op::kPose, {x, y, h}, {}, i); }
void SwervePathBuilder::translation_wpt(size_t i, double x, double y, double h) { Note(this, Op::kTranslation, {x, y, h}, {}, i); }
void SwervePathBuilder::empty_wpt(size_t i, double x, double y, double h) { Note(this, Op::kEmpty, {x, y, h}, {}, i); }
void SwervePathBuilder::sgmt_initial_guess_points(size_t i, const rust::Vec<Pose2d>& g) {
  std::vector<double> x;
  for (auto& p : g)
    for (double v : {p.x, p.y, p.heading}) x.push_back(v);
  Note(this, Op::kGuesses, x, {}, i);
}
void SwervePathBuilder::wpt_linear_velocity_direction(size_t i, double a) { Note(this, Op::kWptVelDir, {a}, {}, i); }
void SwervePathBuilder::wpt_linear_velocity_max_magnitude(size_t i, double m) { Note(this, Op::kWptVelMax, {m}, {}, i); }
void SwervePathBuilder::wpt_angular_velocity_max_magnitude(size_t i, double m) { Note(this, Op::kWptAngVel, {m}, {}, i); }
void SwervePathBuilder::wpt_linear_acceleration_max_magnitude(size_t i, double m) { Note(this, Op::kWptAccel, {m}, {}, i); }
void SwervePathBuilder::wpt_point_at(size_t i, double x, double y, double t) { Note(this, Op::kWptPointAt, {x, y, t}, {}, i); }
void SwervePathBuilder::sgmt_linear_velocity_direction(size_t i, size_t j, double a) { Note(this, Op::kSgmtVelDir, {a}, {}, i, j); }
void SwervePathBuilder::sgmt_linear_velocity_max_magnitude(size_t i, size_t j, double m) { Note(this, Op::kSgmtVelMax, {m}, {}, i, j); }
void SwervePathBuilder::sgmt_angular_velocity_max_magnitude(size_t i, size_t j, double m) { Note(this, Op::kSgmtAngVel, {m}, {}, i, j); }
void SwervePathBuilder::sgmt_linear_acceleration_max_magnitude(size_t i, size_t j, double m) { Note(this, Op::kSgmtAccel, {m}, {}, i, j); }
void SwervePathBuilder::sgmt_point_at(size_t i, size_t j, double x, double y, double t) { Note(this, Op::kSgmtPointAt, {x, y, t}, {}, i, j); }
void SwervePathBuilder::sgmt_circle_obstacle(size_t i, size_t j, double x, double y, double r) { Note(this, Op::kCircle, {x, y, r}, {}, i, j); }
void SwervePathBuilder::sgmt_polygon_obstacle(size_t i, size_t j, rust::Vec<double> x, rust::Vec<double> y, double r) {
  auto v = List(x);
  v.insert(v.begin(), r);
  Note(this, Op::kPolygon, v, List(y), i, j);
}
HolonomicTrajectory SwervePathBuilder::generate(bool diagnostics, int64_t handle) const {
  g_log.push_back({"generate", this, {}, diagnostics, handle});
  if (!g_answer.ok) throw std::runtime_error{g_answer.error};
  return g_answer.t;
}
void SwervePathBuilder::add_progress_callback(rust::Fn<void(HolonomicTrajectory, int64_t)> f) {
  Record r{"call", this, {Op::kCallback}};
  r.fn = f;
  g_log.push_back(r);
}
std::unique_ptr<SwervePathBuilder> swerve_path_builder_new() {
  auto p = std::make_unique<SwervePathBuilder>();
  g_alive.insert(p.get());
  g_log.push_back({"new", p.get()});
  return p;
}
void cancel_all() { g_log.push_back({"cancel"}); }
}  // namespace rsffi
}  // namespace trajopt

namespace {

bool Bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
bool Bits(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t k = 0; k < a.size(); ++k)
    if (!Bits(a[k], b[k])) return false;
  return true;
}

const double kNumbers[] = {1.0 / 3, -0.0, 5e-324, -1.7976931348623157e308, HUGE_VAL, -HUGE_VAL, NAN, 1e-17 + 2, 0.0, 1.0, -1.0, 3.14159265358979323846, 1e-12, 100.0};

/// Exactly one native call, this one.
void Only(const Call& c, const void* self) {
  mc::op();
  MC_CHECK(g_log.size() == 1, "%s makes %zu native calls", c.Show().c_str(), g_log.size());
  auto& r = g_log[0];
  MC_CHECK(r.what == "call" && r.call.op == c.op, "%s calls the native %s", c.Show().c_str(), r.what == "call" ? ffi::Name(r.call.op) : r.what.c_str());
  MC_CHECK(r.self == self, "%s reaches the native builder of another builder", c.Show().c_str());
  bool callback = c.op == Op::kCallback;
  MC_CHECK((callback || (r.call.i == c.i && r.call.j == c.j)) && Bits(r.call.x, c.x) && Bits(r.call.y, c.y) && r.call.n == c.n,
           "%s arrives as %s", c.Show().c_str(), r.call.Show().c_str());
}

constexpr int kLong = 4;

ffi::HolonomicTrajectory Trajectory(int kind) {
  ffi::HolonomicTrajectory t;
  double f = 1;
  auto next = [&] { return kind == 3 ? kNumbers[static_cast<size_t>(f++) % 14] : (f += 1.0 / 3); };
  for (int k = 0; k < (kind == 0 ? 0 : kind == 1 ? 1 : kind == kLong ? 2000 : 3); ++k) {
    trajopt::rsffi::HolonomicTrajectorySample s;
    for (auto* d : {&s.timestamp, &s.x, &s.y, &s.heading, &s.velocity_x, &s.velocity_y, &s.angular_velocity}) *d = next();
    for (int m = 0; m < (kind == kLong ? 1 + k % 40 : k + kind); ++m) {
      s.module_forces_x.push_back(next());
      s.module_forces_y.push_back(next());
    }
    if (kind == 2) s.module_forces_y.push_back(next());
    t.samples.push_back(s);
  }
  return t;
}

/// One call, every combination of arguments of an alphabet.
void Arguments() {
  g_log.clear();
  ffi::Rust r{mc::choose(2, "default")};
  MC_CHECK(g_log.size() == 1 && g_log[0].what == "new", "making a builder makes %zu native calls", g_log.size());
  const void* self = g_log[0].self;
  Call c{mc::choose(ffi::kOps, "call")};
  static const size_t indices[] = {0, 1, 7, SIZE_MAX, size_t{1} << 32};
  if (ffi::Indices(c.op) > 0) c.i = mc::pick(indices, "index");
  if (ffi::Indices(c.op) > 1) c.j = mc::pick(indices, "to");
  auto number = [&](int k) { return k < 2 || mc::thorough() ? mc::pick(kNumbers, "number") : kNumbers[mc::choose(3, "number")]; };
  switch (c.op) {
    case Op::kDrivetrain: {
      size_t modules = static_cast<size_t>(mc::choose(4, "modules"));
      size_t n = 2 + 5 * modules;
      for (size_t k = 0; k < n; ++k) c.x.push_back(static_cast<double>(k) + 1.0 / 3);
      c.x[static_cast<size_t>(mc::choose(static_cast<int>(n), "field"))] = mc::pick(kNumbers, "number");
      break;
    }
    case Op::kCounts: {
      size_t n = static_cast<size_t>(mc::choose(4, "counts"));
      for (size_t k = 0; k < n; ++k) c.n.push_back(mc::pick(indices, "count"));
      break;
    }
    case Op::kGuesses: {
      size_t n = static_cast<size_t>(mc::choose(4, "points")) * 3;
      for (size_t k = 0; k < n; ++k) c.x.push_back(static_cast<double>(k) + 1.0 / 7);
      if (n > 0) c.x[static_cast<size_t>(mc::choose(static_cast<int>(n), "field"))] = mc::pick(kNumbers, "number");
      break;
    }
    case Op::kPolygon: {
      c.x.push_back(mc::pick(kNumbers, "radius"));
      size_t nx = static_cast<size_t>(mc::choose(4, "xs")), ny = static_cast<size_t>(mc::choose(4, "ys"));
      for (size_t k = 0; k < nx; ++k) c.x.push_back(kNumbers[k] + 1);
      for (size_t k = 0; k < ny; ++k) c.y.push_back(kNumbers[7 - k] - 2);
      break;
    }
    case Op::kCallback: c.i = static_cast<size_t>(mc::choose(3, "callback")); break;
    default:
      for (int k = 0; k < ffi::Numbers(c.op); ++k) c.x.push_back(number(k));
  }
  MC_LOG("  %s", c.Show().c_str());
  g_log.clear();
  r.Do(c);
  Only(c, self);
  if (c.op == Op::kCallback) {
    // the function registered is the one called, with what it is called with
    for (int kind = 0; kind < 4; ++kind) {
      static const int64_t handles[] = {0, -1, INT64_MAX, INT64_MIN};
      ffi::Events().clear();
      auto t = Trajectory(kind);
      g_log[0].fn(t, handles[kind]);
      auto& e = ffi::Events();
      MC_CHECK(e.size() == 1 && e[0].which == static_cast<int>(c.i) && e[0].handle == handles[kind] && Bits(e[0].v, ffi::Flat(t)),
               "a report to progress callback %zu does not reach it as it was sent", c.i);
    }
  }
  mc::state(mc::Hash{}.add(c.Show()));
}

/// Lists with equal and nearly equal entries: every list of up to four entries
/// over two of them, on two wrappers at once.
void Lists() {
  g_log.clear();
  ffi::Rust r{mc::choose(2, "default")};
  MC_CHECK(g_log.size() == 1 && g_log[0].what == "new", "making a builder makes %zu native calls", g_log.size());
  const void* self = g_log[0].self;
  static const int ops[] = {Op::kDrivetrain, Op::kGuesses, Op::kPolygon, Op::kCounts};
  Call c{mc::pick(ops, "call"), 1, 2};
  int n = mc::choose(5, "entries");
  auto entry = [&] { return mc::choose(2, "entry"); };
  if (c.op == Op::kDrivetrain) {
    c.i = c.j = 0;
    c.x = {7.5, 1.0 / 3};
    static const double m[2][5] = {{0.5, -0.5, 0.05, 70, 2}, {0.5, 0.5, 0.05, 70, 2}};
    for (int k = 0; k < n; ++k) {
      auto& e = m[entry()];
      c.x.insert(c.x.end(), e, e + 5);
    }
  } else if (c.op == Op::kGuesses) {
    c.j = 0;
    static const double g[2][3] = {{0.5, -0.5, 3.0}, {0.5, -0.5, 3.0 - 2 * M_PI}};
    for (int k = 0; k < n; ++k) {
      auto& e = g[entry()];
      c.x.insert(c.x.end(), e, e + 3);
    }
  } else if (c.op == Op::kCounts) {
    c.i = c.j = 0;
    for (int k = 0; k < n; ++k) c.n.push_back(entry() == 0 ? 40 : 0);
  } else {
    c.x.push_back(mc::pick({0.0, 0.25}, "radius"));
    for (int k = 0; k < n; ++k) {
      c.x.push_back(entry() == 0 ? 1.5 : -2.0);
      c.y.push_back(entry() == 0 ? 1.5 : 0.0);
    }
  }
  MC_LOG("  %s", c.Show().c_str());
  g_log.clear();
  r.Do(c);
  Only(c, self);
  mc::state(mc::Hash{}.add(c.Show()));
}

/// The same with long lists.
void LongLists() {
  g_log.clear();
  ffi::Rust r{mc::choose(2, "default")};
  MC_CHECK(g_log.size() == 1 && g_log[0].what == "new", "making a builder makes %zu native calls", g_log.size());
  const void* self = g_log[0].self;
  static const int ops[] = {Op::kDrivetrain, Op::kGuesses, Op::kPolygon, Op::kCounts};
  static const size_t sizes[] = {5, 16, 17, 33, 100, 257, 1000, 5000, 70000};
  Call c{mc::pick(ops, "call"), 1, 2};
  size_t n = mc::pick(sizes, "entries");
  bool alike = mc::choose(2, "alike") == 1;
  auto value = [&, k = 0]() mutable { return alike ? 0.5 : ++k / 3.0; };
  if (c.op == Op::kDrivetrain) {
    c.i = c.j = 0;
    c.x = {7.5, 1.0 / 3};
    for (size_t k = 0; k < 5 * n; ++k) c.x.push_back(value());
  } else if (c.op == Op::kGuesses) {
    c.j = 0;
    for (size_t k = 0; k < 3 * n; ++k) c.x.push_back(value());
  } else if (c.op == Op::kCounts) {
    c.i = c.j = 0;
    for (size_t k = 0; k < n; ++k) c.n.push_back(alike ? 40 : k);
  } else {
    c.x.push_back(0.25);
    for (size_t k = 0; k < n; ++k) c.x.push_back(value()), c.y.push_back(value());
  }
  auto said = mc::fmt("%s with %zu entries", ffi::Name(c.op), n);
  MC_LOG("  %s", said.c_str());
  g_log.clear();
  r.Do(c);
  mc::op();
  MC_CHECK(g_log.size() == 1 && g_log[0].what == "call" && g_log[0].call.op == c.op && g_log[0].self == self, "%s makes %zu native calls", said.c_str(), g_log.size());
  auto& got = g_log[0].call;
  MC_CHECK(got.i == c.i && got.j == c.j && Bits(got.x, c.x) && Bits(got.y, c.y) && got.n == c.n, "%s does not arrive as given", said.c_str());
  mc::state(mc::Hash{}.add(said).add(uint64_t{alike}));
}

const std::string kErrors[] = {"problem is locally infeasible", "", "line 1\nline 2 \xc3\xa9 %s \"quoted\""};

/// Generates; the native side answers with a trajectory (0-4) or an error.
void Generate(ffi::Rust& r, const void* self, bool diagnostics, int64_t handle, int answer, const std::string& said, const std::string& text = {}) {
  g_answer.ok = answer >= 0;
  if (answer >= 0) {
    g_answer.t = Trajectory(answer);
  } else {
    g_answer.error = text;
  }
  g_log.clear();
  ffi::Events().clear();
  r.Generate(diagnostics, handle);
  mc::op();
  MC_CHECK(g_log.size() == 1 && g_log[0].what == "generate" && g_log[0].self == self, "%s makes %zu native calls, the first %s", said.c_str(), g_log.size(),
           g_log.empty() ? "" : g_log[0].what == "call" ? ffi::Name(g_log[0].call.op) : g_log[0].what.c_str());
  MC_CHECK(g_log[0].diagnostics == diagnostics && g_log[0].handle == handle, "%s arrives with (%d, %lld)", said.c_str(), g_log[0].diagnostics,
           (long long)g_log[0].handle);
  auto& e = ffi::Events();
  MC_CHECK(e.size() == 1, "%s: no result", said.c_str());
  if (g_answer.ok) {
    MC_CHECK(e[0].error.empty() && Bits(e[0].v, ffi::Flat(g_answer.t)), "%s: the trajectory is not the native one", said.c_str());
  } else {
    MC_CHECK(e[0].v.empty() && e[0].error == g_answer.error, "%s: the error is \"%s\", the native one \"%s\"", said.c_str(), e[0].error.c_str(),
             g_answer.error.c_str());
  }
}

/// Every result of a generation.
void Results() {
  g_log.clear();
  ffi::Rust r;
  const void* self = g_log.at(0).self;
  static const int64_t handles[] = {0, 1, -1, INT64_MAX, INT64_MIN, (int64_t{1} << 53) + 1};
  bool diagnostics = mc::choose(2, "diagnostics") == 1;
  auto handle = mc::pick(handles, "handle");
  int runs = 2;
  for (int k = 0; k < runs; ++k) {
    int a = mc::choose(8, "answer");
    auto said = mc::fmt("generate(%d, %lld), answer %d", diagnostics, (long long)handle, a);
    MC_LOG("  %s", said.c_str());
    Generate(r, self, diagnostics, handle, a <= kLong ? a : -1, said, a <= kLong ? "" : kErrors[a - kLong - 1]);
    mc::state(mc::Hash{}.add(said));
  }
}

/// Every character at the start, at the end, within and all over an error.
void Errors() {
  g_log.clear();
  ffi::Rust r;
  const void* self = g_log.at(0).self;
  static const char* wide[] = {"\xc2\xa0", "\xc3\xa9", "\xe2\x80\xa6", "\xe3\x80\x80", "\xf0\x9f\xa4\x96"};
  int c = mc::choose(127 + 5, "character");
  std::string ch = c < 127 ? std::string(1, static_cast<char>(c + 1)) : wide[c - 127];
  int times = mc::pick({1, 2, 3, 300, 10000}, "times"), where = mc::choose(4, "where");
  std::string many;
  for (int k = 0; k < times; ++k) many += ch;
  std::string text = where == 0 ? many : where == 1 ? many + "solver failed" : where == 2 ? "solver failed" + many : "solver" + many + "failed";
  if (mc::choose(2, "again") == 1) text += ": " + text;
  auto said = mc::fmt("an error with character %d %d times (%d)", c + 1, times, where);
  MC_LOG("  %s", said.c_str());
  Generate(r, self, false, 1, -1, said, text);
  mc::state(mc::Hash{}.add(text));
}

/// Every history of calls on two builders: each native builder receives the
/// calls of its builder, in order, and lives as long as it does.
void Histories() {
  g_log.clear();
  std::optional<ffi::Rust> r[2];
  const void* self[2] = {};
  int depth = 3;
  std::string said;
  for (int k = 0; k < depth; ++k) {
    int which = k == 0 ? 0 : mc::choose(2, "builder");
    if (!r[which]) {
      g_log.clear();
      r[which].emplace(which);
      MC_CHECK(g_log.size() == 1 && g_log[0].what == "new", "making a builder makes %zu native calls", g_log.size());
      self[which] = g_log[0].self;
    }
    int op = mc::choose(ffi::kOps + 3, "call");
    g_log.clear();
    if (op < ffi::kOps) {
      Call c{op, static_cast<size_t>(k), static_cast<size_t>(k + 5)};
      int n = ffi::Numbers(op);
      if (op == Op::kDrivetrain) n = 12;
      if (op == Op::kGuesses) n = 6;
      if (op == Op::kPolygon) n = 3;
      for (int q = 0; q < n; ++q) c.x.push_back(k + 1.0 / (q + 3));
      if (op == Op::kPolygon) c.y = {7.5 + k, 1.0 / 3};
      if (op == Op::kCounts) c.n = {3 + static_cast<size_t>(k), 4};
      if (ffi::Indices(op) < 2) c.j = 0;
      if (ffi::Indices(op) < 1) c.i = op != Op::kCallback ? 0 : static_cast<size_t>(mc::choose(2, "callback"));
      said += mc::fmt("%d.", which) + c.Show() + "; ";
      MC_LOG("  builder %d: %s", which, c.Show().c_str());
      r[which]->Do(c);
      Only(c, self[which]);
    } else if (op == ffi::kOps) {
      said += mc::fmt("%d.generate; ", which);
      Generate(*r[which], self[which], k % 2 == 0, 100 + k, k == 2 ? -1 : k * 2, said, kErrors[0]);
    } else if (op == ffi::kOps + 1) {
      said += "cancel; ";
      ffi::Rust::Cancel();
      MC_CHECK(g_log.size() == 1 && g_log[0].what == "cancel", "%scancelling makes %zu native calls", said.c_str(), g_log.size());
    } else {
      said += mc::fmt("%d dropped; ", which);
      r[which].reset();
      MC_CHECK(g_log.empty(), "%s%zu native calls", said.c_str(), g_log.size());
    }
    mc::state(mc::Hash{}.add(said));
  }
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"arguments", Arguments, 4}, {"lists", Lists, 3}, {"longlists", LongLists, 2}, {"results", Results, 3}, {"errors", Errors, 2}, {"histories", Histories, 3}});
}
