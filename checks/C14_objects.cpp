// C14 (objects): histories of copying, moving, changing, destroying builders and
// generators; every generation equals the one of its recipe run alone.
#include <map>

#include "checks/outcome.hpp"
#include "trajopt/constraint/AngularVelocityMaxMagnitudeConstraint.hpp"
#include "trajopt/constraint/LinearVelocityMaxMagnitudeConstraint.hpp"

namespace {
int64_t g_now = 1'000'000'000;
}
extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  t->tv_sec = g_now / 1'000'000'000;
  t->tv_nsec = g_now % 1'000'000'000;
  return 0;
}

namespace {

using namespace tp;
using Recipe = std::vector<int>;  // changes made to the builder, in order

void Change(SwervePathBuilder& b, int what) {
  switch (what) {
    case 0:
      b.SetDrivetrain(Drive(3));
      b.PoseWpt(0, 0, 0, 0);
      b.PoseWpt(1, 1, 0, 0.5);
      b.ControlIntervalCounts({1});
      b.AddIntermediateCallback([s = std::string(40, 'x')](trajopt::SwerveSolution& q, int64_t h) { ReportInto(static_cast<int>(s.size()), q, h); });
      break;
    case 1:
      b.WptConstraint(1, trajopt::LinearVelocityMaxMagnitudeConstraint{1.5});
      b.AddIntermediateCallback([](trajopt::SwerveSolution& q, int64_t h) { ReportInto(2, q, h); });
      break;
    case 2:
      b.PoseWpt(2, 3, 3, 1);
      b.ControlIntervalCounts({1, 2});
      b.SgmtConstraint(1, 2, trajopt::AngularVelocityMaxMagnitudeConstraint{2.5});
      break;
    case 3:
      b.SetDrivetrain(Drive(1));
      b.SgmtInitialGuessPoints(0, {{0.5, 0.25, {0.25}}});
      b.PoseWpt(2, 4, 3, 1);
      b.ControlIntervalCounts({2, 3});
      break;
    default:
      b.WptInitialGuessPoint(0, {9, 9, {1.0}});
      break;
  }
}

struct B {
  std::optional<SwervePathBuilder> b;
  Recipe r;
};
struct G {
  std::optional<SwerveTrajectoryGenerator> g;
  Recipe r;
  int64_t handle = 0;
  bool fresh = true;  // no generation of it or of a copy has changed the variables
  int group = 0;      // copies of one generator share variables
};

void Run(SwerveTrajectoryGenerator& g, Outcome& o, bool start) {
  CurrentOutcome() = &o;
  sleipnir::env::Hook() = [start](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig&) {
    OutcomeOptions opt;
    opt.start = start;
    opt.beforeIteration = [](int) { g_now += 20'000'000; };
    return OutcomeSolver(p, opt);
  };
  auto r = g.Generate();
  if (r.has_value()) o.add(r.value());
  else o.error = r.error();
  CurrentOutcome() = nullptr;
}

const Outcome& AloneRecipe(const Recipe& r, int64_t handle, bool start) {
  static std::map<std::pair<std::pair<Recipe, int64_t>, bool>, Outcome> memo;
  auto key = std::make_pair(std::make_pair(r, handle), start);
  auto it = memo.find(key);
  if (it == memo.end())
    it = memo.emplace(key, Alone([&](Outcome& o) {
                        SwervePathBuilder b;
                        for (int w : r) Change(b, w);
                        SwerveTrajectoryGenerator g{b, handle};
                        Run(g, o, start);
                      })).first;
  return it->second;
}

void Histories(int depth) {
  B b[2];
  G g[2];
  b[0].b.emplace();
  Change(*b[0].b, 0);
  b[0].r = {0};
  int changes = 0, groups = 0;
  bool touched[16] = {};
  auto generate = [&](int i, const char* when) {
    bool start = !touched[g[i].group];
    touched[g[i].group] = true;
    Outcome o;
    Run(*g[i].g, o, start);
    MC_LOG("  generate G%d", i);
    SameOutcome(o, AloneRecipe(g[i].r, g[i].handle, start), mc::fmt("generator G%d %s", i, when).c_str());
    mc::count("generations");
  };
  auto steal = [&](G& to, G& from) {
    to.r = from.r;
    to.handle = from.handle;
    to.group = from.group;
  };
  mc::Hash h;
  for (int k = 0; k < depth; ++k) {
    struct Op {
      int code, i;
      std::string name;
    };
    std::vector<Op> ops{{0, 0, "end"}};
    for (int i = 0; i < 2; ++i) {
      auto I = std::to_string(i), J = std::to_string(1 - i);
      if (b[i].b) {
        if (i == 0) {
          ops.push_back({1, i, "B1 = copy of B0"});
          ops.push_back({2, i, "B1 = moved B0, B0 destroyed"});
        }
        if (changes < 4) ops.push_back({3, i, "change B" + I});
        ops.push_back({5, i, "destroy B" + I});
        ops.push_back({6, i, "G" + I + " made from B" + I});
        if (i == 0) ops.push_back({7, i, "G1 made from B0"});
      }
      if (g[i].g) {
        ops.push_back({8, i, "G" + J + " copy-constructed from G" + I});
        ops.push_back({9, i, "G" + J + " move-constructed from G" + I + ", which is destroyed"});
        if (g[1 - i].g) {
          ops.push_back({10, i, "G" + J + " = copy of G" + I});
          ops.push_back({14, i, "G" + J + " = moved G" + I + ", which is destroyed"});
          if (i == 0) ops.push_back({11, i, "swap G0, G1"});
        }
        ops.push_back({12, i, "destroy G" + I});
        ops.push_back({13, i, "generate G" + I});
      }
    }
    auto& op = ops[static_cast<size_t>(mc::choose(static_cast<int>(ops.size())))];
    MC_LOG("  %s", op.name.c_str());
    mc::op();
    int i = op.i;
    switch (op.code) {
      case 1:
        b[1].b.reset();
        b[1].b.emplace(*b[0].b);
        b[1].r = b[0].r;
        break;
      case 2:
        b[1].b.reset();
        b[1].b.emplace(std::move(*b[0].b));
        b[1].r = b[0].r;
        b[0].b.reset();
        break;
      case 3:
        ++changes;
        Change(*b[i].b, changes);
        b[i].r.push_back(changes);
        break;
      case 5: b[i].b.reset(); break;
      case 6:
      case 7: {
        auto& t = op.code == 6 ? g[i] : g[1];
        t.handle = 40 + k;
        t.r = b[i].r;
        t.group = ++groups;
        t.g.reset();
        t.g.emplace(*b[i].b, t.handle);
        break;
      }
      case 8:
        g[1 - i].g.reset();
        g[1 - i].g.emplace(*g[i].g);
        steal(g[1 - i], g[i]);
        break;
      case 9:
        g[1 - i].g.reset();
        g[1 - i].g.emplace(std::move(*g[i].g));
        steal(g[1 - i], g[i]);
        g[i].g.reset();
        break;
      case 10:
        *g[1 - i].g = *g[i].g;
        steal(g[1 - i], g[i]);
        break;
      case 14:
        *g[1 - i].g = std::move(*g[i].g);
        steal(g[1 - i], g[i]);
        g[i].g.reset();
        break;
      case 11: {
        std::swap(*g[0].g, *g[1].g);
        std::swap(g[0].r, g[1].r);
        std::swap(g[0].handle, g[1].handle);
        std::swap(g[0].group, g[1].group);
        break;
      }
      case 12: g[i].g.reset(); break;
      case 13: generate(i, "within the history"); break;
      default: break;
    }
    h.add(static_cast<uint64_t>(op.code * 2 + i));
    mc::state(h);
    if (op.code == 0) break;
  }
  for (int i = 0; i < 2; ++i)
    if (g[i].g) generate(i, "at the end");
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"object-histories", [] { Histories(mc::thorough() ? 6 : 5); }, 3}});
}
