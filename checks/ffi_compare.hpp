// Runs the same calls on two interfaces and compares what comes of them.
#pragma once

#include "checks/ffi_ops.hpp"

namespace ffi {

inline int64_t g_now = 1'000'000'000'000;  // ns; every iteration is due for a report

/// What one generation was given and gave.
struct Seen {
  bool ran = false, diagnostics = false, hasCost = false;
  size_t nvar = 0;
  std::vector<double> init;
  std::vector<std::array<double, 4>> eq, ineq;
  std::array<double, 4> cost{};
  int stoppedAt = -1;
  std::vector<Event> events;
};

struct Script {
  sleipnir::SolverExitCondition exit = sleipnir::SolverExitCondition::kSuccess;
  int iterations = 2;
  std::function<void(int)> before;
  std::string throws;  // what the solver throws, if anything
};

template <class T>
Seen Generate(T& t, const Script& sc, bool diagnostics, int64_t handle) {
  Seen r;
  Events().clear();
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& p, const sleipnir::SolverConfig& config) {
    MC_CHECK(!r.ran, "%s: one generate solves twice", T::Who());
    r.ran = true;
    r.diagnostics = config.diagnostics;
    auto pr = tp::Problem::Read(p);
    r.nvar = pr.nvar;
    r.hasCost = pr.hasCost;
    r.init = pr.init;
    r.eq.resize(pr.nEq);
    r.ineq.resize(pr.nIneq);
    for (size_t k = 0; k < 4; ++k) {
      std::vector<double> x;
      for (size_t i = 0; i < pr.nvar; ++i) x.push_back(k == 3 ? pr.init[i] : std::sin(1.0 + static_cast<double>(i) * (static_cast<double>(k) + 0.5)) + 0.25 * static_cast<double>(k));
      auto y = pr.tape.Eval(x);
      for (size_t i = 0; i < pr.nEq; ++i) r.eq[i][k] = y[i];
      for (size_t i = 0; i < pr.nIneq; ++i) r.ineq[i][k] = y[pr.nEq + i];
      if (pr.hasCost) r.cost[k] = y[pr.nEq + pr.nIneq];
    }
    auto& v = p.EnvDecisionVariables();
    sleipnir::SolverStatus st;
    for (int k = 0; k < sc.iterations; ++k) {
      if (sc.before) sc.before(k);
      for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(100.0 * k + std::sin(static_cast<double>(i)));
      g_now += 20'000'000;
      if (p.EnvIterate(k)) {
        r.stoppedAt = k;
        st.exitCondition = sleipnir::SolverExitCondition::kCallbackRequestedStop;
        return st;
      }
    }
    for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(std::cos(static_cast<double>(i)));
    if (!sc.throws.empty()) throw std::runtime_error{sc.throws};
    st.exitCondition = sc.exit;
    return st;
  };
  t.Generate(diagnostics, handle);
  sleipnir::env::Hook() = nullptr;
  r.events = Events();
  return r;
}

inline bool Close(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b || std::abs(a - b) <= 1e-9 * std::max({1.0, std::abs(a), std::abs(b)});
}
/// Equal lists of constraints, in any order.
inline void SameSet(std::vector<std::array<double, 4>> a, std::vector<std::array<double, 4>> b, const char* kind, const std::string& what) {
  MC_CHECK(a.size() == b.size(), "%s: %zu %s constraints, through C++ %zu", what.c_str(), a.size(), kind, b.size());
  auto same = [](const std::array<double, 4>& p, const std::array<double, 4>& q) {
    for (size_t k = 0; k < 4; ++k)
      if (!Close(p[k], q[k])) return false;
    return true;
  };
  std::vector<bool> used(b.size());
  size_t hint = 0;
  for (auto& p : a) {
    bool found = false;
    for (size_t n = 0; n < b.size() && !found; ++n) {
      size_t k = (hint + n) % b.size();
      if (!used[k] && same(p, b[k])) {
        used[k] = found = true;
        hint = k + 1;
      }
    }
    MC_CHECK(found, "%s: a %s constraint with values (%.15g, %.15g, %.15g; %.15g at the start) has no counterpart in the problem built through C++",
             what.c_str(), kind, p[0], p[1], p[2], p[3]);
  }
}
inline void Same(const Seen& a, const Seen& b, const std::string& what) {
  mc::op();
  MC_CHECK(a.ran == b.ran, "%s: the solver is %sinvoked", what.c_str(), a.ran ? "" : "not ");
  MC_CHECK(a.diagnostics == b.diagnostics, "%s: diagnostics %d, through C++ %d", what.c_str(), a.diagnostics, b.diagnostics);
  MC_CHECK(a.nvar == b.nvar, "%s: %zu variables, through C++ %zu", what.c_str(), a.nvar, b.nvar);
  MC_CHECK(a.hasCost == b.hasCost, "%s: the objective", what.c_str());
  for (size_t i = 0; i < a.nvar; ++i)
    MC_CHECK(Close(a.init[i], b.init[i]), "%s: variable %zu starts at %.17g, through C++ at %.17g", what.c_str(), i, a.init[i], b.init[i]);
  for (size_t k = 0; k < 4; ++k)
    MC_CHECK(Close(a.cost[k], b.cost[k]), "%s: the objective is %.17g, through C++ %.17g", what.c_str(), a.cost[k], b.cost[k]);
  SameSet(a.eq, b.eq, "equality", what);
  SameSet(a.ineq, b.ineq, "inequality", what);
  MC_CHECK(a.stoppedAt == b.stoppedAt, "%s: stopped at iteration %d, through C++ %d", what.c_str(), a.stoppedAt, b.stoppedAt);
  MC_CHECK(a.events.size() == b.events.size(), "%s: %zu reports and results, through C++ %zu", what.c_str(), a.events.size(), b.events.size());
  for (size_t k = 0; k < a.events.size(); ++k) {
    auto &p = a.events[k], &q = b.events[k];
    std::string w = what + (p.which < 0 ? ": the result" : mc::fmt(": report %zu", k));
    MC_CHECK(p.which == q.which && p.handle == q.handle, "%s goes to callback %d with handle %lld, through C++ to %d with %lld", w.c_str(), p.which,
             (long long)p.handle, q.which, (long long)q.handle);
    MC_CHECK(p.error == q.error, "%s has the error \"%s\", through C++ \"%s\"", w.c_str(), p.error.c_str(), q.error.c_str());
    MC_CHECK(p.v.size() == q.v.size(), "%s has %zu numbers, not %zu", w.c_str(), p.v.size(), q.v.size());
    for (size_t i = 0; i < p.v.size(); ++i)
      MC_CHECK(Close(p.v[i], q.v[i]), "%s: number %zu of the trajectory is %.17g, not %.17g", w.c_str(), i, p.v[i], q.v[i]);
  }
}

/// The two sides of a comparison.
template <class T>
struct Two {
  T foreign;
  Cpp cpp;
  std::string said;
  int generation = 0;
  void Do(const Call& c) {
    said += c.Show() + "; ";
    MC_LOG("  %s", c.Show().c_str());
    foreign.Do(c);
    cpp.Do(c);
  }
  void Generate(const Script& sc = {}, bool diagnostics = false, int64_t handle = 0) {
    ++generation;
    trajopt::GetCancellationFlag() = 0;
    auto b = ffi::Generate(cpp, sc, diagnostics, handle);
    trajopt::GetCancellationFlag() = 0;
    auto a = ffi::Generate(foreign, sc, diagnostics, handle);
    Same(a, b, mc::fmt("generation %d after %s", generation, said.c_str()));
    mc::state(mc::Hash{}.add(said).add(static_cast<uint64_t>(a.events.size())));
  }
};

// The explored histories -------------------------------------------------------

/// The calls that can follow on a path with `waypoints` waypoints.
/// (lean: one place on the path for each of them.)
inline Call ChooseCall(size_t waypoints, int flavour, bool lean = false) {
  int op = mc::choose(kOps, "call");
  Call c{op};
  size_t last = waypoints == 0 ? 0 : waypoints - 1;
  if (op == kDrivetrain) return Robot(mc::choose(3, "robot"));
  if (op == kCounts) {
    if (waypoints < 1) throw mc::Prune{};
    for (size_t k = 0; k + 1 < waypoints; ++k) c.n.push_back(2 + (k + static_cast<size_t>(flavour)) % 3);
    return c;
  }
  if (op == kCallback) {
    c.i = static_cast<size_t>(mc::choose(2, "callback"));
    return c;
  }
  if (op == kGuesses) {
    c.i = last == 0 ? 0 : static_cast<size_t>(mc::choose(static_cast<int>(last), "segment"));
    int n = mc::choose(3, "points");
    for (int k = 0; k < n; ++k)
      for (double d : {1.0 / 3 + k, 2.5 - k, 0.3 * k + flavour}) c.x.push_back(d);
    return c;
  }
  if (Indices(op) == 1) {
    c.i = lean ? last : static_cast<size_t>(mc::choose(static_cast<int>(std::min<size_t>(waypoints, 2)) + 1, "waypoint"));
  } else if (Indices(op) == 2 && lean) {
    c.i = 0;
    c.j = 1;
  } else if (Indices(op) == 2) {
    c.i = static_cast<size_t>(mc::choose(2, "from"));
    c.j = c.i + 1 + static_cast<size_t>(mc::choose(2, "length"));
  }
  if (op == kPolygon) {
    static const std::array<size_t, 2> shapes[] = {{3, 3}, {2, 2}, {1, 1}, {3, 2}};
    auto s = mc::pick(shapes, "corners");
    auto p = Polygon(c.i, c.j, s[0], s[1], flavour);
    return p;
  }
  c.x = Args(op, flavour);
  return c;
}
/// Every call, every lattice of arguments, on a path of three waypoints.
template <class T>
void Singles() {
  Two<T> t;
  t.Do(Robot(0));
  t.Do({kBumpers, 0, 0, {1.3, 0.9}, {}, {}});
  t.Do({kPose, 0, 0, {0.5, -0.25, 0.3}, {}, {}});
  t.Do({kEmpty, 2, 0, {2.5, 1.25, -0.7}, {}, {}});
  t.Do({kCounts, 0, 0, {}, {}, {2, 3}});
  int op = mc::choose(kOps, "call");
  Call c{op};
  if (op == kDrivetrain) {
    // every field in turn, and every robot
    int which = mc::choose(12 + 4, "field or robot");
    if (which < 12) {
      c = Robot(0);
      c.x[static_cast<size_t>(which)] *= 1.0 + mc::pick({1e-9, 0.5, -0.25}, "change");
    } else {
      c = Robot(which - 12);
    }
    t.Do(c);
    t.Do({kCircle, 0, 2, {1.1, 2.2, 0.3}, {}, {}});
    t.Generate();
    return;
  }
  if (op == kCounts) {
    size_t a = static_cast<size_t>(mc::choose(4, "first") + 1), b = static_cast<size_t>(mc::choose(4, "second") + 1);
    c.n = {a, b};
  } else if (op == kCallback) {
    int n = mc::choose(4, "callbacks");
    for (int k = 0; k < n; ++k) {
      c.i = static_cast<size_t>(mc::choose(3, "callback"));
      t.Do(c);
    }
    Script sc;
    sc.iterations = mc::choose(3, "iterations");
    static const int64_t handles[] = {0, 1, -1, INT64_MAX, INT64_MIN, (int64_t{1} << 53) + 1};
    t.Generate(sc, mc::choose(2, "diagnostics") == 1, mc::pick(handles, "handle"));
    return;
  } else if (op == kGuesses) {
    c.i = static_cast<size_t>(mc::choose(3, "segment"));
    int n = mc::choose(4, "points");
    static const double alphabet[] = {-1.0 / 3, 4.125, 1e-10 + 2.0 / 7};
    for (int k = 0; k < 3 * n; ++k) c.x.push_back(k < 3 ? mc::pick(alphabet, "coordinate") : alphabet[(k * 5 + k / 3) % 3] + k);
  } else if (op == kPolygon) {
    c = Polygon(static_cast<size_t>(mc::choose(2, "from")), 2, 0, 0, mc::choose(3, "radius"));
    size_t nx = static_cast<size_t>(mc::choose(5, "xs")), ny = static_cast<size_t>(mc::choose(5, "ys"));
    if (nx == 0 && ny == 0) throw mc::Prune{};
    c = Polygon(c.i, c.j + static_cast<size_t>(mc::choose(2, "beyond the last waypoint")), nx, ny, mc::choose(3, "radius"));
  } else {
    if (Indices(op) == 1) c.i = static_cast<size_t>(mc::choose(4, "waypoint"));
    if (Indices(op) == 2) {
      static const std::array<size_t, 2> spans[] = {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 3}};
      auto s = mc::pick(spans, "span");
      c.i = s[0];
      c.j = s[1];
    }
    static const double quick[] = {0.625, 1.0 / 3, 2.5e-8 + 1.7, 1e4 + 1.0 / 9, -0.4375, -1e-5 / 3};
    bool magnitude = op == kWptVelMax || op == kWptAccel || op == kWptAngVel || op == kSgmtVelMax || op == kSgmtAccel || op == kSgmtAngVel;
    for (int k = 0; k < Numbers(op); ++k) {
      int n = magnitude || op == kBumpers || (op == kCircle && k == 2) || ((op == kWptPointAt || op == kSgmtPointAt) && k == 2) ? 4 : 6;
      if (!mc::thorough() && Numbers(op) == 3) n = std::min(n, 4 + (k == 0));
      c.x.push_back(quick[mc::choose(n, "number")]);
    }
  }
  t.Do(c);
  if (op == kBumpers) t.Do({kCircle, 0, 2, {1.1, 2.2, 0.3}, {}, {}});
  t.Generate();
}

/// Lists with equal entries: every list of up to four entries over two.
template <class T>
void Lists() {
  Two<T> t;
  t.Do(Robot(0));
  t.Do({kBumpers, 0, 0, {1.3, 0.9}, {}, {}});
  t.Do({kPose, 0, 0, {0.5, -0.25, 0.3}, {}, {}});
  t.Do({kEmpty, 1, 0, {2.5, 1.25, -0.7}, {}, {}});
  t.Do({kCounts, 0, 0, {}, {}, {5}});
  static const int ops[] = {kDrivetrain, kGuesses, kPolygon};
  Call c{mc::pick(ops, "call")};
  int n = mc::choose(5, "entries");
  auto entry = [&] { return mc::choose(2, "entry"); };
  if (c.op == kDrivetrain) {
    c.x = {45.5, 6.25};
    static const double m[2][5] = {{0.5, -0.5, 0.05, 70, 2}, {0.25, 0.5, 0.05, 70, 2}};
    for (int k = 0; k < n; ++k) {
      auto& e = m[entry()];
      c.x.insert(c.x.end(), e, e + 5);
    }
  } else if (c.op == kGuesses) {
    static const double g[2][3] = {{0.5, -0.5, 3.0}, {0.5, -0.5, 3.0 - 2 * M_PI}};
    for (int k = 0; k < n; ++k) {
      auto& e = g[entry()];
      c.x.insert(c.x.end(), e, e + 3);
    }
  } else {
    if (n == 0) throw mc::Prune{};  // (an obstacle has corners)
    c.i = 0;
    c.j = 1;
    c.x.push_back(0.25);
    int missing = mc::choose(2, "an ordinate missing");
    for (int k = 0; k < n; ++k) {
      c.x.push_back(entry() == 0 ? 1.5 : -2.0);
      if (k + missing < n) c.y.push_back(entry() == 0 ? 1.5 : 0.0);
    }
  }
  t.Do(c);
  t.Generate();
}

/// Every call with each of its numbers special, and all of them; long lists.
template <class T>
void Special() {
  static const double numbers[] = {0.0, -0.0, 1.0, -1.0, M_PI, -M_PI, M_PI / 2, 2 * M_PI, 7.0, 1e-12, -1e-12, 1e-3, 0.01, -0.01, 100.0, 360.0, 1e4, -1e12, 1e300,
                                   HUGE_VAL};
  int op = mc::choose(kOps, "call");
  if (op == kCallback) throw mc::Prune{};
  Call c{op};
  bool obstacle = op == kBumpers || op == kDrivetrain;
  int longer = op == kDrivetrain || op == kGuesses || op == kPolygon ? mc::choose(4, "long list") : 0;
  static const size_t sizes[] = {0, 8, 17, 130};
  size_t n = sizes[longer];
  std::string what;
  if (op == kCounts) {
    static const size_t counts[] = {1, 2, 39, 40, 41, 100, 127, 128, 255, 256};
    c.n = {mc::pick(counts, "first"), mc::pick({size_t{1}, size_t{40}, size_t{130}}, "second")};
  } else if (longer > 0) {
    if (op == kDrivetrain) {
      c.x = {45.0, 6.0};
      for (size_t k = 0; k < n; ++k)
        for (double d : {std::cos(static_cast<double>(k)), std::sin(static_cast<double>(k)), 0.05, 70.0, 2.0}) c.x.push_back(d);
    } else if (op == kGuesses) {
      for (size_t k = 0; k < 3 * n; ++k) c.x.push_back(std::sin(static_cast<double>(k)));
    } else {
      c.j = 1;
      c.x.push_back(0.125);
      for (size_t k = 0; k < n; ++k) c.x.push_back(4 * std::cos(static_cast<double>(k))), c.y.push_back(4 * std::sin(static_cast<double>(k)));
    }
  } else {
    bool two = Indices(op) == 2;
    c.i = two ? 0 : Indices(op) == 1 ? 1 : 0;
    c.j = two ? 1 : 0;
    if (op == kGuesses) c.i = 0;
    if (op == kDrivetrain) c = Robot(0);
    else if (op == kGuesses) c.x = {1.5, -0.5, 0.3, 2.5, 0.75, -1.25};
    else if (op == kPolygon) c.x = {0.25, 1.5, 2.5, 3.5}, c.y = {-1.25, 0.75, 2.25};
    else c.x = Args(op, 0);
    size_t fields = c.x.size() + c.y.size();
    auto which = static_cast<size_t>(mc::choose(static_cast<int>(fields) + 2, "argument"));
    double v = mc::pick(numbers, "number");
    bool magnitude = op == kWptVelMax || op == kWptAccel || op == kWptAngVel || op == kSgmtVelMax || op == kSgmtAccel || op == kSgmtAngVel;
    bool pointAt = op == kWptPointAt || op == kSgmtPointAt;
    if (v < 0 && (magnitude || (pointAt && which >= 2) || (op == kCircle && which >= 2) || (op == kPolygon && (which == 0 || which >= fields)))) throw mc::Prune{};
    // (distances from edges of any other length depend on the order of the corners: rounding)
    if ((op == kBumpers || op == kPolygon) && std::abs(v) > 1000) throw mc::Prune{};
    if (which == fields) {
      for (auto* l : {&c.x, &c.y})
        for (double& d : *l) d = v;
    } else if (which > fields) {  // two of them
      if (fields < 2) throw mc::Prune{};
      c.x[0] = c.x[1] = v;
    } else {
      (which < c.x.size() ? c.x[which] : c.y[which - c.x.size()]) = v;
    }
  }
  Two<T> t;
  t.Do(Robot(0));
  t.Do({kBumpers, 0, 0, {1.3, 0.9}, {}, {}});
  t.Do({kPose, 0, 0, {0.5, -0.25, 0.3}, {}, {}});
  t.Do({kEmpty, 2, 0, {2.5, 1.25, -0.7}, {}, {}});
  if (op != kCounts) t.Do({kCounts, 0, 0, {}, {}, {3, 2}});
  t.Do(c);
  if (obstacle) t.Do({kCircle, 0, 2, {1.1, 2.2, 0.3}, {}, {}});
  t.Generate();
}

/// Every sequence of calls, with generations in between.
template <class T>
void Histories() {
  Two<T> t;
  size_t waypoints = 1;
  t.Do(Robot(0));
  if (mc::choose(2, "start") == 0) {
    t.Do({kEmpty, 1, 0, {1.5, 0.5, 0.25}, {}, {}});
    t.Do({kBumpers, 0, 0, {0.9, 0.7}, {}, {}});
    t.Do({kCounts, 0, 0, {}, {}, {3}});
    waypoints = 2;
  } else {
    t.Do({kEmpty, 0, 0, {1.5, 0.5, 0.25}, {}, {}});
  }
  int depth = mc::thorough() ? 3 : 2;
  for (int k = 0; k < depth; ++k) {
    auto c = ChooseCall(waypoints, k, k == 1 && depth > 2);
    t.Do(c);
    waypoints = t.cpp.b.GetPath().waypoints.size();
    // (segments nobody configured have 40 intervals: too slow for every history)
    bool counted = c.op == kCounts;
    if (waypoints > 1 && !counted && (k + 1 == depth || k == 0)) t.Do({kCounts, 0, 0, {}, {}, std::vector<size_t>(waypoints - 1, 2 + static_cast<size_t>(k))});
    if (k + 1 < depth && mc::choose(2, "generate") == 1) t.Generate({}, false, k);
  }
  t.Generate({}, false, 77);
}

/// Longer sequences of the calls whose effects accumulate or depend on order.
template <class T>
void Long() {
  Two<T> t;
  t.Do(Robot(2));
  t.Do({kPose, 0, 0, {0.5, 0.25, 0.125}, {}, {}});
  size_t waypoints = 1;
  int depth = mc::thorough() ? 5 : 4;
  static const int ops[] = {kBumpers, kCircle, kGuesses, kEmpty, kCallback, kSgmtVelMax, kPose};
  for (int k = 0; k < depth; ++k) {
    int op = mc::pick(ops, "call");
    Call c{op};
    double f = 1.0 + k / 7.0;
    switch (op) {
      case kBumpers: c.x = {f, 0.5 * f}; break;
      case kCircle: c = {kCircle, 0, 1, {f, 3 - f, 0.1 * f}, {}, {}}; break;
      case kGuesses: c = {kGuesses, 0, 0, {f, 2 * f, 0.3 * f, 1 + f, 1 - f, -f}, {}, {}}; break;
      case kEmpty: c = {kEmpty, 1, 0, {f, -f, f / 3}, {}, {}}; break;
      case kCallback: c.i = static_cast<size_t>(k % 3); break;
      case kSgmtVelMax: c = {op, waypoints - 1, waypoints, {f}, {}, {}}; break;
      default: c = {op, waypoints, 0, {f, f + 1, f / 2}, {}, {}}; break;
    }
    t.Do(c);
    waypoints = t.cpp.b.GetPath().waypoints.size();
    if (k == 1 && mc::choose(2, "generate") == 1) t.Generate();
  }
  if (waypoints > 1) t.Do({kCounts, 0, 0, {}, {}, std::vector<size_t>(waypoints - 1, 4)});
  t.Generate({}, true, -5);
}

/// Every outcome of the solver, cancellation at every point, and generations in
/// sequence on one builder.
template <class T>
void Outcomes() {
  Two<T> t;
  t.Do(Robot(0));
  t.Do({kPose, 0, 0, {0.5, 0.25, 0.125}, {}, {}});
  t.Do({kEmpty, 1, 0, {2.5, 1.25, 0.5}, {}, {}});
  t.Do({kCounts, 0, 0, {}, {}, {2}});
  bool callback = mc::choose(2, "callback") == 1;
  if (callback) t.Do({kCallback, 1, 0, {}, {}, {}});
  int runs = mc::thorough() ? 3 : 2;
  for (int r = 0; r < runs; ++r) {
    Script sc;
    int kind = mc::choose(12, "outcome");
    sc.iterations = r == 0 ? mc::choose(3, "iterations") : 2;
    if (kind < 10) {
      static const sleipnir::SolverExitCondition all[] = {
          sleipnir::SolverExitCondition::kSuccess, sleipnir::SolverExitCondition::kSolvedToAcceptableTolerance,
          sleipnir::SolverExitCondition::kCallbackRequestedStop, sleipnir::SolverExitCondition::kTooFewDOFs,
          sleipnir::SolverExitCondition::kLocallyInfeasible, sleipnir::SolverExitCondition::kFeasibilityRestorationFailed,
          sleipnir::SolverExitCondition::kNonfiniteInitialCostOrConstraints, sleipnir::SolverExitCondition::kDivergingIterates,
          sleipnir::SolverExitCondition::kMaxIterationsExceeded, sleipnir::SolverExitCondition::kTimeout};
      sc.exit = all[kind];
      t.said += mc::fmt("(the solver ends with %d) ", static_cast<int>(sc.exit));
      t.Generate(sc, r == 1, 10 + r);
    } else if (kind == 10) {
      sc.throws = "out of \"memory\", \xc3\xa9\n";
      t.said += "(the solver throws) ";
      t.Generate(sc, false, r);
    } else {
      // each side cancels by its own means
      int at = mc::choose(sc.iterations + 1, "cancel before iteration");
      t.said += mc::fmt("(cancelled before iteration %d of %d) ", at, sc.iterations);
      Script a = sc, b = sc;
      a.before = [&](int k) {
        if (k == at) T::Cancel();
      };
      b.before = [&](int k) {
        if (k == at) Cpp::Cancel();
      };
      trajopt::GetCancellationFlag() = 0;
      auto sb = ffi::Generate(t.cpp, b, false, r);
      trajopt::GetCancellationFlag() = 0;
      auto sa = ffi::Generate(t.foreign, a, false, r);
      trajopt::GetCancellationFlag() = 0;
      Same(sa, sb, t.said);
      mc::state(mc::Hash{}.add(t.said));
    }
  }
}

}  // namespace ffi
