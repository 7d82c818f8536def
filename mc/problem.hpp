// Reads the optimisation problem TrajoptLib hands to the (stand-in) solver, as
// a function of the fields of the solution TrajoptLib hands back.
#pragma once

#include <math.h>

#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include <sleipnir/optimization/OptimizationProblem.hpp>

#include "mc/mc.hpp"
#include "trajopt/SwerveTrajectoryGenerator.hpp"
#include "trajopt/path/SwervePathBuilder.hpp"
#include "trajopt/solution/SwerveSolution.hpp"

namespace tp {

/// A flattened expression graph, evaluated at arbitrary decision-variable values.
class Tape {
 public:
  bool foreign = false;  // mentions a decision variable of another problem
  size_t outputs() const { return m_out.size(); }

  void Start(sleipnir::OptimizationProblem& p) {
    m_node.clear();
    m_out.clear();
    m_index.clear();
    m_vars.clear();
    for (auto& v : p.EnvDecisionVariables()) m_vars.push_back(v.expr.get());
  }
  void Add(const sleipnir::Variable& v) { m_out.push_back(Visit(v.expr.get())); }
  void Finish() {
    m_index.clear();
    m_val.resize(m_node.size());
  }

  /// Evaluates every output at the given decision variable values.
  const std::vector<double>& Eval(const std::vector<double>& x) {
    for (size_t i = 0; i < m_node.size(); ++i) {
      const auto& n = m_node[i];
      switch (n.op) {
        case Op::kConst: m_val[i] = n.c; break;
        case Op::kVar: m_val[i] = x[static_cast<size_t>(n.a)]; break;
        case Op::kAdd: m_val[i] = m_val[n.a] + m_val[n.b]; break;
        case Op::kSub: m_val[i] = m_val[n.a] - m_val[n.b]; break;
        case Op::kMul: m_val[i] = m_val[n.a] * m_val[n.b]; break;
        case Op::kNeg: m_val[i] = -m_val[n.a]; break;
        default:
          m_val[i] = sleipnir::detail::Apply(n.op, m_val[n.a], n.b >= 0 ? m_val[n.b] : 0.0);
      }
    }
    m_res.resize(m_out.size());
    for (size_t i = 0; i < m_out.size(); ++i) m_res[i] = m_val[m_out[i]];
    return m_res;
  }

  /// A place where a derivative does not exist: which output, which operation,
  /// the decision variables the output depends on.
  struct Singular {
    size_t output;
    const char* op;
    double a, b;
    std::set<int> vars;
  };
  /// Judges the first derivatives of every output at the last evaluated point:
  /// each step's derivatives with respect to what varies must be finite.
  /// Returns every output with a step where they are not.
  std::vector<Singular> Singularities() {
    std::vector<char> varies(m_node.size());
    for (size_t i = 0; i < m_node.size(); ++i) {
      auto& n = m_node[i];
      varies[i] = n.op == Op::kVar || (n.op != Op::kConst && (Varies(varies, n.a) || Varies(varies, n.b)));
    }
    std::vector<Singular> r;
    std::vector<int> mark(m_node.size(), -1), todo;
    for (size_t o = 0; o < m_out.size(); ++o) {
      Singular found{o, nullptr, 0, 0, {}};
      todo.assign(1, m_out[o]);
      while (!todo.empty()) {
        int i = todo.back();
        todo.pop_back();
        if (i < 0 || !varies[static_cast<size_t>(i)] || mark[static_cast<size_t>(i)] == static_cast<int>(o)) continue;
        mark[static_cast<size_t>(i)] = static_cast<int>(o);
        auto& n = m_node[static_cast<size_t>(i)];
        if (n.op == Op::kVar) {
          found.vars.insert(n.a);
          continue;
        }
        double a = m_val[static_cast<size_t>(n.a)], b = n.b >= 0 ? m_val[static_cast<size_t>(n.b)] : 0.0;
        bool va = Varies(varies, n.a), vb = Varies(varies, n.b);
        // (what is multiplied by a constant zero takes no part)
        if (n.op == Op::kMul && ((!va && a == 0) || (!vb && b == 0))) continue;
        if (auto* name = Step(n.op, a, b, va, vb); name != nullptr && found.op == nullptr) found.op = name, found.a = a, found.b = b;
        todo.push_back(n.a);
        todo.push_back(n.b);
      }
      if (found.op != nullptr) r.push_back(found);
    }
    return r;
  }

 private:
  using Op = sleipnir::detail::Op;
  struct Node {
    Op op;
    int a = -1, b = -1;
    double c = 0;
  };
  static bool Varies(const std::vector<char>& v, int i) { return i >= 0 && v[static_cast<size_t>(i)]; }
  // Name of the operation if a derivative of it is not finite.
  static const char* Step(Op op, double a, double b, bool va, bool vb) {
    auto bad = [](double d) { return !std::isfinite(d); };
    double r2 = a * a + b * b;
    switch (op) {
      case Op::kDiv: return (va && bad(1 / b)) || (vb && bad(a / b / b)) ? "division" : nullptr;
      case Op::kAcos: return bad(1 / sqrt(1 - a * a)) ? "acos" : nullptr;
      case Op::kAsin: return bad(1 / sqrt(1 - a * a)) ? "asin" : nullptr;
      case Op::kAtan2: return bad(a / r2) || bad(b / r2) ? "atan2" : nullptr;
      case Op::kHypot: {
        double h = hypot(a, b);
        return bad(a / h) || bad(b / h) ? "hypot" : nullptr;
      }
      case Op::kLog: return bad(1 / a) ? "log" : nullptr;
      case Op::kLog10: return bad(1 / a) ? "log10" : nullptr;
      case Op::kSqrt: return bad(1 / sqrt(a)) ? "sqrt" : nullptr;
      case Op::kPow: return (va && b != 0 && bad(b * pow(a, b - 1))) || (vb && bad(pow(a, b) * log(a))) ? "pow" : nullptr;
      case Op::kTan: return bad(1 / (cos(a) * cos(a))) ? "tan" : nullptr;
      default: return nullptr;
    }
  }
  int Visit(sleipnir::detail::Expression* e) {
    auto it = m_index.find(e);
    if (it != m_index.end()) return it->second;
    Node n;
    n.op = e->op;
    if (e->op == Op::kVar) {
      if (e->id >= 0 && static_cast<size_t>(e->id) < m_vars.size() && m_vars[e->id] == e) {
        n.a = e->id;
      } else {
        foreign = true;
        n.op = Op::kConst;
        n.c = e->value;
      }
    } else if (e->op == Op::kConst) {
      n.c = e->value;
    } else {
      n.a = Visit(e->lhs.get());
      if (e->rhs) n.b = Visit(e->rhs.get());
    }
    m_node.push_back(n);
    int idx = static_cast<int>(m_node.size()) - 1;
    m_index.emplace(e, idx);
    return idx;
  }
  std::vector<Node> m_node;
  std::vector<int> m_out;
  std::vector<double> m_val, m_res;
  std::unordered_map<sleipnir::detail::Expression*, int> m_index;
  std::vector<sleipnir::detail::Expression*> m_vars;
};

struct Problem {
  size_t nvar = 0, nEq = 0, nIneq = 0;
  bool hasCost = false;
  std::vector<double> init;
  Tape tape;  // equality residuals, inequality values, cost

  static Problem Read(sleipnir::OptimizationProblem& p) {
    Problem r;
    r.nvar = p.EnvDecisionVariables().size();
    for (auto& v : p.EnvDecisionVariables()) r.init.push_back(v.Value());
    r.nEq = p.EnvEquality().size();
    r.nIneq = p.EnvInequality().size();
    r.hasCost = p.EnvCost().has_value();
    r.tape.Start(p);
    for (auto& v : p.EnvEquality()) r.tape.Add(v);
    for (auto& v : p.EnvInequality()) r.tape.Add(v);
    if (r.hasCost) r.tape.Add(*p.EnvCost());
    r.tape.Finish();
    return r;
  }

  /// Largest violation of any constraint (NaN counts as infinite).
  double Worst(const std::vector<double>& x) {
    auto& v = tape.Eval(x);
    double w = 0;
    for (size_t i = 0; i < nEq; ++i) {
      double r = std::abs(v[i]);
      if (!(r <= w)) w = std::isnan(r) ? INFINITY : r;
    }
    for (size_t i = nEq; i < nEq + nIneq; ++i) {
      if (!(v[i] >= -w)) w = std::isnan(v[i]) ? INFINITY : -v[i];
    }
    return w;
  }
  double Cost(const std::vector<double>& x) {
    auto& v = tape.Eval(x);
    return hasCost ? v[nEq + nIneq] : NAN;
  }
};

using ivec = std::vector<int>;

/// Which decision variable backs which field of the returned solution.
struct FieldMap {
  ivec x, y, c, s, vx, vy, w, ax, ay, al, dt;
  std::vector<ivec> fx, fy;
};

/// Every generation asks for diagnostics.
inline bool alwaysDiagnostics = false;

inline std::string GenerateText(trajopt::SwerveTrajectoryGenerator& g,
                                std::optional<trajopt::SwerveSolution>* out, bool diagnostics = false) {
  auto r = g.Generate(diagnostics || alwaysDiagnostics);
  if (r.has_value()) {
    *out = r.value();
    return "";
  }
  return r.error();
}

/// Runs the generator with a solver that records the problem and gives every
/// decision variable a value of its own, and reads the mapping off the result.
inline Problem Capture(trajopt::SwerveTrajectoryGenerator& g, FieldMap& map,
                       const std::vector<size_t>& N, size_t modules, bool diagnostics = false) {
  Problem p;
  bool ran = false;
  sleipnir::env::Hook() = [&](sleipnir::OptimizationProblem& prob, const sleipnir::SolverConfig&) {
    p = Problem::Read(prob);
    auto& v = prob.EnvDecisionVariables();
    for (size_t i = 0; i < v.size(); ++i) v[i].SetValue(1000.0 + static_cast<double>(i));
    ran = true;
    return sleipnir::SolverStatus{};
  };
  std::optional<trajopt::SwerveSolution> sol;
  auto err = GenerateText(g, &sol, diagnostics);
  sleipnir::env::Hook() = nullptr;
  MC_CHECK(ran, "the generator never invoked the solver: %s", err.c_str());
  MC_CHECK(sol.has_value(), "generation failed although the solver succeeded: %s", err.c_str());
  size_t samples = 1;
  for (auto n : N) samples += n;
  std::set<int> seen;
  auto id = [&](double v, const char* f, bool unique = true) {
    int i = static_cast<int>(v - 1000.0);
    MC_CHECK(v == 1000.0 + i && i >= 0 && static_cast<size_t>(i) < p.nvar,
             "solution field %s does not report a solver variable's value (%g)", f, v);
    if (unique) {
      MC_CHECK(seen.insert(i).second, "two fields of the solution (one in %s) report the same solver variable", f);
    }
    return i;
  };
  auto take = [&](const std::vector<double>& f, const char* name) {
    MC_CHECK(f.size() == samples, "solution field %s has %zu entries for %zu samples", name, f.size(), samples);
    ivec r;
    for (double v : f) r.push_back(id(v, name));
    return r;
  };
  map.x = take(sol->x, "x");
  map.y = take(sol->y, "y");
  map.c = take(sol->thetacos, "thetacos");
  map.s = take(sol->thetasin, "thetasin");
  map.vx = take(sol->vx, "vx");
  map.vy = take(sol->vy, "vy");
  map.w = take(sol->omega, "omega");
  map.ax = take(sol->ax, "ax");
  map.ay = take(sol->ay, "ay");
  map.al = take(sol->alpha, "alpha");
  auto forces = [&](const std::vector<std::vector<double>>& f, const char* name) {
    MC_CHECK(f.size() == samples, "solution field %s has %zu rows for %zu samples", name, f.size(), samples);
    std::vector<ivec> r;
    for (auto& row : f) {
      MC_CHECK(row.size() == modules, "solution field %s has %zu entries for %zu modules", name, row.size(), modules);
      ivec q;
      for (double v : row) q.push_back(id(v, name));
      r.push_back(q);
    }
    return r;
  };
  map.fx = forces(sol->moduleFX, "moduleFX");
  map.fy = forces(sol->moduleFY, "moduleFY");
  MC_CHECK(sol->dt.size() == samples - 1, "solution has %zu time steps for %zu intervals", sol->dt.size(), samples - 1);
  size_t k = 0;
  map.dt.clear();
  for (size_t seg = 0; seg < N.size(); ++seg) {
    int first = -1;
    for (size_t i = 0; i < N[seg]; ++i, ++k) {
      int d = id(sol->dt[k], "dt", i == 0);
      if (i == 0) first = d;
      MC_CHECK(d == first, "time steps within one segment come from different solver variables");
      map.dt.push_back(d);
    }
  }
  return p;
}

struct Sample {
  double x = 0, y = 0, c = 1, s = 0, vx = 0, vy = 0, w = 0, ax = 0, ay = 0, al = 0;
  std::vector<double> fx, fy;
};

struct Traj {
  std::vector<Sample> p;
  std::vector<double> dt;  // per segment
};

/// Number of scalar coordinates of a trajectory, for deviations.
inline double& Coord(Sample& q, int k, size_t modules) {
  double* f[] = {&q.x, &q.y, &q.c, &q.s, &q.vx, &q.vy, &q.w, &q.ax, &q.ay, &q.al};
  if (k < 10) return *f[k];
  k -= 10;
  return static_cast<size_t>(k) < modules ? q.fx[static_cast<size_t>(k)]
                                          : q.fy[static_cast<size_t>(k) - modules];
}
inline const char* CoordName(int k, size_t modules) {
  static const char* n[] = {"x", "y", "cos", "sin", "vx", "vy", "omega", "ax", "ay", "alpha"};
  if (k < 10) return n[k];
  static thread_local char b[32];
  k -= 10;
  if (static_cast<size_t>(k) < modules) snprintf(b, sizeof b, "Fx[%d]", k);
  else snprintf(b, sizeof b, "Fy[%d]", k - static_cast<int>(modules));
  return b;
}

inline void Assign(const Traj& t, const FieldMap& m, const std::vector<size_t>& N,
                   const std::vector<double>& init, std::vector<double>& v) {
  v = init;
  for (size_t i = 0; i < t.p.size(); ++i) {
    auto& q = t.p[i];
    v[m.x[i]] = q.x;
    v[m.y[i]] = q.y;
    v[m.c[i]] = q.c;
    v[m.s[i]] = q.s;
    v[m.vx[i]] = q.vx;
    v[m.vy[i]] = q.vy;
    v[m.w[i]] = q.w;
    v[m.ax[i]] = q.ax;
    v[m.ay[i]] = q.ay;
    v[m.al[i]] = q.al;
    for (size_t j = 0; j < q.fx.size(); ++j) {
      v[m.fx[i][j]] = q.fx[j];
      v[m.fy[i][j]] = q.fy[j];
    }
  }
  size_t k = 0;
  for (size_t seg = 0; seg < N.size(); ++seg)
    for (size_t i = 0; i < N[seg]; ++i, ++k) v[m.dt[k]] = t.dt[seg];
}

/// Segment (0-based) of the step that ends at sample i >= 1.
inline size_t SegOf(const std::vector<size_t>& N, size_t i) {
  size_t seg = 0, end = N.empty() ? 0 : N[0];
  while (i > end) end += N[++seg];
  return seg;
}
/// Sample located at waypoint w.
inline size_t SampleOfWpt(const std::vector<size_t>& N, size_t w) {
  size_t i = 0;
  for (size_t k = 0; k < w; ++k) i += N[k];
  return i;
}

// --------------------------------------------------------------------------
// Reference semantics, written from the documentation. Every function returns
// the size of the violation (0: holds).

inline double KinematicsViolation(const Traj& t, const std::vector<size_t>& N, bool* antipode = nullptr) {
  double w = 0;
  auto bad = [&](double r) {
    if (!(std::abs(r) <= w)) w = std::abs(r);
  };
  for (auto& q : t.p) bad(q.c * q.c + q.s * q.s - 1);
  for (size_t i = 1; i < t.p.size(); ++i) {
    auto &a = t.p[i - 1], &b = t.p[i];
    double h = t.dt[SegOf(N, i)];
    bad(a.x + b.vx * h - b.x);
    bad(a.y + b.vy * h - b.y);
    bad(a.vx + b.ax * h - b.vx);
    bad(a.vy + b.ay * h - b.vy);
    bad(a.w + b.al * h - b.w);
    // heading b = heading a rotated by omega h
    double ec = a.c * cos(b.w * h) - a.s * sin(b.w * h);
    double es = a.s * cos(b.w * h) + a.c * sin(b.w * h);
    double same = std::max(std::abs(ec - b.c), std::abs(es - b.s));
    double opp = std::max(std::abs(ec + b.c), std::abs(es + b.s));
    if (opp < 1e-3 && antipode != nullptr) *antipode = true;
    bad(same);
  }
  return w;
}

inline double DynamicsViolation(const Traj& t, const trajopt::SwerveDrivetrain& d) {
  double w = 0;
  auto bad = [&](double r) {
    if (!(std::abs(r) <= w)) w = std::abs(r);
  };
  for (auto& q : t.p) {
    double fx = 0, fy = 0, tau = 0;
    for (size_t j = 0; j < d.modules.size(); ++j) {
      auto& m = d.modules[j].translation;
      double rx = m.X() * q.c - m.Y() * q.s, ry = m.X() * q.s + m.Y() * q.c;
      fx += q.fx[j];
      fy += q.fy[j];
      tau += rx * q.fy[j] - ry * q.fx[j];
    }
    bad(fx - d.mass * q.ax);
    bad(fy - d.mass * q.ay);
    bad(tau - d.moi * q.al);
  }
  return w;
}

/// Excess of any wheel's speed or force over its limit; negative: margin.
inline double LimitsExcess(const Traj& t, const trajopt::SwerveDrivetrain& d) {
  double w = -INFINITY;
  for (auto& q : t.p) {
    // velocity in the robot frame
    double ux = q.vx * q.c + q.vy * q.s, uy = -q.vx * q.s + q.vy * q.c;
    for (size_t j = 0; j < d.modules.size(); ++j) {
      auto& m = d.modules[j];
      double sx = ux - m.translation.Y() * q.w, sy = uy + m.translation.X() * q.w;
      w = std::max(w, hypot(sx, sy) - m.wheelRadius * m.wheelMaxAngularVelocity);
      w = std::max(w, hypot(q.fx[j], q.fy[j]) - m.wheelMaxTorque / m.wheelRadius);
    }
  }
  return w;
}

/// Upper bound on the time step of every segment (INFINITY: none).
inline double MaxTimeStep(const trajopt::SwerveDrivetrain& d) {
  double width = INFINITY;
  for (size_t i = 0; i < d.modules.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      double dx = std::abs(d.modules[i].translation.X() - d.modules[j].translation.X());
      double dy = std::abs(d.modules[i].translation.Y() - d.modules[j].translation.Y());
      if (dx != 0) width = std::min(width, dx);
      if (dy != 0) width = std::min(width, dy);
    }
  double h = INFINITY;
  for (auto& m : d.modules) h = std::min(h, width / (m.wheelRadius * m.wheelMaxAngularVelocity));
  return h;
}

/// Module forces of smallest norm (plus `base`) producing the given
/// accelerations at the given heading; false if the modules cannot.
inline bool SolveForces(const trajopt::SwerveDrivetrain& d, Sample& q) {
  size_t M = d.modules.size();
  q.fx.resize(M, 0.0);
  q.fy.resize(M, 0.0);
  if (M == 0) return std::abs(q.ax) + std::abs(q.ay) + std::abs(q.al) == 0;
  // unknown correction lambda (3): f_j += (l0 - l2*ry_j, l1 + l2*rx_j)
  double A[3][4] = {};
  double bx = d.mass * q.ax, by = d.mass * q.ay, bt = d.moi * q.al;
  double sx = 0, sy = 0, sr = 0;
  for (size_t j = 0; j < M; ++j) {
    auto& m = d.modules[j].translation;
    double rx = m.X() * q.c - m.Y() * q.s, ry = m.X() * q.s + m.Y() * q.c;
    bx -= q.fx[j];
    by -= q.fy[j];
    bt -= rx * q.fy[j] - ry * q.fx[j];
    sx += rx;
    sy += ry;
    sr += rx * rx + ry * ry;
  }
  double n = static_cast<double>(M);
  double B[3][4] = {{n, 0, -sy, bx}, {0, n, sx, by}, {-sy, sx, sr, bt}};
  memcpy(A, B, sizeof A);
  for (int k = 0; k < 3; ++k) {
    int piv = k;
    for (int r = k + 1; r < 3; ++r)
      if (std::abs(A[r][k]) > std::abs(A[piv][k])) piv = r;
    if (std::abs(A[piv][k]) < 1e-12) return false;
    std::swap(A[k], A[piv]);
    for (int r = 0; r < 3; ++r)
      if (r != k) {
        double f = A[r][k] / A[k][k];
        for (int c = k; c < 4; ++c) A[r][c] -= f * A[k][c];
      }
  }
  double l0 = A[0][3] / A[0][0], l1 = A[1][3] / A[1][1], l2 = A[2][3] / A[2][2];
  for (size_t j = 0; j < M; ++j) {
    auto& m = d.modules[j].translation;
    double rx = m.X() * q.c - m.Y() * q.s, ry = m.X() * q.s + m.Y() * q.c;
    q.fx[j] += l0 - l2 * ry;
    q.fy[j] += l1 + l2 * rx;
  }
  return true;
}

/// Completes a trajectory whose accelerations (every sample), initial pose and
/// velocity (sample 0) and time steps are given.
inline bool Integrate(Traj& t, const std::vector<size_t>& N, const trajopt::SwerveDrivetrain& d) {
  for (size_t i = 0; i < t.p.size(); ++i) {
    auto& q = t.p[i];
    if (i > 0) {
      auto& a = t.p[i - 1];
      double h = t.dt[SegOf(N, i)];
      q.vx = a.vx + q.ax * h;
      q.vy = a.vy + q.ay * h;
      q.w = a.w + q.al * h;
      q.x = a.x + q.vx * h;
      q.y = a.y + q.vy * h;
      q.c = a.c * cos(q.w * h) - a.s * sin(q.w * h);
      q.s = a.s * cos(q.w * h) + a.c * sin(q.w * h);
    }
    if (!SolveForces(d, q)) return false;
  }
  return true;
}
/// Completes a trajectory whose velocities (every sample), initial pose and
/// accelerations (sample 0) and time steps are given.
inline bool FromVelocities(Traj& t, const std::vector<size_t>& N, const trajopt::SwerveDrivetrain& d) {
  for (size_t i = 1; i < t.p.size(); ++i) {
    auto &a = t.p[i - 1], &q = t.p[i];
    double h = t.dt[SegOf(N, i)];
    q.ax = (q.vx - a.vx) / h;
    q.ay = (q.vy - a.vy) / h;
    q.al = (q.w - a.w) / h;
  }
  return Integrate(t, N, d);
}
/// Completes a trajectory whose positions x, y and headings theta are given.
inline bool FromPoses(Traj& t, const std::vector<double>& theta, const std::vector<size_t>& N,
                      const trajopt::SwerveDrivetrain& d) {
  t.p[0].c = cos(theta[0]);
  t.p[0].s = sin(theta[0]);
  for (size_t i = 1; i < t.p.size(); ++i) {
    auto &a = t.p[i - 1], &q = t.p[i];
    double h = t.dt[SegOf(N, i)];
    q.vx = (q.x - a.x) / h;
    q.vy = (q.y - a.y) / h;
    q.w = (theta[i] - theta[i - 1]) / h;
  }
  return FromVelocities(t, N, d);
}

/// Compares "all constraints hold" with the reference. `violation` is the
/// reference's measure: <= 1e-8 means it holds, >= 1e-4 that it does not;
/// nothing is claimed in between.
inline void Compare(Problem& p, const std::vector<double>& v, double violation, const char* what) {
  mc::op();
  double w = p.Worst(v);
  if (violation <= 1e-8) {
    mc::count("admissible_points");
    MC_CHECK(w <= 1e-6, "%s: a trajectory that satisfies the property is excluded (constraint violated by %g)", what, w);
  } else if (violation >= 1e-4) {
    mc::count("inadmissible_points");
    MC_CHECK(w > 1e-9, "%s: a trajectory that breaks the property (by %g) is admitted by the problem", what, violation);
  } else {
    mc::count("borderline_points_not_judged");
  }
}

}  // namespace tp
