// C03: each constraint type admits exactly the documented states.
#include "checks/constraints.hpp"

using namespace tp;
using std::vector;

static vector<Con> Cons(int kind) {
  const double pi = std::numbers::pi;
  switch (kind) {
    case kPose: return {{kPose, {1, -0.5, 0.7}}, {kPose, {0, 0, 0}}, {kPose, {-2, 0.25, pi}}, {kPose, {0.5, 1, -pi / 2}},
                        {kPose, {0.5, 1, 7.0}}};
    case kTrans: return {{kTrans, {1, -0.5}}, {kTrans, {0, 0}}, {kTrans, {-2, 0.25}}};
    case kLinVel: return {{kLinVel, {0}}, {kLinVel, {1}}, {kLinVel, {2.5}}, {kLinVel, {0.1}}};
    case kLinDir: return {{kLinDir, {0}}, {kLinDir, {pi / 2}}, {kLinDir, {2.2}}, {kLinDir, {-pi}}, {kLinDir, {-0.6}}, {kLinDir, {8}}};
    case kAngVel: return {{kAngVel, {0}}, {kAngVel, {1}}, {kAngVel, {0.3}}, {kAngVel, {4}}};
    case kLinAcc: return {{kLinAcc, {0}}, {kLinAcc, {1}}, {kLinAcc, {2.5}}, {kLinAcc, {0.1}}};
    case kPointAt: {
      vector<Con> r;
      for (double tol : {0.0, 0.1, 1.0, pi / 2, 2.0, 3.0, pi, 3.5, 2 * pi, 20.0})
        for (int p = 0; p < 3; ++p) r.push_back({kPointAt, {p == 0 ? 0.0 : 2.0, p == 2 ? -1.5 : 0.0, tol}});
      return r;
    }
    case kPointPoint: {
      vector<Con> r;
      for (double m : {0.0, 0.25, 0.5, 1.0, 2.5})
        for (int p = 0; p < 3; ++p) r.push_back({kPointPoint, {p * 0.5, p == 2 ? -0.75 : 0.0, 1.0, 0.5, m}});
      return r;
    }
    default: {
      vector<Con> r;
      static const double seg[5][4] = {{0.5, 0.5, -0.5, 0.5}, {1, 0, 0, 2}, {-1, -1, 1, 0.5}, {0, 0, 0, 1}, {2, 0.5, -3, 0.25}};
      static const double pt[3][2] = {{0, 0}, {1, 0.5}, {-0.75, 2}};
      for (double m : {0.0, 0.25, 0.5, 1.0, 2.5})
        for (auto& s : seg)
          for (auto& p : pt) {
            if (kind == kLinePoint) r.push_back({kind, {s[0], s[1], s[2], s[3], p[0], p[1], m}});
            else r.push_back({kind, {p[0], p[1], s[0], s[1], s[2], s[3], m}});
          }
      return r;
    }
  }
}

static const double kAng[] = {0, 0.7, 1.6, 2.2, 3.14159265358979323846, -2.5, -1.57079632679489661923, -0.3, 0.8, 2.0};

// Probes one state: it is placed at the constrained sample of a consistent
// two-sample trajectory.
static void Probe(Built& b, const vector<Con>& con, const vector<bool>& bound, const SwerveDrivetrain& d, Sample s,
                  size_t at, int n, vector<double>& v, double step = 0.03) {
  vector<size_t> N{1};
  Traj t;
  t.dt = {step};
  double h = t.dt[0];
  t.p.resize(2);
  auto& o = t.p[1 - at];
  t.p[at] = s;
  auto& q = t.p[at];
  if (at == 1) {
    o.vx = q.vx - q.ax * h;
    o.vy = q.vy - q.ay * h;
    o.w = q.w - q.al * h;
    o.x = q.x - q.vx * h;
    o.y = q.y - q.vy * h;
    o.c = q.c * cos(q.w * h) + q.s * sin(q.w * h);
    o.s = q.s * cos(q.w * h) - q.c * sin(q.w * h);
    o.ax = q.ax;
    o.ay = q.ay;
  } else {
    o.ax = q.ax;
    o.ay = q.ay;
    o.al = q.al;
    o.vx = q.vx + o.ax * h;
    o.vy = q.vy + o.ay * h;
    o.w = q.w + o.al * h;
    o.x = q.x + o.vx * h;
    o.y = q.y + o.vy * h;
    o.c = q.c * cos(o.w * h) - q.s * sin(o.w * h);
    o.s = q.s * cos(o.w * h) + q.c * sin(o.w * h);
  }
  for (auto& p : t.p) SolveForces(d, p);
  if (!WithinLimits(t, d)) return;
  double miss = -INFINITY;
  for (size_t i = 0; i < 2; ++i)
    if (bound[i])
      for (auto& c : con) {
        double m = c.Miss(t.p[i]);
        if (std::isnan(m)) {
          mc::count("states_left_open_by_the_documentation");
          return;
        }
        miss = std::max(miss, m);
      }
  Assign(t, b.m, N, b.p.init, v);
  if (mc::tracing()) mc::logf("  probe %d: x=%.4g y=%.4g c=%.4g s=%.4g v=(%.4g,%.4g) w=%.4g a=(%.4g,%.4g): misses by %g, recorded %g", n,
                              s.x, s.y, s.c, s.s, s.vx, s.vy, s.w, s.ax, s.ay, miss, b.p.Worst(v));
  mc::Hash hh;
  hh.add((uint64_t)con[0].kind).add(con[0].a[0]).add(con[0].a[2]).add(con[0].a[6]).add(s.x).add(s.y).add(s.c).add(s.s).add(s.vx).add(s.vy).add(s.w).add(s.ax).add(s.ay);
  mc::state(hh);
  Compare(b.p, v, Viol(miss), KindName(con[0].kind));
}

static void Body() {
  int kind = mc::choose(kKinds, "constraint type");
  auto cons = Cons(kind);
  int which = mc::choose(static_cast<int>(cons.size()), "parameters");
  if (company > 0 && !mc::thorough() && which != 1 && which != static_cast<int>(cons.size()) - 2) throw mc::Prune{};
  Con c = cons[which];
  int how = mc::choose(kind == kPose || kind == kTrans ? 4 : 3, "bound to start / end / both / by waypoint kind");
  auto d = Drive(1);
  vector<bool> bound{how == 0 || how == 2, how == 1 || how == 2 || how == 3};
  auto b = Build({1}, d, [&](SwervePathBuilder& p) {
    if (how < 2) p.WptConstraint(how, c.Make());
    else if (how == 2) p.SgmtConstraint(0, 1, c.Make());
    else if (kind == kPose) p.PoseWpt(1, c.a[0], c.a[1], c.a[2]);
    else p.TranslationWpt(1, c.a[0], c.a[1], 0.3);
  });
  MC_LOG("%s, bound %s", c.Text().c_str(), how == 0 ? "to the start" : how == 1 ? "to the end" : how == 2 ? "to both" : "through the waypoint call");
  size_t at = how == 0 ? 0 : 1;
  vector<double> v;
  vector<Con> con{c};
  int n = 0;
  auto probe = [&](const Sample& s) { Probe(b, con, bound, d, s, at, n++, v); };

  Sample s;
  s.x = 0.25;
  s.y = 0.5;
  bool fine = mc::thorough();
  switch (kind) {
    case kPose:
    case kTrans:
      for (double dx : {0.0, 1e-3, -1e-3, 0.5, -3.0})
        for (double dy : {0.0, 1e-3, -1e-3, 0.5, -3.0})
          for (double da : {0.0, 1e-3, -1e-3, 0.5, -1.0, 1.57079632679489661923, 2.5, -3.0})
            for (double w : {0.0, 2.0}) {
              s.x = c.a[0] + dx;
              s.y = c.a[1] + dy;
              s.c = cos(c.a[2] + da);
              s.s = sin(c.a[2] + da);
              s.w = w;
              s.vx = w * 0.5;
              probe(s);
            }
      break;
    case kLinVel:
    case kLinAcc:
    case kLinDir:
      for (double th : {0.0, 2.2})
        for (double dir : kAng)
          for (double mag : {0.0, 0.05, 0.0999, 0.1001, 0.1, 0.5, 0.999, 1.0, 1.001, 2.4999, 2.5, 2.501, 6.0})
            for (double e : {0.0, 1e-2, -1e-2}) {
              if (kind != kLinDir && e != 0 && !fine) continue;
              s.c = cos(th);
              s.s = sin(th);
              double base = kind == kLinDir ? c.a[0] : 0;
              double mx = mag * cos(base + dir + e), my = mag * sin(base + dir + e);
              if (kind == kLinAcc) {
                s.ax = mx;
                s.ay = my;
                s.vx = 0.3;
              } else {
                s.vx = mx;
                s.vy = my;
                s.ax = 0.2;
              }
              probe(s);
            }
      break;
    case kAngVel:
      for (double w : {0.0, 1e-3, 0.299, 0.3, 0.301, 0.999, 1.0, 1.001, 2.0, 3.999, 4.0, 4.001, 6.0})
        for (double sg : {1.0, -1.0})
          for (double th : kAng)
            for (double vx : {0.0, 3.0}) {
              s.c = cos(th);
              s.s = sin(th);
              s.w = sg * w;
              s.vx = vx;
              probe(s);
            }
      break;
    case kPointAt:
      for (double dist : {0.01, 0.5, 1.0, 7.0})
        for (double bearing : kAng)
          for (double off : {0.0, 1e-2, 0.09, 0.11, 0.5, 0.99, 1.01, 1.56, 1.58, 1.99, 2.01, 2.5, 2.99, 3.01, 3.13})
            for (double sg : {1.0, -1.0}) {
              s.x = c.a[0] - dist * cos(bearing);
              s.y = c.a[1] - dist * sin(bearing);
              s.c = cos(bearing + sg * off);
              s.s = sin(bearing + sg * off);
              probe(s);
            }
      break;
    default: {
      // poses around the field feature: grid of positions x headings, and
      // positions moved along the distance gradient to the boundary
      double step = fine ? 0.25 : 0.5;
      for (double x = -3; x <= 3; x += step)
        for (double y = -3; y <= 3; y += step)
          for (double th : kAng) {
            s.x = x;
            s.y = y;
            s.c = cos(th);
            s.s = sin(th);
            probe(s);
            if (c.a[kind == kPointPoint ? 4 : 6] > 0) {
              // slide along +-x to the boundary by bisection, probe both sides
              for (double dir : {1.0, -1.0}) {
                double lo = 0, hi = 8;
                Sample a = s, z = s;
                z.x = s.x + dir * hi;
                if (!(c.Miss(a) > 0 && c.Miss(z) < 0)) continue;
                for (int i = 0; i < 40; ++i) {
                  double mid = (lo + hi) / 2;
                  a.x = s.x + dir * mid;
                  (c.Miss(a) > 0 ? lo : hi) = mid;
                }
                a.x = s.x + dir * (hi + 1e-3);
                probe(a);
                a.x = s.x + dir * (lo - 1e-3);
                probe(a);
              }
            }
          }
    }
  }
}

// Directions along and nearly along the axes; features at the origin, level with
// the robot, horizontal, vertical, very short or very long.
static void Special() {
  const double pi = std::numbers::pi;
  int kind = mc::pick({(int)kPose, (int)kTrans, (int)kLinDir, (int)kPointAt, (int)kPointPoint, (int)kLinePoint, (int)kPointLine}, "constraint type");
  int how = mc::choose(3, "bound to start / end / both");
  double near = mc::pick({0.0, 1e-3, -1e-3, 5e-3, -5e-3, 1e-2, -1e-2, 0.02, -0.02}, "off by");
  int turn = mc::choose(10, "eighth turn");
  double angle = (turn - 4) * pi / 4 + near;
  static const double pts[][2] = {{0, 0}, {1.5, 0}, {0, -2}, {1, 1}, {-1, 1}, {-0.5, -0.5}};
  int place = kind == kLinDir ? 0 : mc::choose(6, "point");
  const double px = pts[place][0], py = pts[place][1];
  int lk = kind >= kLinePoint ? mc::choose(4, "length") : 0;
  const double length = lk == 0 ? 1 : lk == 1 ? 0.02 : lk == 2 ? 4e-3 : 60;
  Con c{kind, {}};
  // the line starts at the point, is directed along the angle
  const double ex = px + length * cos(angle), ey = py + length * sin(angle);
  // its opposite number, at special places as well
  const double qx = pts[(place + turn) % 6][0], qy = pts[(place + turn) % 6][1];
  const double keep = 0.35;
  switch (kind) {
    case kPose: c = {kind, {px, py, angle}}; break;
    case kTrans:
      c = {kind, {px + near, py}};
      if (turn > 0) throw mc::Prune{};
      break;
    case kLinDir: c = {kind, {angle}}; break;
    case kPointAt: c = {kind, {px, py, turn < 5 ? 0.25 : 1e-2}}; break;
    case kPointPoint:
      if (near > 0) throw mc::Prune{};
      c = {kind, {px + near, py, qx, qy, keep}};
      break;
    case kLinePoint: c = {kind, {px, py, ex, ey, qx, qy, keep}}; break;
    default: c = {kind, {qx, qy, px, py, ex, ey, keep}};
  }
  if (!mc::thorough() && kind != kLinDir && std::abs(near) > 0 && std::abs(near) != 5e-3) throw mc::Prune{};
  if (!mc::thorough() && kind >= kLinePoint && how == 2) throw mc::Prune{};
  auto d = Drive(1);
  vector<bool> bound{how != 1, how != 0};
  auto b = Build({1}, d, [&](SwervePathBuilder& p) {
    if (how < 2) p.WptConstraint(static_cast<size_t>(how), c.Make());
    else p.SgmtConstraint(0, 1, c.Make());
  });
  MC_LOG("%s", c.Text().c_str());
  vector<double> v;
  vector<Con> con{c};
  int n = 0;
  auto probe = [&](const Sample& s) { Probe(b, con, bound, d, s, how == 0 ? 0 : 1, n++, v, 1e-3); };
  Sample s;
  s.x = 0.25;
  s.y = 0.5;
  const double ths[] = {0, pi / 2, pi, -pi / 2, pi / 4, 0.3};
  if (kind == kPose || kind == kTrans) {
    for (double e : {0.0, 1e-3, -1e-3, 0.2, -0.2, pi / 2, -pi / 2, 3.0}) {
      s.c = cos(angle + e);
      s.s = sin(angle + e);
      for (double dx : {0.0, 1e-3, -0.1})
        for (double dy : {0.0, -1e-3, 0.1}) {
          s.x = c.a[0] + dx;
          s.y = c.a[1] + dy;
          probe(s);
        }
    }
  } else if (kind == kLinDir) {
    for (double th : ths)
      for (double speed : {0.0, 0.02, 1.0, 12.0})
        for (double e : {0.0, 1e-3, -1e-3, 5e-3, -5e-3, 0.02, -0.02, pi / 4, -pi / 4, pi / 2, -pi / 2, 2.5}) {
          s.c = cos(th);
          s.s = sin(th);
          s.vx = speed * cos(angle + e);
          s.vy = speed * sin(angle + e);
          probe(s);
        }
  } else if (kind == kPointAt) {
    // level with the point, in front of it, nearly so
    for (double dist : {0.02, 1.0, 15.0})
      for (double e : {0.0, c.a[2] * 0.9, -c.a[2] * 0.9, c.a[2] * 1.1, -c.a[2] * 1.1, pi / 2, -pi / 2, pi, 3.0}) {
        s.x = px - dist * cos(angle);
        s.y = py - dist * sin(angle);
        s.c = cos(angle + e);
        s.s = sin(angle + e);
        probe(s);
      }
  } else {
    // the robot's feature around the field's: along its line, beside it, beyond its ends
    for (double th : ths) {
      s.c = cos(th);
      s.s = sin(th);
      double la = kind == kLinePoint ? angle + th : angle;  // the line's direction on the field
      auto put = [&](double along, double beside) {
        if (kind == kLinePoint) {  // the line's start goes where the point then lies so
          double sx = qx - along * cos(la) + beside * sin(la), sy = qy - along * sin(la) - beside * cos(la);
          s.x = sx - px * s.c + py * s.s;
          s.y = sy - px * s.s - py * s.c;
        } else {
          double ox = kind == kPointLine ? px : qx, oy = kind == kPointLine ? py : qy;
          double rx = kind == kPointLine ? qx : c.a[0], ry = kind == kPointLine ? qy : c.a[1];
          double sx = ox + along * cos(la) - beside * sin(la), sy = oy + along * sin(la) + beside * cos(la);
          s.x = sx - rx * s.c + ry * s.s;
          s.y = sy - rx * s.s - ry * s.c;
        }
        probe(s);
      };
      double l = kind == kPointPoint ? 0 : length;
      for (double f : {0.85, 1.15}) {
        put(-keep * f, 0);
        put(l + keep * f, 0);
        for (double at : {0.0, 0.5, 1.0})
          for (double sg : {1.0, -1.0}) put(l * at, sg * keep * f);
        for (double sg : {1.0, -1.0}) {
          put(-keep * f * 0.6, sg * keep * f * 0.8);
          put(l + keep * f * 0.6, sg * keep * f * 0.8);
        }
      }
      put(0, 0);
    }
  }
}

// two constraints on one waypoint: both bind (conjunction)
static void Pairs() {
  int k1 = mc::choose(kKinds, "first type");
  int k2 = mc::choose(kKinds, "second type");
  static const Con one[kKinds] = {{kPose, {0.5, 0.5, 0.7}}, {kTrans, {0.5, 0.5}}, {kLinVel, {1}}, {kLinDir, {0.7}}, {kAngVel, {1}},
                                  {kLinAcc, {1}}, {kPointAt, {3, 0, 0.8}}, {kPointPoint, {0.5, 0, 2, 0.5, 1}},
                                  {kLinePoint, {0.5, 0.5, 0.5, -0.5, 1.5, 0.5, 0.4}}, {kPointLine, {0.5, 0, 2, -1, 2, 3, 1}}};
  auto d = Drive(1);
  Con a = one[k1], c = one[k2];
  if (k1 == k2) {  // tighter second instance
    for (double& e : c.a) e *= k1 == kPose || k1 == kTrans ? 1.0 : 0.9;
  }
  auto b = Build({1}, d, [&](SwervePathBuilder& p) {
    p.WptConstraint(1, a.Make());
    p.WptConstraint(1, c.Make());
  });
  MC_LOG("%s and %s", a.Text().c_str(), c.Text().c_str());
  vector<double> v;
  int n = 0;
  for (double x : {0.5, 0.0, 1.0, -1.5})
    for (double y : {0.5, 0.0})
      for (double th : {0.7, 0.0, -1.0, 2.0})
        for (double dir : {0.7, -0.2})
          for (double sp : {0.0, 0.85, 0.95, 1.5})
            for (double w : {0.0, -0.95, 1.5})
              for (double acc : {0.0, 0.95, 1.5}) {
                Sample s;
                s.x = x;
                s.y = y;
                s.c = cos(th);
                s.s = sin(th);
                s.vx = sp * cos(dir);
                s.vy = sp * sin(dir);
                s.w = w;
                s.ax = acc;
                Probe(b, {a, c}, {false, true}, d, s, 1, n++, v);
              }
}

// Parameters and states of every magnitude.
static void Magnitudes() {
  int kind = mc::choose(kKinds, "constraint type");
  double size = mc::pick({5e-4, 1e-3, 2e-3, 0.01, 0.04, 0.3, 5.0, 11.0, 21.0, 60.0, 300.0, 2500.0}, "magnitude");
  int place = mc::choose(3, "place");
  int how = mc::choose(3, "bound to start / end / both");
  const double ox = place == 0 ? 0 : place == 1 ? 37.5 : -1500, oy = place == 0 ? 0 : place == 1 ? -140 : 800;
  static const SwerveDrivetrain d{10, 3, {SwerveModule{{2, 2}, 0.5, 40000, 1e10}, SwerveModule{{-2, -2}, 0.5, 40000, 1e10}}};
  const double step = 1e-4;
  Con c{kind, {}};
  switch (kind) {
    case kPose: c = {kind, {ox + size, oy - size, size}}; break;
    case kTrans: c = {kind, {ox + size, oy - size}}; break;
    case kLinDir: c = {kind, {place == 0 ? 0.4 : ox}}; break;
    case kPointAt:
      if (size > 5) throw mc::Prune{};
      c = {kind, {ox + 0.5, oy - 0.25, size}};
      break;
    case kPointPoint: c = {kind, {place == 1 ? size : 0.25, 0.125, ox, oy, size}}; break;
    case kLinePoint: c = {kind, {0.5 * size, 0.25, place == 1 ? size : 0.5 * size, -0.25 - size, ox, oy, size}}; break;
    case kPointLine: c = {kind, {place == 1 ? size : 0.25, 0.125, ox, oy, ox + size, oy + (place == 2 ? size : 0), size}}; break;
    default:
      if (place > 0) throw mc::Prune{};
      c = {kind, {size}};
  }
  vector<bool> bound{how != 1, how != 0};
  auto b = Build({1}, d, [&](SwervePathBuilder& p) {
    if (how < 2) p.WptConstraint(static_cast<size_t>(how), c.Make());
    else p.SgmtConstraint(0, 1, c.Make());
  });
  MC_LOG("%s", c.Text().c_str());
  vector<double> v;
  vector<Con> con{c};
  int n = 0;
  auto probe = [&](const Sample& s) { Probe(b, con, bound, d, s, how == 0 ? 0 : 1, n++, v, step); };
  Sample s;
  s.x = 0.25;
  s.y = 0.5;
  for (double th : {0.3, -2.0, 2.9}) {
    s.c = cos(th);
    s.s = sin(th);
    for (double f : {0.0, 0.5, 0.85, 1.15, 1.5, 4.0})
      for (double dir : {0.1, 1.9, -1.3, -2.6})
        switch (kind) {
          case kPose:
            for (double at : {0.0, 1e-3, 0.5}) {
              s.c = cos(c.a[2] + (f == 0 ? 0 : at));
              s.s = sin(c.a[2] + (f == 0 ? 0 : at));
              s.x = c.a[0] + (dir > 0 ? f * size : 0);
              s.y = c.a[1] + (dir < 1 ? f * size : 0);
              probe(s);
            }
            break;
          case kTrans:
            s.x = c.a[0] + (dir > 0 ? f * size : 0);
            s.y = c.a[1] + (dir < 1 ? f * size : 0);
            probe(s);
            break;
          case kLinVel:
            s.vx = f * size * cos(dir);
            s.vy = f * size * sin(dir);
            probe(s);
            break;
          case kLinDir:
            for (double e : {0.0, 0.2, -1.5}) {
              s.vx = f * size * cos(c.a[0] + e);
              s.vy = f * size * sin(c.a[0] + e);
              probe(s);
            }
            break;
          case kAngVel:
            s.w = f * size * (dir > 0 ? 1 : -1);
            probe(s);
            break;
          case kLinAcc:
            s.ax = f * size * cos(dir);
            s.ay = f * size * sin(dir);
            probe(s);
            break;
          case kPointAt:
            for (double dist : {1e-2, 1.0, 40.0, 900.0}) {
              double turn = std::min(f * size, std::numbers::pi);
              s.x = c.a[0] - dist * cos(dir);
              s.y = c.a[1] - dist * sin(dir);
              s.c = cos(dir + turn * (th > 0 ? 1 : -1));
              s.s = sin(dir + turn * (th > 0 ? 1 : -1));
              probe(s);
            }
            break;
          default: {
            // the robot's point (of its line, the middle) at f times the distance from the feature's
            double px = kind == kLinePoint ? (c.a[0] + c.a[2]) / 2 : c.a[0], py = kind == kLinePoint ? (c.a[1] + c.a[3]) / 2 : c.a[1];
            double qx = kind == kPointLine ? (c.a[2] + c.a[4]) / 2 : kind == kLinePoint ? c.a[4] : c.a[2];
            double qy = kind == kPointLine ? (c.a[3] + c.a[5]) / 2 : kind == kLinePoint ? c.a[5] : c.a[3];
            s.x = qx + f * size * cos(dir) - px * s.c + py * s.s;
            s.y = qy + f * size * sin(dir) - px * s.s - py * s.c;
            probe(s);
          }
        }
  }
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"single", Body, 2}, {"magnitudes", Magnitudes, 2}, {"special", Special, 3}, {"pairs", Pairs, 1}, {"company", [] { InCompany(Body); }, 3}});
}
