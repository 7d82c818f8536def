// C18: geometry follows plane geometry, for numbers and solver variables alike.
#include <complex>
#include <numbers>

#include <sleipnir/optimization/OptimizationProblem.hpp>

#include "mc/mc.hpp"
#include "trajopt/geometry/Pose2.hpp"
#include "trajopt/geometry/Rotation2.hpp"
#include "trajopt/geometry/Translation2.hpp"

namespace {

using namespace trajopt;
using V = sleipnir::Variable;
using C = std::complex<long double>;
constexpr double kPi = std::numbers::pi;

double Val(double x) { return x; }
double Val(const V& x) { return x.Value(); }
template <class T>
C At(const Translation2<T>& t) {
  return {Val(t.X()), Val(t.Y())};
}
template <class T>
C At(const Rotation2<T>& r) {
  return {Val(r.Cos()), Val(r.Sin())};
}
C Unit(long double a) { return {cosl(a), sinl(a)}; }
long double CrossOf(C a, C b) { return a.real() * b.imag() - a.imag() * b.real(); }
long double DotOf(C a, C b) { return a.real() * b.real() + a.imag() * b.imag(); }

template <class T>
const char* Kind() {
  return std::is_same_v<T, double> ? "numbers" : "variables";
}
std::string g_where;
void Eq(long double got, long double want, long double scale, const char* what) {
  mc::op();
  MC_CHECK(std::isfinite(got) && std::abs(got - want) <= 1e-11L * (1e-3L + scale), "%s: %s is %.15Lg, not %.15Lg", g_where.c_str(), what, got,
           want);
}
void Eq(C got, C want, const char* what) {
  mc::op();
  MC_CHECK(std::abs(got - want) <= 1e-11L * (1e-3L + std::abs(want)), "%s: %s is (%.15Lg, %.15Lg), not (%.15Lg, %.15Lg)", g_where.c_str(), what,
           got.real(), got.imag(), want.real(), want.imag());
}
/// Equal as angles.
void EqAngle(double got, long double want, const char* what) {
  Eq(std::abs(Unit(got) - Unit(want)), 0, 1, what);
  MC_CHECK(got >= -kPi - 1e-9 && got <= kPi + 1e-9, "%s: %s is %g, outside a turn around 0", g_where.c_str(), what, got);
}

// A number of either kind; a variable's value may be changed later.
template <class T>
struct Num;
template <>
struct Num<double> {
  double v;
  explicit Num(sleipnir::OptimizationProblem&, double a) : v{a} {}
};
template <>
struct Num<V> {
  V v;
  explicit Num(sleipnir::OptimizationProblem& p, double a) : v{p.DecisionVariable()} { v.SetValue(a); }
};

const double kCoord[] = {0, 1, -2.25, 0.5, 1e6, -1e-4, 3, -1, 1e-7, -4e-9, 1e9, -0.0};
const double kAngle[] = {0, 0.5, kPi / 2, kPi, -kPi / 2, 2.5, -3, 7, -20.5, 1e-7, -2e-3, kPi / 4, kPi / 2 + 1e-6, kPi - 1e-4, -kPi, 2 * kPi, 1e4};
const double kScalar[] = {1, -1, 0, 2.5, 1e-3, -40, 2, 0.5, 1e-9, -1e9};

// Everything about one object of kind T.
template <class T>
void Unary() {
  sleipnir::OptimizationProblem p;
  double x = mc::pick(kCoord, "x"), y = mc::pick(kCoord, "y"), a = mc::pick(kAngle, "angle");
  C t{x, y}, r = Unit(a);
  g_where = mc::fmt("translation (%g, %g), rotation %g, %s", x, y, a, Kind<T>());
  MC_LOG("  %s", g_where.c_str());
  mc::state(mc::Hash{}.add(g_where));
  Num<T> X{p, x}, Y{p, y}, A{p, a};
  Translation2<T> T1{X.v, Y.v};
  Rotation2<T> R{A.v}, R2{T{cos(A.v)}, T{sin(A.v)}};
  Pose2<T> P{X.v, Y.v, R}, P2{T1, R};
  Eq(At(T1), t, "the translation");
  MC_CHECK(Val(T1.X()) == x && Val(T1.Y()) == y, "%s: coordinates are not kept exactly", g_where.c_str());
  MC_CHECK(Val(get<0>(T1)) == x && Val(get<1>(T1)) == y, "%s: get<> of the translation is wrong", g_where.c_str());
  const auto& [bx, by] = T1;
  MC_CHECK(Val(bx) == x && Val(by) == y, "%s: structured binding of the translation is wrong", g_where.c_str());
  Eq(At(R), r, "the rotation");
  Eq(At(R2), r, "the rotation from cosine and sine");
  Eq(At(-T1), -t, "minus the translation");
  Eq(At(-R), std::conj(r), "minus the rotation");
  Eq(Val(T1.Norm()), std::abs(t), std::abs(t), "the norm");
  Eq(Val(T1.SquaredNorm()), std::norm(t), std::norm(t), "the squared norm");
  EqAngle(Val(R.Radians()), a, "the angle in radians");
  EqAngle(Val(R.Degrees()) / 180 * kPi, a, "the angle in degrees");
  if (x != 0 || y != 0) EqAngle(Val(T1.Angle().Radians()), std::arg(t), "the angle of the translation");
  Eq(At(P.Translation()), t, "the pose's translation");
  Eq(At(P.Rotation()), r, "the pose's rotation");
  MC_CHECK(Val(P.X()) == x && Val(P.Y()) == y && Val(P2.X()) == x && Val(P2.Y()) == y, "%s: coordinates of the pose", g_where.c_str());
  Eq(At(P2.Rotation()), r, "the pose's rotation");
  // copies and assignments
  auto copy = T1;
  Translation2<T> other;
  Eq(At(other), 0, "a default translation");
  other = copy;
  Eq(At(other), t, "an assigned translation");
  Eq(At(Rotation2<T>{}), 1, "a default rotation");
  Eq(At(Pose2<T>{}.Translation()), 0, "a default pose's translation");
  Eq(At(Pose2<T>{}.Rotation()), 1, "a default pose's rotation");
  // inverse, neutral element
  Eq(At(T1 + -T1), 0, "t + -t");
  Eq(At(T1 - T1), 0, "t - t");
  Eq(At(R + -R), 1, "r + -r");
  Eq(At(R - R), 1, "r - r");
  Eq(At(T1.RotateBy(R).RotateBy(-R)), t, "t rotated there and back");
  if constexpr (std::is_same_v<T, V>) {
    // the expressions follow the variables
    auto sum = T1.RotateBy(R);
    auto n = T1.Norm();
    A.v.SetValue(a + 1);
    X.v.SetValue(x - 2);
    C t2{x - 2, y};
    Eq(At(sum), t2 * Unit(a + 1), "the rotated translation after a change of the variables");
    Eq(Val(n), std::abs(t2), std::abs(t2), "the norm after a change of the variables");
  }
}

// Conversions between kinds.
void Conversions() {
  sleipnir::OptimizationProblem p;
  double x = mc::pick(kCoord, "x"), y = mc::pick(kCoord, "y"), a = mc::pick(kAngle, "angle");
  g_where = mc::fmt("translation (%g, %g), rotation %g", x, y, a);
  mc::state(mc::Hash{}.add(g_where));
  C t{x, y}, r = Unit(a);
  Translation2d T1{x, y};
  Rotation2d R{a};
  Pose2d P{x, y, R};
  Translation2v Tv{T1};
  Rotation2v Rv{R};
  Pose2v Pv{P};
  Eq(At(Tv), t, "the translation as variables");
  Eq(At(Rv), r, "the rotation as variables");
  Eq(At(Pv.Translation()), t, "the pose's translation as variables");
  Eq(At(Pv.Rotation()), r, "the pose's rotation as variables");
  // (long double: a conversion that does not narrow)
  Translation2<long double> Tl{T1};
  Rotation2<long double> Rl{R};
  Pose2<long double> Pl{P};
  MC_CHECK(Tl.X() == x && Tl.Y() == y && Pl.X() == x && Pl.Y() == y, "%s: the translation as long double", g_where.c_str());
  Eq(C{Rl.Cos(), Rl.Sin()}, r, "the rotation as long double");
  Eq(C{Pl.Rotation().Cos(), Pl.Rotation().Sin()}, r, "the pose's rotation as long double");
  Eq(At(Translation2d{T1}), t, "the copied translation");
  // whatever its components: a conversion changes nothing
  static const double length[] = {1, 0.5, 3, 1e-4, 1e5, 0, 1.0000001};
  for (double l : length) {
    Rotation2d odd{l * cos(a), l * sin(a)};
    Pose2d oddPose{x, y, odd};
    Rotation2v oddV{odd};
    Pose2v oddPoseV{oddPose};
    Rotation2<long double> oddL{odd};
    Pose2<long double> oddPoseL{oddPose};
    C want{odd.Cos(), odd.Sin()};
    Eq(want, static_cast<long double>(l) * r, "a rotation of given cosine and sine");
    MC_CHECK(At(oddV) == want && At(oddPoseV.Rotation()) == want, "%s: a rotation of length %g has become another as variables", g_where.c_str(), l);
    MC_CHECK((C{oddL.Cos(), oddL.Sin()} == want && C{oddPoseL.Rotation().Cos(), oddPoseL.Rotation().Sin()} == want),
             "%s: a rotation of length %g has become another as long double", g_where.c_str(), l);
  }
  MC_CHECK(Tv.X().Value() == x && Tv.Y().Value() == y && Pv.X().Value() == x && Pv.Y().Value() == y,
           "%s: coordinates have changed as variables", g_where.c_str());
  // mixed coordinates
  Translation2v Tm{x, V{y}};
  Eq(At(Tm), t, "a translation from a number and a variable");
}

template <class T, class U>
void Binary() {
  sleipnir::OptimizationProblem p;
  static const double coords[] = {0, 1, -2.25, 1e6, -1e-4, 1e-9, -1, -1e9};
  double x = mc::pick(coords, "x"), y = mc::pick(coords, "y"), u = mc::pick(coords, "u"), v = mc::pick(coords, "v");
  g_where = mc::fmt("(%g, %g) of %s and (%g, %g) of %s", x, y, Kind<T>(), u, v, Kind<U>());
  MC_LOG("  %s", g_where.c_str());
  mc::state(mc::Hash{}.add(g_where));
  C a{x, y}, b{u, v};
  Num<T> X{p, x}, Y{p, y};
  Num<U> Un{p, u}, Vn{p, v};
  Translation2<T> A{X.v, Y.v};
  Translation2<U> B{Un.v, Vn.v};
  Eq(At(A + B), a + b, "the sum");
  Eq(At(A - B), a - b, "the difference");
  auto scale = std::abs(a) * std::abs(b);
  Eq(Val(A.Dot(B)), DotOf(a, b), scale, "the dot product");
  Eq(Val(A.Cross(B)), CrossOf(a, b), scale, "the cross product");
  Eq(Val(A.Distance(B)), std::abs(a - b), std::abs(a - b), "the distance");
  Eq(Val((A - B).SquaredNorm()), std::norm(a - b), std::norm(a - b), "the squared distance");
  // the operands are unchanged
  Eq(At(A), a, "the first operand afterwards");
  Eq(At(B), b, "the second operand afterwards");
}

template <class T, class U>
void Turns() {
  sleipnir::OptimizationProblem p;
  static const double coords[] = {0, 1, -2.25, 1e6, 1e-7};
  double x = mc::pick(coords, "x"), y = mc::pick(coords, "y"), a = mc::pick(kAngle, "angle"), b = mc::pick(kAngle, "other angle");
  g_where = mc::fmt("(%g, %g) and rotation %g of %s, rotation %g of %s", x, y, a, Kind<T>(), b, Kind<U>());
  MC_LOG("  %s", g_where.c_str());
  mc::state(mc::Hash{}.add(g_where));
  Num<T> X{p, x}, Y{p, y}, A{p, a};
  Num<U> Bn{p, b};
  Translation2<T> t{X.v, Y.v};
  Rotation2<T> Ra{A.v};
  Rotation2<U> Rb{Bn.v};
  C z{x, y};
  auto turned = t.RotateBy(Rb);
  Eq(At(turned), z * Unit(b), "the rotated translation");
  Eq(Val(turned.Norm()), std::abs(z), std::abs(z), "the length of the rotated translation");
  Eq(At(Ra.RotateBy(Rb)), Unit(a) * Unit(b), "the composition of rotations");
  Eq(At(t.RotateBy(Ra).RotateBy(Rb)), z * Unit(a) * Unit(b), "a translation rotated twice");
  Eq(At(t.RotateBy(Ra.RotateBy(Rb))), z * Unit(a) * Unit(b), "a translation rotated by the composition");
  if constexpr (std::is_same_v<T, U>) {
    Eq(At(Ra + Rb), Unit(a + static_cast<long double>(b)), "the sum of rotations");
    Eq(At(Ra - Rb), Unit(a - static_cast<long double>(b)), "the difference of rotations");
    Pose2<T> P{t, Ra};
    auto Q = P.RotateBy(Rb);
    Eq(At(Q.Translation()), z * Unit(b), "the rotated pose's translation");
    Eq(At(Q.Rotation()), Unit(a) * Unit(b), "the rotated pose's rotation");
    Eq(At(Translation2<T>{X.v, Ra}), C{x, 0} * Unit(a), "the translation from a distance and an angle");
  }
}
template <class T, class U>
void Scalars() {
  sleipnir::OptimizationProblem p;
  double x = mc::pick(kCoord, "x"), y = mc::pick(kCoord, "y"), k = mc::pick(kScalar, "scalar");
  g_where = mc::fmt("(%g, %g) of %s and scalar %g of %s", x, y, Kind<T>(), k, Kind<U>());
  mc::state(mc::Hash{}.add(g_where));
  Num<T> X{p, x}, Y{p, y};
  Num<U> K{p, k};
  C z{x, y};
  Translation2<T> t{X.v, Y.v};
  Eq(At(t * K.v), z * static_cast<long double>(k), "the multiple");
  if (k != 0) Eq(At(t / K.v), z / static_cast<long double>(k), "the quotient");
  if constexpr (std::is_same_v<T, double> && std::is_same_v<U, double>) {
    int n = static_cast<int>(k);
    Eq(At(t * n), z * static_cast<long double>(n), "the multiple by an integer");
    if (n != 0) Eq(At(t / n), z / static_cast<long double>(n), "the quotient by an integer");
  }
}

template <template <class, class> class F>
void Mixed() {
  switch (mc::choose(4, "kinds of numbers")) {
    case 0: return F<double, double>::Go();
    case 1: return F<double, V>::Go();
    case 2: return F<V, double>::Go();
    default: return F<V, V>::Go();
  }
}
template <class T, class U>
struct BinaryF {
  static void Go() { Binary<T, U>(); }
};
template <class T, class U>
struct TurnsF {
  static void Go() { Turns<T, U>(); }
};
template <class T, class U>
struct ScalarsF {
  static void Go() { Scalars<T, U>(); }
};

// Equality as a constraint.
double Residual(const sleipnir::EqualityConstraints& c) {
  double w = 0;
  for (auto& e : c.constraints) w = std::max(w, std::abs(e.Value()));
  return w;
}
template <class T, class U>
struct EqualF {
  static void Go() {
    if constexpr (std::is_same_v<T, double> && std::is_same_v<U, double>) {
      throw mc::Prune{};
    } else {
      sleipnir::OptimizationProblem p;
      static const double coords[] = {0, 1, -2.25, 1.001};
      double x = mc::pick(coords, "x"), y = mc::pick(coords, "y"), a = mc::pick(kAngle, "angle");
      double u = x + mc::pick(std::vector<double>{0, 0.01, -1}, "dx"), v = y + mc::pick(std::vector<double>{0, 0.01, -1}, "dy");
      double b = a + mc::pick(std::vector<double>{0, 2 * kPi, -6 * kPi, 0.01, -1, kPi / 2, 3, kPi}, "turn");
      g_where = mc::fmt("(%g, %g, %g) of %s and (%g, %g, %g) of %s", x, y, a, Kind<T>(), u, v, b, Kind<U>());
      mc::state(mc::Hash{}.add(g_where));
      Num<T> X{p, x}, Y{p, y}, Ac{p, cos(a)}, As{p, sin(a)};
      Num<U> Un{p, u}, Vn{p, v}, Bc{p, cos(b)}, Bs{p, sin(b)};
      Translation2<T> t1{X.v, Y.v};
      Translation2<U> t2{Un.v, Vn.v};
      Rotation2<T> r1{Ac.v, As.v};
      Rotation2<U> r2{Bc.v, Bs.v};
      bool sameT = std::abs(x - u) < 1e-6 && std::abs(y - v) < 1e-6;
      double d = std::abs(remainder(a - b, 2 * kPi));
      bool sameR = d < 1e-6, antipode = std::abs(d - kPi) < 1e-6;
      auto judge = [&](const sleipnir::EqualityConstraints& c, bool same, const char* what) {
        mc::op();
        double w = Residual(c);
        MC_CHECK(!c.constraints.empty(), "%s: the equality of %s asks nothing", g_where.c_str(), what);
        if (same) MC_CHECK(w < 1e-9, "%s: the equality of %s misses by %g although they are equal", g_where.c_str(), what, w);
        else MC_CHECK(w > 1e-4, "%s: the equality of %s holds (to %g) although they differ", g_where.c_str(), what, w);
      };
      judge(t1 == t2, sameT, "the translations");
      if (!antipode) judge(r1 == r2, sameR, "the rotations");
      Pose2<T> p1{t1, r1};
      Pose2<U> p2{t2, r2};
      if (!antipode) judge(p1 == p2, sameT && sameR, "the poses");
      else if (!sameT) judge(p1 == p2, false, "the poses");
      // a heading the solver controls must be a unit vector
      if constexpr (std::is_same_v<T, V>) {
        Ac.v.SetValue(1.25 * cos(a));
        As.v.SetValue(1.25 * sin(a));
        judge(r1 == r2, false, "the rotations, the first of which is too long");
      }
      if constexpr (std::is_same_v<U, V>) {
        if constexpr (std::is_same_v<T, V>) {
          Ac.v.SetValue(cos(a));
          As.v.SetValue(sin(a));
        }
        Bc.v.SetValue(0.5 * cos(b));
        Bs.v.SetValue(0.5 * sin(b));
        judge(r1 == r2, false, "the rotations, the second of which is too short");
      }
    }
  }
};

// Histories of operations, of numbers and of variables in parallel.
void Chains() {
  sleipnir::OptimizationProblem p;
  Num<V> vx{p, 1.5}, vy{p, -0.5}, va{p, 0.7}, vu{p, 0.25}, vw{p, 2}, vb{p, -1.9};
  Translation2d t{1.5, -0.5}, c{0.25, 2};
  Rotation2d r{0.7}, s{-1.9};
  Translation2v tv{vx.v, vy.v}, cv{vu.v, vw.v};
  Rotation2v rv{va.v}, sv{vb.v};
  C z{1.5L, -0.5L}, zc{0.25L, 2};
  C a = Unit(0.7), sa = Unit(-1.9);
  std::string said = "t, r";
  int depth = mc::thorough() ? 5 : 4;
  for (int k = 0; k < depth; ++k) {
    static const char* names[] = {"t + c", "t - c", "c - t", "-t", "t * 1.5", "t / -3", "t rotated by r", "t rotated by s", "r + s",
                                  "r - s", "-r", "s - r"};
    int o = mc::choose(12, "operation");
    said += std::string{"; "} + names[o];
    switch (o) {
      case 0: t = t + c; tv = k % 2 == 0 ? tv + c : tv + cv; z += zc; break;
      case 1: t = t - c; tv = k % 2 == 0 ? tv - cv : tv - c; z -= zc; break;
      case 2: t = c - t; tv = k % 2 == 0 ? c - tv : cv - tv; z = zc - z; break;
      case 3: t = -t; tv = -tv; z = -z; break;
      case 4: t = t * 1.5; tv = tv * 1.5; z *= 1.5L; break;
      case 5: t = t / -3.0; tv = tv / -3.0; z /= -3.0L; break;
      case 6: t = t.RotateBy(r); tv = tv.RotateBy(rv); z *= a; break;
      case 7: t = t.RotateBy(s); tv = k % 2 == 0 ? tv.RotateBy(s) : tv.RotateBy(sv); z *= sa; break;
      case 8: r = r + s; rv = rv + sv; a *= sa; break;
      case 9: r = r - s; rv = rv - sv; a /= sa; break;
      case 10: r = -r; rv = -rv; a = std::conj(a); break;
      default: r = s - r; rv = sv - rv; a = sa / a; break;
    }
  }
  g_where = said;
  mc::state(mc::Hash{}.add(said));
  Eq(At(t), z, "the translation");
  Eq(At(tv), z, "the translation of variables");
  Eq(At(r), a, "the rotation");
  Eq(At(rv), a, "the rotation of variables");
  EqAngle(r.Radians(), std::arg(a), "the angle");
}

// Lengths near the ends of the range of numbers.
void Extremes() {
  static const double coords[] = {0, 1e-200, -3e-200, 2e-250, 1e200, -2.5e200, 4e250, 1, -7};
  double x = mc::pick(coords, "x"), y = mc::pick(coords, "y"), u = mc::pick(coords, "u"), v = mc::pick(coords, "v");
  g_where = mc::fmt("(%g, %g) and (%g, %g)", x, y, u, v);
  mc::state(mc::Hash{}.add(g_where));
  Translation2d a{x, y}, b{u, v};
  auto same = [](long double got, long double want, const char* what) {
    mc::op();
    MC_CHECK(std::isfinite(got) && std::abs(got - want) <= 1e-11L * std::abs(want), "%s: %s is %.15Lg, not %.15Lg", g_where.c_str(), what, got, want);
  };
  long double dx = static_cast<long double>(x) - u, dy = static_cast<long double>(y) - v;
  same(a.Norm(), hypotl(x, y), "the norm");
  same(a.Distance(b), hypotl(dx, dy), "the distance");
  if (x != 0 || y != 0) {
    long double want = atan2l(y, x), got = a.Angle().Radians();
    mc::op();
    MC_CHECK(std::abs(remainderl(got - want, 2 * std::numbers::pi_v<long double>)) <= 1e-11L, "%s: the angle is %.15Lg, not %.15Lg", g_where.c_str(), got, want);
  }
  auto sum = a + b, diff = a - b;
  mc::op();
  MC_CHECK(sum.X() == x + u && sum.Y() == y + v && diff.X() == x - u && diff.Y() == y - v, "%s: sum or difference", g_where.c_str());
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv,
                  {{"one-object-of-numbers", Unary<double>, 2},
                   {"one-object-of-variables", Unary<V>, 2},
                   {"conversions", Conversions, 2},
                   {"two-translations", Mixed<BinaryF>, 3},
                   {"rotations", Mixed<TurnsF>, 3},
                   {"scalars", Mixed<ScalarsF>, 3},
                   {"equality-constraints", Mixed<EqualF>, 3},
                   {"extremes", Extremes, 2},
                   {"chains", Chains, 2}});
}
