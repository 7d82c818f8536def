// C28: robots, poses and trajectories survive being written to and read from files in Rust.
#include <float.h>

#include <algorithm>

#include "mc/mc.hpp"

using Out = void (*)(const char* text, size_t bytes, const double* numbers, size_t n);
extern "C" int serde_write(int kind, const double* v, size_t n, int how, Out out);
extern "C" int serde_read(int kind, const char* text, size_t n, int how, Out out);
extern "C" int serde_binary(int kind, const double* v, size_t n, Out out);
extern "C" int serde_copy(int kind, const double* v, size_t n, Out out);

namespace {

// --- the documented structures
struct Field {
  const char* name;
  int list;  // -2: a number; -1: a list of numbers; else a list of that kind
};
struct Kind {
  const char* name;
  std::vector<Field> fields;  // numbers first
};
const Kind kKinds[] = {
    {"SwerveModule", {{"x", -2}, {"y", -2}, {"wheel_radius", -2}, {"wheel_max_angular_velocity", -2}, {"wheel_max_torque", -2}}},
    {"SwerveDrivetrain", {{"mass", -2}, {"moi", -2}, {"modules", 0}}},
    {"Pose2d", {{"x", -2}, {"y", -2}, {"heading", -2}}},
    {"HolonomicTrajectorySample",
     {{"timestamp", -2}, {"x", -2}, {"y", -2}, {"heading", -2}, {"velocity_x", -2}, {"velocity_y", -2}, {"angular_velocity", -2}, {"module_forces_x", -1}, {"module_forces_y", -1}}},
    {"HolonomicTrajectory", {{"samples", 3}}},
};

// --- documents
struct J {
  enum Type { kNumber, kList, kObject, kText } type = kNumber;
  double num = 0;
  std::string text;  // of a number or another scalar, as spelled
  std::vector<J> list;
  std::vector<std::pair<std::string, J>> fields;
};
J Number(double v) {
  J j;
  j.num = v;
  return j;
}
J Raw(const char* text) {
  J j;
  j.type = J::kText;
  j.text = text;
  return j;
}

double g_next;
// An instance with numbers all its own, lists of the given length (ragged: the second one longer).
J Make(int kind, size_t length, bool ragged) {
  J j;
  j.type = J::kObject;
  size_t l = length;
  for (auto& f : kKinds[kind].fields) {
    J v;
    if (f.list == -2) {
      v = Number(g_next += 0.4375);
    } else {
      v.type = J::kList;
      for (size_t i = 0; i < l; ++i) v.list.push_back(f.list == -1 ? Number(g_next += 0.4375) : Make(f.list, ragged ? i : length, ragged));
      if (ragged) ++l;
    }
    j.fields.emplace_back(f.name, v);
  }
  return j;
}
void Flat(const J& j, std::vector<double>& o) {
  if (j.type == J::kNumber) {
    o.push_back(j.num);
  } else if (j.type == J::kList) {
    o.push_back(static_cast<double>(j.list.size()));
    for (auto& x : j.list) Flat(x, o);
  } else {
    for (auto& f : j.fields) Flat(f.second, o);
  }
}
std::vector<double> Flat(const J& j) {
  std::vector<double> o;
  Flat(j, o);
  return o;
}
std::string Print(const J& j, const char* space = "") {
  if (j.type == J::kText || (j.type == J::kNumber && !j.text.empty())) return j.text;
  if (j.type == J::kNumber) return mc::fmt("%.17g", j.num);
  std::string s = j.type == J::kList ? "[" : "{";
  bool first = true;
  auto sep = [&] {
    if (!first) s += std::string{space} + ",";
    first = false;
    s += space;
  };
  for (auto& x : j.list) sep(), s += Print(x, space);
  for (auto& f : j.fields) sep(), s += "\"" + f.first + "\"" + space + ":" + space + Print(f.second, space);
  return s + space + (j.type == J::kList ? "]" : "}");
}
// All numbers of a document, in order.
void Numbers(J& j, std::vector<J*>& o) {
  if (j.type == J::kNumber) o.push_back(&j);
  for (auto& x : j.list) Numbers(x, o);
  for (auto& f : j.fields) Numbers(f.second, o);
}
// All structures of a document.
void Objects(J& j, std::vector<J*>& o) {
  if (j.type == J::kObject) o.push_back(&j);
  for (auto& x : j.list) Objects(x, o);
  for (auto& f : j.fields) Objects(f.second, o);
}

struct Reader {
  const std::string& s;
  size_t i = 0;
  void Space() {
    while (i < s.size() && strchr(" \n\t\r", s[i])) ++i;
  }
  [[noreturn]] void Bad() { mc::fail("what was written is no document: %s", s.c_str()); }
  char Next() {
    Space();
    if (i >= s.size()) Bad();
    return s[i++];
  }
  std::string Text() {
    std::string r;
    if (Next() != '"') Bad();
    while (i < s.size() && s[i] != '"') r += s[i++];
    ++i;
    return r;
  }
  J Value() {
    J j;
    Space();
    char c = i < s.size() ? s[i] : 0;
    if (c == '{' || c == '[') {
      ++i;
      j.type = c == '{' ? J::kObject : J::kList;
      char end = c == '{' ? '}' : ']';
      Space();
      if (i < s.size() && s[i] == end) return ++i, j;
      for (;;) {
        if (c == '{') {
          auto name = Text();
          if (Next() != ':') Bad();
          j.fields.emplace_back(name, Value());
        } else {
          j.list.push_back(Value());
        }
        char d = Next();
        if (d == end) return j;
        if (d != ',') Bad();
      }
    }
    size_t from = i;
    if (c == '"') {
      Text();
      j.type = J::kText;
    } else {
      while (i < s.size() && !strchr(",]} \n\t\r", s[i])) ++i;
      char* stop = nullptr;
      std::string t = s.substr(from, i - from);
      j.num = strtod(t.c_str(), &stop);
      if (t.empty() || (t[0] != '-' && !isdigit(t[0])) || *stop != 0) j.type = J::kText;
    }
    j.text = s.substr(from, i - from);
    return j;
  }
};

bool Same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

void Match(const J& want, const J& got, const std::string& where, const std::string& what) {
  MC_CHECK(want.type == got.type, "%s: %s is written as %s", what.c_str(), where.c_str(), Print(got).c_str());
  if (want.type == J::kNumber) MC_CHECK(Same(want.num, got.num), "%s: %s is %.17g, written as %s", what.c_str(), where.c_str(), want.num, got.text.c_str());
  MC_CHECK(want.list.size() == got.list.size(), "%s: %s has %zu elements, written as %zu", what.c_str(), where.c_str(), want.list.size(), got.list.size());
  for (size_t i = 0; i < want.list.size(); ++i) Match(want.list[i], got.list[i], where + mc::fmt("[%zu]", i), what);
  for (auto& f : got.fields) {
    size_t n = 0;
    for (auto& w : want.fields) n += w.first == f.first;
    MC_CHECK(n == 1, "%s: %s is written with a field \"%s\"", what.c_str(), where.c_str(), f.first.c_str());
  }
  for (auto& w : want.fields) {
    const J* found = nullptr;
    for (auto& f : got.fields)
      if (f.first == w.first) {
        MC_CHECK(found == nullptr, "%s: %s is written with two fields \"%s\"", what.c_str(), where.c_str(), f.first.c_str());
        found = &f.second;
      }
    MC_CHECK(found != nullptr, "%s: %s is written without its field \"%s\"", what.c_str(), where.c_str(), w.first.c_str());
    Match(w.second, *found, where + "." + w.first, what);
  }
}

std::string g_text;
std::vector<std::vector<double>> g_numbers;
void Take(const char* text, size_t bytes, const double* v, size_t n) {
  g_text.assign(text, bytes);
  g_numbers.emplace_back(v, v + n);
}
void Equal(const std::vector<double>& a, const std::vector<double>& b, const std::string& what, const char* then) {
  MC_CHECK(a.size() == b.size(), "%s: %s has %zu numbers instead of %zu", what.c_str(), then, b.size(), a.size());
  for (size_t i = 0; i < a.size(); ++i) MC_CHECK(Same(a[i], b[i]), "%s: number %zu of %s is %.17g instead of %.17g", what.c_str(), i, then, b[i], a[i]);
}

const char* kWrite[] = {"written", "written in lines", "held as a value"};
const char* kRead[] = {"read", "read from a stream", "read through a value"};

void Write(int kind, const J& j, const std::string& what) {
  auto v = Flat(j);
  for (int how = 0; how < 3; ++how) {
    mc::op();
    g_numbers.clear();
    auto w = what + ", " + kWrite[how];
    int rc = serde_write(kind, v.data(), v.size(), how, Take);
    MC_CHECK(rc == 0, "%s: fails: %s", w.c_str(), g_text.c_str());
    Equal(v, g_numbers.at(0), w, "the original afterwards");
    Reader r{g_text};
    J got = r.Value();
    r.Space();
    if (r.i != g_text.size()) r.Bad();
    Match(j, got, kKinds[kind].name, w);
  }
}
void Read(int kind, const std::string& text, const J& want, const std::string& what, int from = 0, int to = 3) {
  auto v = Flat(want);
  for (int how = from; how < to; ++how) {
    mc::op();
    g_numbers.clear();
    auto w = what + ", " + kRead[how];
    int rc = serde_read(kind, text.data(), text.size(), how, Take);
    MC_CHECK(rc == 0, "%s: fails: %s (document: %s)", w.c_str(), g_text.c_str(), text.c_str());
    Equal(v, g_numbers.at(0), w, "what was read");
  }
}
void Refuse(int kind, const std::string& text, const std::string& what) {
  for (int how = 0; how < 3; ++how) {
    mc::op();
    g_numbers.clear();
    int rc = serde_read(kind, text.data(), text.size(), how, Take);
    MC_CHECK(rc != 0, "%s, %s: succeeds (document: %s)", what.c_str(), kRead[how], text.c_str());
  }
}
void Binary(int kind, const J& j, const std::string& what) {
  mc::op();
  auto v = Flat(j);
  g_numbers.clear();
  int rc = serde_binary(kind, v.data(), v.size(), Take);
  MC_CHECK(rc == 0, "%s, in a binary format: %s", what.c_str(), rc == 1 ? "cannot be written" : "cannot be read");
  Equal(v, g_numbers.at(0), what, "what was read from a binary format");
}
void Copy(int kind, const J& j, const std::string& what) {
  if (kind < 3) return;
  mc::op();
  auto v = Flat(j);
  g_numbers.clear();
  serde_copy(kind, v.data(), v.size(), Take);
  Equal(v, g_numbers.at(0), what, "the copy");
  Equal(v, g_numbers.at(1), what, "the copied original");
}

const double kValues[] = {0.0, -0.0, 1.0, -1.0, 0.1, -123.456, 1e-3, 1.0 / 3, 3.141592653589793, 1e15, 123456789012345678.0, 9007199254740993.0, 1e16, 1e21, 1e22, 1e300, DBL_MAX, -DBL_MAX,
                          DBL_MIN, 5e-324, -5e-324, 1e-7, 0.30000000000000004, 2.2250738585072011e-308, 4294967296.0, 18446744073709551616.0, -9223372036854775808.0, 1e-300, 6.02214076e23,
                          255, 65536, 0.5};
const double kOther[] = {NAN, INFINITY, -INFINITY};

int PickKind() { return mc::choose(5, "structure"); }

// Every number of every structure x every value.
void Values() {
  int kind = PickKind();
  size_t length = static_cast<size_t>(mc::choose(3, "length of lists"));
  bool ragged = mc::flip("ragged lists");
  g_next = 100;
  J j = Make(kind, length, ragged);
  std::vector<J*> n;
  Numbers(j, n);
  auto what = mc::fmt("%s with %slists of %zu", kKinds[kind].name, ragged ? "ragged " : "", length);
  if (!n.empty()) {
    size_t i = static_cast<size_t>(mc::choose(static_cast<int>(n.size()) + 1, "number"));
    int v = mc::choose(static_cast<int>(std::size(kValues)) + 3, "value");
    double value = v < static_cast<int>(std::size(kValues)) ? kValues[v] : kOther[v - static_cast<int>(std::size(kValues))];
    for (size_t k = 0; k < n.size(); ++k)
      if (k == i || i == n.size()) n[k]->num = value;
    what += mc::fmt(", number %zu is %.17g", i, value);
  }
  MC_LOG("  %s", what.c_str());
  mc::state(mc::Hash{}.add(what));
  Binary(kind, j, what);
  Copy(kind, j, what);
  for (auto* x : n)
    if (!std::isfinite(x->num)) return;
  Write(kind, j, what);
  Read(kind, Print(j), j, what);
}

// Every order of the fields.
void Orders() {
  int kind = PickKind();
  g_next = 5;
  J j = Make(kind, 2, false);
  J shuffled = j;
  auto permute = [&](J& o) {
    std::vector<std::pair<std::string, J>> from = o.fields, to;
    bool all = from.size() <= 5 || mc::thorough();
    if (all) {
      while (!from.empty()) {
        size_t k = from.size() == 1 ? 0 : static_cast<size_t>(mc::choose(static_cast<int>(from.size()), "next field"));
        to.push_back(from[k]);
        from.erase(from.begin() + static_cast<long>(k));
      }
    } else {
      // every field first, every pair exchanged, in both directions
      size_t n = from.size();
      std::rotate(from.begin(), from.begin() + mc::choose(static_cast<int>(n), "first field"), from.end());
      size_t a = static_cast<size_t>(mc::choose(static_cast<int>(n), "exchange")), b = static_cast<size_t>(mc::choose(static_cast<int>(n), "with"));
      if (b > a) throw mc::Prune{};
      std::swap(from[a], from[b]);
      if (mc::flip("backwards")) std::reverse(from.begin(), from.end());
      to = from;
    }
    o.fields = to;
  };
  std::vector<J*> inner;
  Objects(shuffled, inner);
  // the outermost, or those in its lists
  if (inner.size() > 1 && mc::flip("of the elements")) {
    permute(*inner.back());
    for (size_t i = 1; i + 1 < inner.size(); ++i) {
      auto& f = inner[i]->fields;
      if (f.size() == inner.back()->fields.size()) std::reverse(f.begin(), f.end());
    }
  } else {
    permute(shuffled);
  }
  auto text = Print(shuffled);
  mc::state(mc::Hash{}.add(text));
  MC_LOG("  %s", text.c_str());
  Read(kind, text, j, mc::fmt("%s with its fields in another order", kKinds[kind].name), 0, mc::thorough() ? 1 : 3);
}

// Every spelling of a number, blanks everywhere.
void Spellings() {
  static const struct {
    const char* text;
    double v;
  } spell[] = {{"3", 3}, {"-3", -3}, {"0", 0}, {"3.0", 3}, {"3.000000000000000000000000", 3}, {"3e0", 3}, {"30E-1", 3}, {"0.3e+1", 3}, {"-0", -0.0}, {"-0.0", -0.0},
               {"18446744073709551615", 18446744073709551615.0}, {"-9223372036854775808", -9223372036854775808.0}, {"123456789012345678901234567890", 123456789012345678901234567890.0},
               {"0.1000000000000000055511151231257827", 0.1}, {"1.7976931348623157e308", DBL_MAX}, {"4.9e-324", 5e-324}, {"1e-400", 0}, {"9007199254740993", 9007199254740992.0}};
  static const char* spaces[] = {"", " ", "\n\t", "\r\n    "};
  int kind = PickKind();
  g_next = 5;
  J j = Make(kind, 2, false);
  std::vector<J*> n;
  Numbers(j, n);
  auto* x = n[static_cast<size_t>(mc::choose(static_cast<int>(n.size()), "number"))];
  auto& s = spell[mc::choose(static_cast<int>(std::size(spell)), "spelling")];
  auto* space = spaces[mc::choose(4, "blanks")];
  x->num = s.v;
  J spelled = j;
  n.clear();
  Numbers(spelled, n);
  for (auto* y : n)
    if (Same(y->num, s.v)) y->text = s.text;
  auto text = Print(spelled, space);
  mc::state(mc::Hash{}.add(text));
  MC_LOG("  %s", text.c_str());
  // (negative zero spelled as an integer is the reader's business)
  if (!strcmp(s.text, "-0")) return;
  Read(kind, text, j, mc::fmt("%s with a number spelled %s", kKinds[kind].name, s.text));
}

// Every set of missing fields, of the structure or of one element of its list.
void Missing() {
  int kind = PickKind();
  g_next = 5;
  size_t length = static_cast<size_t>(mc::choose(3, "length of lists"));
  J j = Make(kind, length, false);
  std::vector<J*> o;
  Objects(j, o);
  auto& f = o[static_cast<size_t>(mc::choose(static_cast<int>(o.size()), "of"))]->fields;
  std::string what;
  for (size_t i = 0; i < f.size();) {
    if (mc::flip("missing")) {
      what += " " + f[i].first;
      f.erase(f.begin() + static_cast<long>(i));
    } else {
      ++i;
    }
  }
  if (what.empty()) throw mc::Prune{};
  auto text = Print(j);
  mc::state(mc::Hash{}.add(text).add(static_cast<uint64_t>(kind)));
  MC_LOG("  %s", text.c_str());
  Refuse(kind, text, mc::fmt("reading a %s without%s", kKinds[kind].name, what.c_str()));
}

// Every field and every element as something else.
void Mistyped() {
  static const char* other[] = {"null", "\"3\"", "\"\"", "true", "false", "{}", "[]", "[3]", "3", "[null]", "[\"3\"]", "[[]]", "[{}]", "{\"x\":3}"};
  int kind = PickKind();
  g_next = 5;
  J j = Make(kind, 2, false);
  std::vector<J*> o;
  Objects(j, o);
  auto& s = *o[static_cast<size_t>(mc::choose(static_cast<int>(o.size()), "of"))];
  auto& f = s.fields[static_cast<size_t>(mc::choose(static_cast<int>(s.fields.size()), "field"))];
  int k = mc::choose(static_cast<int>(std::size(other)), "given as");
  const Field* field = nullptr;
  for (auto& q : kKinds)
    for (auto& w : q.fields)
      if (w.name == f.first && (w.list == -2) == (f.second.type == J::kNumber)) field = &w;
  std::string name = f.first, as = other[k];
  if (field->list == -2 && as == "3") throw mc::Prune{};
  if (field->list > -2 && as == "[]") throw mc::Prune{};
  if (field->list == -1 && as == "[3]") throw mc::Prune{};
  // (a structure may be given as the list of its fields)
  if (field->list == 3 || field->list == 0) {
    if (as == "[[]]") {
      // no fields at all: still refused
    }
  }
  f.second = Raw(other[k]);
  auto text = Print(j);
  mc::state(mc::Hash{}.add(text).add(static_cast<uint64_t>(kind)));
  MC_LOG("  %s", text.c_str());
  Refuse(kind, text, mc::fmt("reading a %s whose %s is %s", kKinds[kind].name, name.c_str(), as.c_str()));
}

// Long lists.
void Long() {
  int kind = PickKind();
  static const size_t few[] = {5, 16, 33, 100}, many[] = {5, 16, 33, 100, 255, 256, 257, 600};
  size_t length = mc::thorough() ? mc::pick(many, "length") : mc::pick(few, "length");
  g_next = 0.1;
  J j = Make(kind, kind == 4 ? 3 : length, mc::flip("ragged lists"));
  if (kind == 4) {
    auto& l = j.fields[0].second.list;
    auto one = l;
    while (l.size() < length) l.push_back(one[l.size() % one.size()]), l.back().fields[0].second.num = static_cast<double>(l.size());
  }
  auto what = mc::fmt("%s with lists of %zu", kKinds[kind].name, length);
  mc::state(mc::Hash{}.add(Print(j)));
  MC_LOG("  %s", what.c_str());
  Binary(kind, j, what);
  Copy(kind, j, what);
  Write(kind, j, what);
  Read(kind, Print(j), j, what);
}

}  // namespace

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"values", Values, 4}, {"orders", Orders, 4}, {"spellings", Spellings, 3}, {"missing", Missing, 4}, {"mistyped", Mistyped, 3}, {"long", Long, 2}});
}
