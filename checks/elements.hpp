// Instrumented element types for the checks of `expected`: a ledger of live
// objects, and (when armed) an exception at any operation the explorer chooses.
#pragma once

#include <setjmp.h>

#include <exception>
#include <map>
#include <set>
#include <string>

#include "mc/mc.hpp"

namespace el {

struct Fault {};

struct World {
  std::map<const void*, int> live;
  bool armed = false;      // injection possible
  int faultsLeft = 0;      // exceptions still allowed in this execution
  bool threw = false;      // an exception was injected by the current operation
  std::string broken;      // first lifetime violation
  const char* site = "";   // where the exception was injected
  int64_t total = 0;       // constructions (to detect an operation that loses an object)
};
inline World& W() {
  static World w;
  return w;
}
inline void Broken(const char* what) {
  if (W().broken.empty()) W().broken = what;
}
inline void MayThrow(bool can, const char* site) {
  auto& w = W();
  if (!can || !w.armed || w.faultsLeft == 0) return;
  if (mc::choose(2, site) == 1) {
    --w.faultsLeft;
    w.threw = true;
    w.site = site;
    MC_LOG("    %s throws", site);
    throw Fault{};
  }
}

enum : int {
  kCopyThrows = 1,
  kMoveThrows = 2,
  kCopyAssignThrows = 4,
  kMoveAssignThrows = 8,
  kMakeThrows = 16,  // construction from int / list
  kMoveOnly = 32,
  kNoDefault = 64,
  kDefaultThrows = 128,
  kError = 1024,  // distinguishes value and error types
};

constexpr int kMoved = -1;

/// An argument from which an element can be made, together with a list.
struct Cell {
  int m_v;
  explicit Cell(int v) : m_v(v) {}
  Cell(const Cell&) = default;
  Cell(Cell&& o) noexcept : m_v(o.m_v) { o.m_v = kMoved; }
  Cell& operator=(const Cell&) = default;
};

/// Payload >= 0; kMoved after being moved from.
template <int F>
class Elt {
  static constexpr bool has(int f) { return (F & f) != 0; }
  void Born() {
    auto& w = W();
    ++w.total;
    if (!w.live.emplace(this, F).second) Broken("an object is constructed where another one still lives");
  }
  void Alive(const char* what) const {
    auto it = W().live.find(this);
    if (it == W().live.end() || it->second != F) Broken(what);
  }
  int m_v;

 public:
  Elt() requires(!has(kNoDefault)) {
    MayThrow(has(kDefaultThrows), "default construction");
    m_v = 0;
    Born();
  }
  Elt(int v) noexcept(!has(kMakeThrows)) {  // NOLINT
    MayThrow(has(kMakeThrows), "construction");
    m_v = v;
    Born();
  }
  Elt(std::initializer_list<int> l, int add) noexcept(!has(kMakeThrows)) {
    MayThrow(has(kMakeThrows), "construction from a list");
    m_v = add;
    for (int i : l) m_v += i;
    Born();
  }
  Elt(std::initializer_list<int> l, Cell add) noexcept(!has(kMakeThrows)) : Elt(l, add.m_v) {}
  Elt(const Elt& o) noexcept(!has(kCopyThrows)) requires(!has(kMoveOnly)) {
    o.Alive("a dead object is copied");
    MayThrow(has(kCopyThrows), "copy construction");
    m_v = o.m_v;
    Born();
  }
  Elt(Elt&& o) noexcept(!has(kMoveThrows)) {
    o.Alive("a dead object is moved from");
    MayThrow(has(kMoveThrows), "move construction");
    m_v = o.m_v;
    o.m_v = kMoved;
    Born();
  }
  Elt& operator=(const Elt& o) noexcept(!has(kCopyAssignThrows)) requires(!has(kMoveOnly)) {
    Alive("a dead object is assigned to");
    o.Alive("a dead object is assigned from");
    MayThrow(has(kCopyAssignThrows), "copy assignment");
    m_v = o.m_v;
    return *this;
  }
  Elt& operator=(Elt&& o) noexcept(!has(kMoveAssignThrows)) {
    Alive("a dead object is assigned to");
    o.Alive("a dead object is assigned from");
    MayThrow(has(kMoveAssignThrows), "move assignment");
    if (&o != this) {
      m_v = o.m_v;
      o.m_v = kMoved;
    }
    return *this;
  }
  ~Elt() {
    Alive("a dead object is destroyed");
    W().live.erase(this);
    m_v = -77;
  }
  int v() const {
    Alive("a dead object is read");
    return m_v;
  }
  void set(int v) {
    Alive("a dead object is written");
    m_v = v;
  }
  friend void swap(Elt& a, Elt& b) noexcept(!has(kMoveAssignThrows)) {
    a.Alive("a dead object is swapped");
    b.Alive("a dead object is swapped");
    MayThrow(has(kMoveAssignThrows), "swap");
    std::swap(a.m_v, b.m_v);
  }
  friend bool operator==(const Elt& a, const Elt& b) { return a.v() == b.v(); }
  friend bool operator!=(const Elt& a, const Elt& b) { return a.v() != b.v(); }
};

template <typename X>
struct Pay;

/// A type convertible to Elt (used as U/G in expected<U, G>).
template <typename To>
struct Conv {
  int m_v;
  Conv(int v) : m_v(v) {}  // NOLINT
  operator To() const& { return Pay<To>::make(m_v); }
  operator To() && {
    int v = m_v;
    m_v = kMoved;
    return Pay<To>::make(v);
  }
};

/// Trivially destructible and trivially copyable payload.
struct Plain {
  int m_v = 0;
  Plain() = default;
  Plain(int v) : m_v(v) {}  // NOLINT
  Plain(std::initializer_list<int> l, int add) : m_v(add) {
    for (int i : l) m_v += i;
  }
  Plain(std::initializer_list<int> l, Cell add) : Plain(l, add.m_v) {}
  friend bool operator==(const Plain& a, const Plain& b) { return a.m_v == b.m_v; }
  friend bool operator!=(const Plain& a, const Plain& b) { return a.m_v != b.m_v; }
};

/// Trivially destructible, but copying and moving can throw.
struct Tramp {
  int m_v = 0;
  Tramp() = default;
  Tramp(int v) : m_v(v) { }  // NOLINT
  Tramp(std::initializer_list<int> l, int add) : m_v(add) {
    for (int i : l) m_v += i;
  }
  Tramp(std::initializer_list<int> l, Cell add) : Tramp(l, add.m_v) {}
  Tramp(const Tramp& o) : m_v((MayThrow(true, "copy construction"), o.m_v)) {}
  Tramp(Tramp&& o) noexcept : m_v(o.m_v) { o.m_v = kMoved; }
  Tramp& operator=(const Tramp& o) {
    MayThrow(true, "copy assignment");
    m_v = o.m_v;
    return *this;
  }
  Tramp& operator=(Tramp&& o) noexcept {
    if (this != &o) {
      m_v = o.m_v;
      o.m_v = kMoved;
    }
    return *this;
  }
  friend bool operator==(const Tramp& a, const Tramp& b) { return a.m_v == b.m_v; }
  friend bool operator!=(const Tramp& a, const Tramp& b) { return a.m_v != b.m_v; }
};

// Uniform access to a payload number.
template <typename X>
struct Pay {
  static constexpr bool forgets = true;  // moving leaves kMoved behind
  static int get(const X& x) { return x.v(); }
  static void set(X& x, int v) { x.set(v); }
  static X make(int v) { return X(v); }
};
template <>
struct Pay<Plain> {
  static constexpr bool forgets = false;
  static int get(const Plain& x) { return x.m_v; }
  static void set(Plain& x, int v) { x.m_v = v; }
  static Plain make(int v) { return Plain(v); }
};
template <>
struct Pay<Tramp> {
  static constexpr bool forgets = true;
  static int get(const Tramp& x) { return x.m_v; }
  static void set(Tramp& x, int v) { x.m_v = v; }
  static Tramp make(int v) { return Tramp(v); }
};
template <>
struct Pay<int> {
  static constexpr bool forgets = false;
  static int get(const int& x) { return x; }
  static void set(int& x, int v) { x = v; }
  static int make(int v) { return v; }
};
template <>
struct Pay<bool> {
  static constexpr bool forgets = false;
  static int get(const bool& x) { return x ? 1 : 0; }
  static void set(bool& x, int v) { x = v != 0; }
  static bool make(int v) { return v != 0; }
};
template <>
struct Pay<std::string> {
  static constexpr bool forgets = true;
  static int get(const std::string& s) { return s.empty() ? kMoved : std::stoi(s.substr(s.find('#') + 1)); }
  static void set(std::string& s, int v) { s = make(v); }
  static std::string make(int v) { return "a text long enough to live on the heap #" + std::to_string(v); }
};

// std::terminate inside an operation comes back to the harness.
inline sigjmp_buf& Back() {
  static sigjmp_buf b;
  return b;
}
inline bool& CanGoBack() {
  static bool b = false;
  return b;
}
inline void OnTerminate() {
  if (CanGoBack()) {
    CanGoBack() = false;
    siglongjmp(Back(), 1);
  }
  abort();
}

}  // namespace el
