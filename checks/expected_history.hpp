// Histories of operations on `expected` objects against a reference model.
#pragma once

#include <memory>
#include <optional>

#include "checks/elements.hpp"
#include "trajopt/util/expected"

namespace el {

struct Abandon {};

template <class T>
struct PayV : Pay<T> {};
template <>
struct PayV<void> {
  static constexpr bool forgets = false;
};

template <class X>
constexpr bool kTracked = false;
template <int F>
constexpr bool kTracked<Elt<F>> = true;

/// An argument from which an X is made in place.
template <class X>
auto Raw(int v) {
  if constexpr (std::is_same_v<X, std::string>) return Pay<X>::make(v);
  else return v;
}

/// What an `expected` object holds.
struct M {
  bool has = true;
  int v = 0;
  bool operator==(const M&) const = default;
};

template <class T, class E>
class History {
 public:
  using X = trajopt::expected<T, E>;
  using UX = trajopt::unexpected<E>;
  static constexpr bool kVoid = std::is_void_v<T>;
  static constexpr bool kCopy = std::is_copy_constructible_v<X>;
  static constexpr bool kCopyAssign = std::is_copy_assignable_v<X>;
  static constexpr bool kMoveAssign = std::is_move_assignable_v<X>;
  static constexpr bool kValue = !kVoid && std::is_copy_constructible_v<E>;  // value() throws a copy of the error
  using Tv = std::conditional_t<kVoid, int, T>;

  const char* types;
  alignas(X) unsigned char raw[2][sizeof(X)];
  M m[2];

  X& S(int i) { return *std::launder(reinterpret_cast<X*>(raw[i])); }

  static M Moved(M k) {
    if (k.has ? PayV<T>::forgets : Pay<E>::forgets) k.v = kMoved;
    return k;
  }
  static std::string Text(M k) {
    if (k.has && kVoid) return "success";
    return mc::fmt("%s %s", k.has ? "value" : "error", k.v == kMoved ? "(moved from)" : std::to_string(k.v).c_str());
  }

  // ---- observation -------------------------------------------------------
  M Look(X& x, const char* what) {
    const X& c = x;
    M k;
    k.has = c.has_value();
    MC_CHECK(static_cast<bool>(c) == k.has, "%s: has_value() and bool differ", what);
    if (k.has) {
      if constexpr (!kVoid) {
        k.v = Pay<T>::get(*c);
        MC_CHECK(Pay<T>::get(*x) == k.v && Pay<T>::get(*c.operator->()) == k.v && Pay<T>::get(*x.operator->()) == k.v,
                 "%s: the accessors disagree about the value", what);
        if constexpr (kValue)
          MC_CHECK(Pay<T>::get(c.value()) == k.v && Pay<T>::get(x.value()) == k.v, "%s: the accessors disagree about the value", what);
      }
    } else {
      k.v = Pay<E>::get(c.error());
      MC_CHECK(Pay<E>::get(x.error()) == k.v, "%s: the accessors disagree about the error", what);
    }
    return k;
  }

  void Expect(X& x, M want, const char* what) {
    M got = Look(x, what);
    MC_CHECK(got == want, "%s: %s holds %s instead of %s", what, types, Text(got).c_str(), Text(want).c_str());
  }

  void Broken(const char* what) {
    auto& w = W();
    MC_CHECK(w.broken.empty(), "%s: %s: %s", what, types, w.broken.c_str());
  }

  size_t Objects() {
    size_t n = 0;
    for (auto& k : m) n += k.has ? kTracked<T> : kTracked<E>;
    return n;
  }

  void Verify(const char* what) {
    Broken(what);
    for (int i = 0; i < 2; ++i) Expect(S(i), m[i], what);
    MC_CHECK(W().live.size() == Objects(), "%s: %s: %zu contained objects are alive, %zu are held", what, types, W().live.size(), Objects());
    const X &a = S(0), &b = S(1);
    bool eq = m[0] == m[1];
    MC_CHECK((a == b) == eq && (b == a) == eq, "%s: == of %s and %s is wrong", what, Text(m[0]).c_str(), Text(m[1]).c_str());
    MC_CHECK((a != b) == !eq && (b != a) == !eq, "%s: != of %s and %s is wrong", what, Text(m[0]).c_str(), Text(m[1]).c_str());
    MC_CHECK(a == a && !(a != a), "%s: %s does not equal itself", what, Text(m[0]).c_str());
    for (int i = 0; i < 2; ++i) {
      const X& x = S(i);
      for (int v : {1, 2, 3}) {
        if constexpr (!kVoid) {
          T t = Pay<T>::make(v);
          bool e = m[i].has && m[i].v == v;
          MC_CHECK((x == t) == e && (t == x) == e && (x != t) == !e && (t != x) == !e, "%s: comparison of %s with value %d is wrong", what,
                   Text(m[i]).c_str(), v);
        }
        UX u{Pay<E>::make(v)};
        bool e = !m[i].has && m[i].v == v;
        MC_CHECK((x == u) == e && (u == x) == e && (x != u) == !e && (u != x) == !e, "%s: comparison of %s with error %d is wrong", what,
                 Text(m[i]).c_str(), v);
      }
    }
    Broken(what);
  }

  // ---- operations --------------------------------------------------------
  /// Runs one operation; the objects must then be as given. If an exception was
  /// injected, it must reach the caller, a keeps its content and b keeps its
  /// content or was moved from.
  template <class Fn>
  bool Do(const char* what, Fn fn) {
    auto& w = W();
    mc::op();
    w.threw = false;
    bool caught = false;
    w.armed = w.faultsLeft > 0;
    CanGoBack() = true;
    if (sigsetjmp(Back(), 0) == 0) {
      try {
        fn();
      } catch (const Fault&) {
        caught = true;
      }
    } else {
      w.armed = false;
      std::string key = std::string("terminate/") + what + "/" + w.site;
      for (auto& c : key)
        if (c == ' ') c = '-';
      mc::known(key, "%s on %s: an exception of the element's %s ends in std::terminate", what, types, w.site);
      throw Abandon{};
    }
    w.armed = false;
    CanGoBack() = false;
    Broken(what);
    if (w.threw) {
      MC_CHECK(caught, "%s: %s: the exception thrown by %s never reaches the caller", what, types, w.site);
      mc::count("injected_exceptions");
      MC_LOG("    -> exception reached the caller");
      return false;
    }
    MC_CHECK(!caught, "%s: an exception came from nowhere", what);
    return true;
  }

  /// A construction `X c(...)`: checks the new object, then destroys it.
  template <class Fn>
  void Make(const char* what, M want, Fn make) {
    std::optional<X> unused;
    alignas(X) unsigned char room[sizeof(X)];
    X* c = nullptr;
    bool ok = Do(what, [&] { c = make(room); });
    if (ok) {
      Expect(*c, want, what);
      c->~X();
    }
  }

  struct Op {
    const char* name;
    void (*run)(History&, int);
  };

  static constexpr int kNew = 3;

  static const std::vector<Op>& Ops() {
    static const std::vector<Op> ops = [] {
      std::vector<Op> o;
      auto add = [&](const char* n, void (*f)(History&, int)) { o.push_back({n, f}); };
      // -- construction
      if constexpr (std::is_default_constructible_v<X>)
        add("default construct", [](History& h, int) { h.Make("default construct", {true, std::is_same_v<T, std::string> ? kMoved : 0}, [](void* p) { return new (p) X(); }); });
      if constexpr (!kVoid) {
        add("construct in place", [](History& h, int) {
          h.Make("construct in place", {true, kNew}, [](void* p) { return new (p) X(trajopt::in_place, Raw<T>(kNew)); });
        });
        if constexpr (std::is_copy_constructible_v<T>)
          add("construct in place from another", [](History& h, int) {
            T t = Pay<T>::make(kNew);
            h.Make("construct in place from another", {true, kNew}, [&](void* p) { return new (p) X(trajopt::in_place, t); });
            MC_CHECK(Pay<T>::get(t) == kNew, "the source of a copy changed");
          });
        add("construct in place from temporary", [](History& h, int) {
          T t = Pay<T>::make(kNew);
          bool made = false;
          h.Make("construct in place from temporary", {true, kNew}, [&](void* p) {
            auto* x = new (p) X(trajopt::in_place, std::move(t));
            made = true;
            return x;
          });
          if (made) MC_CHECK(Pay<T>::get(t) == (Pay<T>::forgets ? kMoved : kNew), "the source of a move was copied");
        });
        if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, Cell>)
          add("construct in place from list and argument", [](History& h, int) {
            bool lvalue = mc::choose(2, "copy/move") == 0;
            Cell c(5);
            bool made = false;
            h.Make("construct in place from list and argument", {true, 8}, [&](void* p) {
              X* x = lvalue ? new (p) X(trajopt::in_place, {1, 2}, c) : new (p) X(trajopt::in_place, {1, 2}, std::move(c));
              made = true;
              return x;
            });
            if (lvalue || made) MC_CHECK(c.m_v == (lvalue ? 5 : kMoved), "the argument was %s", lvalue ? "moved from" : "copied");
          });
        if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, int> && !std::is_same_v<T, std::string>)
          add("construct in place from list", [](History& h, int) {
            h.Make("construct in place from list", {true, 8}, [](void* p) { return new (p) X(trajopt::in_place, {1, 2}, 5); });
          });
        if constexpr (std::is_copy_constructible_v<T>)
          add("construct from value", [](History& h, int) {
            T t = Pay<T>::make(kNew);
            h.Make("construct from value", {true, kNew}, [&](void* p) { return new (p) X(t); });
            MC_CHECK(Pay<T>::get(t) == kNew, "the source of a copy changed");
          });
        add("construct from temporary value", [](History& h, int) {
          T t = Pay<T>::make(kNew);
          h.Make("construct from temporary value", {true, kNew}, [&](void* p) { return new (p) X(std::move(t)); });
        });
      }
      add("construct error in place", [](History& h, int) {
        h.Make("construct error in place", {false, kNew}, [](void* p) { return new (p) X(trajopt::unexpect, Pay<E>::make(kNew)); });
      });
      if constexpr (std::is_copy_constructible_v<E>)
        add("construct error in place from another", [](History& h, int) {
          E e = Pay<E>::make(kNew);
          h.Make("construct error in place from another", {false, kNew}, [&](void* p) { return new (p) X(trajopt::unexpect, e); });
          MC_CHECK(Pay<E>::get(e) == kNew, "the source of a copy changed");
        });
      add("construct error in place from temporary", [](History& h, int) {
        E e = Pay<E>::make(kNew);
        bool made = false;
        h.Make("construct error in place from temporary", {false, kNew}, [&](void* p) {
          auto* x = new (p) X(trajopt::unexpect, std::move(e));
          made = true;
          return x;
        });
        if (made) MC_CHECK(Pay<E>::get(e) == (Pay<E>::forgets ? kMoved : kNew), "the source of a move was copied");
      });
      if constexpr (std::is_constructible_v<E, std::initializer_list<int>&, Cell>)
        add("construct error from list and argument", [](History& h, int) {
          bool lvalue = mc::choose(2, "copy/move") == 0;
          Cell c(5);
          bool made = false;
          h.Make("construct error from list and argument", {false, 8}, [&](void* p) {
            X* x = lvalue ? new (p) X(trajopt::unexpect, {1, 2}, c) : new (p) X(trajopt::unexpect, {1, 2}, std::move(c));
            made = true;
            return x;
          });
          if (lvalue || made) MC_CHECK(c.m_v == (lvalue ? 5 : kMoved), "the argument was %s", lvalue ? "moved from" : "copied");
        });
      if constexpr (std::is_constructible_v<E, std::initializer_list<int>&, int> && !std::is_same_v<E, std::string>)
        add("construct error from list", [](History& h, int) {
          h.Make("construct error from list", {false, 8}, [](void* p) { return new (p) X(trajopt::unexpect, {1, 2}, 5); });
        });
      if constexpr (std::is_copy_constructible_v<E>)
        add("construct from unexpected", [](History& h, int) {
          const UX u{Pay<E>::make(kNew)};
          h.Make("construct from unexpected", {false, kNew}, [&](void* p) { return new (p) X(u); });
          MC_CHECK(Pay<E>::get(u.value()) == kNew, "the source of a copy changed");
        });
      add("construct from temporary unexpected", [](History& h, int) {
        UX u{Pay<E>::make(kNew)};
        h.Make("construct from temporary unexpected", {false, kNew}, [&](void* p) { return new (p) X(std::move(u)); });
      });
      add("construct from make_unexpected", [](History& h, int) {
        h.Make("construct from make_unexpected", {false, kNew},
               [&](void* p) { return new (p) X(trajopt::make_unexpected(Pay<E>::make(kNew))); });
      });
      if constexpr (kCopy)
        add("copy construct", [](History& h, int t) {
          const X& b = h.S(t);
          h.Make("copy construct", h.m[t], [&](void* p) { return new (p) X(b); });
        });
      add("move construct", [](History& h, int t) {
        M before = h.m[t];
        alignas(X) unsigned char room[sizeof(X)];
        X* c = nullptr;
        bool ok = h.Do("move construct", [&] { c = new (room) X(std::move(h.S(t))); });
        if (ok) {
          h.Expect(*c, before, "move construct");
          c->~X();
          h.m[t] = Moved(before);
        }
      });
      // -- conversion
      using CT = std::conditional_t<kVoid, void, Conv<Tv>>;
      using CE = Conv<E>;
      using CX = trajopt::expected<CT, CE>;
      if constexpr (!kVoid && std::is_constructible_v<X, const CX&>) {
        add("convert construct", [](History& h, int) {
          bool has = mc::choose(2, "value/error") == 0;
          CX from = has ? CX(trajopt::in_place, kNew) : CX(trajopt::unexpect, kNew);
          h.Make("convert construct", {has, kNew}, [&](void* p) { return new (p) X(static_cast<const CX&>(from)); });
          MC_CHECK(from.has_value() == has && (has ? from.value().m_v : from.error().m_v) == kNew, "the source of a conversion changed");
        });
        add("convert construct from temporary", [](History& h, int) {
          bool has = mc::choose(2, "value/error") == 0;
          CX from = has ? CX(trajopt::in_place, kNew) : CX(trajopt::unexpect, kNew);
          h.Make("convert construct from temporary", {has, kNew}, [&](void* p) { return new (p) X(std::move(from)); });
        });
        if constexpr (kMoveAssign)
          add("assign converted result", [](History& h, int t) {
            bool has = mc::choose(2, "value/error") == 0;
            CX from = has ? CX(trajopt::in_place, kNew) : CX(trajopt::unexpect, kNew);
            if (h.Do("assign converted result", [&] { h.S(t) = from; })) h.m[t] = {has, kNew};
          });
      }
      if constexpr (std::is_constructible_v<X, trajopt::unexpected<CE>>)
        add("construct from convertible unexpected", [](History& h, int) {
          trajopt::unexpected<CE> u{kNew};
          if (mc::choose(2, "copy/move") == 0) {
            const auto& cu = u;
            h.Make("construct from convertible unexpected", {false, kNew}, [&](void* p) { return new (p) X(cu); });
          } else {
            h.Make("construct from convertible temporary unexpected", {false, kNew}, [&](void* p) { return new (p) X(std::move(u)); });
          }
        });
      // -- assignment between results
      if constexpr (kCopyAssign) {
        add("copy assign", [](History& h, int t) {
          const X& b = h.S(1 - t);
          if (h.Do("copy assign", [&] { h.S(t) = b; })) h.m[t] = h.m[1 - t];
        });
        add("self copy assign", [](History& h, int t) {
          X& a = h.S(t);
          h.Do("self copy assign", [&] { a = static_cast<const X&>(h.S(t)); });
        });
        add("copy assign chain", [](History& h, int t) {
          X& r = h.S(t);
          X* got = nullptr;
          if (h.Do("copy assign chain", [&] { got = &(r = static_cast<const X&>(h.S(1 - t))); })) {
            MC_CHECK(got == &r, "assignment does not return its object");
            h.m[t] = h.m[1 - t];
          }
        });
      }
      if constexpr (kMoveAssign) {
        add("move assign", [](History& h, int t) {
          M src = h.m[1 - t];
          if (h.Do("move assign", [&] { h.S(t) = std::move(h.S(1 - t)); })) {
            h.m[t] = src;
            h.m[1 - t] = Moved(src);
          } else {
            h.SourceAfterFault(1 - t);
          }
        });
        add("self move assign", [](History& h, int t) {
          // (what a string holds after being moved to itself is unspecified)
          if constexpr (std::is_same_v<T, std::string>)
            if (h.m[t].has) return;
          if constexpr (std::is_same_v<E, std::string>)
            if (!h.m[t].has) return;
          X& a = h.S(t);
          h.Do("self move assign", [&] { a = std::move(h.S(t)); });
        });
      }
      // -- assignment of values and errors
      if constexpr (!kVoid) {
        if constexpr (std::is_copy_constructible_v<T> && std::is_assignable_v<X&, const T&>)
          add("assign value", [](History& h, int t) {
            T v = Pay<T>::make(kNew);
            if (h.Do("assign value", [&] { h.S(t) = static_cast<const T&>(v); })) h.m[t] = {true, kNew};
            MC_CHECK(Pay<T>::get(v) == kNew, "the source of a copy changed");
          });
        if constexpr (std::is_assignable_v<X&, T&&>)
          add("assign temporary value", [](History& h, int t) {
            T v = Pay<T>::make(kNew);
            if (h.Do("assign temporary value", [&] { h.S(t) = std::move(v); })) h.m[t] = {true, kNew};
          });
        if constexpr (!std::is_same_v<T, std::string> && std::is_assignable_v<X&, int>)
          add("assign convertible value", [](History& h, int t) {
            if (h.Do("assign convertible value", [&] { h.S(t) = kNew; })) h.m[t] = {true, kNew};
          });
      }
      if constexpr (std::is_copy_constructible_v<E>)
        add("assign unexpected", [](History& h, int t) {
          const UX u{Pay<E>::make(kNew)};
          if (h.Do("assign unexpected", [&] { h.S(t) = u; })) h.m[t] = {false, kNew};
          MC_CHECK(Pay<E>::get(u.value()) == kNew, "the source of a copy changed");
        });
      add("assign temporary unexpected", [](History& h, int t) {
        UX u{Pay<E>::make(kNew)};
        if (h.Do("assign temporary unexpected", [&] { h.S(t) = std::move(u); })) h.m[t] = {false, kNew};
      });
      // -- emplace
      if constexpr (!kVoid) {
        add("emplace", [](History& h, int t) {
          if constexpr (std::is_same_v<T, std::string>) {
            std::string s = Pay<T>::make(kNew);
            if (h.Do("emplace", [&] { h.S(t).emplace(s.c_str()); })) h.m[t] = {true, kNew};
          } else {
            if (h.Do("emplace", [&] { h.S(t).emplace(kNew); })) h.m[t] = {true, kNew};
          }
        });
        if constexpr (std::is_copy_constructible_v<T>)
          add("emplace copy", [](History& h, int t) {
            T v = Pay<T>::make(kNew);
            bool constant = mc::choose(2, "const") == 1;
            if (h.Do("emplace copy", [&] { constant ? h.S(t).emplace(static_cast<const T&>(v)) : h.S(t).emplace(v); })) h.m[t] = {true, kNew};
            MC_CHECK(Pay<T>::get(v) == kNew, "the source of a copy changed");
          });
        add("emplace move", [](History& h, int t) {
          T v = Pay<T>::make(kNew);
          if (h.Do("emplace move", [&] { h.S(t).emplace(std::move(v)); })) h.m[t] = {true, kNew};
        });
        if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, Cell>)
          add("emplace from list and argument", [](History& h, int t) {
            bool lvalue = mc::choose(2, "copy/move") == 0;
            Cell c(5);
            bool made = h.Do("emplace from list and argument", [&] { lvalue ? h.S(t).emplace({1, 2}, c) : h.S(t).emplace({1, 2}, std::move(c)); });
            if (made) h.m[t] = {true, 8};
            if (lvalue || made) MC_CHECK(c.m_v == (lvalue ? 5 : kMoved), "the argument was %s", lvalue ? "moved from" : "copied");
          });
        if constexpr (std::is_constructible_v<T, std::initializer_list<int>&, int> && !std::is_same_v<T, std::string>)
          add("emplace from list", [](History& h, int t) {
            if (h.Do("emplace from list", [&] { h.S(t).emplace({1, 2}, 5); })) h.m[t] = {true, 8};
          });
        // -- mutation through the accessors
        add("write through *", [](History& h, int t) {
          if (!h.m[t].has) return;
          Pay<T>::set(*h.S(t), kNew);
          h.m[t].v = kNew;
        });
        if constexpr (kValue) add("write through value()", [](History& h, int t) {
          if (!h.m[t].has) return;
          Pay<T>::set(h.S(t).value(), 2);
          h.m[t].v = 2;
        });
        add("write through ->", [](History& h, int t) {
          if (!h.m[t].has) return;
          Pay<T>::set(*h.S(t).operator->(), 1);
          h.m[t].v = 1;
        });
        add("move the value out", [](History& h, int t) {
          if (!h.m[t].has) return;
          M before = h.m[t];
          int how = kValue ? mc::choose(2, "*/value()") : 0;
          std::optional<T> got;
          if (h.Do("move the value out", [&] {
                if (how == 0) got.emplace(*std::move(h.S(t)));
                else if constexpr (kValue) got.emplace(std::move(h.S(t)).value());
              })) {
            MC_CHECK(Pay<T>::get(*got) == before.v, "the value moved out is not the value held");
            h.m[t] = Moved(before);
          }
        });
      }
      add("write through error()", [](History& h, int t) {
        if (h.m[t].has) return;
        Pay<E>::set(h.S(t).error(), kNew);
        h.m[t].v = kNew;
      });
      add("move the error out", [](History& h, int t) {
        if (h.m[t].has) return;
        M before = h.m[t];
        std::optional<E> got;
        if (h.Do("move the error out", [&] { got.emplace(std::move(h.S(t)).error()); })) {
          MC_CHECK(Pay<E>::get(*got) == before.v, "the error moved out is not the error held");
          h.m[t] = Moved(before);
        }
      });
      // -- swap
      if constexpr (requires(X& a, X& b) { a.swap(b); }) {
        add("swap", [](History& h, int t) {
          if (h.Do("swap", [&] { h.S(t).swap(h.S(1 - t)); })) std::swap(h.m[0], h.m[1]);
          else h.SwapAfterFault(0, 1);
        });
        add("self swap", [](History& h, int t) {
          if (!h.Do("self swap", [&] { h.S(t).swap(h.S(t)); })) h.SwapAfterFault(t, t);
        });
        if constexpr (kMoveAssign)
          add("free swap", [](History& h, int t) {
            using std::swap;
            if (h.Do("free swap", [&] { swap(h.S(t), h.S(1 - t)); })) std::swap(h.m[0], h.m[1]);
            else h.SwapAfterFault(0, 1);
          });
      }
      return o;
    }();
    return ops;
  }

  /// After a failed move, the source keeps its content or was moved from.
  void SourceAfterFault(int i) {
    M got = Look(S(i), "the source of a failed move");
    MC_CHECK(got == m[i] || got == Moved(m[i]), "the source of a failed move holds %s instead of %s", Text(got).c_str(), Text(m[i]).c_str());
    m[i] = got;
  }

  /// Errors are exchanged by std::swap: if it fails, each is one of the two, or
  /// was moved from. All else is rolled back.
  void SwapAfterFault(int a, int b) {
    if (m[a].has || m[b].has) return;
    M was[2] = {m[0], m[1]};
    for (int i : {a, b}) {
      M got = Look(S(i), "a failed swap");
      MC_CHECK(!got.has && (got == was[0] || got == was[1] || got.v == kMoved), "after a failed swap, an object holds %s", Text(got).c_str());
      m[i] = got;
    }
  }

  explicit History(const char* t) : types(t) {}

  void Run(int depth, int faults) {
    auto& w = W();
    w = World{};
    std::set_terminate(OnTerminate);
    try {
      for (int i = 0; i < 2; ++i) {
        int k = mc::choose(4, "initial content");
        int v = k % 2 + 1;
        m[i] = {k < 2, k < 2 && kVoid ? 0 : v};
        if (k < 2) {
          if constexpr (kVoid) new (raw[i]) X();
          else new (raw[i]) X(trajopt::in_place, Pay<T>::make(v));
        } else {
          new (raw[i]) X(trajopt::unexpect, Pay<E>::make(v));
        }
      }
      MC_LOG("%s: first holds %s, second %s", types, Text(m[0]).c_str(), Text(m[1]).c_str());
      Verify("construction");
      w.faultsLeft = faults;
      for (int d = 0; d < depth; ++d) {
        int t = mc::choose(2, nullptr);
        auto& ops = Ops();
        auto& op = ops[static_cast<size_t>(mc::choose(static_cast<int>(ops.size()), nullptr))];
        MC_LOG("  %s (object %d)", op.name, t);
        unsigned char before[2][sizeof(X)];
        memcpy(before, raw, sizeof raw);
        M was[2] = {m[0], m[1]};
        op.run(*this, t);
        Verify(op.name);
        // Nothing changed: what follows was or will be explored one step earlier.
        bool same = memcmp(before, raw, sizeof raw) == 0 && was[0] == m[0] && was[1] == m[1];
        if (same) d = depth;
        MC_LOG("    now %s | %s", Text(m[0]).c_str(), Text(m[1]).c_str());
        mc::state(mc::Hash().add(std::string(types)).add((uint64_t)m[0].has).add((uint64_t)m[0].v).add((uint64_t)m[1].has).add((uint64_t)m[1].v)
                      .add(std::string(op.name)).add((uint64_t)t));
      }
      for (int i = 0; i < 2; ++i) S(i).~X();
      Broken("destruction");
      MC_CHECK(w.live.empty(), "%s: %zu contained objects are never destroyed", types, w.live.size());
    } catch (const Abandon&) {
    }
  }
};

template <class T, class E>
void RunHistory(const char* types, int depth, int faults) {
  History<T, E> h(types);
  h.Run(depth, faults);
}

}  // namespace el
