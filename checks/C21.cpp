// C21: accessors and chaining functions of `expected` take the right branch, once.
#include "checks/expected_history.hpp"

using namespace el;
using trajopt::expected;
using trajopt::in_place;
using trajopt::unexpect;
using trajopt::unexpected;

namespace {

constexpr const char* kCat[] = {"&", "const&", "&&", "const&&"};

template <class A>
constexpr int CatOf = std::is_lvalue_reference_v<A> ? (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0)
                                                    : (std::is_const_v<std::remove_reference_t<A>> ? 3 : 2);

/// Calls fn with x in the given value category.
template <class X, class Fn>
void As(int cat, X& x, Fn fn) {
  if constexpr (std::is_copy_constructible_v<X>) {
    if (cat == 0) fn(x);
    if (cat == 1) fn(std::as_const(x));
    if (cat == 3) fn(std::move(std::as_const(x)));
  }
  if (cat == 2) fn(std::move(x));
}

/// What the user function was called with.
struct Seen {
  int calls = 0;
  int cat = -1;
  int v = 0;
  const void* at = nullptr;
  template <class X>
  void operator()(X&& x) {
    ++calls;
    cat = CatOf<X&&>;
    v = Pay<std::remove_cvref_t<X>>::get(x);
    at = &x;
  }
  void operator()() {
    ++calls;
    cat = -1;
    v = 0;
  }
};

struct UserError {};
using Thing = Elt<256>;             // result types of the user's functions
using Trouble = Elt<256 | kError>;

template <class T, class E>
struct Calls {
  using X = expected<T, E>;
  static constexpr bool kVoid = std::is_void_v<T>;
  static constexpr bool kCopy = std::is_copy_constructible_v<X>;
  const char* types;
  alignas(X) unsigned char raw[sizeof(X)];
  M m;
  int cat = 0;
  X& S() { return *std::launder(reinterpret_cast<X*>(raw)); }

  void Whole(const char* what) { MC_CHECK(W().broken.empty(), "%s %s: %s: %s", what, kCat[cat], types, W().broken.c_str()); }

  template <class Y>
  static M Content(const Y& y) {
    M k;
    k.has = y.has_value();
    if (k.has) {
      if constexpr (!std::is_void_v<typename Y::value_type>) k.v = Pay<typename Y::value_type>::get(*y);
    } else if constexpr (!std::is_same_v<typename Y::error_type, trajopt::monostate>) {
      k.v = Pay<typename Y::error_type>::get(y.error());
    }
    return k;
  }
  static std::string Text(M k) { return mc::fmt("%s %d", k.has ? "value" : "error", k.v); }

  template <class Y>
  void Result(const char* what, const Y& y, M want) {
    M got = Content(y);
    MC_CHECK(got == want, "%s %s: %s of %s gives %s instead of %s", what, kCat[cat], types, Text(m).c_str(), Text(got).c_str(), Text(want).c_str());
  }

  /// The user's function must have been called as said, and the source is as
  /// it was, except that content passed along from a temporary is moved out.
  void After(const char* what, const Seen& s, bool called, bool withArgument, bool passed) {
    Whole(what);
    MC_CHECK(s.calls == (called ? 1 : 0), "%s %s: %s of %s: the function is called %d times", what, kCat[cat], types, Text(m).c_str(), s.calls);
    if (called && withArgument) {
      MC_CHECK(s.v == m.v, "%s %s: %s of %s: the function gets %d", what, kCat[cat], types, Text(m).c_str(), s.v);
      MC_CHECK(s.cat == cat, "%s %s: %s of %s: the function gets its argument as %s", what, kCat[cat], types, Text(m).c_str(), kCat[s.cat]);
      auto* b = reinterpret_cast<const unsigned char*>(s.at);
      MC_CHECK(b >= raw && b < raw + sizeof raw, "%s %s: %s: the function does not get the content itself", what, kCat[cat], types);
    }
    bool forgets = m.has ? PayV<T>::forgets : Pay<E>::forgets;
    M want = m;
    if (passed && cat == 2 && forgets) want.v = kMoved;
    M got = Content(std::as_const(S()));
    MC_CHECK(got == want, "%s %s: %s of %s: the source holds %s afterwards", what, kCat[cat], types, Text(m).c_str(), Text(got).c_str());
    MC_CHECK(W().live.size() == (m.has ? kTracked<T> : kTracked<E>), "%s %s: %s: %zu objects are alive", what, kCat[cat], types, W().live.size());
    m = want;
  }

  /// Runs one chaining call whose function is called iff called.
  template <class Fn>
  void Each(Fn fn) {
    As(cat, S(), fn);
  }

  static M Passed(M k) { return k; }

  // f: the user's function, taking (Seen&, argument...)
  template <class Combine, class F>
  void Chain(const char* what, bool called, M want, bool withArgument, Combine combine, F f, bool passedAnyway = false) {
    Seen s;
    mc::op();
    Each([&]<class Y>(Y&& x) {
      auto user = [&]<class... A>(A&&... a) -> decltype(auto) {
        s(std::forward<A>(a)...);
        return f(std::forward<A>(a)...);
      };
      auto r = combine(std::forward<Y>(x), user);
      Result(what, r, want);
    });
    After(what, s, called, withArgument, !called || passedAnyway);
    mc::count(what);
  }
  template <class Combine>
  void Throwing(const char* what, bool called, bool withArgument, Combine combine) {
    Seen s;
    bool caught = false;
    mc::op();
    Each([&]<class Y>(Y&& x) {
      auto user = [&]<class... A>(A&&... a) {
        s(std::forward<A>(a)...);
        throw UserError{};
        return X(unexpect, Pay<E>::make(9));
      };
      try {
        auto r = combine(std::forward<Y>(x), user);
        MC_CHECK(!called, "%s %s: %s: the function's exception is lost", what, kCat[cat], types);
        (void)r;
      } catch (const UserError&) {
        caught = true;
      }
    });
    MC_CHECK(caught == called, "%s %s: %s: the function's exception", what, kCat[cat], types);
    After(what, s, called, withArgument, !called);
  }

  void Step() {
    const bool has = m.has;
    const bool arg = !kVoid;
    // Every combinator on every result of the user's function.
    static constexpr int kKinds = 29;
    int kind = mc::choose(kKinds, nullptr);
    MC_LOG("  call %d, %s, on %s", kind, kCat[cat], Text(m).c_str());
    auto pass = [&](M onCall) { return onCall; };
    (void)pass;
    M e40{true, 40 + m.v}, nothing{true, 0}, err{false, 40 + m.v};
    auto on = [&](bool called, M r) { return called ? r : m; };
    auto num = [](auto&&... a) { return (40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a)); };
    auto thing = [](auto&&... a) { return Thing((40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a))); };
    auto trouble = [](auto&&... a) { return Trouble((40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a))); };
    auto none = [](auto&&...) {};
    static int cell = 0;
    auto ref = [](auto&&... a) -> int& { return cell = (40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a)); };
    auto okInt = [](auto&&... a) { return expected<int, E>((40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a))); };
    auto badInt = [](auto&&... a) {
      return expected<int, E>(unexpect, Pay<E>::make((40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a))));
    };
    auto okVoid = [](auto&&...) { return expected<void, E>(); };
    auto badVoid = [](auto&&... a) {
      return expected<void, E>(unexpect, Pay<E>::make((40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a))));
    };
    auto okThing = [](auto&&... a) { return expected<Thing, E>(in_place, (40 + ... + Pay<std::remove_cvref_t<decltype(a)>>::get(a))); };
    auto recover = [](auto&& a) {
      int v = 40 + Pay<std::remove_cvref_t<decltype(a)>>::get(a);
      if constexpr (kVoid) {
        (void)v;
        return X();
      } else {
        return X(in_place, Pay<T>::make(v));
      }
    };
    auto refuse = [](auto&& a) { return X(unexpect, Pay<E>::make(40 + Pay<std::remove_cvref_t<decltype(a)>>::get(a))); };
#define COMBINE(fn) [](auto&& x, auto& f) { return std::forward<decltype(x)>(x).fn(f); }
#define COMBINE_MOVE(fn) [](auto&& x, auto& f) { return std::forward<decltype(x)>(x).fn(std::move(f)); }
    M recovered = kVoid ? nothing : e40;
    M errOnly = has ? m : M{false, 0};
    switch (kind) {
      case 0: Chain("map", has, on(has, e40), arg, COMBINE(map), num); break;
      case 1: Chain("map", has, on(has, e40), arg, COMBINE_MOVE(map), thing); break;
      case 2: Chain("map", has, on(has, nothing), arg, COMBINE(map), none); break;
      case 3: Chain("map", has, on(has, e40), arg, COMBINE(map), ref); break;
      case 4: Chain("transform", has, on(has, e40), arg, COMBINE(transform), num); break;
      case 5: Chain("transform", has, on(has, e40), arg, COMBINE_MOVE(transform), thing); break;
      case 6: Chain("transform", has, on(has, nothing), arg, COMBINE(transform), none); break;
      case 7: Chain("transform", has, on(has, e40), arg, COMBINE(transform), ref); break;
      case 8: Chain("and_then", has, on(has, e40), arg, COMBINE(and_then), okInt); break;
      case 9: Chain("and_then", has, on(has, err), arg, COMBINE_MOVE(and_then), badInt); break;
      case 10: Chain("and_then", has, on(has, nothing), arg, COMBINE(and_then), okVoid); break;
      case 11: Chain("and_then", has, on(has, err), arg, COMBINE(and_then), badVoid); break;
      case 12: Chain("and_then", has, on(has, e40), arg, COMBINE(and_then), okThing); break;
      case 13: Chain("map_error", !has, on(!has, err), true, COMBINE(map_error), num); break;
      case 14: Chain("map_error", !has, on(!has, err), true, COMBINE_MOVE(map_error), trouble); break;
      case 15: Chain("map_error", !has, errOnly, true, COMBINE(map_error), none); break;
      case 16: Chain("map_error", !has, on(!has, err), true, COMBINE(map_error), ref); break;
      case 17: Chain("transform_error", !has, on(!has, err), true, COMBINE(transform_error), num); break;
      case 18: Chain("transform_error", !has, on(!has, err), true, COMBINE_MOVE(transform_error), trouble); break;
      case 19: Chain("transform_error", !has, errOnly, true, COMBINE(transform_error), none); break;
      case 20: Chain("or_else", !has, on(!has, recovered), true, COMBINE(or_else), recover); break;
      case 21: Chain("or_else", !has, on(!has, err), true, COMBINE_MOVE(or_else), refuse); break;
      case 22: Chain("or_else", !has, m, true, COMBINE(or_else), none, true); break;
      case 23: Throwing("map", has, arg, COMBINE(map)); break;
      case 24: Throwing("and_then", has, arg, COMBINE(and_then)); break;
      case 25: Throwing("map_error", !has, true, COMBINE(map_error)); break;
      case 26: Throwing("or_else", !has, true, COMBINE(or_else)); break;
      case 27: Fallback(); break;
      case 28: Access(); break;
    }
  }

  void Fallback() {
    if constexpr (!kVoid) {
      int how = mc::choose(3, "fallback");
      mc::op();
      M want = m.has ? m : M{true, 7};
      std::optional<T> got;
      T fb = Pay<T>::make(7);
      auto call = [&]<class Y>(Y&& x) {
        if constexpr (std::is_copy_constructible_v<T>)
          if (how == 0) got.emplace(std::forward<Y>(x).value_or(static_cast<const T&>(fb)));
        if (how == 1) got.emplace(std::forward<Y>(x).value_or(std::move(fb)));
        if constexpr (std::is_convertible_v<int, T>)
          if (how == 2) got.emplace(std::forward<Y>(x).value_or(7));
      };
      Each(call);
      if (got) {
        MC_CHECK(Pay<T>::get(*got) == want.v, "value_or %s: %s of %s gives %d", kCat[cat], types, Text(m).c_str(), Pay<T>::get(*got));
        bool used = !m.has && how == 1 && Pay<T>::forgets;
        MC_CHECK(Pay<T>::get(fb) == (used ? kMoved : 7), "value_or %s: %s of %s: the fallback became %d", kCat[cat], types, Text(m).c_str(),
                 Pay<T>::get(fb));
        M was = m;
        if (cat == 2 && m.has && Pay<T>::forgets) m.v = kMoved;
        M now = Content(std::as_const(S()));
        MC_CHECK(now == m, "value_or %s: %s of %s: the source holds %s afterwards", kCat[cat], types, Text(was).c_str(), Text(now).c_str());
        mc::count("value_or");
      }
      Whole("value_or");
    }
  }

  void Access() {
    mc::op();
    mc::count("access");
    auto here = [&](auto& r) {
      auto* b = reinterpret_cast<const unsigned char*>(&r);
      return b >= raw && b < raw + sizeof raw;
    };
    if (m.has) {
      if constexpr (!kVoid) {
        Each([&]<class Y>(Y&& x) {
          auto&& a = *std::forward<Y>(x);
          MC_CHECK(CatOf<decltype(*std::forward<Y>(x))> == cat, "* %s gives its value as %s", kCat[cat], kCat[CatOf<decltype(*std::forward<Y>(x))>]);
          MC_CHECK(here(a) && Pay<T>::get(a) == m.v, "* %s: %s does not refer to the value", kCat[cat], types);
          if constexpr (std::is_copy_constructible_v<E>) {
            auto&& b = std::forward<Y>(x).value();
            MC_CHECK(CatOf<decltype(std::forward<Y>(x).value())> == cat, "value() %s gives its value as %s", kCat[cat],
                     kCat[CatOf<decltype(std::forward<Y>(x).value())>]);
            MC_CHECK(&a == &b, "value() %s: %s does not refer to the value", kCat[cat], types);
          }
          auto* c = x.operator->();
          MC_CHECK(c == &a, "-> %s: %s does not refer to the value", kCat[cat], types);
        });
      }
      MC_CHECK(Content(std::as_const(S())) == m, "an accessor %s changed the content", kCat[cat]);
    } else {
      Each([&]<class Y>(Y&& x) {
        auto&& a = std::forward<Y>(x).error();
        MC_CHECK(CatOf<decltype(std::forward<Y>(x).error())> == cat, "error() %s gives its error as %s", kCat[cat],
                 kCat[CatOf<decltype(std::forward<Y>(x).error())>]);
        MC_CHECK(here(a) && Pay<E>::get(a) == m.v, "error() %s: %s does not refer to the error", kCat[cat], types);
      });
      MC_CHECK(Content(std::as_const(S())) == m, "an accessor %s changed the content", kCat[cat]);
      if constexpr (!kVoid && std::is_copy_constructible_v<E>) {
        bool caught = false;
        Each([&]<class Y>(Y&& x) {
          try {
            auto&& v = std::forward<Y>(x).value();
            (void)v;
          } catch (trajopt::bad_expected_access<E>& ex) {
            caught = true;
            MC_CHECK(Pay<E>::get(ex.error()) == m.v && Pay<E>::get(std::as_const(ex).error()) == m.v,
                     "value() %s: %s of %s: the exception carries %d", kCat[cat], types, Text(m).c_str(), Pay<E>::get(ex.error()));
            MC_CHECK(ex.what() != nullptr && *ex.what() != 0, "the exception says nothing");
            E taken = std::move(ex).error();
            MC_CHECK(Pay<E>::get(taken) == m.v, "value() %s: the exception's error cannot be moved out", kCat[cat]);
          }
        });
        MC_CHECK(caught, "value() %s: %s of %s does not throw", kCat[cat], types, Text(m).c_str());
        // (std::expected and this header move the error out of a temporary)
        M now = Content(std::as_const(S()));
        M moved = m;
        moved.v = kMoved;
        MC_CHECK(now == m || (cat == 2 && now == moved), "value() %s: %s of %s: holds %s afterwards", kCat[cat], types, Text(m).c_str(), Text(now).c_str());
        m = now;
      }
    }
    Whole("access");
  }

  void Run(int depth) {
    W() = World{};
    int k = mc::choose(4, "initial content");
    int v = k % 2 + 1;
    m = {k < 2, k < 2 && kVoid ? 0 : v};
    if (k < 2) {
      if constexpr (kVoid) new (raw) X();
      else new (raw) X(in_place, Pay<T>::make(v));
    } else {
      new (raw) X(unexpect, Pay<E>::make(v));
    }
    for (int d = 0; d < depth; ++d) {
      cat = kCopy ? mc::choose(4, nullptr) : 2;
      M before = m;
      Step();
      mc::state(mc::Hash().add(std::string(types)).add((uint64_t)m.has).add((uint64_t)m.v).add((uint64_t)cat));
      if (d > 0 || m == before) {
        if (m == before) break;
      }
    }
    S().~X();
    Whole("destruction");
    MC_CHECK(W().live.empty(), "%s: objects leak", types);
  }
};

/// Chains of up to `depth` calls, each on the temporary result of the one before.
using CX = expected<Elt<0>, Elt<kError>>;
void Compose() {
  W() = World{};
  {
    int k = mc::choose(2, "initial content");
    M m{k == 0, 1};
    CX x = k == 0 ? CX(in_place, 1) : CX(unexpect, 1);
    int depth = mc::thorough() ? 7 : 5;
    for (int d = 0; d < depth; ++d) {
      int op = mc::choose(8, nullptr);
      int calls = 0;
      bool expectCall = op < 4 ? m.has : !m.has;
      M want = m;
      CX y(in_place, 0);
      auto inc = [&](auto&& a) { return ++calls, Elt<0>(a.v() + 1); };
      auto incE = [&](auto&& a) { return ++calls, Elt<kError>(a.v() + 1); };
      auto ok = [&](auto&& a) { return ++calls, CX(in_place, a.v() + 2); };
      auto bad = [&](auto&& a) { return ++calls, CX(unexpect, a.v() + 3); };
      switch (op) {
        case 0: y = std::move(x).map(inc); break;
        case 1: y = x.transform(inc); break;
        case 2: y = std::move(x).and_then(ok); break;
        case 3: y = std::as_const(x).and_then(bad); break;
        case 4: y = std::move(x).map_error(incE); break;
        case 5: y = x.transform_error(incE); break;
        case 6: y = std::move(x).or_else(ok); break;
        case 7: y = std::as_const(x).or_else(bad); break;
      }
      if (expectCall) {
        static const int delta[] = {1, 1, 2, 3, 1, 1, 2, 3};
        want.v += delta[op];
        if (op == 3) want.has = false;
        if (op == 6) want.has = true;
      }
      MC_LOG("  call %d", op);
      mc::op();
      MC_CHECK(calls == (expectCall ? 1 : 0), "step %d calls its function %d times", op, calls);
      MC_CHECK(y.has_value() == want.has && (want.has ? (*y).v() : y.error().v()) == want.v, "step %d gives a wrong result", op);
      m = want;
      x = std::move(y);
      mc::state(mc::Hash().add((uint64_t)m.has).add((uint64_t)m.v));
    }
  }
  MC_CHECK(W().broken.empty(), "chain: %s", W().broken.c_str());
  MC_CHECK(W().live.empty(), "chain: objects leak");
}

/// A function object that can be called in any way; calls of a copy do not count.
struct Fn {
  int calls = 0;
  mutable const void* at = nullptr;
  mutable int cat = -1;
  mutable int state = 0;
  Fn() = default;
  Fn(const Fn&) {}
  int kind;  // 0: number, 1: result, 2: failure
  template <class A>
  auto Call(int c, A&& a) const {
    ++state;
    at = this;
    cat = c;
    return Pay<std::remove_cvref_t<A>>::get(a) + 10;
  }
};
template <int Kind>
struct FnOf : Fn {
  static auto Out(int v) {
    if constexpr (Kind == 0) return Elt<256>(v);
    else if constexpr (Kind == 1) return expected<Elt<0>, Elt<kError>>(in_place, v);
    else return expected<Elt<0>, Elt<kError>>(unexpect, v);
  }
  template <class A> auto operator()(A&& a) & { return Out(Call(0, a)); }
  template <class A> auto operator()(A&& a) const& { return Out(Call(1, a)); }
  template <class A> auto operator()(A&& a) && { return Out(Call(2, a)); }
  template <class A> auto operator()(A&& a) const&& { return Out(Call(3, a)); }
};

/// The function called is the one supplied, not a copy of it; one that the
/// caller keeps is not called as if it were a temporary.
void Callables() {
  W() = World{};
  {
    bool has = mc::choose(2, "value/error") == 0;
    int cat = mc::choose(4, "category of the result"), fcat = mc::choose(4, "category of the function"), fn = mc::choose(6, "combinator");
    expected<Elt<0>, Elt<kError>> x = has ? expected<Elt<0>, Elt<kError>>(in_place, 1) : expected<Elt<0>, Elt<kError>>(unexpect, 2);
    MC_LOG("%s, result as %s, combinator %d, function as %s", has ? "value" : "error", kCat[cat], fn, kCat[fcat]);
    mc::state(mc::Hash().add((uint64_t)has).add((uint64_t)cat).add((uint64_t)fcat).add((uint64_t)fn));
    auto run = [&]<class F>(F& f, auto combine) {
      As(cat, x, [&]<class Y>(Y&& y) {
        auto go = [&]<class G>(G&& g) { (void)combine(std::forward<Y>(y), std::forward<G>(g)); };
        if (fcat == 0) go(f);
        if (fcat == 1) go(std::as_const(f));
        if (fcat == 2) go(std::move(f));
        if (fcat == 3) go(std::move(std::as_const(f)));
      });
      mc::op();
      bool onValue = fn < 3, called = onValue == has;
      MC_CHECK(f.state == (called ? 1 : 0), "combinator %d: the function supplied is called %d times", fn, f.state);
      if (called) {
        MC_CHECK(f.at == &f, "combinator %d: another function is called", fn);
        MC_CHECK(f.cat == fcat || (fcat >= 2 && f.cat == fcat - 2), "combinator %d: a function given as %s is called as %s", fn, kCat[fcat], kCat[f.cat]);
      }
    };
#define CALL(name) [](auto&& y, auto&& g) { return std::forward<decltype(y)>(y).name(std::forward<decltype(g)>(g)); }
    FnOf<0> num;
    FnOf<1> ok;
    FnOf<2> bad;
    switch (fn) {
      case 0: run(num, CALL(map)); break;
      case 1: run(num, CALL(transform)); break;
      case 2: run(bad, CALL(and_then)); break;
      case 3: run(num, CALL(map_error)); break;
      case 4: run(num, CALL(transform_error)); break;
      default: run(ok, CALL(or_else)); break;
    }
  }
  MC_CHECK(W().broken.empty() && W().live.empty(), "callables: %s", W().broken.c_str());
}

/// Members of the content as functions.
struct Member {
  int m = 4;
  int Twice() { return 2 * m; }
  int TwiceConst() const { return 2 * m; }
  expected<int, Member> Next() const { return expected<int, Member>(in_place, m + 1); }
  expected<Member, int> Recover() const { return expected<Member, int>(in_place, Member{m + 1}); }
};
void Members() {
  int v = mc::choose(5, "number");
  bool has = mc::choose(2, "value/error") == 0;
  mc::op();
  mc::state(mc::Hash().add((uint64_t)v).add((uint64_t)has));
  expected<Member, Member> x = has ? expected<Member, Member>(in_place, Member{v}) : expected<Member, Member>(unexpect, Member{v});
  expected<int, Member> n = has ? expected<int, Member>(in_place, v) : expected<int, Member>(unexpect, Member{v});
  auto judge = [&](const auto& r, int want, bool called, const char* what) {
    bool isValue = r.has_value();
    MC_CHECK(isValue == has, "%s of a %s", what, has ? "value" : "error");
    int got;
    if (isValue) {
      if constexpr (std::is_same_v<typename std::remove_cvref_t<decltype(r)>::value_type, int>) got = *r;
      else got = r->m;
    } else {
      if constexpr (std::is_same_v<typename std::remove_cvref_t<decltype(r)>::error_type, int>) got = r.error();
      else got = r.error().m;
    }
    MC_CHECK(got == (called ? want : v), "%s of a %s %d gives %d", what, has ? "value" : "error", v, got);
  };
  judge(x.map(&Member::m), v, has, "map of a data member");
  judge(x.map(&Member::Twice), 2 * v, has, "map of a member function");
  judge(std::as_const(x).map(&Member::TwiceConst), 2 * v, has, "map of a const member function");
  judge(std::as_const(x).transform(&Member::m), v, has, "transform of a data member");
  judge(x.transform(&Member::Twice), 2 * v, has, "transform of a member function");
  judge(x.and_then(&Member::Next), v + 1, has, "and_then of a member function");
  judge(x.map_error(&Member::m), v, !has, "map_error of a data member");
  judge(x.map_error(&Member::Twice), 2 * v, !has, "map_error of a member function");
  judge(std::as_const(x).transform_error(&Member::TwiceConst), 2 * v, !has, "transform_error of a member function");
  MC_CHECK((has ? x->m : x.error().m) == v && x.has_value() == has, "the source has changed");
  (void)n;
}

/// `unexpected`: wraps, compares and orders like its content.
void Unexpected() {
  W() = World{};
  int a = mc::choose(4, "a"), b = mc::choose(4, "b");
  unexpected<int> x(a), y(b);
  mc::op();
  MC_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b),
           "unexpected %d and %d compare wrongly", a, b);
  auto z = trajopt::make_unexpected(b);
  MC_CHECK(z.value() == b && std::as_const(z).value() == b && std::move(z).value() == b && std::move(std::as_const(z)).value() == b,
           "make_unexpected(%d) holds something else", b);
  static_assert(std::is_same_v<decltype(std::declval<unexpected<int>&>().value()), int&>);
  static_assert(std::is_same_v<decltype(std::declval<const unexpected<int>&>().value()), const int&>);
  static_assert(std::is_same_v<decltype(std::declval<unexpected<int>&&>().value()), int&&>);
  static_assert(std::is_same_v<decltype(std::declval<const unexpected<int>&&>().value()), const int&&>);
  unexpected<std::string> s("abc");
  unexpected<std::string> l({'a', 'b', 'c'});
  MC_CHECK(s == l && s.value() == "abc", "unexpected string");
  trajopt::bad_expected_access<int> e(a);
  MC_CHECK(e.error() == a && std::as_const(e).error() == a && std::move(e).error() == a && std::move(std::as_const(e)).error() == a, "bad_expected_access(%d)", a);
  mc::state(mc::Hash().add((uint64_t)a).add((uint64_t)b));
}

template <class T, class E>
void Go(const char* types) {
  Calls<T, E> c;
  c.types = types;
  c.Run(2);
}

}  // namespace

using E0 = Elt<kError>;
#ifdef PART1
std::vector<mc::Model> Part1() {
  return {{"int/tracked", [] { Go<int, E0>("expected<int, tracked>"); }, 3}, {"tracked/int", [] { Go<Elt<0>, int>("expected<tracked, int>"); }, 3}};
}
#elif defined(PART2)
std::vector<mc::Model> Part2() {
  return {{"void/tracked", [] { Go<void, E0>("expected<void, tracked>"); }, 3}, {"void/int", [] { Go<void, int>("expected<void, int>"); }, 3}};
}
#elif defined(PART3)
std::vector<mc::Model> Part3() {
  return {{"string/string", [] { Go<std::string, std::string>("expected<string, string>"); }, 3},
          {"move-only/move-only", [] { Go<Elt<kMoveOnly>, Elt<kMoveOnly | kError>>("expected<move only, move only>"); }, 3}};
}
#else
std::vector<mc::Model> Part1();
std::vector<mc::Model> Part2();
std::vector<mc::Model> Part3();
int main(int argc, char** argv) {
  std::vector<mc::Model> all = {{"tracked/tracked", [] { Go<Elt<0>, E0>("expected<tracked, tracked>"); }, 3},
                                {"compose", Compose, 3},
                                {"callables", Callables, 2},
                                {"members", Members, 1},
                                {"unexpected", Unexpected, 1}};
  for (auto part : {Part1(), Part2(), Part3()}) all.insert(all.end(), part.begin(), part.end());
  return mc::Main(argc, argv, all);
}
#endif
