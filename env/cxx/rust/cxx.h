// Stand-in for the C++ side of the cxx crate: the part of rust/cxx.h a bridge
// with vectors, strings and function pointers needs, with its interface.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace rust {
inline namespace cxxbridge1 {

template <typename T>
class Vec {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  Vec() noexcept = default;
  Vec(std::initializer_list<T> init) : m(init) {}
  Vec(const Vec&) = default;
  Vec(Vec&&) noexcept = default;
  Vec& operator=(Vec&&) & noexcept = default;
  Vec& operator=(const Vec&) & = default;
  std::size_t size() const noexcept { return m.size(); }
  bool empty() const noexcept { return m.empty(); }
  const T* data() const noexcept { return m.data(); }
  T* data() noexcept { return m.data(); }
  std::size_t capacity() const noexcept { return m.capacity(); }
  const T& operator[](std::size_t n) const noexcept { return m[n]; }
  const T& at(std::size_t n) const { return m.at(n); }
  const T& front() const noexcept { return m.front(); }
  const T& back() const noexcept { return m.back(); }
  T& operator[](std::size_t n) noexcept { return m[n]; }
  T& at(std::size_t n) { return m.at(n); }
  T& front() noexcept { return m.front(); }
  T& back() noexcept { return m.back(); }
  void reserve(std::size_t cap) { m.reserve(cap); }
  void push_back(const T& v) { m.push_back(v); }
  void push_back(T&& v) { m.push_back(std::move(v)); }
  template <typename... Args>
  void emplace_back(Args&&... args) {
    m.push_back(T{std::forward<Args>(args)...});
  }
  void truncate(std::size_t n) {
    if (n < m.size()) m.erase(m.begin() + static_cast<std::ptrdiff_t>(n), m.end());
  }
  void clear() { m.clear(); }
  iterator begin() noexcept { return m.data(); }
  iterator end() noexcept { return m.data() + m.size(); }
  const_iterator begin() const noexcept { return m.data(); }
  const_iterator end() const noexcept { return m.data() + m.size(); }
  const_iterator cbegin() const noexcept { return begin(); }
  const_iterator cend() const noexcept { return end(); }
  void swap(Vec& o) noexcept { m.swap(o.m); }

 private:
  std::vector<T> m;
};

class Str;
class String {
 public:
  String() noexcept = default;
  String(const std::string& s) : m{s} {}
  String(const char* s) : m{s} {}
  String(const char* s, std::size_t n) : m{s, n} {}
  explicit operator std::string() const { return m; }
  const char* data() const noexcept { return m.data(); }
  std::size_t size() const noexcept { return m.size(); }
  std::size_t length() const noexcept { return m.size(); }
  bool empty() const noexcept { return m.empty(); }
  const char* c_str() { return m.c_str(); }
  bool operator==(const String&) const = default;

 private:
  std::string m;
};

template <typename Signature>
class Fn;
template <typename Ret, typename... Args>
class Fn<Ret(Args...)> {
 public:
  Ret operator()(Args... args) const noexcept { return (*trampoline)(std::move(args)..., fn); }
  Fn operator*() const noexcept { return *this; }

  // (how the bridge makes one)
  static Fn EnvMake(Ret (*trampoline)(Args..., void*), void* fn) {
    Fn f;
    f.trampoline = trampoline;
    f.fn = fn;
    return f;
  }

 private:
  Ret (*trampoline)(Args..., void*) = nullptr;
  void* fn = nullptr;
};

template <typename T>
using vec = Vec<T>;
using string = String;
template <typename S>
using fn = Fn<S>;

// Bytes across the bridge ----------------------------------------------------
namespace env {
struct Writer {
  std::vector<unsigned char> b;
  void raw(const void* p, std::size_t n) {
    auto* c = static_cast<const unsigned char*>(p);
    b.insert(b.end(), c, c + n);
  }
};
struct Reader {
  const unsigned char* p;
  void raw(void* q, std::size_t n) {
    if (n > 0) std::memcpy(q, p, n);
    p += n;
  }
};
template <typename T>
  requires std::is_arithmetic_v<T>
void Put(Writer& w, const T& v) {
  w.raw(&v, sizeof v);
}
template <typename T>
  requires std::is_arithmetic_v<T>
void Get(Reader& r, T& v) {
  r.raw(&v, sizeof v);
}
template <typename T>
  requires std::is_pointer_v<T>
void Put(Writer& w, const T& v) {
  w.raw(&v, sizeof v);
}
template <typename T>
  requires std::is_pointer_v<T>
void Get(Reader& r, T& v) {
  r.raw(&v, sizeof v);
}
inline void Put(Writer& w, const String& v) {
  Put(w, static_cast<std::uint64_t>(v.size()));
  w.raw(v.data(), v.size());
}
inline void Get(Reader& r, String& v) {
  std::uint64_t n;
  Get(r, n);
  v = String{reinterpret_cast<const char*>(r.p), n};
  r.p += n;
}
template <typename T>
void Put(Writer& w, const Vec<T>& v);
template <typename T>
void Get(Reader& r, Vec<T>& v);
}  // namespace env

}  // namespace cxxbridge1
}  // namespace rust
