// The Rust interface, through checks/rust_shim.rs.
#pragma once

#include "checks/ffi_ops.hpp"

extern "C" {
void rs_set_report(void (*)(int, int64_t, const double*, size_t));
void* rs_new(int byDefault);
void rs_drop(void*);
void rs_cancel();
void rs_call(void* b, int op, size_t i, size_t j, const double* x, size_t xn, const double* y, size_t yn, const size_t* n, size_t nn);
void rs_generate(void* b, int diagnostics, int64_t handle, void (*out)(int, const unsigned char*, size_t));
}

namespace ffi {

struct Rust {
  static const char* Who() { return "the Rust interface"; }
  void* b;
  explicit Rust(int byDefault = 0) : b{(rs_set_report(&Report), rs_new(byDefault))} {}
  ~Rust() { rs_drop(b); }
  Rust(const Rust&) = delete;
  static void Report(int which, int64_t handle, const double* p, size_t n) { Events().push_back({which, handle, {p, p + n}, ""}); }
  static void Result(int ok, const unsigned char* p, size_t n) {
    Event e{-1, 0, {}, ""};
    if (ok) {
      auto* d = reinterpret_cast<const double*>(p);
      e.v.assign(d, d + n);
    } else {
      e.error.assign(reinterpret_cast<const char*>(p), n);
    }
    Events().push_back(e);
  }
  void Do(const Call& c) {
    rs_call(b, c.op, c.i, c.j, c.x.data(), c.x.size(), c.y.data(), c.y.size(), c.n.data(), c.n.size());
  }
  void Generate(bool diagnostics, int64_t handle) { rs_generate(b, diagnostics, handle, &Result); }
  static void Cancel() { rs_cancel(); }
};

}  // namespace ffi
