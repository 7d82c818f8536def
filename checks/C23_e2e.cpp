// C23: the Rust interface, all the way down to the problem given to the solver.
#include "checks/ffi_compare.hpp"
#include "checks/rust_side.hpp"

extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  t->tv_sec = ffi::g_now / 1'000'000'000;
  t->tv_nsec = ffi::g_now % 1'000'000'000;
  return 0;
}

int main(int argc, char** argv) {
  using R = ffi::Rust;
  return mc::Main(argc, argv, {{"from Rust to the problem: single calls", ffi::Singles<R>, 4}, {"from Rust to the problem: lists", ffi::Lists<R>, 3}, {"from Rust to the problem: special", ffi::Special<R>, 3}, {"from Rust to the problem: long histories", ffi::Long<R>, 3},
                               {"from Rust to the problem: outcomes", ffi::Outcomes<R>, 3}});
}
