// C22: the foreign-function interface is equivalent to the C++ interface.
#include "checks/ffi_compare.hpp"

extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept {
  t->tv_sec = ffi::g_now / 1'000'000'000;
  t->tv_nsec = ffi::g_now % 1'000'000'000;
  return 0;
}

int main(int argc, char** argv) {
  using N = ffi::Native;
  return mc::Main(argc, argv, {{"single calls", ffi::Singles<N>, 4}, {"lists", ffi::Lists<N>, 3}, {"special", ffi::Special<N>, 3}, {"histories", ffi::Histories<N>, 3}, {"long histories", ffi::Long<N>, 3},
                               {"outcomes", ffi::Outcomes<N>, 3}});
}
