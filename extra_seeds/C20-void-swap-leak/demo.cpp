#include <cstdio>
#include "trajopt/util/expected"
static int live = 0;
struct Counted {
  Counted() { ++live; }
  Counted(const Counted&) { ++live; }
  Counted(Counted&&) noexcept { ++live; }
  Counted& operator=(const Counted&) = default;
  ~Counted() { --live; }
};
int main() {
  {
    trajopt::expected<void, Counted> a, b = trajopt::unexpected<Counted>(Counted{});
    a.swap(b);
    b.swap(a);
  }
  if (live != 0) std::puts("FAILED: every error is destroyed");
  return live != 0;
}
