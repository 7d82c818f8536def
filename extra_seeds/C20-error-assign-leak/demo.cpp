#include <cstdio>
#include "trajopt/util/expected"
static int live = 0;
struct Counted {
  Counted() { ++live; }
  Counted(const Counted&) { ++live; }
  Counted(Counted&&) noexcept { ++live; }
  Counted& operator=(const Counted&) = default;
  ~Counted() { --live; }
};
int main() {
  {
    trajopt::expected<Counted, int> a;
    const trajopt::unexpected<int> e{3};
    a = e;
    a.emplace();
    a = e;
  }
  if (live != 0) std::puts("FAILED: every value is destroyed");
  return live != 0;
}
