#include <cstdio>
#include <string>
#include "trajopt/util/expected"
struct Thrower {
  Thrower() = default;
  Thrower(int i) { if (i < 0) throw i; }  // NOLINT
  Thrower& operator=(int) { return *this; }
};
int main() {
  trajopt::expected<Thrower, std::string> a = trajopt::unexpected<std::string>("former");
  bool thrown = false;
  try {
    a = -1;
  } catch (int) {
    thrown = true;
  }
  bool ok = thrown && !a.has_value();
  if (!ok) {
    std::puts("FAILED: the former error is kept");
    std::_Exit(1);
  }
  return a.error() != "former";
}
