#include <cstdio>
#include <string>
#include "trajopt/util/expected"
int main() {
  using R = trajopt::expected<std::string, int>;
  R a{std::string(100, 'x')};
  auto b = a.and_then([](std::string s) { return R{s}; });
  bool ok = a.value() == std::string(100, 'x') && b.value() == a.value();
  if (!ok) std::puts("FAILED: chaining leaves the result alone");
  return !ok;
}
