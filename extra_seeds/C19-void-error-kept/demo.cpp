#include <cstdio>
#include <string>
#include "trajopt/util/expected"
int main() {
  using R = trajopt::expected<void, std::string>;
  R a = trajopt::unexpected<std::string>("first"), b = trajopt::unexpected<std::string>("second");
  a = b;
  bool ok = !a && a.error() == "second" && b.error() == "second";
  a = R{};
  ok &= a.has_value();
  if (!ok) std::puts("FAILED: an assigned error is held");
  return !ok;
}
