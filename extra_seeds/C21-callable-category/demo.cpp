#include "trajopt/util/expected"
struct Counter {
  int n = 0;
  int operator()(int x) { return ++n + x; }
};
int main() {
  trajopt::expected<int, int> r{3};
  Counter c;
  auto a = r.map(c);
  return *a == 4 && c.n == 1 ? 0 : 1;
}
