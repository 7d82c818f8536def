#include <string>
#include "trajopt/util/expected"
int main() {
  std::string why = "a reason long enough to live on the heap";
  trajopt::expected<int, std::string> r{trajopt::unexpect, why};
  return r.error() == why && !why.empty() ? 0 : 1;
}
