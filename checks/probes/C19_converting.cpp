// A result type whose value has no default constructor, made from another result type.
#include <string>
#include "trajopt/util/expected"
struct Value {
  explicit Value(long v) : n{v} {}
  Value(int v) : n{v} {}
  long n;
};
trajopt::expected<int, const char*> from{1};
trajopt::expected<Value, std::string> copied{from};
trajopt::expected<Value, std::string> moved{trajopt::expected<int, const char*>{2}};
