#include "trajopt/util/expected"
#include <string>
trajopt::expected<int, std::string> a{1};
