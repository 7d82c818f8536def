// C19: an `expected` always holds exactly what was last put into it.
#include "checks/expected_history.hpp"

using namespace el;
constexpr int kQuiet = 0;
// As the library's own uses: value with throwing copy, nothrow move.
using Tcopy = Elt<kCopyThrows | kCopyAssignThrows | kMakeThrows>;
using Tall = Elt<kCopyThrows | kMoveThrows | kCopyAssignThrows | kMoveAssignThrows | kMakeThrows>;
using Tnone = Elt<kQuiet>;
using Tonly = Elt<kMoveOnly>;
using TnoDef = Elt<kNoDefault>;
using Ecopy = Elt<kError | kCopyThrows | kCopyAssignThrows>;
using Eall = Elt<kError | kCopyThrows | kMoveThrows | kCopyAssignThrows | kMoveAssignThrows>;
using Enone = Elt<kError>;

static int Depth() { return mc::thorough() ? 3 : 2; }

#ifdef PART1
std::vector<mc::Model> Part1() {
  return {{"int/int", [] { RunHistory<int, int>("expected<int, int>", Depth(), 0); }, 3},
          {"string/string", [] { RunHistory<std::string, std::string>("expected<string, string>", Depth(), 0); }, 3},
          {"nothrow/nothrow", [] { RunHistory<Tnone, Enone>("expected<nothrow, nothrow>", Depth(), 0); }, 3}};
}
#elif defined(PART2)
std::vector<mc::Model> Part2() {
  return {{"copy-throws/copy-throws", [] { RunHistory<Tcopy, Ecopy>("expected<copy can throw, copy can throw>", Depth(), 0); }, 3},
          {"all-throw/nothrow", [] { RunHistory<Tall, Enone>("expected<all can throw, nothrow>", Depth(), 0); }, 3},
          {"nothrow/all-throw", [] { RunHistory<Tnone, Eall>("expected<nothrow, all can throw>", Depth(), 0); }, 3}};
}
#elif defined(PART3)
std::vector<mc::Model> Part3() {
  return {{"void/int", [] { RunHistory<void, int>("expected<void, int>", Depth(), 0); }, 3},
          {"void/string", [] { RunHistory<void, std::string>("expected<void, string>", Depth(), 0); }, 3},
          {"void/tracked", [] { RunHistory<void, Ecopy>("expected<void, copy can throw>", Depth(), 0); }, 3},
          {"move-only/string", [] { RunHistory<Tonly, std::string>("expected<move only, string>", Depth(), 0); }, 3}};
}
#else
std::vector<mc::Model> Part1();
std::vector<mc::Model> Part2();
std::vector<mc::Model> Part3();
int main(int argc, char** argv) {
  std::vector<mc::Model> all = {
      {"int/tracked", [] { RunHistory<int, Ecopy>("expected<int, copy can throw>", Depth(), 0); }, 3},
      {"tracked/int", [] { RunHistory<Tcopy, int>("expected<copy can throw, int>", Depth(), 0); }, 3},
      {"no-default/plain", [] { RunHistory<TnoDef, Plain>("expected<not default constructible, plain>", Depth(), 0); }, 3}};
  for (auto part : {Part1(), Part2(), Part3()}) all.insert(all.end(), part.begin(), part.end());
  return mc::Main(argc, argv, all);
}
#endif
