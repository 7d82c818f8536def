// C20: an exception of an element type leaves every `expected` whole.
#include "checks/expected_history.hpp"

using namespace el;

// Which operations of the element can throw.
constexpr int kC = kCopyThrows | kCopyAssignThrows | kMakeThrows | kDefaultThrows;
constexpr int kM = kMoveThrows | kMoveAssignThrows;
using Tcopy = Elt<kC>;
using Tall = Elt<kC | kM>;
using Tnone = Elt<0>;
using TonlyMove = Elt<kMoveOnly | kM | kMakeThrows>;
using Tassign = Elt<kCopyAssignThrows | kMoveAssignThrows>;
using TmoveAssign = Elt<kMoveAssignThrows>;
using Ecopy = Elt<kError | kC>;
using Eall = Elt<kError | kC | kM>;
using Enone = Elt<kError>;
using Eassign = Elt<kError | kCopyAssignThrows | kMoveAssignThrows>;
using EonlyMove = Elt<kError | kMoveOnly | kM>;

static int Depth() { return mc::thorough() ? 3 : 2; }
#define RUN(name, T, E, text) {name, [] { RunHistory<T, E>("expected<" text ">", Depth(), mc::thorough() ? 2 : 1); }, 3}

#ifdef PART1
std::vector<mc::Model> Part1() {
  return {RUN("copy/copy", Tcopy, Ecopy, "copy can throw, copy can throw"), RUN("all/none", Tall, Enone, "all can throw, nothrow"),
          RUN("none/all", Tnone, Eall, "nothrow, all can throw")};
}
#elif defined(PART2)
std::vector<mc::Model> Part2() {
  return {RUN("all/copy", Tall, Ecopy, "all can throw, copy can throw"), RUN("copy/all", Tcopy, Eall, "copy can throw, all can throw"),
          RUN("assign/assign", Tassign, Eassign, "assignment can throw, assignment can throw")};
}
#elif defined(PART3)
std::vector<mc::Model> Part3() {
  return {RUN("void/all", void, Eall, "void, all can throw"), RUN("void/copy", void, Ecopy, "void, copy can throw"),
          RUN("void/assign", void, Eassign, "void, assignment can throw"),
          RUN("move-only/none", TonlyMove, Enone, "move only that can throw, nothrow"),
          RUN("none/move-only", Tnone, EonlyMove, "nothrow, move only that can throw"),
          RUN("void/move-only", void, EonlyMove, "void, move only that can throw")};
}
#else
std::vector<mc::Model> Part1();
std::vector<mc::Model> Part2();
std::vector<mc::Model> Part3();
int main(int argc, char** argv) {
  std::vector<mc::Model> all = {RUN("trivial/copy", Tramp, Ecopy, "trivially destructible, copy can throw"),
                                RUN("copy/trivial", Tcopy, Tramp, "copy can throw, trivially destructible"),
                                RUN("int/all", int, Eall, "int, all can throw"), RUN("all/int", Tall, int, "all can throw, int"),
                                RUN("move-assign/none", TmoveAssign, Enone, "move assignment can throw, nothrow")};
  for (auto part : {Part1(), Part2(), Part3()}) all.insert(all.end(), part.begin(), part.end());
  return mc::Main(argc, argv, all);
}
#endif
