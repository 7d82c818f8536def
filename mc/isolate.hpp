// Runs the rest of one execution in a forked child, so that nothing the code
// under test keeps in the process (statics, threads) reaches the next execution.
#pragma once

#include <errno.h>

#include "mc/mc.hpp"

namespace mc {

constexpr size_t kIsoRoom = size_t{32} << 20;

struct IsoState {
  char* shm = nullptr;
  bool inChild = false;
};
inline IsoState& Iso() {
  static IsoState s;
  return s;
}

enum class IsoEnd : int { kDone = 1, kPruned = 2, kViolation = 3 };

struct IsoOut {
  char* p;
  char* end;
  void raw(const void* d, size_t n) {
    if (p + n > end) _exit(97);
    memcpy(p, d, n);
    p += n;
  }
  void num(int64_t v) { raw(&v, 8); }
  void str(const std::string& s) {
    num(static_cast<int64_t>(s.size()));
    raw(s.data(), s.size());
  }
  void ints(const std::vector<int>& v) {
    num(static_cast<int64_t>(v.size()));
    raw(v.data(), v.size() * 4);
  }
};
struct IsoIn {
  const char* p;
  int64_t num() {
    int64_t v;
    memcpy(&v, p, 8);
    p += 8;
    return v;
  }
  std::string str() {
    auto n = static_cast<size_t>(num());
    std::string s(p, n);
    p += n;
    return s;
  }
  std::vector<int> ints() {
    auto n = static_cast<size_t>(num());
    std::vector<int> v(n);
    memcpy(v.data(), p, n * 4);
    p += n * 4;
    return v;
  }
};

/// Ends the child: hands what it did to the parent. Callable from any thread.
[[noreturn]] inline void IsolatedExit(IsoEnd how, const std::string& message) {
  auto& e = E();
  IsoOut o{Iso().shm + 8, Iso().shm + kIsoRoom};
  o.num(static_cast<int64_t>(how));
  o.str(message);
  o.num(static_cast<int64_t>(e.pos));
  o.ints(e.choice);
  o.ints(e.bound);
  o.num(e.prefixNo);
  o.num(e.mine);
  o.num(e.newPrefix ? 1 : 0);
  o.num(e.transitions);
  o.num(static_cast<int64_t>(e.states.size()));
  for (auto h : e.states) o.num(static_cast<int64_t>(h));
  o.num(static_cast<int64_t>(e.counters.size()));
  for (auto& [k, v] : e.counters) {
    o.str(k);
    o.num(v);
  }
  o.num(static_cast<int64_t>(e.knowns.size()));
  for (auto& [k, v] : e.knowns) {
    o.str(k);
    o.str(v.first);
    o.ints(v.second);
  }
  o.str(e.trace);
  int64_t done = 1;
  memcpy(Iso().shm, &done, 8);
  _exit(0);
}

/// Runs fn, turning the way it ends into an IsolatedExit unless it returns.
template <class Fn>
void Guarded(Fn fn) {
  try {
    fn();
  } catch (const Prune&) {
    IsolatedExit(IsoEnd::kPruned, "");
  } catch (const Violation& v) {
    IsolatedExit(IsoEnd::kViolation, v.message.empty() ? "violation" : v.message);
  } catch (const std::exception& x) {
    IsolatedExit(IsoEnd::kViolation, fmt("unexpected exception: %s", x.what()));
  } catch (...) {
    IsolatedExit(IsoEnd::kViolation, "unexpected exception of unknown type");
  }
}

template <class Fn>
void Isolated(Fn body) {
  auto& iso = Iso();
  if (iso.shm == nullptr)
    iso.shm = static_cast<char*>(mmap(nullptr, kIsoRoom, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  memset(iso.shm, 0, 8);
  auto& e = E();
  pid_t pid = fork();
  if (pid == 0) {
    iso.inChild = true;
    e.states.clear();
    e.counters.clear();
    e.knowns.clear();
    e.transitions = 0;
    signal(SIGALRM, SIG_DFL);
    alarm(30);
    Guarded(body);
    IsolatedExit(IsoEnd::kDone, "");
  }
  if (pid < 0) {
    fprintf(stderr, "fork failed\n");
    _exit(3);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  int64_t done;
  memcpy(&done, iso.shm, 8);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && done == 1)) {
    if (e.sh != nullptr) {
      auto& w = e.sh->worker[e.id];
      size_t n = static_cast<size_t>(std::min(w.pathLen, kMaxPath));
      e.choice.assign(w.path, w.path + n);
      e.bound.assign(n, 0);
      e.pos = n;
    }
    if (WIFSIGNALED(st))
      throw Violation{WTERMSIG(st) == SIGALRM ? std::string("the code under test hangs")
                                              : fmt("the code under test crashed: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))};
    throw Violation{fmt("the code under test ended the process: exit status %d (sanitizer report or abort)", WEXITSTATUS(st))};
  }
  IsoIn in{iso.shm + 8};
  auto how = static_cast<IsoEnd>(in.num());
  auto message = in.str();
  e.pos = static_cast<size_t>(in.num());
  e.choice = in.ints();
  e.bound = in.ints();
  e.prefixNo = in.num();
  e.mine = in.num();
  e.newPrefix = in.num() != 0;
  e.transitions += in.num();
  for (int64_t n = in.num(); n > 0; --n) e.states.insert(static_cast<uint64_t>(in.num()));
  for (int64_t n = in.num(); n > 0; --n) {
    auto k = in.str();
    e.counters[k] += in.num();
  }
  for (int64_t n = in.num(); n > 0; --n) {
    auto k = in.str();
    auto t = in.str();
    auto path = in.ints();
    e.knowns.emplace(k, std::make_pair(t, path));
  }
  e.trace = in.str();
  if (how == IsoEnd::kPruned) throw Prune{};
  if (how == IsoEnd::kViolation) throw Violation{message};
}

}  // namespace mc
