#include "mc/sched.hpp"

#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <new>
#include <set>
#include <unordered_map>

#include "mc/isolate.hpp"

extern "C" char __data_start, _end;

namespace sched {
namespace {

constexpr int kMax = 6;       // threads, including the main one (0)
constexpr int kSteps = 20000;  // schedule points per execution

struct Clock {
  int c[kMax] = {};
  void join(const Clock& o) {
    for (int i = 0; i < kMax; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Rec {
  int clk[kMax][4] = {};  // [thread][plain read, plain write, atomic read, atomic write]
  uint8_t mask[kMax][4] = {};
};
struct Lock {
  int owner = -1;
  int depth = 0;
  int readers = 0;
  bool recursive = false;
  Clock clock;
};
struct Global {
  bool active = false;
  bool races = true;
  int n = 0;  // threads 1..n
  std::atomic<int> turn{0};
  bool finished[kMax] = {};
  const void* waits[kMax] = {};  // what a blocked thread waits for
  Clock vc[kMax];
  int preemptionsLeft = 0;
  int64_t ticks = 0;
  int64_t points = 0;
  int steps = 0;
  std::map<const void*, Lock> locks;
  std::map<const void*, Clock> sync;
  std::unordered_map<uintptr_t, Rec> shadow;
  std::set<const void*> guards;  // of statics already initialised
};
Global& G() {
  // (not a guarded static: the guards below need it)
  static Global* g = nullptr;
  if (g == nullptr) g = new (malloc(sizeof(Global))) Global;
  return *g;
}
thread_local int t_me = 0;
thread_local int t_inside = 0;  // the runtime itself is running

struct Inside {
  Inside() { ++t_inside; }
  ~Inside() { --t_inside; }
};

void FutexWait(std::atomic<int>& a, int v) {
  syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void FutexWake(std::atomic<int>& a) { syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1000, nullptr, nullptr, 0); }

void WaitTurn() {
  auto& g = G();
  while (true) {
    int t = g.turn.load();
    if (t == t_me) return;
    FutexWait(g.turn, t);
  }
}
void HandTo(int t) {
  auto& g = G();
  g.turn.store(t);
  FutexWake(g.turn);
}

bool Enabled(int t) { return !G().finished[t] && G().waits[t] == nullptr; }

[[noreturn]] void Fail(const std::string& s) {
  MC_LOG("=> %s", s.c_str());
  mc::IsolatedExit(mc::IsoEnd::kViolation, s);
}

int Choose(int n, const char* what) {
  try {
    return mc::choose(n, what);
  } catch (const mc::Prune&) {
    mc::IsolatedExit(mc::IsoEnd::kPruned, "");
  } catch (const mc::Violation& v) {
    mc::IsolatedExit(mc::IsoEnd::kViolation, v.message);
  }
}

/// Lets the explorer choose the next thread. free: switching costs nothing
/// (the caller is blocked or finished).
void Switch(const char* what, bool free) {
  auto& g = G();
  ++g.points;
  if (++g.steps > kSteps) Fail("no thread finishes: more than 20000 schedule points in one execution");
  int cand[kMax];
  int n = 0;
  if (!free) cand[n++] = t_me;
  if (free || g.preemptionsLeft > 0)
    for (int t = 1; t <= g.n; ++t)
      if (t != t_me && Enabled(t)) cand[n++] = t;
  if (n == 0) {
    bool all = true;
    for (int t = 1; t <= g.n; ++t) all = all && g.finished[t];
    if (all) {
      HandTo(0);
      return;
    }
    std::string s = "deadlock:";
    for (int t = 1; t <= g.n; ++t)
      if (!g.finished[t]) s += mc::fmt(" thread %d waits for a lock", t);
    Fail(s);
  }
  int k = Choose(n, nullptr);
  int next = cand[k];
  if (next == t_me) return;
  if (!free) --g.preemptionsLeft;
  MC_LOG("  ~ thread %d -> thread %d at %s", t_me, next, what);
  HandTo(next);
  if (!g.finished[t_me]) WaitTurn();
}

bool Mine() { return G().active && t_me > 0 && t_inside == 0; }

void Race(const char* a, int who, const char* b, uintptr_t at) {
  auto& g = G();
  (void)at;
  Fail(mc::fmt("data race: a %s by thread %d and a %s by thread %d of the same memory are unordered", a, who, b, t_me));
  (void)g;
}

const char* const kKind[] = {"read", "write", "atomic read", "atomic write"};
bool Conflict(int a, int b) {
  bool wa = a == 1 || a == 3, wb = b == 1 || b == 3;
  if (!wa && !wb) return false;
  return !(a >= 2 && b >= 2);
}

void Record(uintptr_t a, size_t size, int kind) {
  auto& g = G();
  while (size > 0) {
    uintptr_t base = a & ~uintptr_t{7};
    size_t off = a - base;
    size_t len = size < 8 - off ? size : 8 - off;
    uint8_t mask = static_cast<uint8_t>(((1u << len) - 1) << off);
    Rec& r = g.shadow[base];
    for (int u = 1; u <= g.n; ++u) {
      if (u == t_me) continue;
      for (int k = 0; k < 4; ++k)
        if ((r.mask[u][k] & mask) != 0 && r.clk[u][k] > g.vc[t_me].c[u] && Conflict(k, kind)) Race(kKind[k], u, kKind[kind], a);
    }
    int now = g.vc[t_me].c[t_me];
    if (r.clk[t_me][kind] != now) {
      r.clk[t_me][kind] = now;
      r.mask[t_me][kind] = 0;
    }
    r.mask[t_me][kind] |= mask;
    a += len;
    size -= len;
  }
}

bool IsGlobal(uintptr_t a) {
  return a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end);
}

void Access(const void* p, size_t size, int kind) {
  if (!Mine()) return;
  Inside in;
  auto a = reinterpret_cast<uintptr_t>(p);
  if (kind < 2 && !G().races && IsGlobal(a)) Switch(kind == 0 ? "a read of a global" : "a write of a global", false);
  if (G().races) Record(a, size, kind);
}

void Forget(uintptr_t a, size_t size) {
  auto& g = G();
  for (uintptr_t b = a & ~uintptr_t{7}; b < a + size; b += 8) g.shadow.erase(b);
}

void Acquire(const void* p) {
  auto& g = G();
  auto it = g.sync.find(p);
  if (it != g.sync.end()) g.vc[t_me].join(it->second);
}
void Release(const void* p, bool fresh) {
  auto& g = G();
  auto& s = g.sync[p];
  if (fresh) s = g.vc[t_me];
  else s.join(g.vc[t_me]);
  ++g.vc[t_me].c[t_me];
}
bool Acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool Rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

struct Arg {
  int id;
  const std::function<void()>* fn;
};
void* Main(void* p) {
  auto* a = static_cast<Arg*>(p);
  t_me = a->id;
  {
    Inside in;
    WaitTurn();
  }
  mc::Guarded([&] { (*a->fn)(); });
  ++t_inside;  // for good: what the thread's exit does is not the program's
  auto& g = G();
  g.finished[t_me] = true;
  g.vc[0].join(g.vc[t_me]);
  Switch("its end", true);
  return nullptr;
}

}  // namespace

int Me() { return t_me; }
int64_t Tick() { return ++G().ticks; }
int64_t Points() { return G().points; }
void DetectRaces(bool on) { G().races = on; }

void Point(const char* what) {
  if (!Mine()) return;
  Inside in;
  Switch(what, false);
}

void Run(const std::vector<std::function<void()>>& bodies, int preemptions) {
  auto& g = G();
  Inside in;
  g.n = static_cast<int>(bodies.size());
  g.preemptionsLeft = preemptions;
  for (int t = 1; t <= g.n; ++t) {
    g.finished[t] = false;
    g.waits[t] = nullptr;
    g.vc[t] = g.vc[0];
    g.vc[t].c[t] = 1;
  }
  g.shadow.clear();
  g.active = true;
  std::vector<Arg> args;
  args.reserve(bodies.size());
  std::vector<pthread_t> th(bodies.size());
  for (int t = 1; t <= g.n; ++t) {
    args.push_back({t, &bodies[static_cast<size_t>(t - 1)]});
    pthread_create(&th[static_cast<size_t>(t - 1)], nullptr, Main, &args.back());
  }
  int first = 1 + Choose(g.n, "first thread");
  HandTo(first);
  WaitTurn();
  for (auto& t : th) pthread_join(t, nullptr);
  g.active = false;
}

// ---- locks ---------------------------------------------------------------
namespace {

void Block(const void* on, const char* what) {
  auto& g = G();
  g.waits[t_me] = on;
  Switch(what, true);
}
void WakeAll(const void* on) {
  auto& g = G();
  for (int t = 1; t <= g.n; ++t)
    if (g.waits[t] == on) g.waits[t] = nullptr;
}
int LockIt(const void* m, bool recursive, bool wait, const char* what) {
  if (t_inside > 0) return 0;  // of the runtime itself, which is not preempted
  auto& g = G();
  Inside in;
  auto& l = g.locks[m];
  bool mine = g.active && t_me > 0;
  if (mine) Switch(what, false);
  while (true) {
    if (l.owner == -1 && l.readers == 0) {
      l.owner = t_me;
      l.depth = 1;
      g.vc[t_me].join(l.clock);
      return 0;
    }
    if (l.owner == t_me && recursive) {
      ++l.depth;
      return 0;
    }
    if (!wait) return EBUSY;
    if (!mine || (l.owner == t_me)) Fail("deadlock: a thread locks what it already holds");
    Block(m, what);
  }
}
int UnlockIt(const void* m) {
  if (t_inside > 0) return 0;
  auto& g = G();
  Inside in;
  auto& l = g.locks[m];
  if (l.owner == t_me) {
    if (--l.depth > 0) return 0;
    l.owner = -1;
    l.clock = g.vc[t_me];
  } else if (l.readers > 0) {
    --l.readers;
    l.clock.join(g.vc[t_me]);
  }
  ++g.vc[t_me].c[t_me];
  WakeAll(m);
  if (g.active && t_me > 0) Switch("an unlock", false);
  return 0;
}

}  // namespace
}  // namespace sched

using namespace sched;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return LockIt(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, "a lock"); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return LockIt(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, false, "a trylock"); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return UnlockIt(m); }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (t_inside > 0) return 0;
  G().locks.erase(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return LockIt(m, false, true, "a lock"); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return LockIt(m, false, false, "a trylock"); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  if (t_inside > 0) return 0;
  auto& g = G();
  Inside in;
  auto& l = g.locks[m];
  bool mine = g.active && t_me > 0;
  if (mine) Switch("a shared lock", false);
  while (l.owner != -1) {
    if (!mine || l.owner == t_me) Fail("deadlock: a thread locks what it already holds");
    Block(m, "a shared lock");
  }
  ++l.readers;
  g.vc[t_me].join(l.clock);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return UnlockIt(m); }

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  auto& g = G();
  if (!g.active || t_me == 0) Fail("deadlock: waiting for a condition with no other thread");
  UnlockIt(m);
  {
    Inside in;
    Block(c, "a condition");
  }
  LockIt(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE, true, "a lock");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  Inside in;
  WakeAll(c);
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { return pthread_cond_broadcast(c); }  // spurious wakeups are allowed

// Initialisation of static locals and std::call_once.
int __cxa_guard_acquire(long long* gd) {
  auto* b = reinterpret_cast<volatile char*>(gd);
  if (*b != 0) return 0;
  LockIt(gd, false, true, "the initialisation of a static");
  if (*b != 0) {
    UnlockIt(gd);
    return 0;
  }
  return 1;
}
void __cxa_guard_release(long long* gd) {
  auto* b = reinterpret_cast<volatile char*>(gd);
  {
    Inside in;
    if (t_me > 0) Release(gd, true);
    G().guards.insert(gd);
  }
  *b = 1;
  UnlockIt(gd);
}
void __cxa_guard_abort(long long* gd) { UnlockIt(gd); }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (*o == 2) return 0;
  LockIt(o, false, true, "a call_once");
  if (*o != 2) {
    fn();
    *o = 2;
  }
  return UnlockIt(o);
}

// ---- instrumentation -----------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n)                                                                  \
  void __tsan_read##n(void* p) { Access(p, n, 0); }                             \
  void __tsan_write##n(void* p) { Access(p, n, 1); }                            \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, 0); }                   \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, 1); }                  \
  void __tsan_volatile_read##n(void* p) { Access(p, n, 0); }                    \
  void __tsan_volatile_write##n(void* p) { Access(p, n, 1); }                   \
  void __tsan_unaligned_volatile_read##n(void* p) { Access(p, n, 0); }          \
  void __tsan_unaligned_volatile_write##n(void* p) { Access(p, n, 1); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { Access(p, n, 0); }
void __tsan_write_range(void* p, size_t n) { Access(p, n, 1); }
void __tsan_vptr_update(void** p, void*) { Access(p, 8, 1); }
void __tsan_vptr_read(void** p) { Access(p, 8, 0); }
void __tsan_atomic_thread_fence(int) { Point("a fence"); }
void __tsan_atomic_signal_fence(int) {}

static void AtomicPoint(const void* p, size_t n, int mo, bool reads, bool writes, const char* what) {
  if (!Mine()) return;
  Inside in;
  if (!writes && n == 1 && G().guards.count(p) != 0) {
    Acquire(p);  // the guard of an initialised static never changes again
    return;
  }
  Switch(what, false);
  if (G().races) Record(reinterpret_cast<uintptr_t>(p), n, writes ? 3 : 2);
  if (reads && Acq(mo)) Acquire(p);
  if (writes) {
    if (Rel(mo)) Release(p, !reads);
    else if (!reads) G().sync.erase(p);
  }
}
#define ATOM(bits, T)                                                                                          \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                                  \
    AtomicPoint((const void*)p, sizeof(T), mo, true, false, "an atomic load");                                 \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                               \
  }                                                                                                            \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                                               \
    AtomicPoint((const void*)p, sizeof(T), mo, false, true, "an atomic store");                                \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                                               \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic exchange");                              \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                            \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) {                                              \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic update");                                \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) {                                              \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic update");                                \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) {                                              \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic update");                                \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) {                                               \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic update");                                \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                          \
  }                                                                                                            \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) {                                              \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic update");                                \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                            \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) {                                             \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic update");                                \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) {                   \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic compare-exchange");                      \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
  }                                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) {                     \
    AtomicPoint((const void*)p, sizeof(T), mo, true, true, "an atomic compare-exchange");                      \
    return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}  // extern "C"

// Block operations of instrumented objects (their references are renamed).
extern "C" {
void* mcs_memcpy(void* d, const void* s, size_t n) {
  Access(s, n, 0);
  Access(d, n, 1);
  return memcpy(d, s, n);
}
void* mcs_memmove(void* d, const void* s, size_t n) {
  Access(s, n, 0);
  Access(d, n, 1);
  return memmove(d, s, n);
}
void* mcs_memset(void* d, int c, size_t n) {
  Access(d, n, 1);
  return memset(d, c, n);
}
int mcs_memcmp(const void* a, const void* b, size_t n) {
  Access(a, n, 0);
  Access(b, n, 0);
  return memcmp(a, b, n);
}
}

// ---- memory --------------------------------------------------------------
// Freed memory takes its access history with it; freeing counts as a write.
static void* Get(size_t n) {
  void* p = malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc{};
  return p;
}
static void Put(void* p) {
  if (p == nullptr) return;
  if (Mine() && G().races) {
    Inside in;
    size_t n = malloc_usable_size(p);
    Record(reinterpret_cast<uintptr_t>(p), n, 1);
    Forget(reinterpret_cast<uintptr_t>(p), n);
  }
  free(p);
}
void* operator new(size_t n) { return Get(n); }
void* operator new[](size_t n) { return Get(n); }
void operator delete(void* p) noexcept { Put(p); }
void operator delete[](void* p) noexcept { Put(p); }
void operator delete(void* p, size_t) noexcept { Put(p); }
void operator delete[](void* p, size_t) noexcept { Put(p); }
