// A stateless explicit-state explorer: the body of a model is run once for every
// sequence of answers to its choose(n) calls (depth-first, exhaustive), over
// several worker processes. See /verif/DESIGN.md.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

struct Prune {};
struct Violation {
  std::string message;
};

constexpr int kMaxPath = 1 << 14;
constexpr int kMaxWorkers = 16;

struct Shared {
  std::atomic<int64_t> nextPrefix;
  std::atomic<int> stop;
  struct Worker {
    std::atomic<int64_t> ticks;
    int pathLen;
    int32_t path[kMaxPath];
  } worker[kMaxWorkers];
};

struct Engine {
  // path of the current execution
  std::vector<int> choice, bound;
  size_t pos = 0;
  bool replaying = false;
  bool tracing = false;
  std::string trace;
  // sharding
  int shardDepth = 3;
  bool claimed = false;
  int64_t prefixNo = -1, mine = -1;
  bool newPrefix = true;
  Shared* sh = nullptr;
  int id = 0;
  // statistics
  int64_t executions = 0, transitions = 0, points = 0;
  std::unordered_set<uint64_t> states;
  std::map<std::string, int64_t> counters;
  std::map<std::string, std::pair<std::string, std::vector<int>>> knowns;
  std::vector<std::string> samples;
  std::string tier = "quick";
};

inline Engine& E() {
  static Engine e;
  return e;
}

inline bool thorough() { return E().tier == "thorough"; }
inline bool tracing() { return E().tracing; }

inline std::string vfmt(const char* f, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  return s;
}
__attribute__((format(printf, 1, 2))) inline void logf(const char* f, ...) {
  if (!E().tracing) return;
  va_list ap;
  va_start(ap, f);
  E().trace += vfmt(f, ap);
  E().trace += "\n";
  va_end(ap);
}
#define MC_LOG(...)                           \
  do {                                        \
    if (mc::tracing()) mc::logf(__VA_ARGS__); \
  } while (0)

__attribute__((format(printf, 1, 2))) [[noreturn]] inline void fail(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  throw Violation{s};
}
#define MC_CHECK(cond, ...)           \
  do {                                \
    if (!(cond)) mc::fail(__VA_ARGS__); \
  } while (0)

/// A violation of the identified kind; the driver accepts it only if the
/// committed known-findings file lists the key.
__attribute__((format(printf, 2, 3))) inline void known(const std::string& key, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  auto s = vfmt(f, ap);
  va_end(ap);
  auto& e = E();
  if (e.knowns.count(key) == 0)
    e.knowns.emplace(key, std::make_pair(s, std::vector<int>(e.choice.begin(), e.choice.begin() + static_cast<long>(e.pos))));
  if (e.tracing) e.trace += "=> " + key + ": " + s + "\n";
}

inline void op(int64_t n = 1) { E().transitions += n; }
inline void count(const char* name, int64_t n = 1) { E().counters[name] += n; }

struct Hash {
  uint64_t h = 0xcbf29ce484222325ull;
  Hash& add(uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0x100000001b3ull;
    h ^= h >> 29;
    return *this;
  }
  Hash& add(double v) {
    uint64_t u;
    memcpy(&u, &v, 8);
    return add(u);
  }
  Hash& add(const std::string& s) {
    for (unsigned char c : s) add(static_cast<uint64_t>(c));
    return *this;
  }
};
inline void state(const Hash& h) { E().states.insert(h.h); }
inline void state(uint64_t h) { E().states.insert(h); }

/// Nondeterministic choice of one of n alternatives; every one is explored.
inline int choose(int n, const char* what = nullptr) {
  auto& e = E();
  if (n <= 1) return 0;
  int c;
  if (e.pos < e.choice.size()) {
    c = e.choice[e.pos];
    if (e.bound[e.pos] != n && !e.replaying) {
      fail("behaviour differs between two runs of the same history (choice %zu had %d "
           "alternatives, now %d): some state leaks from one run into the next",
           e.pos, e.bound[e.pos], n);
    }
    if (e.replaying) e.bound[e.pos] = n;
    if (c >= n) fail("replay does not fit: choice %zu is %d of %d", e.pos, c, n);
  } else {
    c = 0;
    e.choice.push_back(0);
    e.bound.push_back(n);
    if (e.pos < static_cast<size_t>(e.shardDepth)) e.newPrefix = true;
  }
  if (e.sh != nullptr && e.pos < kMaxPath) {
    e.sh->worker[e.id].path[e.pos] = c;
    e.sh->worker[e.id].pathLen = static_cast<int>(e.pos) + 1;
  }
  ++e.pos;
  if (what != nullptr) MC_LOG("  [%s = %d of %d]", what, c, n);
  if (e.sh != nullptr && !e.replaying && e.pos == static_cast<size_t>(e.shardDepth) && e.newPrefix) {
    e.newPrefix = false;
    ++e.prefixNo;
    while (e.mine < e.prefixNo) e.mine = e.sh->nextPrefix.fetch_add(1);
    if (e.mine != e.prefixNo) throw Prune{};
  }
  return c;
}

template <typename C>
const auto& pick(const C& c, const char* what = nullptr) {
  return c[static_cast<size_t>(choose(static_cast<int>(std::size(c)), what))];
}
template <typename T>
const T& pick(const std::initializer_list<T>& c, const char* what = nullptr) {
  return c.begin()[choose(static_cast<int>(c.size()), what)];
}
inline bool flip(const char* what = nullptr) { return choose(2, what) == 1; }

struct Model {
  std::string name;
  std::function<void()> body;
  int shardDepth = 3;
};

inline std::string jsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20) {
      o += fmt("\\u%04x", c);
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

inline double now() {
  // (raw system call: the clock functions are interposed by some harnesses)
  struct timespec t;
  syscall(228 /* clock_gettime */, CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

inline void (*g_reset)() = nullptr;  // called before every execution

/// Runs the body once along the current path. Returns a violation text or "".
inline std::string runOnce(const Model& m, bool& pruned) {
  auto& e = E();
  e.pos = 0;
  e.trace.clear();
  pruned = false;
  if (g_reset != nullptr) g_reset();
  try {
    m.body();
  } catch (const Prune&) {
    pruned = true;
  } catch (const Violation& v) {
    return v.message.empty() ? "violation" : v.message;
  } catch (const std::exception& x) {
    return fmt("unexpected exception: %s", x.what());
  } catch (...) {
    return "unexpected exception of unknown type";
  }
  return "";
}

inline std::string replayText(const Model& m) {
  auto& e = E();
  auto bc = e.bound;
  e.choice.resize(e.pos < e.choice.size() ? e.pos : e.choice.size());
  e.bound.resize(e.choice.size());
  e.replaying = true;
  e.tracing = true;
  bool pr;
  auto again = runOnce(m, pr);
  e.tracing = false;
  e.replaying = false;
  return e.trace + "=> " + again + "\n";
}

inline void writeFile(const std::string& path, const std::string& s) {
  FILE* f = fopen(path.c_str(), "w");
  if (f != nullptr) {
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
  }
}
inline std::string readFile(const std::string& path, size_t maxLen = 20000) {
  std::string s;
  FILE* f = fopen(path.c_str(), "r");
  if (f == nullptr) return s;
  char buf[4096];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0 && s.size() < maxLen) s.append(buf, n);
  fclose(f);
  return s;
}

inline std::string pathJson(const std::vector<int>& p) {
  std::string s = "[";
  for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + std::to_string(p[i]);
  return s + "]";
}

inline std::string violationJson(const std::string& model, const std::vector<int>& path,
                                 const std::string& msg, const std::string& trace) {
  return "{\"model\":\"" + jsonEscape(model) + "\",\"path\":" + pathJson(path) + ",\"message\":\"" +
         jsonEscape(msg) + "\",\"trace\":\"" + jsonEscape(trace) + "\"}";
}

struct Result {
  std::string model;
  int64_t executions = 0, transitions = 0, states = 0;
  bool exhaustive = true;
  double wall = 0;
  std::map<std::string, int64_t> counters;
  std::map<std::string, std::string> knowns;
  std::vector<std::string> samples;
  std::string violation;  // JSON or ""
};

inline void workerMain(const Model& m, Shared* sh, int id, double deadline, const std::string& dir) {
  auto& e = E();
  e.sh = sh;
  e.id = id;
  e.shardDepth = m.shardDepth;
  int fd = open((dir + "/stderr" + std::to_string(id)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(fd, 2);
  bool complete = true;
  std::string viol;
  int64_t sampleAt = id == 0 ? 0 : 1 << 30;
  while (true) {
    if (sh->stop.load() != 0) {
      complete = false;
      break;
    }
    if (now() > deadline) {
      complete = false;
      break;
    }
    e.tracing = e.executions == sampleAt && e.samples.size() < 3;
    bool pruned;
    auto v = runOnce(m, pruned);
    // a path shorter than the sharding depth belongs to whoever claims its number
    if (!pruned && v.empty() && e.pos < static_cast<size_t>(e.shardDepth)) {
      ++e.prefixNo;
      while (e.mine < e.prefixNo) e.mine = sh->nextPrefix.fetch_add(1);
      if (e.mine != e.prefixNo) pruned = true;
      e.newPrefix = false;
    }
    if (!pruned) {
      ++e.executions;
      if (e.tracing) {
        e.samples.push_back(e.trace);
        sampleAt = e.executions * 37 + 11;
      }
    }
    e.tracing = false;
    sh->worker[id].ticks.fetch_add(1);
    if (!v.empty()) {
      auto path = std::vector<int>(e.choice.begin(),
                                   e.choice.begin() + static_cast<long>(std::min(e.pos, e.choice.size())));
      sh->stop.store(1);
      auto text = replayText(m);
      viol = violationJson(m.name, path, v, text);
      complete = false;
      break;
    }
    // next path
    while (!e.choice.empty() && e.choice.size() > e.pos) {
      e.choice.pop_back();
      e.bound.pop_back();
    }
    while (!e.choice.empty() && e.choice.back() + 1 >= e.bound.back()) {
      e.choice.pop_back();
      e.bound.pop_back();
    }
    if (e.choice.empty()) break;
    ++e.choice.back();
    if (e.choice.size() <= static_cast<size_t>(e.shardDepth)) e.newPrefix = true;
  }
  // report
  std::string base = dir + "/w" + std::to_string(id);
  FILE* f = fopen(base.c_str(), "w");
  fprintf(f, "executions %lld\ntransitions %lld\ncomplete %d\n", (long long)e.executions,
          (long long)e.transitions, complete ? 1 : 0);
  for (auto& [k, v] : e.counters) fprintf(f, "counter %s %lld\n", k.c_str(), (long long)v);
  for (auto& [k, v] : e.knowns) {
    auto s = v.first;
    for (auto& c : s)
      if (c == '\n') c = ' ';
    std::string path;
    for (int c : v.second) path += (path.empty() ? "" : ",") + std::to_string(c);
    fprintf(f, "known %s %s;%s\n", k.c_str(), path.c_str(), s.c_str());
  }
  fclose(f);
  f = fopen((base + ".states").c_str(), "w");
  for (auto h : e.states) fwrite(&h, 8, 1, f);
  fclose(f);
  for (size_t i = 0; i < e.samples.size(); ++i) writeFile(base + ".sample" + std::to_string(i), e.samples[i]);
  if (!viol.empty()) writeFile(base + ".violation", viol);
  fflush(stdout);
  _exit(viol.empty() ? 0 : 1);
}

inline std::string replayInChild(const Model& m, const std::vector<int>& path, const std::string& dir) {
  // re-run a crashing path with tracing in a child, collecting its stderr
  auto errf = dir + "/crash.stderr";
  auto trcf = dir + "/crash.trace";
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    auto& e = E();
    e.choice = path;
    e.bound.assign(path.size(), 0);
    e.replaying = true;
    e.tracing = true;
    alarm(60);
    bool pr;
    static std::string* tr = &e.trace;
    static std::string tf = trcf;
    auto dump = [](int s) {
      writeFile(tf, *tr);
      signal(s, SIG_DFL);
      raise(s);
    };
    signal(SIGABRT, dump);
    signal(SIGALRM, dump);
    auto v = runOnce(m, pr);
    writeFile(trcf, e.trace + "=> " + v + "\n");
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  return readFile(trcf) + readFile(errf, 8000);
}

inline Result explore(const Model& m, int workers, double budget, const std::string& dir) {
  Result r;
  r.model = m.name;
  double t0 = now();
  auto* sh = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  new (sh) Shared{};
  fflush(stdout);
  std::vector<pid_t> pids;
  for (int i = 0; i < workers; ++i) {
    pid_t p = fork();
    if (p == 0) {
      workerMain(m, sh, i, t0 + budget, dir);
      _exit(0);
    }
    pids.push_back(p);
  }
  std::vector<int64_t> last(workers, -1);
  std::vector<double> lastT(workers, now());
  std::vector<bool> done(workers, false);
  int left = workers;
  while (left > 0) {
    usleep(5000);
    for (int i = 0; i < workers; ++i) {
      if (done[i]) continue;
      int st = 0;
      pid_t p = waitpid(pids[i], &st, WNOHANG);
      std::vector<int> path(sh->worker[i].path,
                            sh->worker[i].path + std::min(sh->worker[i].pathLen, kMaxPath));
      if (p == pids[i]) {
        done[i] = true;
        --left;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) <= 1)) {
          sh->stop.store(1);
          std::string what = WIFSIGNALED(st) ? fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))
                                             : fmt("exit status %d (sanitizer report or abort)", WEXITSTATUS(st));
          auto text = replayInChild(m, path, dir) + readFile(dir + "/stderr" + std::to_string(i), 6000);
          if (r.violation.empty())
            r.violation = violationJson(m.name, path, "the code under test crashed: " + what, text);
          r.exhaustive = false;
        }
        continue;
      }
      int64_t t = sh->worker[i].ticks.load();
      if (t != last[i]) {
        last[i] = t;
        lastT[i] = now();
      } else if (now() - lastT[i] > 90) {
        kill(pids[i], SIGKILL);
        waitpid(pids[i], &st, 0);
        done[i] = true;
        --left;
        sh->stop.store(1);
        r.exhaustive = false;
        if (r.violation.empty())
          r.violation = violationJson(m.name, path, "the code under test hangs: no progress for 90 s", "");
      }
    }
  }
  std::unordered_set<uint64_t> states;
  for (int i = 0; i < workers; ++i) {
    std::string base = dir + "/w" + std::to_string(i);
    FILE* f = fopen(base.c_str(), "r");
    if (f == nullptr) {
      r.exhaustive = false;
      continue;
    }
    char line[8192];
    while (fgets(line, sizeof line, f) != nullptr) {
      char k[64], n[256];
      long long v;
      int off = 0;
      if (sscanf(line, "counter %255s %lld", n, &v) == 2) {
        r.counters[n] += v;
      } else if (sscanf(line, "known %255s %n", n, &off) == 1 && off > 0) {
        std::string s = line + off;
        while (!s.empty() && s.back() == '\n') s.pop_back();
        r.knowns.emplace(n, s);
      } else if (sscanf(line, "%63s %lld", k, &v) == 2) {
        if (!strcmp(k, "executions")) r.executions += v;
        if (!strcmp(k, "transitions")) r.transitions += v;
        if (!strcmp(k, "complete") && v == 0) r.exhaustive = false;
      }
    }
    fclose(f);
    f = fopen((base + ".states").c_str(), "r");
    if (f != nullptr) {
      uint64_t h[1024];
      size_t n;
      while ((n = fread(h, 8, 1024, f)) > 0) states.insert(h, h + n);
      fclose(f);
    }
    for (int s = 0; s < 3; ++s) {
      auto t = readFile(base + ".sample" + std::to_string(s), 3000);
      if (!t.empty() && r.samples.size() < 4) r.samples.push_back(t);
      unlink((base + ".sample" + std::to_string(s)).c_str());
    }
    auto v = readFile(base + ".violation", 200000);
    if (!v.empty() && r.violation.empty()) r.violation = v;
    unlink(base.c_str());
    unlink((base + ".states").c_str());
    unlink((base + ".violation").c_str());
  }
  r.states = static_cast<int64_t>(states.size());
  r.wall = now() - t0;
  munmap(sh, sizeof(Shared));
  return r;
}

inline std::string resultJson(const Result& r) {
  std::string s = fmt("{\"model\":\"%s\",\"executions\":%lld,\"transitions\":%lld,\"states\":%lld,"
                      "\"exhaustive\":%s,\"wall_s\":%.2f,\"counters\":{",
                      r.model.c_str(), (long long)r.executions, (long long)r.transitions,
                      (long long)r.states, r.exhaustive ? "true" : "false", r.wall);
  bool first = true;
  for (auto& [k, v] : r.counters) {
    s += fmt("%s\"%s\":%lld", first ? "" : ",", k.c_str(), (long long)v);
    first = false;
  }
  s += "},\"knowns\":{";
  first = true;
  for (auto& [k, v] : r.knowns) {
    auto semi = v.find(';');
    s += (first ? "\"" : ",\"") + jsonEscape(k) + "\":{\"message\":\"" + jsonEscape(v.substr(semi + 1)) + "\",\"path\":[" +
         v.substr(0, semi) + "]}";
    first = false;
  }
  s += "},\"samples\":[";
  for (size_t i = 0; i < r.samples.size(); ++i)
    s += (i ? ",\"" : "\"") + jsonEscape(r.samples[i]) + "\"";
  s += "],\"violation\":";
  s += r.violation.empty() ? "null" : r.violation;
  return s + "}";
}

/// usage: harness --tier T --dir SCRATCH --stats FILE [--workers N] [--budget S]
///        [--only MODEL] [--replay MODEL:c,c,c,...]
inline int Main(int argc, char** argv, const std::vector<Model>& models) {
  std::string dir = ".", stats, only, replay;
  int workers = 8;
  double budget = 600;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") E().tier = v;
    if (a == "--dir") dir = v;
    if (a == "--stats") stats = v;
    if (a == "--workers") workers = std::min(atoi(v.c_str()), kMaxWorkers);
    if (a == "--budget") budget = atof(v.c_str());
    if (a == "--only") only = v;
    if (a == "--replay") replay = v;
  }
  if (!replay.empty()) {
    auto c = replay.find(':');
    std::string name = replay.substr(0, c), rest = replay.substr(c + 1);
    std::vector<int> path;
    for (size_t p = 0; p < rest.size();) {
      path.push_back(atoi(rest.c_str() + p));
      p = rest.find(',', p);
      if (p == std::string::npos) break;
      ++p;
    }
    for (auto& m : models) {
      if (m.name != name) continue;
      auto& e = E();
      e.choice = path;
      e.bound.assign(path.size(), 0);
      e.replaying = true;
      e.tracing = true;
      bool pr;
      auto v = runOnce(m, pr);
      printf("%s=> %s\n", e.trace.c_str(), v.empty() ? "no violation" : v.c_str());
      return v.empty() ? 0 : 1;
    }
    fprintf(stderr, "no model %s\n", name.c_str());
    return 2;
  }
  std::string out = "[";
  bool bad = false;
  double end = now() + budget;
  bool first = true;
  for (auto& m : models) {
    if (!only.empty() && m.name != only) continue;
    auto r = explore(m, workers, std::max(1.0, end - now()), dir);
    printf("%-28s %10lld runs %12lld transitions %9lld states %6.1fs %s%s\n", r.model.c_str(),
           (long long)r.executions, (long long)r.transitions, (long long)r.states, r.wall,
           r.exhaustive ? "exhaustive" : "INCOMPLETE", r.violation.empty() ? "" : "  VIOLATION");
    fflush(stdout);
    out += (first ? "" : ",\n") + resultJson(r);
    first = false;
    if (!r.violation.empty()) bad = true;
  }
  out += "]\n";
  if (!stats.empty()) writeFile(stats, out);
  return bad ? 1 : 0;
}

}  // namespace mc
