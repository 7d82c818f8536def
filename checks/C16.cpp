// C16: GetIndex numbers the samples without gaps or collisions.
#include <stdexcept>
#include <thread>

#include "mc/mc.hpp"
#include "trajopt/util/TrajoptUtil.hpp"

using std::size_t;
using std::vector;

static std::string Text(const vector<size_t>& N) {
  std::string s = "{";
  for (auto n : N) s += (s.size() > 1 ? "," : "") + std::to_string(n);
  return s + "}";
}

static size_t Ref(const vector<size_t>& N, size_t w, size_t s) {
  size_t i = w > 0 ? 1 : 0;
  for (size_t k = 0; k + 1 < w; ++k) i += N[k];
  return i + s;
}

static void Expect(const vector<size_t>& N, size_t w, size_t s, size_t want) {
  size_t got = trajopt::GetIndex(N, w, s);
  mc::op();
  MC_CHECK(got == want, "GetIndex(%s, %zu, %zu) = %zu, not %zu", Text(N).c_str(), w, s, got, want);
}

static bool Rejects(const vector<size_t>& N, size_t w, size_t s) {
  mc::op();
  try {
    trajopt::GetIndex(N, w, s);
    return false;
  } catch (const std::exception&) {
    return true;
  }
}

static void Whole(const vector<size_t>& N) {
  size_t next = 1;
  Expect(N, 0, 0, 0);
  {
    mc::op();
    size_t d = trajopt::GetIndex(N, 0);
    MC_CHECK(d == 0, "GetIndex(%s, 0) = %zu", Text(N).c_str(), d);
  }
  for (size_t w = 1; w <= N.size(); ++w) {
    for (size_t s = 0; s < N[w - 1]; ++s) {
      // long segments: both ends in full, the middle in steps
      if (N[w - 1] > 200 && s > 50 && s + 50 < N[w - 1]) {
        size_t jump = (N[w - 1] - 100) / 7;
        if (jump > 1 && s + jump + 50 < N[w - 1]) {
          Expect(N, w, s, next + s);
          s += jump - 1;
          continue;
        }
        s = N[w - 1] - 50;
      }
      Expect(N, w, s, next + s);
    }
    next += N[w - 1];
    // the sample located at the end of segment w
    Expect(N, w + 1, 0, next);
    mc::op();
    size_t d = trajopt::GetIndex(N, w + 1);
    MC_CHECK(d == next, "GetIndex(%s, %zu) = %zu, not %zu", Text(N).c_str(), w + 1, d, next);
  }
  for (size_t beyond : {N.size() + 2, N.size() + 3, N.size() + 9, N.size() + 1000}) {
    MC_CHECK(Rejects(N, beyond, 0), "GetIndex(%s, %zu) is beyond the path but is answered", Text(N).c_str(), beyond);
    MC_CHECK(Rejects(N, beyond, 3), "GetIndex(%s, %zu, 3) is beyond the path but is answered", Text(N).c_str(), beyond);
  }
}

static void Lists() {
  int len = mc::choose(mc::thorough() ? 8 : 7, "number of segments");
  vector<size_t> N;
  mc::Hash h;
  int alts = len <= 4 ? 7 : mc::thorough() ? 4 : 3;
  for (int i = 0; i < len; ++i) {
    // (7: none at all)
    N.push_back(static_cast<size_t>((mc::choose(alts) + 1) % 7));
    h.add(static_cast<uint64_t>(N.back()));
  }
  MC_LOG("counts %s", Text(N).c_str());
  mc::state(h.add(static_cast<uint64_t>(len)));
  Whole(N);
}

static void Big() {
  static const size_t size[] = {1, 40, 127, 255, 256, 1000, 32767, 65535, 65536, 2147483647u, 4294967295u, 4294967296u, 10000000000u};
  vector<size_t> N;
  int len = 1 + mc::choose(3, "number of segments");
  mc::Hash h;
  for (int i = 0; i < len; ++i) {
    N.push_back(size[mc::choose(13)]);
    h.add(static_cast<uint64_t>(N.back()));
  }
  MC_LOG("counts %s", Text(N).c_str());
  mc::state(h);
  Whole(N);
}

static void Long() {
  int len = mc::pick({10, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000});
  int pat = mc::choose(4, "pattern");
  vector<size_t> N;
  for (int i = 0; i < len; ++i)
    N.push_back(pat == 0 ? 1 : pat == 1 ? static_cast<size_t>(i % 7 + 1) : pat == 2 ? static_cast<size_t>(len - i) : 40);
  mc::state(mc::Hash().add((uint64_t)len).add((uint64_t)pat));
  Whole(N);
}

// Every history of queries over a few lists, some changed in place between
// queries: the answer depends on the arguments alone.
static void Histories() {
  vector<size_t> l[3] = {{2, 3, 1}, {4, 1, 2}, {2, 3}};
  l[0].reserve(8);
  int depth = mc::thorough() ? 4 : 3;
  mc::Hash h;
  for (int i = 0; i < depth; ++i) {
    int k = mc::choose(3, "list");
    switch (mc::choose(6, "change")) {
      case 0: break;
      case 5: l[k][1] += 3; break;
      case 1: l[k][0] += 2; break;
      case 2: l[k].back() += 1; break;
      case 3: l[k].push_back(5); break;
      default: std::swap(l[k][0], l[k][1]); break;
    }
    size_t w = static_cast<size_t>(mc::choose(5, "waypoint"));
    if (w > l[k].size() + 1) {
      MC_CHECK(Rejects(l[k], w, 0), "GetIndex(%s, %zu) is answered", Text(l[k]).c_str(), w);
      continue;
    }
    size_t s = w == 0 || w > l[k].size() ? 0 : l[k][w - 1] - 1;
    MC_LOG("GetIndex(%s, %zu, %zu)", Text(l[k]).c_str(), w, s);
    Expect(l[k], w, s, Ref(l[k], w, s));
    for (auto& q : l)
      for (auto n : q) h.add(static_cast<uint64_t>(n));
    mc::state(h);
  }
}

int main(int argc, char** argv) {
  return mc::Main(argc, argv, {{"count-lists", Lists, 3}, {"large-counts", Big, 2}, {"long-lists", Long, 2}, {"histories", Histories, 3}});
}
