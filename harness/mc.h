// mc.h -- the deviation-bounded explorer shared by all C++ harnesses.
//
// The only nondeterminism in macposts is libc rand(); we own it (see
// mc_rand.cpp: rand()/srand() are defined by the harness executable and so take
// precedence over libc's).  An *execution* is (case, policy, deviations): the
// n-th call of rand() answers policy(n), unless (n, v) is one of the
// deviations, in which case it answers v.  The explorer runs every case with
// zero deviations under each base policy, then with every single deviation
// (every call position x every value of a small alphabet), then every pair
// within a position budget, ...
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{
// ---------------------------------------------------------------- randomness
struct Dev
{
  uint32_t pos;
  int val;
};
struct RandCtl
{
  uint64_t policy = 0;
  uint32_t n = 0;        // calls so far in this execution
  std::vector<Dev> devs; // sorted by pos
  size_t di = 0;
  uint32_t limit = 50000000; // give up (livelock) after that many calls
  bool follow_srand = false; // C09: the stream is keyed by srand()'s argument
  uint64_t seed = 0;
  uint32_t srand_calls = 0;
  uint32_t hold = 0;  // > 0: with sweep, every answer is the hold-th one
  uint32_t sweep = 0; // > 0: the n-th answer is (n + 1/2) / sweep of the range
  bool interior = false; // keep away from the two extreme answers
};
extern RandCtl g_rand;
void rand_begin (uint64_t policy, const std::vector<Dev> &devs);
uint64_t mix (uint64_t x);

// ---------------------------------------------------------------- heap
// Memory obtained with new starts with this byte (so a read of something never
// written shows) and blocks are padded, so that addresses -- and with them the
// order of containers keyed by pointers -- differ from one setting to another.
struct HeapCtl
{
  int fill = 0x4B;
  uint64_t skew = 0; // 0: no padding
};
extern HeapCtl g_heap;

// ---------------------------------------------------------------- violations
struct Fail : std::runtime_error
{
  std::string kind;
  Fail (const std::string &k, const std::string &m)
      : std::runtime_error (m), kind (k)
  {
  }
};
std::string fmt (const char *f, ...) __attribute__ ((format (printf, 1, 2)));
#define MC_CHECK(cond, kind, ...)                                              \
  do                                                                           \
    {                                                                          \
      if (!(cond))                                                             \
        throw mc::Fail (kind, mc::fmt (__VA_ARGS__));                          \
    }                                                                          \
  while (0)

// ---------------------------------------------------------------- statistics
struct Stats
{
  uint64_t executions = 0, transitions = 0, checks = 0, nontrivial = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::map<std::string, uint64_t> counters;
  uint64_t capped = 0; // executions not explored because a cap was hit
};
extern Stats g_stats;
inline void
count (const char *k, uint64_t n = 1)
{
  g_stats.counters[k] += n;
}
struct Hash
{
  uint64_t h = 1469598103934665603ull;
  void add (uint64_t v) { h = mix (h ^ (v + 0x9e3779b97f4a7c15ull)); }
  void add (double d)
  {
    uint64_t v;
    memcpy (&v, &d, 8);
    add (v);
  }
  void add (const std::string &s)
  {
    for (char c : s)
      add ((uint64_t) (unsigned char) c);
    add ((uint64_t) s.size ());
  }
};

// ---------------------------------------------------------------- harness API
// A harness registers "families".  A family is a finite list of cases; run()
// executes one case once under the current g_rand and throws Fail (or any
// exception) on a violation.
struct Tier
{
  bool thorough;
};
struct Family
{
  std::string name;
  // number of cases in this tier
  std::function<uint64_t (const Tier &)> size;
  // textual description of a case (for replay files)
  std::function<std::string (const Tier &, uint64_t)> describe;
  // one execution
  std::function<void (const Tier &, uint64_t)> run;
  // exploration bounds: policies, deviation depth and cap on the positions
  int policies_quick = 1, policies_thorough = 2;
  int dev_quick = 0, dev_thorough = 1;
  uint32_t pos_cap_quick = 100000, pos_cap_thorough = 100000;
  uint32_t pos_stride_quick = 1; // explore every k-th call position
  uint32_t pos_stride_thorough = 1;
  // if > 0: additionally all 4^K answer sequences for the first K calls
  int prefix_quick = 0, prefix_thorough = 0;
  double hang_s = 30;
};
// the same executions, judged only by whether they crash, throw or hang (for
// the sanitized builds); at most so many cases of each family
inline std::vector<Family>
crash_only (std::vector<Family> v, uint64_t quick, uint64_t thorough)
{
  for (auto &f : v)
    {
      auto size = f.size;
      f.size = [size, quick, thorough] (const Tier &t) {
        return std::min (size (t), t.thorough ? thorough : quick);
      };
      auto run = f.run;
      f.run = [run] (const Tier &t, uint64_t i) {
        try
          {
            run (t, i);
          }
        catch (Fail &e)
          {
            if (e.kind == "livelock" || e.kind == "exception")
              throw;
            count (("oracle_mismatch:" + e.kind).c_str ());
          }
      };
    }
  return v;
}
template <class V>
inline void
append (V &a, V b)
{
  for (auto &x : b)
    a.push_back (x);
}
int mc_main (int argc, char **argv, const std::string &harness,
             std::function<std::vector<Family> (const std::string &prop)> get);
}
