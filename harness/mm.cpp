// mm.cpp -- exploration of multimodal loadings (P27, P09, P24); scenarios and
// oracle are in mm.h.
#include "mm.h"

// the same input and seed, another layout and content of the heap
static void
mm_same (const Mm &s)
{
  uint64_t pol = mc::g_rand.policy;
  std::vector<mc::Dev> devs = mc::g_rand.devs;
  struct Restore
  {
    mc::HeapCtl h = mc::g_heap;
    ~Restore () { mc::g_heap = h; }
  } keep;
  MTrace a;
  uint64_t ha = 0;
  unsigned draws = 0;
  for (int k = 0; k <= 2; ++k)
    {
      if (k)
        {
          mc::g_heap.skew = k;
          mc::g_heap.fill = k == 1 ? 0x00 : 0x7F;
        }
      mc::rand_begin (pol, devs);
      mc::g_rand.follow_srand = true;
      MNM_Ults::set_random_state (12345 + pol);
      MTrace b;
      uint64_t hb = 0;
      mm_run (s, k ? &b : &a, k ? &hb : &ha);
      if (!k)
        {
          draws = mc::g_rand.n;
          mc::g_stats.nontrivial += a.pass.size () > 1;
          continue;
        }
      std::string w = mm_differ (a, b);
      MC_CHECK (w.empty (), "not-reproducible",
                "two runs of the same multimodal input with the same seed "
                "differ (heap setting %d): %s",
                k, w.c_str ());
      MC_CHECK (ha == hb && draws == mc::g_rand.n, "not-reproducible",
                "two runs of the same multimodal input with the same seed "
                "differ (heap setting %d): other vehicles or draws",
                k);
    }
}

static std::vector<mc::Family>
get (const std::string &p)
{
  std::vector<mc::Family> r;
  if (p != "P27" && p != "P24" && p != "P09")
    return r;
  mc::Family f;
  f.name = "loading";
  // the quick tier takes every fourth combination (mixed over all axes)
  f.size = [] (const mc::Tier &t) {
    return t.thorough ? mm_size () : mm_size () / 4;
  };
  auto nth = [] (uint64_t c) { return c * 40009 % mm_size (); };
  f.describe = [nth] (const mc::Tier &, uint64_t c) { return mm_text (nth (c)); };
  f.run = [nth] (const mc::Tier &, uint64_t c) {
    Mm s;
    mm_case (nth (c), s);
    mm_run (s);
  };
  f.policies_quick = 2;
  f.policies_thorough = 8;
  f.dev_quick = 0;
  f.dev_thorough = 0;
  r.push_back (f);
  if (p == "P09")
    {
      r[0].name = "same-seed";
      r[0].size = [] (const mc::Tier &t) {
        return t.thorough ? mm_size () / 2 : mm_size () / 24;
      };
      r[0].run = [nth] (const mc::Tier &, uint64_t c) {
        Mm s;
        mm_case (nth (c), s);
        mm_same (s);
      };
      r[0].policies_quick = 1;
      return r;
    }
  if (p == "P24")
    return mc::crash_only (r, 4000, 60000);
  return r;
}

int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "mm", get);
}
