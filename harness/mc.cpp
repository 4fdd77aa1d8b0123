#include "mc.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc
{
RandCtl g_rand;
HeapCtl g_heap;
Stats g_stats;

uint64_t
mix (uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

void
rand_begin (uint64_t policy, const std::vector<Dev> &devs)
{
  g_rand.policy = policy;
  g_rand.n = 0;
  g_rand.devs = devs;
  g_rand.di = 0;
  g_rand.follow_srand = false;
  g_rand.seed = 0;
  g_rand.srand_calls = 0;
  g_rand.interior = false;
  g_rand.sweep = g_rand.hold = 0;
  g_rand.limit = 50000000;
}

std::string
fmt (const char *f, ...)
{
  char buf[4096];
  va_list ap;
  va_start (ap, f);
  vsnprintf (buf, sizeof buf, f, ap);
  va_end (ap);
  return buf;
}

static double
now ()
{
  struct timespec ts;
  clock_gettime (CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// values a deviating rand() call may answer: both extremes, the thirds, and all
// residues modulo 2, 3 and 4 near each of them
static const int ALPHA_FULL[]
  = { 0,          1,          2,          3,          715827882, 715827883,
      715827884,  1431655764, 1431655765, 1431655766, 2147483644, 2147483645,
      2147483646, 2147483647 };
static const int ALPHA_SMALL[] = { 0, 1, 2, 1073741824, 2147483646, 2147483647 };

struct Shared
{
  volatile uint32_t family;
  volatile uint64_t casei;
  volatile uint64_t policy;
  volatile uint32_t ndev;
  volatile uint32_t pos[24];
  volatile int val[24];
  volatile uint64_t beat;
  volatile uint32_t stop;
};

static std::string
jesc (const std::string &s)
{
  std::string r;
  for (unsigned char c : s)
    {
      if (c == '"' || c == '\\')
        {
          r += '\\';
          r += c;
        }
      else if (c == '\n')
        r += "\\n";
      else if (c < 32 || c > 126)
        r += fmt ("\\u%04x", c);
      else
        r += c;
    }
  return r;
}

static std::vector<Family> fams;
static Tier tier;
static FILE *g_out; // worker's private result file
static Shared *sh;
static int g_violations;
static std::set<std::string> g_viol_keys;
static std::string g_prop, g_harness;
static double g_deadline = 1e300;

static std::string
replay_of (uint32_t f, uint64_t c, uint64_t pol, const std::vector<Dev> &d)
{
  std::string s = fmt ("%s|%llu|%llu", fams[f].name.c_str (),
                       (unsigned long long) c, (unsigned long long) pol);
  for (auto &x : d)
    s += fmt ("|%u:%d", x.pos, x.val);
  return s;
}

static void
emit_violation (FILE *o, uint32_t f, uint64_t c, uint64_t pol,
                const std::vector<Dev> &d, const std::string &kind,
                const std::string &msg)
{
  fprintf (o,
           "{\"v\":1,\"kind\":\"%s\",\"family\":\"%s\",\"case\":%llu,"
           "\"describe\":\"%s\",\"replay\":\"%s\",\"msg\":\"%s\"}\n",
           jesc (kind).c_str (), jesc (fams[f].name).c_str (),
           (unsigned long long) c, jesc (fams[f].describe (tier, c)).c_str (),
           jesc (replay_of (f, c, pol, d)).c_str (), jesc (msg).c_str ());
  fflush (o);
}

// returns true if the execution was fine
static bool
execute (uint32_t f, uint64_t c, uint64_t pol, const std::vector<Dev> &d)
{
  sh->family = f;
  sh->casei = c;
  sh->policy = pol;
  sh->ndev = d.size ();
  for (size_t i = 0; i < d.size () && i < 24; ++i)
    {
      sh->pos[i] = d[i].pos;
      sh->val[i] = d[i].val;
    }
  sh->beat++;
  rand_begin (pol, d);
  g_stats.executions++;
  std::string kind, msg;
  try
    {
      fams[f].run (tier, c);
      return true;
    }
  catch (const Fail &e)
    {
      kind = e.kind;
      msg = e.what ();
    }
  catch (const std::exception &e)
    {
      kind = "exception";
      msg = std::string ("unexpected exception: ") + e.what ();
    }
  catch (...)
    {
      kind = "exception";
      msg = "unexpected exception of unknown type";
    }
  // one report per (family, kind, case) is enough; cap the total per worker
  std::string key = fams[f].name + "|" + kind + "|" + fams[f].describe (tier, c);
  if (g_viol_keys.insert (key).second)
    {
      emit_violation (g_out, f, c, pol, d, kind, msg);
      if (++g_violations >= 40)
        sh->stop = 1;
    }
  return false;
}

static void
explore (uint32_t f, uint64_t c, uint64_t pol, std::vector<Dev> d, int depth,
         uint32_t from)
{
  bool ok = execute (f, c, pol, d);
  uint32_t n = g_rand.n;
  if (!ok || depth <= 0 || sh->stop)
    return;
  uint32_t cap = tier.thorough ? fams[f].pos_cap_thorough
                               : fams[f].pos_cap_quick;
  uint32_t stride
    = tier.thorough ? fams[f].pos_stride_thorough : fams[f].pos_stride_quick;
  bool full = d.empty () && tier.thorough;
  const int *A = full ? ALPHA_FULL : ALPHA_SMALL;
  int nA = full ? sizeof (ALPHA_FULL) / sizeof (int)
                : sizeof (ALPHA_SMALL) / sizeof (int);
  uint32_t done = 0;
  for (uint32_t p = from; p < n; p += stride)
    {
      if (done++ >= cap)
        {
          g_stats.capped += (uint64_t) (n - p) * nA;
          break;
        }
      for (int a = 0; a < nA; ++a)
        {
          if (now () > g_deadline)
            {
              g_stats.capped++;
              count ("deadline_hit");
              return;
            }
          std::vector<Dev> d2 = d;
          d2.push_back (Dev{ p, A[a] });
          explore (f, c, pol, d2, depth - 1, p + 1);
          if (sh->stop)
            return;
        }
    }
}

// every sequence over a four-letter alphabet for the first K calls of rand()
static void
explore_prefix (uint32_t f, uint64_t c, int K)
{
  static const int A[] = { 0, 1, 1073741824, 2147483647 };
  const int nA = 4;
  std::vector<int> ch (K, 0);
  for (;;)
    {
      if (now () > g_deadline)
        {
          g_stats.capped++;
          count ("deadline_hit");
          return;
        }
      std::vector<Dev> d;
      for (int i = 0; i < K; ++i)
        d.push_back (Dev{ (uint32_t) i, A[ch[i]] });
      bool ok = execute (f, c, 0, d);
      count ("prefix_executions");
      if (!ok || sh->stop)
        return;
      int m = std::min<int> (K, g_rand.n);
      int i = m - 1;
      while (i >= 0 && ch[i] == nA - 1)
        --i;
      if (i < 0)
        {
          count ("prefix_trees_exhausted");
          return;
        }
      ch[i]++;
      for (int k = i + 1; k < K; ++k)
        ch[k] = 0;
    }
}

static void
worker_loop (volatile uint64_t *next, const std::vector<std::pair<uint32_t, uint64_t>> &work)
{
  for (;;)
    {
      uint64_t i = __atomic_fetch_add (next, 1, __ATOMIC_SEQ_CST);
      if (i >= work.size () || sh->stop)
        break;
      uint32_t f = work[i].first;
      uint64_t c = work[i].second;
      if (now () > g_deadline)
        {
          g_stats.capped++;
          count ("deadline_cases");
          continue;
        }
      int np = tier.thorough ? fams[f].policies_thorough
                             : fams[f].policies_quick;
      int dep = tier.thorough ? fams[f].dev_thorough : fams[f].dev_quick;
      int pre = tier.thorough ? fams[f].prefix_thorough : fams[f].prefix_quick;
      if (pre > 0)
        explore_prefix (f, c, pre);
      for (int p = 0; p < np && !sh->stop; ++p)
        explore (f, c, p, {}, p == 0 ? dep : (tier.thorough ? std::min (dep, 1) : 0), 0);
      count (("cases:" + fams[f].name).c_str ());
      if (i % (work.size () / 3 + 1) == 0)
        fprintf (g_out,
                 "{\"sample\":\"%s: %s (base schedules %d, deviations %d, "
                 "prefix %d; last execution drew %u numbers)\"}\n",
                 jesc (fams[f].name).c_str (),
                 jesc (fams[f].describe (tier, c)).c_str (), np, dep, pre,
                 g_rand.n);
    }
}

static void
dump_stats (FILE *o)
{
  fprintf (o,
           "{\"s\":1,\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,"
           "\"nontrivial\":%llu,\"capped\":%llu,\"counters\":{",
           (unsigned long long) g_stats.executions,
           (unsigned long long) g_stats.transitions,
           (unsigned long long) g_stats.checks,
           (unsigned long long) g_stats.nontrivial,
           (unsigned long long) g_stats.capped);
  bool first = true;
  for (auto &kv : g_stats.counters)
    {
      fprintf (o, "%s\"%s\":%llu", first ? "" : ",", jesc (kv.first).c_str (),
               (unsigned long long) kv.second);
      first = false;
    }
  fprintf (o, "}}\n");
  fflush (o);
}
static void
dump_hashes (const std::string &path, const std::unordered_set<uint64_t> &s)
{
  FILE *o = fopen (path.c_str (), "wb");
  for (uint64_t h : s)
    fwrite (&h, 8, 1, o);
  fclose (o);
}

int
mc_main (int argc, char **argv, const std::string &harness,
         std::function<std::vector<Family> (const std::string &prop)> get)
{
  std::string prop, t = "quick", out, replay;
  int jobs = 8;
  double budget = 0;
  for (int i = 1; i < argc; ++i)
    {
      std::string a = argv[i];
      auto val = [&] () -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--prop")
        prop = val ();
      else if (a == "--tier")
        t = val ();
      else if (a == "--out")
        out = val ();
      else if (a == "--jobs")
        jobs = atoi (val ().c_str ());
      else if (a == "--replay")
        replay = val ();
      else if (a == "--budget")
        budget = atof (val ().c_str ());
      else
        {
          fprintf (stderr, "unknown argument %s\n", a.c_str ());
          return 3;
        }
    }
  g_prop = prop;
  g_harness = harness;
  tier.thorough = t == "thorough";
  fams = get (prop);
  if (fams.empty ())
    {
      fprintf (stderr, "no families for property %s\n", prop.c_str ());
      return 3;
    }
  int errfd = dup (2);
  FILE *err = fdopen (errfd, "w");
  // the code under test chats on stdout
  int nul = open ("/dev/null", O_WRONLY);
  if (!getenv ("MC_STDOUT"))
    dup2 (nul, 1);

  if (!replay.empty ())
    {
      sh = (Shared *) calloc (1, sizeof (Shared));
      g_out = err;
      // name|case|policy|pos:val...
      std::vector<std::string> parts;
      size_t b = 0;
      for (;;)
        {
          size_t e = replay.find ('|', b);
          parts.push_back (replay.substr (b, e == std::string::npos ? e : e - b));
          if (e == std::string::npos)
            break;
          b = e + 1;
        }
      if (parts.size () < 3)
        return 3;
      for (uint32_t f = 0; f < fams.size (); ++f)
        if (fams[f].name == parts[0])
          {
            std::vector<Dev> d;
            for (size_t k = 3; k < parts.size (); ++k)
              {
                Dev x;
                if (sscanf (parts[k].c_str (), "%u:%d", &x.pos, &x.val) != 2)
                  return 3;
                d.push_back (x);
              }
            alarm (120);
            bool ok = execute (f, strtoull (parts[1].c_str (), 0, 10),
                               strtoull (parts[2].c_str (), 0, 10), d);
            fprintf (err, ok ? "replay: property held\n"
                             : "replay: violation reproduced\n");
            return ok ? 0 : 1;
          }
      fprintf (err, "replay: unknown family %s\n", parts[0].c_str ());
      return 3;
    }

  if (budget > 0)
    g_deadline = now () + budget;
  std::vector<std::pair<uint32_t, uint64_t>> work;
  {
    // interleave families so that a budget cut does not starve the last ones
    std::vector<uint64_t> sz;
    uint64_t mx = 0;
    for (auto &f : fams)
      {
        sz.push_back (f.size (tier));
        mx = std::max (mx, sz.back ());
      }
    for (uint64_t c = 0; c < mx; ++c)
      for (uint32_t f = 0; f < fams.size (); ++f)
        if (c < sz[f])
          work.push_back ({ f, c });
  }
  Shared *shs = (Shared *) mmap (0, sizeof (Shared) * jobs, PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t *next = (uint64_t *) mmap (0, 4096, PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct W
  {
    pid_t pid;
    int gen;
    uint64_t beat;
    double t;
    bool done;
  };
  std::vector<W> ws (jobs);
  signal (SIGCHLD, SIG_DFL); // may be inherited as ignored
  std::string base = out;
  auto spawn = [&] (int w) {
    fflush (stdout);
    fflush (err);
    pid_t p = fork ();
    if (p == 0)
      {
        sh = &shs[w];
        g_out = fopen (fmt ("%s.w%d.%d", base.c_str (), w, ws[w].gen).c_str (),
                       "w");
        worker_loop (next, work);
        dump_stats (g_out);
        fclose (g_out);
        dump_hashes (fmt ("%s.st%d.%d", base.c_str (), w, ws[w].gen),
                     g_stats.states);
        dump_hashes (fmt ("%s.oc%d.%d", base.c_str (), w, ws[w].gen),
                     g_stats.outcomes);
        _exit (0);
      }
    ws[w].pid = p;
    ws[w].beat = shs[w].beat;
    ws[w].t = now ();
  };
  for (int w = 0; w < jobs; ++w)
    {
      ws[w].gen = 0;
      ws[w].done = false;
      spawn (w);
    }
  FILE *pf = fopen ((base + ".parent").c_str (), "w");
  int crashes = 0;
  for (;;)
    {
      bool all = true;
      for (int w = 0; w < jobs; ++w)
        {
          if (ws[w].done)
            continue;
          all = false;
          int st;
          pid_t r = waitpid (ws[w].pid, &st, WNOHANG);
          if (r < 0)
            {
              fprintf (err, "waitpid failed\n");
              return 3;
            }
          bool hang = false;
          if (r == 0)
            {
              if (shs[w].beat != ws[w].beat)
                {
                  ws[w].beat = shs[w].beat;
                  ws[w].t = now ();
                  continue;
                }
              else if (shs[w].beat > 0
                       && now () - ws[w].t > fams[shs[w].family].hang_s)
                {
                  hang = true;
                  kill (ws[w].pid, SIGKILL);
                  waitpid (ws[w].pid, &st, 0);
                }
              else
                continue;
            }
          if (!hang && WIFEXITED (st) && WEXITSTATUS (st) == 0)
            {
              ws[w].done = true;
              continue;
            }
          std::vector<Dev> d;
          for (uint32_t i = 0; i < shs[w].ndev && i < 24; ++i)
            d.push_back (Dev{ shs[w].pos[i], shs[w].val[i] });
          std::string kind = hang ? "hang" : "crash";
          std::string msg
            = hang ? fmt ("execution made no progress for %.0f s",
                          fams[shs[w].family].hang_s)
                   : (WIFSIGNALED (st)
                        ? fmt ("killed by signal %d", WTERMSIG (st))
                        : fmt ("exited with status %d", WEXITSTATUS (st)));
          emit_violation (pf, shs[w].family, shs[w].casei, shs[w].policy, d,
                          kind, msg);
          if (++crashes >= 12)
            {
              for (int k = 0; k < jobs; ++k)
                shs[k].stop = 1;
              ws[w].done = true;
              continue;
            }
          ws[w].gen++;
          spawn (w);
        }
      if (all)
        break;
      usleep (2000);
    }
  fprintf (pf, "{\"p\":1,\"work\":%llu}\n", (unsigned long long) work.size ());
  fclose (pf);
  return 0;
}
}

// ------------------------------------------------------------- interposition
static int
answer (mc::RandCtl &g)
{
  using namespace mc;
  uint32_t n = g.n++;
  if (n > g.limit)
    abort (); // livelock: an execution that draws 5e7 numbers never ends
  while (g.di < g.devs.size () && g.devs[g.di].pos < n)
    g.di++;
  if (g.di < g.devs.size () && g.devs[g.di].pos == n)
    return g.devs[g.di++].val;
  if (g.sweep)
    return (int) (2147483647. * ((g.hold ? g.hold - 1 : n % g.sweep) + 0.5)
                  / g.sweep);
  uint64_t k = g.follow_srand ? (g.seed * 2654435761ull + 977) : g.policy;
  // base schedules 1..4 start with a regular pattern of extreme answers (only a
  // prefix: a constant stream would starve "retry until accepted" loops, which
  // has probability zero)
  if (!g.follow_srand && k >= 1 && k <= 4 && n < 40)
    switch (k)
      {
      case 1:
        return 0;
      case 2:
        return 2147483647;
      case 3:
        return n % 2 ? 2147483647 : 0;
      case 4:
        return (int) (2147483647ll * (n % 5) / 4);
      }
  return (int) (mix ((k << 32) + n) >> 33);
}
extern "C" int
rand (void)
{
  int v = answer (mc::g_rand);
  // 4092 is a multiple of 2, 3, 4 and 6: the residues stay
  if (mc::g_rand.interior && v < 4092)
    v += 4092;
  else if (mc::g_rand.interior && v > 2147483647 - 4092)
    v -= 4092;
  return v;
}
extern "C" void
srand (unsigned s)
{
  using namespace mc;
  g_rand.srand_calls++;
  if (g_rand.follow_srand)
    {
      g_rand.seed = s;
      g_rand.n = 0;
    }
}

// ------------------------------------------------------------- heap
static void *
heap_get (size_t n)
{
  using namespace mc;
  static uint64_t k = 0;
  // the padding goes behind the block: it moves the next ones
  size_t pad = g_heap.skew ? mix (g_heap.skew * 1000003 + k++) % 4 * 16 : 0;
  void *p = malloc ((n ? n : 1) + pad);
  if (!p)
    throw std::bad_alloc ();
  if (g_heap.fill) // giant reservations are not touched
    memset (p, g_heap.fill, n < (64u << 20) ? n : 4096);
  return p;
}
#ifndef MC_NO_HEAP
void *
operator new (size_t n)
{
  return heap_get (n);
}
void *
operator new[] (size_t n)
{
  return heap_get (n);
}
void
operator delete (void *p) noexcept
{
  free (p);
}
void
operator delete[] (void *p) noexcept
{
  free (p);
}
void
operator delete (void *p, size_t) noexcept
{
  free (p);
}
void
operator delete[] (void *p, size_t) noexcept
{
  free (p);
}
#endif
