// pub.cpp -- P26 generated path sets, and the Python faces of the graph (P12)
// and of the time-dependent shortest paths (P11).
#include "gen.h"
#include "multimodal.h"
#include "pyapi.h"
#include <cmath>
#include <functional>
#include <limits>
#include <multiclass.h>
#include <path.h>
#include <io.h>

static const double INF = std::numeric_limits<double>::infinity ();
typedef std::vector<int> Walk; // nodes
static std::string
str (const Walk &w)
{
  std::string r;
  for (int x : w)
    r += (r.empty () ? "" : "-") + std::to_string (x);
  return r;
}

// ---------------------------------------------------------------- networks
// the roads of a scenario (everything but the connectors), in order
static std::vector<SLink *>
roads (Scenario &s)
{
  std::vector<SLink *> r;
  for (auto &l : s.links)
    if (s.node (l.from).type == "FWJ" && s.node (l.to).type == "FWJ")
      r.push_back (&l);
  return r;
}
enum
{
  N_DIAMOND,
  N_RING,
  N_BRAESS,
  N_HUB,
  N_GRID,
  N_TWOWAY,
  N_NETS
};
static Scenario
net (int which, bool mc, int lt)
{
  GenPoint g;
  g.mc = mc;
  g.lt = lt;
  g.rt = R_HYBRID;
  g.dem = 0;
  g.prof = C_FREE;
  static const int T[]
    = { T_DIAMOND, T_RING, T_BRAESS, T_HUB, T_DIAMOND, T_DIAMOND };
  g.topo = T[which];
  Scenario s = make_scenario (g);
  if (which < N_GRID)
    return s;
  SLink road = *roads (s)[0];
  SLink conn;
  for (auto &l : s.links)
    if (s.node (l.from).type == "DMOND")
      conn = l;
  s.nodes.clear ();
  s.links.clear ();
  s.paths.clear ();
  s.car.clear ();
  s.truck.clear ();
  static const int ID[3][3] = { { 7, 30, 2 }, { 21, 5, 18 }, { 9, 33, 4 } };
  int C = 3, R = which == N_GRID ? 3 : 2;
  for (int r = 0; r < R; ++r)
    for (int c = 0; c < C; ++c)
      s.nodes.push_back (SNode{ ID[r][c], "FWJ" });
  int id = 50;
  auto add = [&] (SLink p, int a, int b) {
    p.id = id;
    id = id > 50 ? 100 - id : 101 - id; // 50 51 49 52 48 ...
    p.from = a;
    p.to = b;
    s.links.push_back (p);
  };
  for (int r = 0; r < R; ++r)
    for (int c = 0; c < C; ++c)
      {
        if (c + 1 < C)
          {
            add (road, ID[r][c], ID[r][c + 1]);
            if (which == N_TWOWAY)
              add (road, ID[r][c + 1], ID[r][c]);
          }
        if (r + 1 < R)
          {
            add (road, ID[r][c], ID[r + 1][c]);
            if (which == N_TWOWAY)
              add (road, ID[r + 1][c], ID[r][c]);
          }
      }
  for (size_t i = 0; i < s.links.size (); ++i)
    s.links[i].id = 60 + (int) ((i * 7) % 19) - (int) i / 19;
  s.nodes.push_back (SNode{ 11, "DMOND" });
  s.nodes.push_back (SNode{ 12, "DMOND" });
  s.nodes.push_back (SNode{ 40, "DMDND" });
  s.nodes.push_back (SNode{ 41, "DMDND" });
  auto con = [&] (int i, int a, int b) {
    SLink p = conn;
    p.id = i;
    p.from = a;
    p.to = b;
    s.links.push_back (p);
  };
  con (100, 11, ID[0][0]);
  con (102, 12, ID[1][0]);
  con (101, ID[R - 1][C - 1], 40);
  con (103, ID[0][C - 1], 41);
  if (which == N_TWOWAY)
    con (104, ID[0][1], 40);
  s.origins = { { 1, 11 }, { 2, 12 } };
  s.dests = { { 9, 40 }, { 4, 41 } };
  s.paths.push_back (SPath{ { 11, ID[0][0], ID[0][1], ID[0][2], 41 }, { 1, 1, 1, 1 } });
  if (which == N_GRID)
    s.paths.push_back (SPath{ { 11, ID[0][0], ID[1][0], ID[1][1], ID[1][2], ID[2][2], 40 },
                              { 1, 1, 1, 1 } });
  else
    s.paths.push_back (SPath{ { 11, ID[0][0], ID[1][0], ID[1][1], ID[1][2], 40 }, { 1, 1, 1, 1 } });
  s.car = { { { 1, 9 }, { 1, 1 } }, { { 1, 4 }, { 1, 0 } }, { { 2, 9 }, { 2, 1 } } };
  s.truck = s.car;
  s.name = fmt ("%s/%s/%s", mc ? "biclass" : "single",
                which == N_GRID ? "grid" : "twoway", LT_N[lt]);
  return s;
}
static int
node_of (const std::vector<std::pair<int, int>> &v, int od)
{
  for (auto &x : v)
    if (x.first == od)
      return x.second;
  return -1;
}
// every cycle-free route between two nodes
static std::vector<Walk>
routes (const Scenario &s, int a, int b)
{
  std::vector<Walk> out;
  Walk cur = { a };
  std::function<void (int)> dfs = [&] (int v) {
    if (v == b)
      {
        out.push_back (cur);
        return;
      }
    for (auto &l : s.links)
      if (l.from == v && std::find (cur.begin (), cur.end (), l.to) == cur.end ())
        {
          cur.push_back (l.to);
          dfs (l.to);
          cur.pop_back ();
        }
  };
  dfs (a);
  return out;
}
typedef std::map<int, double> Cost; // by link
static double
cost_of (const Scenario &s, const Walk &w, const Cost &c)
{
  double r = 0;
  for (size_t i = 0; i + 1 < w.size (); ++i)
    {
      int l = s.link_between (w[i], w[i + 1]);
      if (l < 0)
        return INF;
      r += c.at (l);
    }
  return r;
}
static std::vector<Walk>
read_walks (const std::string &f)
{
  std::vector<Walk> r;
  FILE *h = fopen (f.c_str (), "r");
  MC_CHECK (h, "file", "%s was not written", f.c_str ());
  char buf[4096];
  while (fgets (buf, sizeof buf, h))
    {
      Walk w;
      char *p = buf, *e;
      for (long v = strtol (p, &e, 10); e != p; v = strtol (p, &e, 10))
        {
          w.push_back (v);
          p = e;
        }
      if (!w.empty ())
        r.push_back (w);
    }
  fclose (h);
  return r;
}
static std::vector<VD>
read_rows (const std::string &f)
{
  std::vector<VD> r;
  FILE *h = fopen (f.c_str (), "r");
  MC_CHECK (h, "file", "%s was not written", f.c_str ());
  char buf[4096];
  while (fgets (buf, sizeof buf, h))
    {
      VD w;
      char *p = buf, *e;
      for (double v = strtod (p, &e); e != p; v = strtod (p, &e))
        {
          w.push_back (v);
          p = e;
        }
      if (!w.empty ())
        r.push_back (w);
    }
  fclose (h);
  return r;
}

// ---------------------------------------------------------------- P26 (sets)
struct GenCase
{
  Scenario s;
  Cost toll;
  double vot = 0.01, mid = 1.5, heavy = 3, min_len = -1;
  int rounds = 3;
};
typedef std::map<std::pair<int, int>, std::vector<Walk>> Table;
static Table
group (const Scenario &s, const std::vector<Walk> &ws)
{
  Table t;
  for (auto &w : ws)
    {
      MC_CHECK (w.size () >= 2, "path", "a generated path has one node");
      t[{ w.front (), w.back () }].push_back (w);
    }
  return t;
}
static void
gen_table (const GenCase &c, int rounds, py::object *d, MNM_Dta *dta,
           std::vector<Walk> &out)
{
  const Scenario &s = c.s;
  std::string dir = scratch ();
  unlink ((dir + "/path_table").c_str ());
  unlink ((dir + "/path_table_buffer").c_str ());
  if (s.mc)
    d->attr ("generate_shortest_pathsets") (dir, rounds, c.vot, c.mid, c.heavy,
                                            c.min_len);
  else
    {
      Path_Table *t
        = MNM::build_pathset (dta->m_graph, dta->m_od_factory,
                              dta->m_link_factory, c.min_len, rounds, c.vot,
                              c.mid, c.heavy, s.max_interval);
      MNM::save_driving_path_table (dir, t, "path_table", "path_table_buffer",
                                    true);
      for (auto &o : *t)
        {
          for (auto &x : *o.second)
            delete x.second;
          delete o.second;
        }
      delete t;
    }
  out = read_walks (dir + "/path_table");
  auto b = read_rows (dir + "/path_table_buffer");
  MC_CHECK (b.size () == out.size (), "buffer", "%zu paths but %zu buffer rows",
            out.size (), b.size ());
  for (auto &x : b)
    {
      MC_CHECK ((int) x.size () == s.max_interval * (s.mc ? 2 : 1), "buffer",
                "a buffer row has %zu columns", x.size ());
      for (double v : x)
        MC_CHECK (v == 0, "buffer", "a new path has share %g", v);
    }
}
static void
run_gen (const GenCase &c)
{
  const Scenario &s = c.s;
  clear_dir (scratch ());
  write_scenario (s, scratch ());
  py::object d;
  std::unique_ptr<MNM_Dta> dta;
  if (s.mc)
    d = macposts_module ().attr ("Mcdta").attr ("from_files") (scratch ());
  else
    {
      dta.reset (new MNM_Dta (scratch ()));
      dta->build_from_files ();
      dta->hook_up_node_and_link ();
    }
  Cost free, len;
  for (auto &l : s.links)
    {
      double t = l.len / l.ffs * 3600;
      free[l.id] = c.vot * t + (c.toll.count (l.id) ? c.toll.at (l.id) : 0);
      len[l.id] = l.len * 1600;
    }
  std::map<std::pair<int, int>, std::vector<Walk>> all;
  for (auto &x : s.car)
    {
      int a = node_of (s.origins, x.first.first),
          b = node_of (s.dests, x.first.second);
      all[{ a, b }] = routes (s, a, b);
    }
  Table prev;
  mc::Hash h;
  for (int r = 0; r <= c.rounds; ++r)
    {
      std::vector<Walk> ws;
      gen_table (c, r, &d, dta.get (), ws);
      Table t = group (s, ws);
      mc::g_stats.transitions++;
      Cost cm = free, ch = free;
      if (r)
        for (auto &p : prev)
          for (auto &w : p.second)
            for (size_t i = 0; i + 1 < w.size (); ++i)
              {
                int l = s.link_between (w[i], w[i + 1]);
                double tt = s.link (l).len / s.link (l).ffs * 3600;
                double tl = c.toll.count (l) ? c.toll.at (l) : 0;
                cm[l] = c.vot * tt * c.mid + tl;
                ch[l] = c.vot * tt * c.heavy + tl;
              }
      for (auto &p : t)
        {
          MC_CHECK (all.count (p.first), "pair",
                    "round %d: a path %s for a pair without demand", r,
                    str (p.second[0]).c_str ());
          auto &A = all[p.first];
          std::set<Walk> seen;
          for (auto &w : p.second)
            {
              mc::g_stats.checks++;
              MC_CHECK (std::find (A.begin (), A.end (), w) != A.end (), "route",
                        "round %d: %s is not a cycle-free route", r,
                        str (w).c_str ());
              MC_CHECK (seen.insert (w).second, "duplicate",
                        "round %d: %s is listed twice", r, str (w).c_str ());
              MC_CHECK (cost_of (s, w, len) > c.min_len - 1e-6, "min-length",
                        "round %d: %s is %g m long, the minimum is %g", r,
                        str (w).c_str (), cost_of (s, w, len), c.min_len);
            }
        }
      for (auto &kv : all)
        {
          auto &A = kv.second;
          auto &now = t[kv.first];
          auto &old = prev[kv.first];
          auto best = [&] (const Cost &k) {
            double b = INF;
            for (auto &w : A)
              b = std::min (b, cost_of (s, w, k));
            return b;
          };
          auto opt = [&] (const Walk &w, const Cost &k, double b) {
            return cost_of (s, w, k) <= b + 1e-9 * (1 + b);
          };
          auto has = [&] (const Cost &k, double b) {
            // a cheapest route is in the set, or may be too short
            for (auto &w : now)
              if (opt (w, k, b))
                return true;
            for (auto &w : A)
              if (opt (w, k, b) && cost_of (s, w, len) <= c.min_len + 1e-6)
                return true;
            return false;
          };
          for (auto &w : old)
            MC_CHECK (std::find (now.begin (), now.end (), w) != now.end (),
                      "lost", "round %d: %s of the round before is missing", r,
                      str (w).c_str ());
          double bm = best (cm), bh = best (ch);
          int fresh = 0;
          for (auto &w : now)
            if (std::find (old.begin (), old.end (), w) == old.end ())
              {
                ++fresh;
                mc::g_stats.checks++;
                mc::g_stats.nontrivial += r > 0;
                MC_CHECK (opt (w, cm, bm) || opt (w, ch, bh), "not-cheapest",
                          "round %d: the new path %s costs %.9g / %.9g, the "
                          "cheapest %.9g / %.9g",
                          r, str (w).c_str (), cost_of (s, w, cm),
                          cost_of (s, w, ch), bm, bh);
              }
          MC_CHECK (fresh <= (r ? 2 : 1), "too-many",
                    "round %d: %d new paths for one pair", r, fresh);
          mc::g_stats.checks += 2;
          MC_CHECK (has (cm, bm), "missing",
                    "round %d: no cheapest path from %d to %d %s", r,
                    kv.first.first, kv.first.second,
                    r ? "with the lower penalty" : "at free flow");
          MC_CHECK (has (ch, bh), "missing",
                    "round %d: no cheapest path from %d to %d with the higher "
                    "penalty",
                    r, kv.first.first, kv.first.second);
          for (auto &w : now)
            h.add (str (w));
          h.add ((uint64_t) r);
          mc::g_stats.states.insert (h.h);
        }
      prev = t;
    }
  mc::g_stats.outcomes.insert (h.h);
}
static GenCase
gen_case (int which, uint64_t i, bool mc)
{
  static const int LTS[] = { L_CTM, L_LQ, L_PQ, L_MIX };
  GenCase c;
  // settings: two of each, then the lengths
  int toll = i % 2, scale = i / 2 % 2, minl = i / 4 % 2, dem = i / 8 % 2;
  i /= 16;
  c.s = net (which, mc, LTS[(i * 5 + toll) % 4]);
  auto rd = roads (c.s);
  static const double L3[] = { 0.2, 0.3, 0.5 }, L2[] = { 0.2, 0.35 };
  bool two = which >= N_GRID;
  int k = 0;
  for (auto *l : rd)
    {
      l->len = two ? L2[i % 2] : L3[i % 3];
      i /= two ? 2 : 3;
      l->len += 0.001 * (k % 2);
      ++k;
    }
  k = 0;
  if (toll)
    {
      c.vot = 0.02;
      std::string f = mc ? "# link car truck\n" : "# link toll\n";
      for (auto &l : c.s.links)
        if (++k % 2)
          {
            c.toll[l.id] = 0.07 * k;
            f += mc ? fmt ("%d %s 1\n", l.id, num (c.toll[l.id]).c_str ())
                    : fmt ("%d %s\n", l.id, num (c.toll[l.id]).c_str ());
          }
      c.s.extra_conf += fmt ("num_of_tolled_link = %zu\n", c.toll.size ());
      c.s.extra["MNM_input_link_toll"] = f;
    }
  if (scale)
    {
      c.mid = 2.5;
      c.heavy = 8;
    }
  if (minl)
    c.min_len = which >= N_GRID ? 1600 * (which == N_GRID ? 1.25 : 0.95) + 0.3
                                : 1600 * 0.67 + 0.3;
  if (dem && c.s.car.size () > 1)
    {
      c.s.car.erase (c.s.car.begin ());
      c.s.truck = c.s.car;
    }
  return c;
}
static std::string
describe (const GenCase &c)
{
  std::string r = c.s.name + " lengths";
  for (auto &l : c.s.links)
    r += fmt (" %d-%d:%g", l.from, l.to, l.len);
  return r
         + fmt (" tolls %zu vot %g penalties %g %g min %g pairs %zu",
                c.toll.size (), c.vot, c.mid, c.heavy, c.min_len,
                c.s.car.size ());
}
static mc::Family
fam_gen (int which, bool mc, const char *name, uint64_t quick, uint64_t thorough)
{
  mc::Family f;
  f.name = fmt ("sets-%s-%s", name, mc ? "biclass" : "single");
  f.size = [=] (const mc::Tier &t) { return t.thorough ? thorough : quick; };
  // the quick tier steps through the whole space with a stride
  auto idx = [=] (const mc::Tier &t, uint64_t i) {
    return t.thorough ? i : i * (thorough / quick) + i % (thorough / quick);
  };
  f.describe = [=] (const mc::Tier &t, uint64_t i) {
    return describe (gen_case (which, idx (t, i), mc));
  };
  f.run = [=] (const mc::Tier &t, uint64_t i) {
    try
      {
        run_gen (gen_case (which, idx (t, i), mc));
      }
    catch (py::error_already_set &e)
      {
        throw Fail ("python-error", e.what ());
      }
  };
  f.policies_quick = f.policies_thorough = 1;
  f.dev_quick = f.dev_thorough = 0;
  f.hang_s = 60;
  return f;
}

// ---------------------------------------------------------------- P26 (cover)
struct CovCase
{
  Scenario s;
  VI links, paths;
  int fn = 0, iters = 1; // 0: registered links; 1: given links (two-class)
  VI given;
};
static void
run_cover (const CovCase &c)
{
  const Scenario &s = c.s;
  clear_dir (scratch ());
  write_scenario (s, scratch ());
  auto pol = mc::g_rand.policy;
  auto devs = mc::g_rand.devs;
  py::object &m = macposts_module ();
  mc::rand_begin (pol, devs);
  py::object d = m.attr (s.mc ? "Mcdta" : "Dta").attr ("from_files") (scratch ());
  d.attr ("register_links") (iarr (c.links));
  d.attr ("register_paths") (iarr (c.paths));
  auto on = [&] (int l, const Walk &w) {
    for (size_t i = 0; i + 1 < w.size (); ++i)
      if (s.link_between (w[i], w[i + 1]) == l)
        return true;
    return false;
  };
  Cost ff;
  for (auto &l : s.links)
    ff[l.id] = l.len / l.ffs * 3600;
  auto dist = [&] (int a, int b) {
    double r = INF;
    for (auto &w : routes (s, a, b))
      r = std::min (r, cost_of (s, w, ff));
    return r;
  };
  std::vector<std::pair<int, int>> pairs;
  for (auto &x : s.car)
    pairs.push_back ({ node_of (s.origins, x.first.first),
                       node_of (s.dests, x.first.second) });
  auto coverable = [&] (int l) {
    for (auto &p : pairs)
      if (dist (p.first, s.link (l).from) < INF && dist (s.link (l).to, p.second) < INF)
        return true;
    return false;
  };
  std::vector<Walk> reg;
  for (int p : c.paths)
    reg.push_back (s.paths[p].nodes);
  auto check_cov = [&] () {
    Mat a = mat (d.attr ("are_registered_links_in_registered_paths") ());
    MC_CHECK (a.v.size () == c.links.size (), "coverage",
              "%zu coverage flags for %zu links", a.v.size (), c.links.size ());
    for (size_t i = 0; i < c.links.size (); ++i)
      {
        bool want = false;
        for (auto &w : reg)
          want |= on (c.links[i], w);
        mc::g_stats.checks++;
        MC_CHECK ((a.v[i] != 0) == want, "coverage",
                  "link %d: reported %s", c.links[i],
                  want ? "not covered, but it is" : "covered, but it is not");
      }
    if (s.mc && !c.links.empty () && !reg.empty ())
      {
        Mat g = mat (d.attr ("get_registered_links_coverage_in_registered_paths") ());
        shape_is (g, { (long) reg.size (), (long) c.links.size () }, "coverage");
        for (size_t j = 0; j < reg.size (); ++j)
          for (size_t i = 0; i < c.links.size (); ++i)
            {
              mc::g_stats.checks++;
              MC_CHECK (g.at (j, i) == (on (c.links[i], reg[j]) ? 1 : 0),
                        "coverage", "link %d on path %s is reported as %g",
                        c.links[i], str (reg[j]).c_str (), g.at (j, i));
            }
      }
  };
  check_cov ();
  const VI &want = c.fn ? c.given : c.links;
  bool all_covered = true, some_impossible = false;
  for (int l : want)
    {
      bool cov = false;
      for (auto &w : reg)
        cov |= on (l, w);
      all_covered &= cov;
      some_impossible |= !cov && !coverable (l);
    }
  bool threw = false;
  Mat r;
  try
    {
      if (c.fn)
        r = mat (d.attr ("generate_paths_to_cover_links") (iarr (c.given), c.iters));
      else
        r = mat (d.attr ("generate_paths_to_cover_registered_links") ());
    }
  catch (py::error_already_set &e)
    {
      threw = true;
      if (s.mc || !some_impossible)
        throw;
    }
  if (threw)
    {
      mc::count ("refused");
      return;
    }
  MC_CHECK (s.mc || !some_impossible, "impossible",
            "a link that is on no route was reported as covered");
  MC_CHECK (r.v.size () == want.size () + !c.fn, "result", "%zu entries",
            r.v.size ());
  // the table on file: the old paths with their shares, then new ones
  std::vector<Walk> now = read_walks (scratch () + "/path_table");
  auto buf = read_rows (scratch () + "/path_table_buffer");
  MC_CHECK (buf.size () == now.size (), "buffer", "%zu paths, %zu rows of shares",
            now.size (), buf.size ());
  std::vector<bool> used (now.size (), false);
  int nb = s.max_interval * (s.mc ? 2 : 1);
  for (auto &p : s.paths)
    {
      bool ok = false;
      for (size_t i = 0; i < now.size () && !ok; ++i)
        if (!used[i] && now[i] == p.nodes && (int) buf[i].size () == nb)
          {
            bool eq = true;
            for (int k = 0; k < nb; ++k)
              eq &= std::fabs (buf[i][k] - p.buf[k]) < 1e-5;
            if (eq)
              ok = used[i] = true;
          }
      MC_CHECK (ok, "lost", "the path %s is not in the table any more (or has "
                "other shares)", str (p.nodes).c_str ());
    }
  std::vector<Walk> fresh;
  for (size_t i = 0; i < now.size (); ++i)
    if (!used[i])
      {
        auto &w = now[i];
        mc::g_stats.checks++;
        mc::g_stats.nontrivial++;
        MC_CHECK (cost_of (s, w, ff) < INF, "route", "%s is not connected",
                  str (w).c_str ());
        MC_CHECK (std::find (pairs.begin (), pairs.end (),
                             std::make_pair (w.front (), w.back ()))
                    != pairs.end (),
                  "pair", "%s joins no pair with demand", str (w).c_str ());
        bool good = false;
        for (int l : want)
          {
            bool cov = false;
            for (auto &x : reg)
              cov |= on (l, x);
            if ((cov && !c.fn) || !on (l, w))
              continue;
            double b = dist (w.front (), s.link (l).from) + ff[l]
                       + dist (s.link (l).to, w.back ());
            good |= std::fabs (cost_of (s, w, ff) - b) < 1e-6;
          }
        MC_CHECK (good, "detour",
                  "%s is not the shortest way over a link to be covered",
                  str (w).c_str ());
        for (double v : buf[i])
          MC_CHECK (v == 0, "buffer", "a new path has share %g", v);
        fresh.push_back (w);
      }
  if (c.fn == 0)
    {
      MC_CHECK (r.v[0] == (all_covered ? 0 : 1), "flag",
                "the update flag is %g", r.v[0]);
      MC_CHECK (!all_covered || fresh.empty (), "needless",
                "paths were added although all links are covered");
      for (size_t i = 0; i < want.size (); ++i)
        {
          bool cov = false;
          for (auto &w : reg)
            cov |= on (want[i], w);
          for (auto &w : fresh)
            cov |= on (want[i], w);
          mc::g_stats.checks++;
          MC_CHECK (cov || !coverable (want[i]), "uncovered",
                    "link %d is still on no path", want[i]);
          MC_CHECK (r.v[1 + i] == (cov ? 1 : 0), "result",
                    "link %d: coverage is reported as %g", want[i], r.v[1 + i]);
        }
    }
  else
    {
      for (size_t i = 0; i < want.size (); ++i)
        {
          int n = 0;
          bool old = false;
          for (auto &w : fresh)
            n += on (want[i], w);
          for (auto &p : s.paths)
            old |= on (want[i], p.nodes);
          mc::g_stats.checks++;
          MC_CHECK (r.v[i] == n, "result", "link %d: %g new paths are reported, "
                    "there are %d", want[i], r.v[i], n);
          MC_CHECK (n || old || !coverable (want[i]), "uncovered",
                    "link %d is still on no path", want[i]);
        }
      std::set<Walk> u (now.begin (), now.end ());
      MC_CHECK (u.size () == now.size (), "duplicate", "a path is listed twice");
    }
  // the new paths count as registered, after the old ones, in the order made
  // (any order fits: what is covered does not depend on it)
  if (!s.mc || c.fn == 0)
    {
      for (auto &w : fresh)
        reg.push_back (w);
      Mat a = mat (d.attr ("are_registered_links_in_registered_paths") ());
      for (size_t i = 0; i < c.links.size (); ++i)
        {
          bool cov = false;
          for (auto &w : reg)
            cov |= on (c.links[i], w);
          MC_CHECK ((a.v.at (i) != 0) == cov, "coverage",
                    "link %d: wrong coverage after the update", c.links[i]);
        }
    }
  mc::g_stats.transitions++;
  mc::Hash h;
  h.add (s.name);
  for (auto &w : now)
    h.add (str (w));
  mc::g_stats.states.insert (h.h);
  mc::g_stats.outcomes.insert (h.h);
}
static const int COV_NETS[] = { N_DIAMOND, N_RING, N_BRAESS, N_HUB, N_GRID, N_TWOWAY };
// all (network, link model, demand, set of registered paths, set of links)
static std::vector<std::array<int, 6>>
cov_cases (bool mc, bool thorough)
{
  std::vector<std::array<int, 6>> r;
  for (int w : COV_NETS)
    {
      Scenario s = net (w, mc, L_CTM);
      int np = s.paths.size (), nl = s.links.size ();
      for (int dem = 0; dem < 2; ++dem)
        for (int pm = 0; pm < (1 << np); ++pm)
          {
            if (!thorough && np > 4 && pm % 5)
              continue;
            for (int ls = 0; ls < nl + 3; ++ls)
              for (int fn = 0; fn < (mc ? 3 : 1); ++fn)
                r.push_back ({ w, dem, pm, ls, fn, (pm + ls) % 4 });
          }
    }
  return r;
}
static CovCase
cov_case (const std::array<int, 6> &k, bool mc)
{
  CovCase c;
  c.s = net (k[0], mc, std::vector<int>{ L_CTM, L_LQ, L_PQ, L_MIX }[k[5]]);
  if (k[1] && c.s.car.size () > 1)
    {
      // keep only the pairs that have paths
      c.s.car.erase (c.s.car.begin ());
      c.s.truck = c.s.car;
    }
  // a path table may only have pairs with demand
  {
    std::vector<SPath> keep;
    for (auto &p : c.s.paths)
      for (auto &x : c.s.car)
        if (node_of (c.s.origins, x.first.first) == p.nodes.front ()
            && node_of (c.s.dests, x.first.second) == p.nodes.back ())
          {
            keep.push_back (p);
            break;
          }
    c.s.paths = keep;
    // and every pair with demand has a path to begin with
    auto bare = [&] (const std::pair<const std::pair<int, int>, VD> &x) {
      for (auto &p : c.s.paths)
        if (node_of (c.s.origins, x.first.first) == p.nodes.front ()
            && node_of (c.s.dests, x.first.second) == p.nodes.back ())
          return false;
      return true;
    };
    for (auto i = c.s.car.begin (); i != c.s.car.end ();)
      i = bare (*i) ? c.s.car.erase (i) : std::next (i);
    if (mc)
      c.s.truck = c.s.car;
  }
  int i = 0;
  for (auto *l : roads (c.s))
    l->len = 0.2 + 0.05 * (i++ % 3);
  for (size_t p = 0; p < c.s.paths.size (); ++p)
    if (k[2] >> p & 1)
      c.paths.push_back (p);
  VI all;
  for (auto &l : c.s.links)
    all.push_back (l.id);
  int nl = all.size ();
  VI set;
  if (k[3] < nl)
    set = { all[k[3]] };
  else if (k[3] == nl)
    set = all;
  else
    for (int j = k[3] - nl - 1; j < nl; j += 2)
      set.push_back (all[j]);
  if (k[3] == nl + 2)
    std::reverse (set.begin (), set.end ());
  c.fn = k[4] > 0;
  c.iters = k[4] == 2 ? 3 : 1;
  if (c.fn)
    {
      c.given = set;
      c.links = all;
      std::sort (c.links.begin (), c.links.end ());
    }
  else
    c.links = set;
  return c;
}
static mc::Family
fam_cover (bool mc)
{
  mc::Family f;
  f.name = mc ? "cover-biclass" : "cover-single";
  f.size = [=] (const mc::Tier &t) {
    return (uint64_t) cov_cases (mc, t.thorough).size ();
  };
  f.describe = [=] (const mc::Tier &t, uint64_t i) {
    auto k = cov_cases (mc, t.thorough).at (i);
    return fmt ("%s demand %d paths %x links %d function %d",
                net (k[0], mc, L_CTM).name.c_str (), k[1], k[2], k[3], k[4]);
  };
  f.run = [=] (const mc::Tier &t, uint64_t i) {
    static std::map<bool, std::vector<std::array<int, 6>>> cs;
    if (!cs.count (mc))
      cs[mc] = cov_cases (mc, t.thorough);
    try
      {
        run_cover (cov_case (cs[mc].at (i), mc));
      }
    catch (py::error_already_set &e)
      {
        throw Fail ("python-error", e.what ());
      }
  };
  f.policies_quick = 1;
  f.policies_thorough = 4;
  f.dev_quick = 0;
  f.dev_thorough = 1;
  f.pos_cap_thorough = 12;
  f.hang_s = 60;
  return f;
}

// ================================================================ P12
// the graph as Python sees it, over all sequences of insertions
static void
run_pygraph (uint64_t code, int depth)
{
  py::object gm = py::module_::import ("macposts.graph");
  py::object g = gm.attr ("Graph") ();
  py::object DIR[2] = { gm.attr ("Direction").attr ("Incoming"),
                        gm.attr ("Direction").attr ("Outgoing") };
  std::set<int> nd;
  std::map<int, std::pair<int, int>> ld;
  static const int NI[] = { 4, 9, 2, 77 };
  auto refused = [&] (std::function<void ()> f) {
    try
      {
        f ();
      }
    catch (py::error_already_set &)
      {
        return true;
      }
    return false;
  };
  auto ids = [&] (const py::object &o) {
    std::multiset<int> r;
    for (auto x : o)
      r.insert (x.cast<int> ());
    return r;
  };
  mc::Hash h;
  for (int s = 0; s < depth; ++s)
    {
      int op = code % 23;
      code /= 23;
      bool threw, want;
      if (op < 3)
        {
          want = nd.count (NI[op]);
          threw = refused ([&] { g.attr ("add_node") (NI[op]); });
          nd.insert (NI[op]);
        }
      else
        {
          int k = op - 3, id = 50 + k % 2;
          k /= 2;
          int a = NI[k == 9 ? 0 : k / 3], b = NI[k == 9 ? 3 : k % 3];
          want = !nd.count (a) || !nd.count (b) || ld.count (id) || a == b;
          threw = refused ([&] { g.attr ("add_link") (a, b, id); });
          if (!want)
            ld[id] = { a, b };
        }
      MC_CHECK (threw == want, "rejection",
                "Python: step %d: insertion %d %s, expected the opposite", s, op,
                threw ? "was refused" : "was accepted");
      mc::g_stats.transitions++;
      mc::g_stats.checks++;
      h.add ((uint64_t) nd.size ());
      std::multiset<int> wn (nd.begin (), nd.end ()), wl;
      for (auto &l : ld)
        wl.insert (l.first);
      MC_CHECK (ids (g.attr ("nodes") ()) == wn
                  && g.attr ("size_nodes").cast<size_t> () == nd.size (),
                "nodes", "Python: listed nodes differ from those added");
      MC_CHECK (ids (g.attr ("links") ()) == wl
                  && g.attr ("size_links").cast<size_t> () == ld.size (),
                "links", "Python: listed links differ from those added");
      for (int n : NI)
        {
          if (!nd.count (n))
            {
              MC_CHECK (refused ([&] { g.attr ("get_node") (n); })
                          && refused ([&] { g.attr ("neighbors") (n, DIR[0]); })
                          && refused (
                            [&] { g.attr ("connections") (n, DIR[1]); }),
                        "missing", "Python: node %d was never added", n);
              continue;
            }
          MC_CHECK (g.attr ("get_id") (g.attr ("get_node") (n)).cast<int> () == n,
                    "node-id", "Python: node %d has another id", n);
          for (int d = 0; d < 2; ++d)
            {
              std::multiset<int> wc;
              std::set<int> wnb;
              for (auto &l : ld)
                if ((d ? l.second.first : l.second.second) == n)
                  {
                    wc.insert (l.first);
                    wnb.insert (d ? l.second.second : l.second.first);
                  }
              auto gn = ids (g.attr ("neighbors") (n, DIR[d]));
              MC_CHECK (ids (g.attr ("connections") (n, DIR[d])) == wc,
                        "connections", "Python: links %s node %d are wrong",
                        d ? "out of" : "into", n);
              MC_CHECK (gn == std::multiset<int> (wnb.begin (), wnb.end ()),
                        "neighbors", "Python: nodes next to %d (%s) are wrong",
                        n, d ? "outgoing" : "incoming");
            }
        }
      for (int l : { 50, 51 })
        {
          if (!ld.count (l))
            {
              MC_CHECK (refused ([&] { g.attr ("get_link") (l); })
                          && refused ([&] { g.attr ("get_endpoints") (l); }),
                        "missing", "Python: link %d was never added", l);
              continue;
            }
          MC_CHECK (g.attr ("get_id") (g.attr ("get_link") (l)).cast<int> () == l,
                    "link-id", "Python: link %d has another id", l);
          auto ep
            = g.attr ("get_endpoints") (l).cast<std::pair<int, int>> ();
          MC_CHECK (ep == ld[l], "endpoints",
                    "Python: link %d joins %d to %d, reported %d to %d", l,
                    ld[l].first, ld[l].second, ep.first, ep.second);
          h.add ((uint64_t) l);
          h.add ((uint64_t) ep.first);
          h.add ((uint64_t) ep.second);
        }
    }
  if (!ld.empty ())
    mc::g_stats.nontrivial++;
  mc::g_stats.states.insert (h.h);
  mc::g_stats.outcomes.insert (h.h);
}
static mc::Family
fam_pygraph ()
{
  auto n = [] (bool thorough) {
    uint64_t r = 1;
    for (int i = 0; i < (thorough ? 5 : 3); ++i)
      r *= 23;
    return r;
  };
  mc::Family f;
  f.name = "python-graph";
  f.size = [=] (const mc::Tier &t) { return n (t.thorough); };
  f.describe = [] (const mc::Tier &, uint64_t i) {
    return fmt ("Python graph, insertion sequence %llu", (unsigned long long) i);
  };
  f.run = [] (const mc::Tier &t, uint64_t i) {
    macposts_module ();
    try
      {
        // quick: all sequences of three insertions, after the three nodes and
        // without them
        if (t.thorough)
          run_pygraph (i, 5);
        else
          {
            run_pygraph (i, 3);
            run_pygraph (0 + 23 * (1 + 23 * (2 + 23 * i)), 6);
          }
      }
    catch (py::error_already_set &e)
      {
        throw Fail ("python-error", e.what ());
      }
  };
  f.policies_quick = f.policies_thorough = 1;
  f.dev_quick = f.dev_thorough = 0;
  f.hang_s = 60;
  return f;
}

// ================================================================ P11
// the time-dependent shortest path object of the Python package
struct TdNet
{
  VI nodes;
  std::vector<std::array<int, 3>> e; // id, from, to
};
static TdNet
td_net (int which)
{
  if (which == 0)
    return { { 7, 3, 12, 5 },
             { { 10, 7, 3 }, { 11, 7, 12 }, { 12, 3, 5 }, { 13, 12, 5 }, { 14, 3, 12 } } };
  return { { 7, 3, 12 },
           { { 30, 7, 3 }, { 29, 3, 7 }, { 28, 3, 12 }, { 27, 7, 12 } } };
}
static void
run_pytdsp (const TdNet &n, int M, const std::map<int, VD> &tt,
            const std::map<int, VD> &cost, bool txt, bool turns, int dest)
{
  clear_dir (scratch ());
  std::string dir = scratch ();
  {
    std::ofstream c (dir + "/config.conf");
    c << "[Network]\nnetwork_name = Snap_graph\nnum_of_link = " << n.e.size ()
      << "\nnum_of_node = " << n.nodes.size () << "\n";
    std::ofstream s (dir + "/Snap_graph");
    s << "# ID from to\n";
    for (auto &e : n.e)
      s << e[0] << " " << e[1] << " " << e[2] << "\n";
  }
  std::vector<std::array<int, 3>> tn;
  for (auto &a : n.e)
    for (auto &b : n.e)
      if (a[2] == b[1])
        tn.push_back ({ a[2], a[0], b[0] });
  py::object d = macposts_module ().attr ("Tdsp") ();
  d.attr ("initialize") (dir, M, (int) n.e.size (), turns ? (int) tn.size () : -1);
  py::object np = py::module_::import ("numpy");
  auto load = [&] (const std::map<int, VD> &a, const std::map<int, VD> &b,
                   bool by_file) {
    VD A, B, Z;
    for (auto &e : n.e)
      {
        A.push_back (e[0]);
        B.push_back (e[0]);
        A.insert (A.end (), a.at (e[0]).begin (), a.at (e[0]).end ());
        B.insert (B.end (), b.at (e[0]).begin (), b.at (e[0]).end ());
      }
    for (auto &x : tn)
      {
        Z.insert (Z.end (), { (double) x[0], (double) x[1], (double) x[2] });
        Z.insert (Z.end (), M, 0.);
      }
    if (by_file)
      {
        auto put = [&] (const char *f, const VD &v, int cols, int ids) {
          std::ofstream o (dir + "/" + f);
          o << "# header\n";
          for (size_t i = 0; i < v.size (); ++i)
            {
              int c = i % cols;
              if (c < ids)
                o << (int) v[i];
              else if (std::isinf (v[i]))
                o << "inf";
              else
                o << v[i];
              o << (c == cols - 1 ? "\n" : " ");
            }
        };
        put ("tt_file", A, M + 1, 1);
        put ("cost_file", B, M + 1, 1);
        put ("ntt_file", Z, M + 3, 3);
        put ("ncost_file", Z, M + 3, 3);
        d.attr ("read_td_cost_txt") (dir, "tt_file", "ntt_file", "cost_file",
                                     "ncost_file");
      }
    else
      {
        auto sh = [&] (const VD &v, int cols) {
          return darr (v).attr ("reshape") (v.size () / cols, cols);
        };
        d.attr ("read_td_cost_py") (sh (A, M + 1), sh (B, M + 1), sh (Z, M + 3),
                                    sh (Z, M + 3));
      }
  };
  // an earlier use of the object, with other costs and another destination
  std::map<int, VD> ones;
  for (auto &e : n.e)
    ones[e[0]] = VD (M, 1.);
  load (ones, ones, !txt);
  d.attr ("build_tdsp_tree") (n.nodes[0]);
  load (tt, cost, txt);
  d.attr ("build_tdsp_tree") (dest);
  auto up = [] (double x) { return x < 1 ? 1 : (int) std::ceil (x); };
  // least costs by definition, backwards in time
  std::map<int, VD> D;
  for (int v : n.nodes)
    D[v].assign (M, v == dest ? 0 : INF);
  for (size_t r = 0; r < n.nodes.size (); ++r)
    for (auto &e : n.e)
      D[e[1]][M - 1] = std::min (D[e[1]][M - 1],
                                 cost.at (e[0])[M - 1] + D[e[2]][M - 1]);
  D[dest][M - 1] = 0;
  for (int k = M - 2; k >= 0; --k)
    for (auto &e : n.e)
      if (e[1] != dest)
        D[e[1]][k]
          = std::min (D[e[1]][k],
                      cost.at (e[0])[k]
                        + D[e[2]][std::min (M - 1, k + up (tt.at (e[0])[k]))]);
  mc::Hash h;
  for (int v : n.nodes)
    for (int k = 0; k < M; ++k)
      {
        Mat r = mat (d.attr ("extract_tdsp") (v, k));
        MC_CHECK (r.shape.size () == 2 && r.shape[0] >= 1 && r.shape[1] == 4,
                  "shape", "Tdsp: unexpected shape of the result");
        mc::g_stats.transitions++;
        mc::g_stats.checks++;
        h.add (D[v][k]);
        MC_CHECK (close (r.at (0, 2), D[v][k]), "distance",
                  "Tdsp: from %d at %d to %d: reported cost %g, least is %g", v,
                  k, dest, r.at (0, 2), D[v][k]);
        if (std::isinf (D[v][k]))
          {
            MC_CHECK (r.at (0, 3) == -1, "unreachable",
                      "Tdsp: a way from %d at %d to %d is reported", v, k, dest);
            continue;
          }
        int rows = r.shape[0], cur = k;
        MC_CHECK (r.at (0, 0) == v && r.at (rows - 1, 0) == dest
                    && r.at (rows - 1, 1) == -1,
                  "path-ends", "Tdsp: way from %d to %d has wrong ends", v, dest);
        double c = 0, tot = 0;
        for (int i = 0; i + 1 < rows; ++i)
          {
            const std::array<int, 3> *e = nullptr;
            for (auto &x : n.e)
              if (x[0] == r.at (i, 1))
                e = &x;
            MC_CHECK (e && (*e)[1] == r.at (i, 0) && (*e)[2] == r.at (i + 1, 0),
                      "path", "Tdsp: way from %d to %d is not connected", v,
                      dest);
            c += cost.at ((*e)[0])[cur];
            tot += tt.at ((*e)[0])[cur];
            cur = std::min (M - 1, cur + up (tt.at ((*e)[0])[cur]));
            h.add ((uint64_t) (*e)[0]);
          }
        MC_CHECK (close (c, D[v][k]), "path-cost",
                  "Tdsp: the way from %d at %d to %d costs %g, the least is %g",
                  v, k, dest, c, D[v][k]);
        MC_CHECK (close (tot, r.at (0, 3)), "path-time",
                  "Tdsp: the way from %d at %d to %d takes %g, reported %g", v,
                  k, dest, tot, r.at (0, 3));
        if (rows > 2 && k < M - 1)
          mc::g_stats.nontrivial++;
      }
  mc::g_stats.states.insert (h.h);
  mc::g_stats.outcomes.insert (h.h);
}
static mc::Family
fam_pytdsp (int which)
{
  int M = 3, cells = td_net (which).e.size () * M;
  mc::Family f;
  f.name = which ? "python-tdsp-triangle" : "python-tdsp-diamond";
  f.size = [=] (const mc::Tier &t) {
    return (1ull << cells) * (t.thorough ? 12 : 1);
  };
  f.describe = [=] (const mc::Tier &, uint64_t i) {
    return fmt ("Tdsp object, %s, table %llu", which ? "triangle" : "diamond",
                (unsigned long long) i);
  };
  f.run = [=] (const mc::Tier &t, uint64_t i) {
    uint64_t tab = i & ((1ull << cells) - 1), m = i >> cells;
    // quick: every table once, the ways of use in turn
    int mode = t.thorough ? m : (tab * 2654435761u >> 13) % 12;
    bool txt = mode & 1, turns = mode & 2;
    int cm = mode / 4;
    TdNet n = td_net (which);
    std::map<int, VD> tt, cost;
    int bit = 0;
    for (auto &e : n.e)
      for (int k = 0; k < M; ++k)
        {
          bool b = tab >> bit++ & 1;
          double x = b ? 2.5 : (cm == 1 ? 0.5 : 1);
          tt[e[0]].push_back (x);
          cost[e[0]].push_back (cm == 0   ? x
                                : cm == 1 ? (b ? 2.25 : 5.5) + e[0] % 3
                                          : (b ? INF : x));
        }
    try
      {
        run_pytdsp (n, M, tt, cost, txt, turns, n.nodes.back ());
        if (which)
          run_pytdsp (n, M, tt, cost, !txt, turns, n.nodes[1]);
      }
    catch (py::error_already_set &e)
      {
        throw Fail ("python-error", e.what ());
      }
  };
  f.policies_quick = f.policies_thorough = 1;
  f.dev_quick = f.dev_thorough = 0;
  f.hang_s = 60;
  return f;
}

static std::vector<mc::Family>
get (const std::string &p)
{
  std::vector<mc::Family> r;
  if (p == "P26" || p == "P24")
    {
      for (int m = 0; m < 2; ++m)
        {
          r.push_back (fam_gen (N_DIAMOND, m, "diamond", 16 * 81, 16 * 81));
          r.push_back (fam_gen (N_RING, m, "ring", 16 * 27, 16 * 27));
          r.push_back (fam_gen (N_BRAESS, m, "braess", 16 * 243, 16 * 243));
          r.push_back (fam_gen (N_HUB, m, "hub", 16 * 729, 16 * 729));
          r.push_back (fam_gen (N_GRID, m, "grid", 16 * 1024, 16 * 4096));
          r.push_back (fam_gen (N_TWOWAY, m, "twoway", 16 * 1024, 16 * 16384));
          r.push_back (fam_cover (m));
        }
    }
  if (p == "P11" || p == "P24")
    {
      r.push_back (fam_pytdsp (0));
      r.push_back (fam_pytdsp (1));
    }
  if (p == "P12" || p == "P24")
    r.push_back (fam_pygraph ());
  if (p == "P24")
    r = mc::crash_only (r, 200, 4000);
  return r;
}
int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "pub", get);
}
