// alg.cpp -- the graph container, shortest paths, cumulative curves and path
// bookkeeping, explored exhaustively on small inputs against definitions.
#include "mc.h"
#include "scenario.h"
#include "sim.h"

#include "dta_gradient_utls.h"
#include "shortest_path.h"
#include <cmath>
#include <limits>
#include <memory>

using mc::Fail;
using mc::fmt;
static const double INF = std::numeric_limits<double>::infinity ();
typedef macposts::Graph G;
using macposts::graph::Direction;

static mc::Family
fam (const std::string &name, uint64_t q, uint64_t t,
     std::function<std::string (uint64_t)> desc,
     std::function<void (const mc::Tier &, uint64_t)> run)
{
  mc::Family f;
  f.name = name;
  f.size = [q, t] (const mc::Tier &x) { return x.thorough ? t : q; };
  f.describe = [desc] (const mc::Tier &, uint64_t i) { return desc (i); };
  f.run = run;
  f.policies_quick = f.policies_thorough = 1;
  f.dev_quick = f.dev_thorough = 0;
  return f;
}
static uint64_t
ipow (uint64_t b, int e)
{
  uint64_t r = 1;
  while (e--)
    r *= b;
  return r;
}

// ================================================================ P10
struct E
{
  int id, a, b;
  double c;
};
struct Net
{
  std::vector<int> nodes;
  std::vector<E> e;
  bool rev = false;
};
static const int NID[] = { 7, 3, 100, 12, 5 };
static std::string
net_str (const Net &n)
{
  std::string s = fmt ("%zu nodes:", n.nodes.size ());
  for (auto &e : n.e)
    s += fmt (" %d->%d(%g)", e.a, e.b, e.c);
  return s;
}
static void
make_graph (const Net &n, G &g)
{
  for (int v : n.nodes)
    g.add_node (v);
  for (size_t i = 0; i < n.e.size (); ++i)
    {
      const E &e = n.rev ? n.e[n.e.size () - 1 - i] : n.e[i];
      g.add_link (TInt (e.a), TInt (e.b), TInt (e.id));
    }
}
// definition: minimum over all walks with at most |V|-1 links (costs >= 0)
static std::map<int, double>
dist_def (const Net &n, int dest)
{
  std::map<int, double> d;
  for (int v : n.nodes)
    d[v] = v == dest ? 0 : INF;
  for (size_t k = 0; k < n.nodes.size (); ++k)
    for (auto &e : n.e)
      if (d[e.b] + e.c < d[e.a])
        d[e.a] = d[e.b] + e.c;
  return d;
}
static const E *
edge (const Net &n, int id)
{
  for (auto &e : n.e)
    if (e.id == id)
      return &e;
  return nullptr;
}
static void
check_tree (const Net &n, int dest, const std::map<int, double> &d,
            std::function<int (int)> next, const char *alg)
{
  for (int v : n.nodes)
    {
      if (v == dest)
        continue;
      mc::g_stats.checks++;
      if (d.at (v) == INF)
        {
          MC_CHECK (next (v) == -1, "unreachable",
                    "%s to %d: node %d cannot reach it but gets link %d", alg,
                    dest, v, next (v));
          continue;
        }
      double c = 0;
      int u = v;
      size_t k = 0;
      while (u != dest)
        {
          const E *e = edge (n, next (u));
          MC_CHECK (e && e->a == u, "tree",
                    "%s to %d: next link %d of node %d does not leave it", alg,
                    dest, next (u), u);
          c += e->c;
          u = e->b;
          MC_CHECK (++k <= n.nodes.size (), "cycle",
                    "%s to %d: following the tree from %d never arrives", alg,
                    dest, v);
        }
      MC_CHECK (std::fabs (c - d.at (v)) < 1e-9, "not-shortest",
                "%s: path from %d to %d costs %g, the least is %g", alg, v, dest,
                c, d.at (v));
      if (k > 1)
        mc::g_stats.nontrivial++;
    }
}
static void
run_sp (const Net &n)
{
  G g;
  make_graph (n, g);
  std::unordered_map<TInt, TFlt> cost;
  std::map<int, std::array<double, 3>> arr;
  std::unordered_map<TInt, TFlt *> acost, adist;
  std::unordered_map<TInt, TInt *> aout;
  std::map<int, std::array<double, 3>> dbuf;
  std::map<int, std::array<int, 3>> obuf;
  std::unordered_map<TInt, std::unordered_map<TInt, TFlt>> nc0;
  std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> nca0;
  static TFlt zero[3] = { 0, 0, 0 };
  for (auto &e : n.e)
    {
      cost[e.id] = e.c;
      // only position 1 is the current table
      arr[e.id] = { e.c * 0 + 17, e.c, 23 };
      acost[e.id] = arr[e.id].data ();
    }
  for (auto &e : n.e)
    for (auto &f : n.e)
      if (e.b == f.a)
        {
          nc0[e.id][f.id] = 0;
          nca0[e.id][f.id] = zero;
        }
  mc::Hash h;
  // maps that are reused from one destination (and one call) to the next, as
  // the routers do
  std::unordered_map<TInt, TInt> out_f, out_d, out_n, out_d2, out_l;
  std::unordered_map<TInt, TFlt> dist2;
  for (int dest : n.nodes)
    {
      auto d = dist_def (n, dest);
      for (auto &kv : d)
        h.add (kv.second);
      auto get = [] (std::unordered_map<TInt, TInt> &m) {
        return [&m] (int v) -> int {
          auto it = m.find (v);
          MC_CHECK (it != m.end (), "missing", "node %d missing", v);
          return it->second;
        };
      };
      MNM_Shortest_Path::all_to_one_FIFO (dest, g, cost, out_f);
      check_tree (n, dest, d, get (out_f), "FIFO");
      MNM_Shortest_Path::all_to_one_Dijkstra (dest, g, cost, out_d);
      check_tree (n, dest, d, get (out_d), "Dijkstra");
      MNM_Shortest_Path::all_to_one_Dijkstra (dest, g, dist2, cost, out_d2);
      check_tree (n, dest, d, get (out_d2), "Dijkstra(dist)");
      for (int v : n.nodes)
        MC_CHECK (dist2.count (v) && dist2[v] == d[v], "distance",
                  "Dijkstra: distance %d -> %d reported %g, is %g", v, dest,
                  dist2.count (v) ? dist2[v] : -1., d[v]);
      MNM_Shortest_Path::all_to_one_LIFO (dest, g, cost, out_l);
      check_tree (n, dest, d, get (out_l), "LIFO");
      MNM_Shortest_Path::all_to_one_FIFO (dest, g, cost, nc0, out_n);
      check_tree (n, dest, d, get (out_n), "FIFO(turn costs 0)");
      // positions in arrays
      for (int alg = 0; alg < 3; ++alg)
        {
          dbuf.clear ();
          obuf.clear ();
          adist.clear ();
          aout.clear ();
          for (int v : n.nodes)
            {
              // what an earlier tree left there
              dbuf[v] = { -5, -5, 0.25 };
              obuf[v] = { n.e.empty () ? -5 : n.e[v % n.e.size ()].id, -5, -5 };
              adist[v] = dbuf[v].data ();
              aout[v] = obuf[v].data ();
            }
          if (alg == 0)
            MNM_Shortest_Path::all_to_one_FIFO (dest, g, acost, adist, aout, 1,
                                                2, 0);
          else if (alg == 1)
            MNM_Shortest_Path::all_to_one_Dijkstra (dest, g, acost, adist, aout,
                                                    1, 2, 0);
          else
            MNM_Shortest_Path::all_to_one_FIFO (dest, g, acost, nca0, adist,
                                                aout, 1, 2, 0);
          check_tree (n, dest, d, [&] (int v) { return obuf[v][0]; },
                      alg == 0   ? "FIFO[]"
                      : alg == 1 ? "Dijkstra[]"
                                 : "FIFO[](turn costs 0)");
          for (int v : n.nodes)
            {
              MC_CHECK (dbuf[v][2] == d[v], "distance",
                        "algorithm %d: distance %d -> %d reported %g, is %g",
                        alg, v, dest, dbuf[v][2], d[v]);
              MC_CHECK (dbuf[v][0] == -5 && dbuf[v][1] == -5 && obuf[v][1] == -5
                          && obuf[v][2] == -5,
                        "stray-write", "another column was overwritten");
            }
        }
      // the path extracted from the tree
      for (int v : n.nodes)
        if (v != dest && d[v] < INF)
          {
            std::unique_ptr<MNM_Path> p (MNM::extract_path (v, dest, out_f, g));
            MC_CHECK (p != nullptr, "extract", "no path %d -> %d", v, dest);
            MC_CHECK (p->m_node_vec.size () == p->m_link_vec.size () + 1
                        && p->m_node_vec.front () == v
                        && p->m_node_vec.back () == dest,
                      "extract", "path %d -> %d has wrong ends", v, dest);
            double c = 0;
            for (size_t i = 0; i < p->m_link_vec.size (); ++i)
              {
                const E *e = edge (n, p->m_link_vec[i]);
                MC_CHECK (e && e->a == p->m_node_vec[i]
                            && e->b == p->m_node_vec[i + 1],
                          "extract", "path %d -> %d is not connected", v, dest);
                c += e->c;
              }
            MC_CHECK (std::fabs (c - d[v]) < 1e-9
                        && std::fabs (MNM::get_path_tt_snapshot (p.get (), cost)
                                      - d[v])
                             < 1e-9,
                      "extract", "path %d -> %d costs %g, least is %g", v, dest,
                      c, d[v]);
          }
      mc::g_stats.transitions++;
    }
  mc::g_stats.states.insert (h.h);
  mc::g_stats.outcomes.insert (h.h);
}
static Net
net_pairs (int nn, uint64_t code, const std::vector<double> &alpha, bool rev)
{
  // alpha[0] stands for "absent" (negative)
  Net n;
  for (int i = 0; i < nn; ++i)
    n.nodes.push_back (NID[i]);
  int k = 0;
  for (int i = 0; i < nn; ++i)
    for (int j = 0; j < nn; ++j)
      if (i != j)
        {
          double c = alpha[code % alpha.size ()];
          code /= alpha.size ();
          ++k;
          if (c >= 0)
            n.e.push_back (E{ 200 - 3 * k, NID[i], NID[j], c });
        }
  n.rev = rev;
  return n;
}
static std::vector<mc::Family>
fam_p10 ()
{
  std::vector<mc::Family> r;
  static const std::vector<double> A5 = { -1, 0, 1, 2.5, INF };
  auto n3 = [] (uint64_t i) {
    return net_pairs (3, i / 2, A5, i % 2);
  };
  r.push_back (fam ("digraph3", 2 * ipow (5, 6), 2 * ipow (5, 6),
                    [n3] (uint64_t i) { return net_str (n3 (i)); },
                    [n3] (const mc::Tier &, uint64_t i) { run_sp (n3 (i)); }));
  // four nodes: 12 ordered pairs; quick: absent/present with structured costs
  static const std::vector<double> B2 = { -1, 1 };
  auto n4 = [] (uint64_t i) {
    Net n = net_pairs (4, i / 4, B2, i % 2);
    static const double C[4][4] = { { 1, 4, 2, 8 },
                                    { 0, 5, 1, 3 },
                                    { 2, 2, 2, 2 },
                                    { 7, 1, 0.5, 1 } };
    int pat = (i / 2) % 2;
    for (size_t k = 0; k < n.e.size (); ++k)
      n.e[k].c = pat ? C[k % 4][(k / 4) % 4] : C[n.e[k].a % 4][n.e[k].b % 4];
    return n;
  };
  r.push_back (fam ("digraph4", 4 * 4096, 4 * 4096,
                    [n4] (uint64_t i) { return net_str (n4 (i)); },
                    [n4] (const mc::Tier &, uint64_t i) { run_sp (n4 (i)); }));
  static const std::vector<double> B3 = { -1, 1, 3 };
  auto n43 = [] (uint64_t i) { return net_pairs (4, i, B3, false); };
  r.push_back (fam ("digraph4-costs", 0, ipow (3, 12),
                    [n43] (uint64_t i) { return net_str (n43 (i)); },
                    [n43] (const mc::Tier &, uint64_t i) { run_sp (n43 (i)); }));
  // parallel links: up to two per ordered pair on three nodes
  static const std::vector<std::vector<double>> P
    = { {}, { 1 }, { 2, 1 }, { 1, 3 }, { 0, 0 } };
  auto np = [] (uint64_t i) {
    Net n;
    n.rev = i % 2;
    i /= 2;
    for (int k = 0; k < 3; ++k)
      n.nodes.push_back (NID[k]);
    int id = 1;
    for (int a = 0; a < 3; ++a)
      for (int b = 0; b < 3; ++b)
        if (a != b)
          {
            for (double c : P[i % P.size ()])
              n.e.push_back (E{ id++, NID[a], NID[b], c });
            i /= P.size ();
          }
    return n;
  };
  r.push_back (fam ("parallel", 2 * ipow (5, 6), 2 * ipow (5, 6),
                    [np] (uint64_t i) { return net_str (np (i)); },
                    [np] (const mc::Tier &, uint64_t i) { run_sp (np (i)); }));
  // cost histories: the same tree object updated for three successive costs of
  // a 5-link network (closing = infinite cost)
  static const double H[4] = { 1, 3, 0.5, INF };
  auto hist = [] (uint64_t i) {
    std::vector<Net> v;
    for (int k = 0; k < 2; ++k)
      {
        Net n;
        for (int j = 0; j < 4; ++j)
          n.nodes.push_back (NID[j]);
        int ab[5][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 2, 3 }, { 1, 2 } };
        for (int j = 0; j < 5; ++j)
          {
            n.e.push_back (E{ 10 + j, NID[ab[j][0]], NID[ab[j][1]], H[i % 4] });
            i /= 4;
          }
        v.push_back (n);
      }
    return v;
  };
  auto hrun = [hist] (const mc::Tier &t, uint64_t i) {
    // quick explores a quarter of the second costs
    auto v = hist (t.thorough ? i : (i / 256) * 1024 + (i % 256) * 4 + i % 3);
    G g;
    make_graph (v[0], g);
    for (int alg = 0; alg < 3; ++alg)
      {
        std::unordered_map<TInt, TInt> out;
        for (auto &n : v)
          {
            std::unordered_map<TInt, TFlt> cost;
            for (auto &e : n.e)
              cost[e.id] = e.c;
            int dest = NID[3];
            if (alg == 0)
              MNM_Shortest_Path::all_to_one_FIFO (dest, g, cost, out);
            else if (alg == 1)
              MNM_Shortest_Path::all_to_one_Dijkstra (dest, g, cost, out);
            else
              MNM_Shortest_Path::all_to_one_LIFO (dest, g, cost, out);
            check_tree (n, dest, dist_def (n, dest),
                        [&] (int x) { return (int) out.at (x); },
                        alg == 0   ? "FIFO"
                        : alg == 1 ? "Dijkstra"
                                   : "LIFO");
            mc::g_stats.transitions++;
          }
      }
  };
  r.push_back (fam ("history", ipow (4, 9), ipow (4, 10),
                    [hist] (uint64_t i) { return fmt ("cost history %llu", (unsigned long long) i); },
                    hrun));
  // turn costs, where every junction has one way on (elsewhere a tree of next
  // links cannot represent them): they add up along that way
  auto turn = [] (const mc::Tier &, uint64_t i) {
    static const double LC[3] = { 0, 1, 2.5 }, TC[3] = { 0, 1, 3 };
    // 0 -> 1 -> 2 -> 3, and 4 -> 1 on the side
    Net n;
    for (int k = 0; k < 5; ++k)
      n.nodes.push_back (NID[k]);
    static const int ab[4][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 4, 1 } };
    for (int k = 0; k < 4; ++k, i /= 3)
      n.e.push_back (E{ 20 - 3 * k, NID[ab[k][0]], NID[ab[k][1]], LC[i % 3] });
    static const int tp[3][2] = { { 0, 1 }, { 3, 1 }, { 1, 2 } };
    double tc[3];
    for (int k = 0; k < 3; ++k, i /= 3)
      tc[k] = TC[i % 3];
    n.rev = i % 2;
    double d[5];
    d[3] = 0;
    d[2] = n.e[2].c;
    d[1] = n.e[1].c + tc[2] + d[2];
    d[0] = n.e[0].c + tc[0] + d[1];
    d[4] = n.e[3].c + tc[1] + d[1];
    G g;
    make_graph (n, g);
    std::unordered_map<TInt, TFlt> cost;
    std::unordered_map<TInt, std::unordered_map<TInt, TFlt>> nc;
    std::unordered_map<TInt, TFlt *> acost, adist;
    std::unordered_map<TInt, TInt *> aout;
    std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> nca;
    double cb[4][3], tb[3][3], db[5][3];
    int ob[5][3];
    for (int k = 0; k < 4; ++k)
      {
        cost[n.e[k].id] = n.e[k].c;
        cb[k][0] = 17;
        cb[k][1] = n.e[k].c;
        cb[k][2] = 23;
        acost[n.e[k].id] = cb[k];
      }
    for (int k = 0; k < 3; ++k)
      {
        int a = n.e[tp[k][0]].id, b = n.e[tp[k][1]].id;
        nc[a][b] = tc[k];
        tb[k][0] = 11;
        tb[k][1] = tc[k];
        tb[k][2] = 13;
        nca[a][b] = tb[k];
      }
    for (int k = 0; k < 5; ++k)
      for (int j = 0; j < 3; ++j)
        {
          db[k][j] = 0.25;
          ob[k][j] = n.e[k % 4].id;
        }
    for (int k = 0; k < 5; ++k)
      {
        adist[NID[k]] = db[k];
        aout[NID[k]] = ob[k];
      }
    MNM_Shortest_Path::all_to_one_FIFO (NID[3], g, acost, nca, adist, aout, 1, 2,
                                        1);
    mc::Hash h;
    for (int k = 0; k < 5; ++k)
      {
        mc::g_stats.checks++;
        h.add (d[k]);
        MC_CHECK (std::fabs (db[k][2] - d[k]) < 1e-9, "turn-cost",
                  "with turn costs the way from %d to %d costs %g, reported %g",
                  NID[k], NID[3], d[k], db[k][2]);
        int want = k == 3 ? 0 : n.e[k == 4 ? 3 : k].id;
        MC_CHECK (k == 3 || ob[k][1] == want, "turn-link",
                  "with turn costs the next link of %d is %d, reported %d",
                  NID[k], want, ob[k][1]);
      }
    std::unordered_map<TInt, TInt> out;
    MNM_Shortest_Path::all_to_one_FIFO (NID[3], g, cost, nc, out);
    for (int k = 0; k < 5; ++k)
      if (k != 3)
        MC_CHECK (out.count (NID[k]) && out[NID[k]] == n.e[k == 4 ? 3 : k].id,
                  "turn-link", "with turn costs the next link of %d is %d",
                  NID[k], out.count (NID[k]) ? (int) out[NID[k]] : -2);
    mc::g_stats.transitions += 2;
    mc::g_stats.nontrivial++;
    mc::g_stats.states.insert (h.h);
    mc::g_stats.outcomes.insert (h.h);
  };
  r.push_back (fam ("turn-costs", 2 * ipow (3, 7), 2 * ipow (3, 7),
                    [] (uint64_t i) {
                      return fmt ("way with turn costs, table %llu",
                                  (unsigned long long) i);
                    },
                    turn));
  return r;
}

// ================================================================ P11
// time-dependent shortest paths
struct TD
{
  Net n;
  int M;
  std::map<int, std::vector<double>> tt, cost;
};
static int
up (double x)
{
  // travel times occupy at least one interval and are rounded up
  if (x < 1)
    return 1;
  double r = std::round (x);
  if (std::fabs (x - r) <= 1e-4 * x && r <= x)
    return (int) r;
  return (int) std::floor (x) == x ? (int) x : (int) std::floor (x) + 1;
}
static void
run_td (const TD &t, int dest)
{
  G g;
  make_graph (t.n, g);
  std::unordered_map<TInt, TFlt *> tt, cost;
  std::map<int, std::vector<double>> bt = t.tt, bc = t.cost;
  for (auto &e : t.n.e)
    {
      tt[e.id] = bt[e.id].data ();
      cost[e.id] = bc[e.id].data ();
    }
  int M = t.M;
  // definition, by backward recursion over time
  std::map<int, std::vector<double>> D;
  for (int v : t.n.nodes)
    D[v].assign (M, v == dest ? 0 : INF);
  {
    Net s = t.n;
    for (auto &e : s.e)
      e.c = t.cost.at (e.id)[M - 1];
    auto d = dist_def (s, dest);
    for (int v : t.n.nodes)
      D[v][M - 1] = d[v];
  }
  for (int k = M - 2; k >= 0; --k)
    for (auto &e : t.n.e)
      {
        double c = t.cost.at (e.id)[k]
                   + D[e.b][std::min (M - 1, k + up (t.tt.at (e.id)[k]))];
        if (e.a != dest && c < D[e.a][k])
          D[e.a][k] = c;
      }
  std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> nc, nt;
  static TFlt zero[16] = { 0 };
  for (auto &e : t.n.e)
    for (auto &f : t.n.e)
      if (e.b == f.a)
        {
          nc[e.id][f.id] = zero;
          nt[e.id][f.id] = zero;
        }
  mc::Hash h;
  for (int node_costs = 0; node_costs < 2; ++node_costs)
    {
      MNM_TDSP_Tree tree (dest, g, M);
      tree.initialize ();
      // an earlier update with other costs must leave nothing behind
      std::unordered_map<TInt, TFlt *> dummy;
      static TFlt ones[16] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };
      for (auto &e : t.n.e)
        dummy[e.id] = ones;
      tree.update_tree (dummy, dummy);
      if (node_costs)
        tree.update_tree (cost, nc, tt, nt);
      else
        tree.update_tree (cost, tt);
      for (int v : t.n.nodes)
        for (int k = 0; k < M; ++k)
          {
            mc::g_stats.checks++;
            MC_CHECK (tree.m_dist[v][k] == D[v][k]
                        || std::fabs (tree.m_dist[v][k] - D[v][k]) < 1e-9,
                      "distance",
                      "from %d at %d to %d: reported cost %g, least is %g%s", v,
                      k, dest, tree.m_dist[v][k], D[v][k],
                      node_costs ? " (turn costs 0)" : "");
            h.add (D[v][k]);
          }
      for (int v : t.n.nodes)
        for (int k = 0; k <= M + 1; ++k)
          {
            if (v == dest)
              continue;
            MNM_Path p;
            double r = node_costs ? tree.get_tdsp (v, k, tt, nt, &p)
                                  : tree.get_tdsp (v, k, tt, &p);
            int cur = std::min (k, M - 1);
            if (D[v][cur] == INF)
              {
                MC_CHECK (r == -1, "unreachable",
                          "a path is reported from %d at %d to %d", v, k, dest);
                continue;
              }
            double c = 0, tot = 0;
            MC_CHECK (p.m_node_vec.size () == p.m_link_vec.size () + 1
                        && p.m_node_vec.front () == v
                        && p.m_node_vec.back () == dest,
                      "path-ends", "path from %d to %d has wrong ends", v, dest);
            for (size_t i = 0; i < p.m_link_vec.size (); ++i)
              {
                const E *e = edge (t.n, p.m_link_vec[i]);
                MC_CHECK (e && e->a == p.m_node_vec[i]
                            && e->b == p.m_node_vec[i + 1],
                          "path", "path from %d to %d is not connected", v, dest);
                c += t.cost.at (e->id)[cur];
                tot += t.tt.at (e->id)[cur];
                cur = std::min (M - 1, cur + up (t.tt.at (e->id)[cur]));
              }
            mc::g_stats.checks++;
            MC_CHECK (std::fabs (c - D[v][std::min (k, M - 1)]) < 1e-9,
                      "path-cost",
                      "the path from %d at %d to %d costs %g, the least is %g",
                      v, k, dest, c, D[v][std::min (k, M - 1)]);
            MC_CHECK (std::fabs (tot - r) < 1e-9, "path-time",
                      "the path from %d at %d to %d takes %g, reported %g", v, k,
                      dest, tot, r);
            if (p.m_link_vec.size () > 1 && k < M - 1)
              mc::g_stats.nontrivial++;
          }
      mc::g_stats.transitions++;
    }
  // is_FIFO is the definition
  bool fifo = true;
  for (auto &e : t.n.e)
    for (int k = 0; k + 1 < M; ++k)
      if (t.tt.at (e.id)[k] > 1 + t.tt.at (e.id)[k + 1])
        fifo = false;
  MC_CHECK (MNM_Shortest_Path::is_FIFO (g, tt, M, 1) == fifo, "is-fifo",
            "FIFO test of the travel times is wrong");
  mc::g_stats.states.insert (h.h);
  mc::g_stats.outcomes.insert (h.h);
}
static Net
diamond ()
{
  Net n;
  for (int j = 0; j < 4; ++j)
    n.nodes.push_back (NID[j]);
  int ab[5][2] = { { 0, 1 }, { 0, 2 }, { 1, 3 }, { 2, 3 }, { 1, 2 } };
  for (int j = 0; j < 5; ++j)
    n.e.push_back (E{ 10 + j, NID[ab[j][0]], NID[ab[j][1]], 0 });
  return n;
}
static std::vector<mc::Family>
fam_p11 ()
{
  std::vector<mc::Family> r;
  // diamond with a cross link: 5 links x 3 intervals, travel times {1,2},
  // cost = travel time or a fixed toll structure
  auto dia = [] (uint64_t i, int M, const std::vector<double> &A, int cmode) {
    TD t;
    t.n = diamond ();
    t.M = M;
    for (auto &e : t.n.e)
      for (int k = 0; k < M; ++k)
        {
          double x = A[i % A.size ()];
          i /= A.size ();
          t.tt[e.id].push_back (x);
          t.cost[e.id].push_back (cmode == 0   ? x
                                  : cmode == 1 ? 10. / (1 + x) + e.id % 3
                                               : (x == A[0] ? INF : x));
        }
    return t;
  };
  static const std::vector<double> A2 = { 1, 2 }, A2b = { 0.4, 2.5 },
                                   A3 = { 1, 2, 3.5 };
  for (int cm = 0; cm < 3; ++cm)
    {
      auto mk = [dia, cm] (uint64_t i) {
        return dia (i / 2, 3, i % 2 ? A2b : A2, cm);
      };
      r.push_back (fam (fmt ("diamond-cost%d", cm), 2 * 32768, 2 * 32768,
                        [cm] (uint64_t i) {
                          return fmt ("diamond, 3 intervals, table %llu, cost "
                                      "mode %d",
                                      (unsigned long long) i, cm);
                        },
                        [mk] (const mc::Tier &, uint64_t i) {
                          run_td (mk (i), NID[3]);
                        }));
    }
  // four intervals, two values
  r.push_back (fam ("diamond-4", 0, ipow (2, 20),
                    [] (uint64_t i) { return fmt ("diamond, 4 intervals, table %llu", (unsigned long long) i); },
                    [dia] (const mc::Tier &, uint64_t i) {
                      run_td (dia (i, 4, A2, i % 3), NID[3]);
                    }));
  // cyclic triangle with a dead end, every destination
  auto tri = [] (uint64_t i, const std::vector<double> &A) {
    TD t;
    for (int j = 0; j < 3; ++j)
      t.n.nodes.push_back (NID[j]);
    int ab[4][2] = { { 0, 1 }, { 1, 0 }, { 1, 2 }, { 0, 2 } };
    for (int j = 0; j < 4; ++j)
      t.n.e.push_back (E{ 30 - j, NID[ab[j][0]], NID[ab[j][1]], 0 });
    t.M = 3;
    for (auto &e : t.n.e)
      for (int k = 0; k < 3; ++k)
        {
          double x = A[i % A.size ()];
          i /= A.size ();
          t.tt[e.id].push_back (x);
          t.cost[e.id].push_back (x * (1 + e.id % 2));
        }
    return t;
  };
  r.push_back (fam ("triangle", ipow (3, 12) / 9, ipow (3, 12),
                    [] (uint64_t i) { return fmt ("triangle, table %llu", (unsigned long long) i); },
                    [tri] (const mc::Tier &t, uint64_t i) {
                      uint64_t c = t.thorough ? i : i * 9 + i % 7;
                      for (int d = 0; d < 3; ++d)
                        run_td (tri (c, A3), NID[d]);
                    }));
  // turn costs and turn times, where every junction has one way on: the times
  // and costs add up along that way
  auto turn = [] (const mc::Tier &t, uint64_t i) {
    if (!t.thorough)
      i = i * 5 + i % 5;
    const int M = 4;
    // 0 -> 1 -> 2 -> 3, and 4 -> 1 on the side; per link one of four time
    // profiles, per turn one of six
    static const double LT[4][4] = { { 1, 1, 1, 1 }, { 2, 1, 1, 1 },
                                     { 1, 2, 1, 3 }, { 1, 1, 2, 1 } };
    static const double TT[6][4] = { { 0, 0, 0, 0 }, { 1, 0, 0, 0 },
                                     { 0, 1, 0, 2 }, { 2, 1, 0, 0 },
                                     { 0, 0, 1, 1 }, { 0, 2, 1, 0 } };
    Net n;
    for (int k = 0; k < 5; ++k)
      n.nodes.push_back (NID[k]);
    static const int ab[4][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 4, 1 } };
    const double *lt[4], *nt[3];
    double lc[4][4], nc[3][4], ltb[4][4], ntb[3][4];
    for (int k = 0; k < 4; ++k, i /= 4)
      {
        n.e.push_back (E{ 20 - 3 * k, NID[ab[k][0]], NID[ab[k][1]], 0 });
        lt[k] = LT[i % 4];
      }
    static const int tp[3][2] = { { 0, 1 }, { 3, 1 }, { 1, 2 } };
    for (int k = 0; k < 3; ++k, i /= 6)
      nt[k] = TT[i % 6];
    n.rev = i % 2;
    i /= 2;
    bool toll = i % 2;
    for (int k = 0; k < 4; ++k)
      for (int j = 0; j < 4; ++j)
        {
          ltb[k][j] = lt[k][j];
          lc[k][j] = toll ? lt[k][j] + 0.5 * ((k + j) % 3) : lt[k][j];
        }
    for (int k = 0; k < 3; ++k)
      for (int j = 0; j < 4; ++j)
        {
          ntb[k][j] = nt[k][j];
          nc[k][j] = toll ? nt[k][j] + 0.25 * ((k + 2 * j) % 4) : nt[k][j];
        }
    G g;
    make_graph (n, g);
    std::unordered_map<TInt, TFlt *> ltm, lcm;
    std::unordered_map<TInt, std::unordered_map<TInt, TFlt *>> ntm, ncm;
    for (int k = 0; k < 4; ++k)
      {
        ltm[n.e[k].id] = ltb[k];
        lcm[n.e[k].id] = lc[k];
      }
    for (int k = 0; k < 3; ++k)
      {
        ntm[n.e[tp[k][0]].id][n.e[tp[k][1]].id] = ntb[k];
        ncm[n.e[tp[k][0]].id][n.e[tp[k][1]].id] = nc[k];
      }
    MNM_TDSP_Tree tree (NID[3], g, M);
    tree.initialize ();
    tree.update_tree (lcm, ncm, ltm, ntm);
    static const std::vector<std::vector<int>> way
      = { { 0, 1, 2 }, { 1, 2 }, { 2 }, {}, { 3, 1, 2 } };
    mc::Hash h;
    for (int v = 0; v < 5; ++v)
      for (int k = 0; k < M; ++k)
        {
          if (v == 3)
            continue;
          int cur = k;
          double c = 0, tot = 0;
          for (size_t q = 0; q < way[v].size (); ++q)
            {
              int l = way[v][q];
              c += lc[l][cur];
              tot += ltb[l][cur];
              cur = std::min (M - 1, cur + up (ltb[l][cur]));
              if (q + 1 < way[v].size ())
                {
                  int tn = l == 0 ? 0 : l == 3 ? 1 : 2;
                  c += nc[tn][cur];
                  tot += ntb[tn][cur];
                  cur = std::min (M - 1, cur + (int) ntb[tn][cur]);
                }
            }
          mc::g_stats.checks++;
          h.add (c);
          MC_CHECK (std::fabs (tree.m_dist[NID[v]][k] - c) < 1e-9, "turn-cost",
                    "with turn costs the way from %d at %d costs %g, reported %g",
                    NID[v], k, c, tree.m_dist[NID[v]][k]);
          MNM_Path p;
          double r = tree.get_tdsp (NID[v], k, ltm, ntm, &p);
          MC_CHECK (std::fabs (r - tot) < 1e-9, "turn-time",
                    "with turn times the way from %d at %d takes %g, reported %g",
                    NID[v], k, tot, r);
          MC_CHECK (p.m_link_vec.size () == way[v].size (), "turn-path",
                    "path from %d has %zu links", NID[v], p.m_link_vec.size ());
          mc::g_stats.nontrivial++;
        }
    mc::g_stats.transitions++;
    mc::g_stats.states.insert (h.h);
    mc::g_stats.outcomes.insert (h.h);
  };
  r.push_back (fam ("turn-costs", 256 * 216 * 4 / 5 - 1, 256 * 216 * 4,
                    [] (uint64_t i) {
                      return fmt ("way with turn costs and times, table %llu",
                                  (unsigned long long) i);
                    },
                    turn));
  return r;
}

// ================================================================ P12
// the undirected graph takes no direction
template <class GR>
static auto
conns (GR &g, const typename std::remove_const<GR>::type::Node &n, Direction d,
       std::true_type) -> decltype (g.connections (n, d))
{
  return g.connections (n, d);
}
template <class GR>
static auto
conns (GR &g, const typename std::remove_const<GR>::type::Node &n, Direction,
       std::false_type) -> decltype (g.connections (n))
{
  return g.connections (n);
}
template <class GR>
static auto
neighs (GR &g, const typename std::remove_const<GR>::type::Node &n, Direction d,
        std::true_type) -> decltype (g.neighbors (n, d))
{
  return g.neighbors (n, d);
}
template <class GR>
static auto
neighs (GR &g, const typename std::remove_const<GR>::type::Node &n, Direction,
        std::false_type) -> decltype (g.neighbors (n))
{
  return g.neighbors (n);
}
// graph container vs. reference, over all operation sequences
template <bool directed>
static void
graph_seq (uint64_t code, int depth)
{
  typedef macposts::graph::Graph<int, int, int, int, directed> GR;
  GR g;
  std::integral_constant<bool, directed> DT;
  std::map<int, int> nd;                       // node -> data
  std::map<int, std::array<int, 3>> ld;        // link -> from,to,data
  // ops: add node 0..2 (3), add link id in {0,1} over 3x3 endpoint pairs + a
  // missing node
  static const int NI[] = { 4, 9, 2, 77 };
  for (int s = 0; s < depth; ++s)
    {
      int op = code % 23;
      code /= 23;
      bool threw = false, want = false;
      if (op < 3)
        {
          want = nd.count (NI[op]);
          try
            {
              auto &x = g.add_node (NI[op], 100 + s);
              MC_CHECK (g.get_id (x) == NI[op], "node-id", "wrong node id");
            }
          catch (std::exception &)
            {
              threw = true;
            }
          if (!want)
            nd[NI[op]] = 100 + s;
        }
      else
        {
          int k = op - 3; // 0..19: 10 endpoint pairs x 2 link ids
          int id = 50 + k % 2;
          k /= 2;
          int a = k == 9 ? 0 : k / 3, b = k == 9 ? 3 : k % 3;
          want = !nd.count (NI[a]) || !nd.count (NI[b]) || ld.count (id)
                 || a == b;
          try
            {
              auto &x = g.add_link (NI[a], NI[b], id, 200 + s);
              MC_CHECK (g.get_id (x) == id, "link-id", "wrong link id");
            }
          catch (std::exception &)
            {
              threw = true;
            }
          if (!want)
            ld[id] = { NI[a], NI[b], 200 + s };
        }
      MC_CHECK (threw == want, "rejection",
                "step %d: operation %d %s, expected the opposite", s, op,
                threw ? "was refused" : "was accepted");
      mc::g_stats.transitions++;
      // full observation
      mc::g_stats.checks++;
      std::map<int, int> gn;
      for (auto &x : g.nodes ())
        MC_CHECK (gn.insert ({ g.get_id (x), x.data }).second, "nodes",
                  "a node is listed twice");
      MC_CHECK (gn == nd, "nodes", "listed nodes differ from those added");
      std::map<int, std::array<int, 3>> gl;
      for (auto &x : g.links ())
        {
          auto ep = g.get_endpoints (x);
          MC_CHECK (gl.insert ({ g.get_id (x),
                                 { g.get_id (ep.first), g.get_id (ep.second),
                                   x.data } })
                      .second,
                    "links", "a link is listed twice");
        }
      MC_CHECK (gl == ld, "links", "listed links differ from those added");
      for (auto &kv : nd)
        {
          auto &n = g.get_node (kv.first);
          MC_CHECK (n.data == kv.second, "data", "node data changed");
          for (int dir = 0; dir < 2; ++dir)
            {
              auto D = dir ? Direction::Outgoing : Direction::Incoming;
              std::multiset<int> want_c;
              std::set<int> want_n;
              for (auto &l : ld)
                {
                  int me = dir ? l.second[0] : l.second[1],
                      ot = dir ? l.second[1] : l.second[0];
                  if (me == kv.first)
                    {
                      want_c.insert (l.first);
                      want_n.insert (ot);
                    }
                  else if (!directed && ot == kv.first)
                    {
                      want_c.insert (l.first);
                      want_n.insert (me);
                    }
                }
              std::multiset<int> got_c, got_n;
              for (auto &l : conns (g, n, D, DT))
                {
                  got_c.insert (g.get_id (l));
                  MC_CHECK (got_c.size () <= ld.size (), "connections",
                            "iteration over connections does not end");
                }
              for (auto &m : neighs (g, n, D, DT))
                {
                  got_n.insert (g.get_id (m));
                  MC_CHECK (got_n.size () <= nd.size (), "neighbors",
                            "iteration over neighbors does not end");
                }
              MC_CHECK (got_c == want_c, "connections",
                        "connections of node %d (%s) are wrong", kv.first,
                        dir ? "outgoing" : "incoming");
              MC_CHECK (got_n == std::multiset<int> (want_n.begin (), want_n.end ()),
                        "neighbors", "neighbors of node %d (%s) are wrong",
                        kv.first, dir ? "outgoing" : "incoming");
              MC_CHECK (conns (g, n, D, DT).empty () == want_c.empty ()
                          && neighs (g, n, D, DT).empty () == want_n.empty (),
                        "empty", "emptiness of node %d's surroundings is wrong",
                        kv.first);
              // const view agrees
              const GR &cg = g;
              std::multiset<int> cc;
              for (auto &l : conns (cg, cg.get_node (kv.first), D, DT))
                cc.insert (cg.get_id (l));
              MC_CHECK (cc == want_c, "connections", "const view differs");
              if (want_c.size () > 1)
                mc::g_stats.nontrivial++;
            }
        }
      mc::Hash h;
      for (auto &x : nd)
        h.add ((uint64_t) x.first);
      for (auto &x : ld)
        {
          h.add ((uint64_t) x.first);
          h.add ((uint64_t) (x.second[0] * 100 + x.second[1]));
        }
      mc::g_stats.states.insert (h.h);
    }
}
// after the three nodes exist: all sequences of links with three ids
template <bool directed>
static void
graph_links (uint64_t code, int nl)
{
  typedef macposts::graph::Graph<int, int, int, int, directed> GR;
  GR g;
  std::integral_constant<bool, directed> DT;
  static const int NI[] = { 4, 9, 2 };
  for (int k : NI)
    g.add_node (k, k);
  std::vector<std::pair<int, int>> L;
  static const int AB[6][2] = { { 0, 1 }, { 1, 0 }, { 0, 2 }, { 2, 0 }, { 1, 2 }, { 2, 1 } };
  for (int i = 0; i < nl; ++i)
    {
      int a = NI[AB[code % 6][0]], b = NI[AB[code % 6][1]];
      code /= 6;
      if (i % 2)
        g.add_link (g.get_node (a), g.get_node (b), 300 + i);
      else
        g.add_link (a, b, 300 + i);
      L.push_back ({ a, b });
      mc::g_stats.transitions++;
    }
  mc::Hash h;
  for (int v : NI)
    for (int dir = 0; dir < 2; ++dir)
      {
        auto D = dir ? Direction::Outgoing : Direction::Incoming;
        std::multiset<int> wc, gc, gn;
        std::set<int> wn;
        for (int i = 0; i < nl; ++i)
          {
            int me = dir ? L[i].first : L[i].second,
                ot = dir ? L[i].second : L[i].first;
            if (me == v || (!directed && ot == v))
              {
                wc.insert (300 + i);
                wn.insert (me == v ? ot : me);
              }
          }
        auto &n = g.get_node (v);
        for (auto &l : conns (g, n, D, DT))
          {
            gc.insert (g.get_id (l));
            if ((int) gc.size () > nl)
              break;
          }
        for (auto &m : neighs (g, n, D, DT))
          {
            gn.insert (g.get_id (m));
            if (gn.size () > 5)
              break;
          }
        mc::g_stats.checks++;
        MC_CHECK (gc == wc, "connections", "connections of node %d are wrong", v);
        MC_CHECK (gn == std::multiset<int> (wn.begin (), wn.end ()), "neighbors",
                  "neighbors of node %d are wrong", v);
        if (wc.size () != wn.size ())
          mc::g_stats.nontrivial++;
        for (int x : gc)
          h.add ((uint64_t) x);
      }
  mc::g_stats.states.insert (h.h);
}
static void
graph_reverse (uint64_t code)
{
  Net n = net_pairs (3, code, { -1, 1 }, false);
  G g;
  make_graph (n, g);
  G r = MNM_Ults::reverse_graph (g);
  std::map<int, std::pair<int, int>> a, b;
  for (auto &e : n.e)
    a[e.id] = { e.b, e.a };
  for (auto &l : r.links ())
    {
      auto ep = r.get_endpoints (l);
      b[r.get_id (l)] = { r.get_id (ep.first), r.get_id (ep.second) };
    }
  MC_CHECK (a == b, "reverse", "reversed graph has wrong links");
  size_t k = 0;
  for (auto &x : r.nodes ())
    {
      (void) x;
      ++k;
    }
  MC_CHECK (k == n.nodes.size (), "reverse", "reversed graph has wrong nodes");
  mc::g_stats.checks++;
  mc::g_stats.transitions++;
}
static std::vector<mc::Family>
fam_p12 ()
{
  std::vector<mc::Family> r;
  for (int d = 0; d < 2; ++d)
    {
      bool dir = d;
      r.push_back (fam (dir ? "directed-ops" : "undirected-ops", ipow (23, 5),
                        ipow (23, 5),
                        [] (uint64_t i) { return fmt ("operation sequence %llu", (unsigned long long) i); },
                        [dir] (const mc::Tier &t, uint64_t i) {
                          int k = 5;
                          if (dir)
                            graph_seq<true> (i, k);
                          else
                            graph_seq<false> (i, k);
                        }));
      r.push_back (fam (dir ? "directed-links" : "undirected-links", ipow (6, 6),
                        ipow (6, 8),
                        [] (uint64_t i) { return fmt ("link sequence %llu", (unsigned long long) i); },
                        [dir] (const mc::Tier &t, uint64_t i) {
                          int k = t.thorough ? 8 : 6;
                          if (dir)
                            graph_links<true> (i, k);
                          else
                            graph_links<false> (i, k);
                        }));
    }
  r.push_back (fam ("reverse", 64, 64, [] (uint64_t i) { return fmt ("digraph %llu", (unsigned long long) i); },
                    [] (const mc::Tier &, uint64_t i) { graph_reverse (i); }));
  return r;
}

// ================================================================ P13
static void
run_curve (const std::vector<std::pair<double, double>> &inc, double t0,
           double f0, bool start_record)
{
  MNM_Cumulative_Curve c;
  std::vector<std::pair<double, double>> pts; // (time, cumulative)
  auto lv = [&] (double t) { // cumulative at time t
    double r = 0;
    for (auto &p : pts)
      if (p.first <= t + 1e-9)
        r = p.second;
    return r;
  };
  if (start_record)
    {
      c.add_record ({ 0., 0. });
      pts.push_back ({ 0, 0 });
    }
  double total = 0;
  if (f0 > 0 || t0 > 0)
    {
      c.add_increment ({ t0, f0 });
      total += f0;
      if (!pts.empty () && pts.back ().first == t0)
        pts.back ().second = total;
      else
        pts.push_back ({ t0, total });
    }
  double t = t0;
  for (auto &x : inc)
    {
      t += x.first;
      c.add_increment ({ t, x.second });
      total += x.second;
      if (!pts.empty () && pts.back ().first == t)
        pts.back ().second = total;
      else
        pts.push_back ({ t, total });
      mc::g_stats.transitions++;
    }
  if (!pts.empty ())
    {
      bool threw = false;
      try
        {
          MNM_Cumulative_Curve c2 = c;
          c2.add_increment ({ pts.back ().first * 0.9 - 1, 1. });
        }
      catch (std::exception &)
        {
          threw = true;
        }
      MC_CHECK (threw, "early-increment",
                "a record before the last one was accepted");
    }
  double eps = 1e-6 * (1 + total);
  mc::Hash h;
  // values
  for (double q = std::max (0., t0 - 2); q <= t + 2; q += 0.5)
    {
      mc::g_stats.checks++;
      double got = c.get_result (q);
      MC_CHECK (std::fabs (got - lv (q)) <= eps
                  || (!pts.empty () && q < pts[0].first
                      && std::fabs (got - pts[0].second) <= eps),
                "value", "at time %.1f the curve reads %.9g, %.9g was recorded",
                q, got, lv (q));
      h.add (got);
      // interpolation
      double a = c.get_approximated_result (q);
      double want = 0;
      if (!pts.empty ())
        {
          if (q <= pts[0].first)
            want = pts[0].second;
          else
            {
              want = pts.back ().second;
              for (size_t i = 1; i < pts.size (); ++i)
                if (q <= pts[i].first)
                  {
                    want = pts[i - 1].second
                           + (pts[i].second - pts[i - 1].second)
                               * (q - pts[i - 1].first)
                               / (pts[i].first - pts[i - 1].first);
                    break;
                  }
            }
        }
      MC_CHECK (std::fabs (a - want) <= eps, "interpolation",
                "at time %.1f the interpolated curve reads %.9g, expected %.9g",
                q, a, want);
    }
  // inverse
  if (!start_record)
    return;
  std::set<double> lev;
  for (auto &p : pts)
    lev.insert (p.second);
  std::vector<double> qs;
  double prev = -1;
  for (double l : lev)
    {
      qs.push_back (l);
      if (prev >= 0)
        qs.push_back ((l + prev) / 2);
      prev = l;
    }
  qs.push_back (total + 1);
  qs.push_back (-1);
  auto first = [&] (double level) {
    for (auto &p : pts)
      if (p.second >= level - 1e-9)
        return p.first;
    return -1.;
  };
  for (double q : qs)
    {
      double got = c.get_time (q), want;
      if (q <= 0 || q > total + 1e-9)
        want = -1;
      else
        {
          // the largest recorded level not above q, and when it was reached
          double best = -1;
          for (double l : lev)
            if (l <= q + 1e-9)
              best = l;
          want = first (best);
        }
      mc::g_stats.checks++;
      MC_CHECK (std::fabs (got - want) < 1e-6, "inverse",
                "count %.6f was reached at %.1f, reported %.1f", q, want, got);
      if (q > total + 1e-9)
        MC_CHECK (c.get_time (q, true) < 0, "inverse-up",
                  "count %.6f is never attained, yet a time is reported", q);
      if (q > 0 && q <= total)
        {
          double w2 = first (q), g2 = c.get_time (q, true);
          MC_CHECK (std::fabs (g2 - w2) < 1e-6, "inverse-up",
                    "count %.6f is first attained at %.1f, reported %.1f", q, w2,
                    g2);
        }
      h.add (got);
    }
  if (pts.size () > 3)
    mc::g_stats.nontrivial++;
  mc::g_stats.states.insert (h.h);
  mc::g_stats.outcomes.insert (h.h);
}
static std::vector<mc::Family>
fam_p13 ()
{
  std::vector<mc::Family> r;
  static const double DT[] = { 0, 1, 3 };
  static const double FL[] = { 1, 1. / 3, 0.5, 0, 2 };
  static const double T0[] = { 1, 5, 9999, 10000, 17280, 86400 };
  static const double F0[] = { 0, 7, 9999, 20000, 123456. + 1. / 3 };
  for (int z = 0; z < 2; ++z)
    {
      bool st = z == 0;
      r.push_back (fam (st ? "curve" : "curve-nostart",
                        z ? ipow (15, 3) : ipow (15, 4),
                        z ? ipow (15, 4) : ipow (15, 5),
                        [] (uint64_t i) { return fmt ("increments %llu", (unsigned long long) i); },
                        [st] (const mc::Tier &t, uint64_t i) {
                          int n = (st ? 4 : 3) + (t.thorough ? 1 : 0);
                          std::vector<std::pair<double, double>> v;
                          for (int k = 0; k < n; ++k)
                            {
                              v.push_back ({ DT[i % 3], FL[(i / 3) % 5] });
                              i /= 15;
                            }
                          run_curve (v, 1, 0, st);
                        }));
    }
  r.push_back (fam ("curve-long", 30 * ipow (15, 2), 30 * ipow (15, 3),
                    [] (uint64_t i) {
                      return fmt ("after %.0f steps and %.2f vehicles, "
                                  "increments %llu",
                                  T0[i % 6], F0[i / 6 % 5],
                                  (unsigned long long) (i / 30));
                    },
                    [] (const mc::Tier &t, uint64_t i) {
                      double t0 = T0[i % 6], f0 = F0[i / 6 % 5];
                      i /= 30;
                      std::vector<std::pair<double, double>> v;
                      for (int k = 0; k < (t.thorough ? 3 : 2); ++k)
                        {
                          v.push_back ({ DT[i % 3], FL[(i / 3) % 5] });
                          i /= 15;
                        }
                      run_curve (v, t0, f0, true);
                    }));
  // path-resolved curves: all sequences of (dt, path, departure interval)
  r.push_back (fam ("tree", ipow (8, 5), ipow (8, 6),
                    [] (uint64_t i) { return fmt ("flows %llu", (unsigned long long) i); },
                    [] (const mc::Tier &t, uint64_t i) {
                      MNM_Path p[2];
                      MNM_Tree_Cumulative_Curve tr;
                      std::map<std::pair<int, int>, std::vector<std::pair<double, double>>> ref;
                      double now = 1;
                      for (int k = 0; k < (t.thorough ? 6 : 5); ++k)
                        {
                          int dt = i % 2, pi = i / 2 % 2, di = i / 4 % 2;
                          i /= 8;
                          now += dt;
                          tr.add_flow (now, 0.5, &p[pi], di * 3);
                          ref[{ pi, di * 3 }].push_back ({ now, 0.5 });
                          mc::g_stats.transitions++;
                        }
                      size_t n = 0;
                      for (auto &a : tr.m_record)
                        for (auto &b : a.second)
                          {
                            ++n;
                            auto it = ref.find ({ (int) (a.first - p), b.first });
                            MC_CHECK (it != ref.end (), "tree", "unexpected group");
                            for (double q = 0; q <= now + 1; q += 0.5)
                              {
                                double w = 0;
                                for (auto &x : it->second)
                                  if (x.first <= q)
                                    w += x.second;
                                mc::g_stats.checks++;
                                MC_CHECK (std::fabs (b.second->get_result (q) - w) < 1e-9,
                                          "tree", "group curve at %.1f reads %g, recorded %g",
                                          q, b.second->get_result (q), w);
                              }
                          }
                      MC_CHECK (n == ref.size (), "tree", "groups are missing");
                      if (n > 1)
                        mc::g_stats.nontrivial++;
                    }));
  return r;
}

// ================================================================ P16
static std::string
squash (const std::deque<TInt> &v)
{
  std::string s;
  for (int x : v)
    s += fmt ("%d ", x);
  return s;
}
static void
run_cycles (const std::vector<int> &walk)
{
  // link id of (a,b) = 100*a+b
  MNM_Path p;
  for (size_t i = 0; i < walk.size (); ++i)
    {
      p.m_node_vec.push_back (walk[i]);
      if (i)
        p.m_link_vec.push_back (100 * walk[i - 1] + walk[i]);
    }
  p.eliminate_cycles ();
  std::set<int> seen;
  mc::g_stats.checks++;
  mc::g_stats.transitions++;
  MC_CHECK (p.m_node_vec.size () == p.m_link_vec.size () + 1, "walk",
            "node and link lists do not fit together");
  for (int v : p.m_node_vec)
    MC_CHECK (seen.insert (v).second, "cycle", "node %d is still visited twice", v);
  MC_CHECK (p.m_node_vec.front () == walk.front ()
              && p.m_node_vec.back () == walk.back (),
            "ends", "the walk's ends changed");
  for (size_t i = 0; i < p.m_link_vec.size (); ++i)
    MC_CHECK (p.m_link_vec[i] == 100 * p.m_node_vec[i] + p.m_node_vec[i + 1],
              "walk", "links and nodes of the remaining walk do not match");
  std::set<int> orig;
  for (size_t i = 1; i < walk.size (); ++i)
    orig.insert (100 * walk[i - 1] + walk[i]);
  for (int l : p.m_link_vec)
    MC_CHECK (orig.count (l), "walk", "a link was invented");
  std::set<int> on (walk.begin (), walk.end ());
  if (on.size () == walk.size ())
    MC_CHECK (p.m_node_vec.size () == walk.size (), "shortened",
              "a walk without cycles was shortened");
  else
    mc::g_stats.nontrivial++;
}
static void
run_normalize (const std::vector<double> &v)
{
  MNM_Pathset ps;
  double tot = 0;
  bool neg = false;
  for (double x : v)
    {
      auto *p = new MNM_Path ();
      p->m_p = x;
      ps.m_path_vec.push_back (p);
      tot += x;
      neg = neg || x < 0;
    }
  mc::g_stats.checks++;
  mc::g_stats.transitions++;
  bool threw = false;
  try
    {
      ps.normalize_p ();
    }
  catch (std::exception &)
    {
      threw = true;
    }
  MC_CHECK (threw == neg, "negative", "negative shares must be refused (only)");
  if (neg)
    return;
  double s = 0;
  for (size_t i = 0; i < v.size (); ++i)
    {
      double p = ps.m_path_vec[i]->m_p;
      s += p;
      double w = tot > 0 ? v[i] / tot : 1. / v.size ();
      MC_CHECK (std::fabs (p - w) < 1e-9, "share",
                "path %zu gets share %g, expected %g", i, p, w);
    }
  MC_CHECK (std::fabs (s - 1) < 1e-9, "sum", "shares sum to %g", s);
  mc::g_stats.nontrivial++;
}
// round trip of a path table through files
static void
run_table (uint64_t code, bool buffer)
{
  // all subsets (as ordered lists) of six node paths over a diamond + ring
  static const int EDG[][3] = { { 1, 11, 3 },  { 2, 3, 25 }, { 3, 3, 8 },
                                { 4, 25, 7 },  { 5, 8, 7 },  { 6, 25, 8 },
                                { 7, 7, 40 },  { 8, 7, 41 }, { 9, 12, 8 },
                                { 10, 12, 25 } };
  static const std::vector<std::vector<int>> PP
    = { { 11, 3, 25, 7, 40 }, { 11, 3, 8, 7, 40 }, { 11, 3, 25, 8, 7, 40 },
        { 12, 8, 7, 41 },     { 12, 25, 7, 41 },   { 11, 3, 8, 7, 41 } };
  G g;
  for (int v : { 11, 3, 25, 8, 7, 40, 41, 12 })
    g.add_node (v);
  for (auto &e : EDG)
    g.add_link (TInt (e[1]), TInt (e[2]), TInt (e[0]));
  std::vector<int> sel;
  int mask = code % 64;
  code /= 64;
  for (int i = 0; i < 6; ++i)
    if (mask >> i & 1)
      sel.push_back (i);
  if (sel.empty ())
    return;
  if (code % 2)
    std::reverse (sel.begin (), sel.end ());
  code /= 2;
  static const double BV[] = { 0, 1, 0.25, 12.5, 0.000125, 98765.4321, 1e-7 };
  int style = code % 3; // plain, comments and blank lines, tabs/CR at the ends
  code /= 3;
  int blen = buffer ? 1 + code % 3 : 0;
  std::map<std::string, std::vector<double>> want;
  std::string f, b;
  int k = 0;
  for (int i : sel)
    {
      std::string s;
      if (style == 1)
        f += k % 2 ? "# a comment\n" : "\n";
      for (int v : PP[i])
        s += fmt ("%d ", v);
      std::vector<double> bv;
      std::string bs;
      if (buffer && style == 1)
        b += k % 2 ? "# a comment\n" : "\n";
      for (int j = 0; j < blen; ++j)
        {
          bv.push_back (BV[(k * 3 + j + code) % 7]);
          bs += fmt (j ? " %.10g" : "%.10g", bv.back ());
        }
      want[s] = bv;
      s.pop_back ();
      f += s + (style == 2 ? " \t\r\n" : "\n");
      b += bs + (style == 2 ? "\r\n" : "\n");
      ++k;
    }
  std::string dir = scratch ();
  put (dir + "/pt", f);
  if (buffer)
    put (dir + "/pt_buffer", b);
  auto release = [] (Path_Table *t) {
    for (auto &a : *t)
      {
        for (auto &c : *a.second)
          delete c.second;
        delete a.second;
      }
    delete t;
  };
  auto verify = [&] (Path_Table *t, const char *what) {
    size_t n = 0;
    std::set<int> idset;
    for (auto &a : *t)
      for (auto &c : *a.second)
        for (auto *p : c.second->m_path_vec)
          {
            ++n;
            auto it = want.find (squash (p->m_node_vec));
            mc::g_stats.checks++;
            MC_CHECK (it != want.end (), "paths", "%s: unexpected path %s", what,
                      squash (p->m_node_vec).c_str ());
            MC_CHECK (a.first == p->m_node_vec.front ()
                        && c.first == p->m_node_vec.back (),
                      "od", "%s: path %s filed under %d -> %d", what,
                      it->first.c_str (), a.first, c.first);
            MC_CHECK (idset.insert (p->m_path_ID).second, "path-id",
                      "%s: two paths share an ID", what);
            MC_CHECK (p->m_link_vec.size () + 1 == p->m_node_vec.size (), "links",
                      "%s: wrong number of links", what);
            for (size_t i = 0; i < p->m_link_vec.size (); ++i)
              {
                bool ok = false;
                for (auto &e : EDG)
                  ok = ok
                       || (e[0] == p->m_link_vec[i] && e[1] == p->m_node_vec[i]
                           && e[2] == p->m_node_vec[i + 1]);
                MC_CHECK (ok, "links", "%s: link %d is not between %d and %d",
                          what, (int) p->m_link_vec[i], (int) p->m_node_vec[i],
                          (int) p->m_node_vec[i + 1]);
              }
            if (buffer)
              {
                MC_CHECK (p->m_buffer_length == blen, "buffer",
                          "%s: %d buffer columns, %d in the file", what,
                          (int) p->m_buffer_length, blen);
                for (int j = 0; j < blen; ++j)
                  MC_CHECK (std::fabs (p->m_buffer[j] - it->second[j])
                              <= 1e-6 + 1e-6 * std::fabs (it->second[j]),
                            "buffer", "%s: path %s column %d is %.9g, file has %.9g",
                            what, it->first.c_str (), j, p->m_buffer[j],
                            it->second[j]);
              }
          }
    MC_CHECK (n == want.size (), "paths", "%s: %zu paths, %zu in the file", what,
              n, want.size ());
  };
  Path_Table *t = MNM_IO::load_path_table (dir + "/pt", g, sel.size (), buffer);
  verify (t, "load");
  MNM::save_path_table (dir, t, nullptr, buffer, false);
  Path_Table *u
    = MNM_IO::load_path_table (dir + "/path_table", g, sel.size (), buffer);
  verify (u, "save and load");
  if (buffer)
    {
      for (int col = 0; col < blen; ++col)
        {
          MNM::copy_buffer_to_p (u, col);
          std::unordered_map<TInt, MNM_Path *> ids;
          MNM::get_ID_path_mapping (ids, u);
          MC_CHECK (ids.size () == want.size (), "path-id", "ID mapping size");
          for (auto &x : ids)
            MC_CHECK (x.second->m_p == x.second->m_buffer[col], "column",
                      "shares not taken from column %d", col);
          MNM::normalize_path_table_p (u);
          for (auto &a : *u)
            for (auto &c : *a.second)
              {
                double s = 0;
                for (auto *p : c.second->m_path_vec)
                  s += p->m_p;
                MC_CHECK (std::fabs (s - 1) < 1e-9, "sum", "shares sum to %g", s);
              }
          MNM::copy_p_to_buffer (u, col);
          for (auto &x : ids)
            MC_CHECK (x.second->m_p == x.second->m_buffer[col], "column",
                      "shares not stored in column %d", col);
        }
    }
  release (t);
  release (u);
  mc::g_stats.transitions += 3;
  if (want.size () > 1)
    mc::g_stats.nontrivial++;
  mc::Hash h;
  h.add (f);
  h.add (b);
  mc::g_stats.states.insert (h.h);
}
static std::vector<mc::Family>
fam_p16 ()
{
  std::vector<mc::Family> r;
  auto walk = [] (uint64_t i, int nn, int len) {
    std::vector<int> w = { (int) (i % nn) + 1 };
    i /= nn;
    for (int k = 1; k < len; ++k)
      {
        int c = i % (nn - 1) + 1;
        i /= nn - 1;
        if (c >= w.back ())
          ++c;
        w.push_back (c);
      }
    return w;
  };
  for (int len = 2; len <= 8; ++len)
    r.push_back (fam (fmt ("walks-%d", len), 4 * ipow (3, len - 1),
                      4 * ipow (3, len - 1),
                      [walk, len] (uint64_t i) {
                        std::string s = "walk";
                        for (int v : walk (i, 4, len))
                          s += fmt (" %d", v);
                        return s;
                      },
                      [walk, len] (const mc::Tier &, uint64_t i) {
                        run_cycles (walk (i, 4, len));
                      }));
  static const double V[] = { 0, 1, 0.5, 3, 1e-5, 1e6, -1 };
  for (int n = 1; n <= 4; ++n)
    r.push_back (fam (fmt ("shares-%d", n), ipow (7, n), ipow (7, n),
                      [] (uint64_t i) { return fmt ("shares %llu", (unsigned long long) i); },
                      [n] (const mc::Tier &, uint64_t i) {
                        std::vector<double> v;
                        for (int k = 0; k < n; ++k)
                          {
                            v.push_back (V[i % 7]);
                            i /= 7;
                          }
                        run_normalize (v);
                      }));
  r.push_back (fam ("table", 64 * 2 * 3, 64 * 2 * 3,
                    [] (uint64_t i) { return fmt ("path file %llu", (unsigned long long) i); },
                    [] (const mc::Tier &, uint64_t i) { run_table (i, false); }));
  r.push_back (fam ("table-buffer", 64 * 2 * 3 * 21, 64 * 2 * 3 * 21,
                    [] (uint64_t i) { return fmt ("path and buffer file %llu", (unsigned long long) i); },
                    [] (const mc::Tier &, uint64_t i) { run_table (i, true); }));
  return r;
}

static std::vector<mc::Family>
get (const std::string &p)
{
  if (p == "P10")
    return fam_p10 ();
  if (p == "P11")
    return fam_p11 ();
  if (p == "P12")
    return fam_p12 ();
  if (p == "P13")
    return fam_p13 ();
  if (p == "P16")
    return fam_p16 ();
  if (p == "P24")
    {
      std::vector<mc::Family> r;
      mc::append (r, mc::crash_only (fam_p10 (), 16000, 400000));
      mc::append (r, mc::crash_only (fam_p11 (), 8000, 200000));
      mc::append (r, mc::crash_only (fam_p12 (), 23 * 23 * 23, 23 * 23 * 23 * 23));
      mc::append (r, mc::crash_only (fam_p13 (), 60000, 2000000));
      mc::append (r, mc::crash_only (fam_p16 (), 60000, 2000000));
      return r;
    }
  return {};
}
int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "alg", get);
}
