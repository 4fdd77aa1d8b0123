// api.cpp -- the Python-facing API (macposts.Dta / macposts.Mcdta), driven from
// the explorer: every scenario is first run on the simulator to record where
// each vehicle was at each step; then the public API loads the same input under
// the same random answers, and whatever it reports is compared with what a
// brute-force reading of the recorded trips says.
#include "gen.h"
#include "sim.h"
#include "pyapi.h"
#include <array>
#include <cmath>
#include <memory>

// ---------------------------------------------------------------- ground truth
struct LinkRef
{
  Curve in[2], out[2]; // per class
  int fftt[2];         // steps
  double cap_s[2];     // seconds at free flow
  double len;          // metres
};
struct Trip
{
  int veh, cls, path, assign; // path: index in the scenario, -1 adaptive
  int start, gone;
  std::vector<std::pair<int, int>> e; // (link, entry step)
};
struct Ref
{
  const Scenario *s;
  int T;
  std::map<int, LinkRef> link;
  std::vector<Trip> trips;
  std::vector<std::vector<int>> path_links;
  std::map<int, std::vector<int>> queue; // link -> waiting at its end, per step
  std::vector<int> enroute, queued;

  double last_valid (int l, int c) const
  {
    const LinkRef &k = link.at (l);
    double ti = k.in[c].total (), to = k.out[c].total ();
    if (std::fabs (ti - to) < 1e-9)
      return T;
    if (to == 0)
      return 0;
    // the last time at which everything that had entered also gets out
    double lv = k.in[c].time (to);
    for (int i = 1; i <= T; ++i)
      if (k.in[c].at (lv + i) > to + 1e-9)
        return lv + i - 1;
    return lv;
  }
  // travel time, in steps, of what has entered by time tau
  double tt (int l, int c, double tau) const
  {
    const LinkRef &k = link.at (l);
    double lv = last_valid (l, c);
    if (lv <= 0)
      return k.fftt[c];
    tau = std::min (tau, lv);
    double m = k.in[c].at (tau);
    if (m <= 1e-12)
      return k.fftt[c];
    double e = k.out[c].time (m);
    if (e < 0)
      return k.fftt[c];
    return std::max (e - tau, (double) k.fftt[c]);
  }
  double robust (int l, int c, double a, double b, int trials) const
  {
    int n = std::min (trials, (int) (b - a));
    double s = 0, d = (b - a) / n;
    for (int i = 0; i < n; ++i)
      s += tt (l, c, a + 1 + i * d);
    return s / n;
  }
};
static int
round_up (double x)
{
  if (x < 1)
    return 1;
  int f = (int) x;
  return x - f <= 1e-4 * x ? f : f + 1;
}
static bool
near_int (double x)
{
  double d = x - std::floor (x);
  return d > 1e-9 && (d < 1e-3 || d > 1 - 1e-3);
}

// index of the path (links) of a vehicle among the scenario's paths
static Ref
reference (const Scenario &s, const Trace &t)
{
  Ref r;
  r.s = &s;
  r.T = (int) t.steps.size ();
  for (auto &p : s.paths)
    {
      std::vector<int> l;
      for (size_t i = 0; i + 1 < p.nodes.size (); ++i)
        l.push_back (s.link_between (p.nodes[i], p.nodes[i + 1]));
      r.path_links.push_back (l);
    }
  std::map<int, int> idx;
  std::map<int, int> last;
  for (int k = 0; k < r.T; ++k)
    for (auto &kv : t.steps[k].mid.link)
      for (auto &p : kv.second)
        {
          if (!idx.count (p.id))
            {
              const VInfo &v = t.veh.at (p.id);
              idx[p.id] = r.trips.size ();
              Trip x;
              x.veh = p.id;
              x.cls = v.cls == 1;
              x.path = -1;
              if (v.path)
                for (size_t i = 0; i < r.path_links.size (); ++i)
                  if (r.path_links[i] == v.path_links)
                    x.path = i;
              x.start = v.start_time;
              x.assign = v.start_time / s.assign_frq;
              x.gone = v.gone_step;
              r.trips.push_back (x);
            }
          auto &e = r.trips[idx[p.id]].e;
          if (e.empty () || e.back ().first != kv.first)
            e.push_back ({ kv.first, k });
        }
  // vehicles that never left their origin
  for (auto &kv : t.veh)
    if (!idx.count (kv.first))
      {
        Trip x;
        x.veh = kv.first;
        x.cls = kv.second.cls == 1;
        x.path = -1;
        x.start = kv.second.start_time;
        x.assign = x.start / s.assign_frq;
        x.gone = -1;
        r.trips.push_back (x);
      }
  for (auto &l : s.links)
    {
      std::vector<int> in[2], out[2];
      for (auto &x : r.trips)
        for (size_t i = 0; i < x.e.size (); ++i)
          if (x.e[i].first == l.id)
            {
              in[x.cls].push_back (x.e[i].second);
              int o = i + 1 < x.e.size () ? x.e[i + 1].second : x.gone;
              if (o >= 0)
                out[x.cls].push_back (o);
            }
      LinkRef &k = r.link[l.id];
      k.len = l.len * 1600;
      // two-class cell links are at least one cell long
      if (s.mc && l.type == "CTM")
        k.len = std::max (k.len, l.ffs * 1600 / 3600. * s.unit_time);
      for (int c = 0; c < 2; ++c)
        {
          k.in[c].build (in[c], s.flow_scalar);
          k.out[c].build (out[c], s.flow_scalar);
          double v = (c ? l.ffs_t : l.ffs) * 1600 / 3600.;
          double vc = l.ffs * 1600 / 3600.;
          double x = k.len / (v * s.unit_time), xc = k.len / (vc * s.unit_time);
          int down = std::max (1, (int) std::floor (xc + 1e-6));
          k.cap_s[c] = k.len / v;
          if (l.type == "CTM")
            k.fftt[c] = c ? (int) (down * vc / v + 1e-9) : down;
          else if (l.type == "PQ")
            k.fftt[c] = down;
          else
            k.fftt[c] = round_up (x);
        }
    }
  for (int k = 0; k < r.T; ++k)
    {
      int q = 0, n = 0;
      for (auto &kv : t.steps[k].mid.link)
        {
          int w = 0;
          for (auto &p : kv.second)
            w += p.stage == 0;
          r.queue[kv.first].push_back (w);
          if (s.link (kv.first).type != "PQ")
            q += w;
        }
      for (auto &kv : t.steps[k].end.link)
        n += kv.second.size ();
      for (auto &kv : t.steps[k].end.origin)
        n += kv.second.size ();
      r.enroute.push_back (n);
      r.queued.push_back (q);
    }
  return r;
}

// ---------------------------------------------------------------- one case
struct ApiCase
{
  Scenario s;
  int variant = 0; // which links / paths are registered, in which order
  std::map<int, double> toll, toll_t;
  double vot = 20; // $/h
  // monitored links, label shares per class, label that means electric
  std::vector<int> monitored;
  VD share[2];
  int ev[2] = { -2, -2 };
};
struct Run
{
  const ApiCase &c;
  const Scenario &s;
  Ref ref;
  Trace tr;
  py::object d;
  VI links, paths;
  Run (const ApiCase &k) : c (k), s (k.s) {}
};

static VI
pick_links (const ApiCase &c)
{
  VI all;
  for (auto &l : c.s.links)
    all.push_back (l.id);
  switch (c.variant % 3)
    {
    case 0: // everything, sorted
      std::sort (all.begin (), all.end ());
      return all;
    case 1: // everything, back to front
      std::sort (all.rbegin (), all.rend ());
      return all;
    default: // every other link, unsorted
      {
        VI r;
        for (size_t i = 0; i < all.size (); i += 2)
          r.insert (i % 4 ? r.begin () : r.end (), all[i]);
        return r;
      }
    }
}
static VI
pick_paths (const ApiCase &c, bool subset_ok)
{
  VI r;
  int n = c.s.paths.size ();
  for (int i = 0; i < n; ++i)
    r.push_back (i);
  if (subset_ok && c.variant % 2 && n > 1)
    { // drop one, reverse
      r.erase (r.begin () + n / 2);
      std::reverse (r.begin (), r.end ());
    }
  return r;
}

static void
load (Run &r, bool trees, bool volumes)
{
  auto pol = mc::g_rand.policy;
  auto devs = mc::g_rand.devs;
  RunOpt o;
  o.volumes = volumes;
  Trace &t = r.tr;
  run_sim (r.s, o, t);
  r.ref = reference (r.s, t);
  uint32_t n1 = mc::g_rand.n;
  mc::rand_begin (pol, devs);
  py::object &m = macposts_module ();
  uint32_t n0 = mc::g_rand.n;
  if (n0)
    mc::rand_begin (pol, devs);
  r.d = m.attr (r.s.mc ? "Mcdta" : "Dta").attr ("from_files") (scratch ());
  r.links = pick_links (r.c);
  if (r.c.variant % 3 == 0)
    r.d.attr ("register_links") ();
  else
    r.d.attr ("register_links") (iarr (r.links));
  r.paths = pick_paths (r.c, !r.s.mc);
  if (trees)
    r.d.attr ("register_paths") (iarr (r.paths));
  r.d.attr ("install_cc") ();
  if (trees)
    r.d.attr ("install_cc_tree") ();
  r.d.attr ("run_whole") ();
  mc::count (mc::g_rand.n == n1 ? "same_draws" : "different_draws");
  MC_CHECK (r.d.attr ("get_cur_loading_interval") ().cast<int> () == r.ref.T,
            "length", "the loading ran %d steps, the API reports %d", r.ref.T,
            r.d.attr ("get_cur_loading_interval") ().cast<int> ());
  for (auto &x : r.ref.trips)
    {
      mc::g_stats.nontrivial += x.e.size () > 1;
      if (x.gone < 0)
        mc::count ("unfinished_vehicles");
    }
}
// an API call that must be refused
template <class F>
static void
refused (const char *what, F f)
{
  mc::g_stats.checks++;
  bool threw = false;
  try
    {
      f ();
    }
  catch (py::error_already_set &)
    {
      threw = true;
    }
  MC_CHECK (threw, "not-refused", "%s was not refused", what);
}
static bool g_light = false; // sanitized run: no huge reservations
#define NAME(c, a, b) ((c) ? (b) : (a))

// ---------------------------------------------------------------- P14
static void
check_tt (Run &r)
{
  const Scenario &s = r.s;
  int T = r.ref.T;
  double u = s.unit_time;
  int nc = s.mc ? 2 : 1;
  // every start
  VI st;
  VD sd;
  for (int i = 0; i < T; ++i)
    {
      st.push_back (i);
      sd.push_back (i);
    }
  auto capped = [&] (double steps, int l, int c, bool inf) {
    double lim = 20 * r.ref.link.at (l).cap_s[c], x = steps * u;
    if (std::fabs (x - lim) < 1e-9 * lim)
      return -1.;
    if (x > lim)
      return inf ? std::numeric_limits<double>::infinity () : lim;
    return x;
  };
  for (int c = 0; c < nc; ++c)
    {
      for (int inf = 0; inf < 2; ++inf)
        {
          py::object o;
          const char *fn = s.mc ? NAME (c, "get_car_link_tt", "get_truck_link_tt")
                                : "get_link_tt";
          if (s.mc)
            o = r.d.attr (fn) (darr (sd), (bool) inf);
          else
            o = r.d.attr (fn) (iarr (st), (bool) inf);
          Mat m = mat (o);
          shape_is (m, { (long) r.links.size (), T }, fn);
          for (size_t i = 0; i < r.links.size (); ++i)
            for (int t = 0; t < T; ++t)
              {
                double x = r.ref.tt (r.links[i], c, t + 1);
                double want = capped (x, r.links[i], c, inf);
                if (want < 0)
                  continue;
                mc::g_stats.checks++;
                if (x > r.ref.link.at (r.links[i]).fftt[c])
                  mc::count ("congested_times");
                if (x * u > want)
                  mc::count ("capped_times");
                MC_CHECK (close (m.at (i, t), want), "link-tt",
                          "link %d class %d: travel time for an entry at step "
                          "%d is reported as %.9g s, the vehicles took %.9g s",
                          r.links[i], c, t, m.at (i, t), want);
              }
        }
      // averages
      for (int trials : { 1, 3, 180 })
        {
          VD a, b;
          for (int w : { 1, 4, T })
            for (int x = 0; x + w <= T; x += std::max (1, w - 1))
              {
                a.push_back (x);
                b.push_back (x + w);
                if (x + w + 0.5 <= T)
                  {
                    a.push_back (x + 0.25);
                    b.push_back (x + w + 0.25);
                  }
              }
          const char *fn
            = s.mc ? NAME (c, "get_car_link_tt_robust", "get_truck_link_tt_robust")
                   : "get_link_tt_robust";
          Mat m = mat (r.d.attr (fn) (darr (a), darr (b), trials, false));
          shape_is (m, { (long) r.links.size (), (long) a.size () }, fn);
          for (size_t i = 0; i < r.links.size (); ++i)
            for (size_t j = 0; j < a.size (); ++j)
              {
                double want
                  = capped (r.ref.robust (r.links[i], c, a[j], b[j], trials),
                            r.links[i], c, false);
                if (want < 0)
                  continue;
                mc::g_stats.checks++;
                MC_CHECK (close (m.at (i, j), want), "robust-tt",
                          "link %d class %d: average travel time over [%g, %g) "
                          "with %d probes is reported as %.9g s instead of %.9g",
                          r.links[i], c, a[j], b[j], trials, m.at (i, j), want);
              }
        }
    }
  if (s.mc)
    {
      for (int c = 0; c < 2; ++c)
        {
          Mat f = mat (r.d.attr (NAME (c, "get_car_link_fftt", "get_truck_link_fftt")) (
            iarr (r.links)));
          for (size_t i = 0; i < r.links.size (); ++i)
            MC_CHECK (close (f.v.at (i), r.ref.link.at (r.links[i]).fftt[c] * u),
                      "fftt", "link %d class %d: free-flow time %g instead of %g",
                      r.links[i], c, f.v[i],
                      r.ref.link.at (r.links[i]).fftt[c] * u);
          Mat v = mat (r.d.attr (NAME (c, "get_car_link_speed", "get_truck_link_speed")) (
            darr (sd)));
          for (size_t i = 0; i < r.links.size (); ++i)
            for (int t = 0; t < T; ++t)
              {
                mc::g_stats.checks++;
                double want = r.ref.link.at (r.links[i]).len
                              / (r.ref.tt (r.links[i], c, t + 1) * u) * 3600 / 1600;
                MC_CHECK (close (v.at (i, t), want), "speed",
                          "link %d class %d: speed at step %d is %g mph instead "
                          "of %g",
                          r.links[i], c, t, v.at (i, t), want);
              }
          VI all;
          for (auto &l : s.links)
            all.push_back (l.id);
          Mat g = mat (r.d.attr (NAME (c, "get_avg_link_on_path_tt_car",
                                       "get_avg_link_on_path_tt_truck")) (
            iarr (all), darr (sd)));
          for (size_t i = 0; i < all.size (); ++i)
            {
              double w = 0;
              bool amb = false;
              for (int t = 0; t < T; ++t)
                {
                  double x = capped (r.ref.tt (all[i], c, t + 1), all[i], c, false);
                  amb |= x < 0;
                  w += x / T;
                }
              MC_CHECK (amb || close (g.v.at (i), w), "avg-tt",
                        "link %d class %d: average travel time %g instead of %g",
                        all[i], c, g.v.at (i), w);
            }
        }
    }
  // the printed congestion report
  {
    int f = r.c.variant % 3 == 0 ? 1 : r.c.variant % 3 == 1 ? 3 : T;
    r.d.attr ("print_simulation_results") (scratch (), f);
    std::ifstream in (scratch () + "/driving_link_cong_raw.txt");
    std::string line;
    std::getline (in, line);
    std::map<std::pair<int, int>, VD> rows;
    while (std::getline (in, line))
      {
        std::istringstream ss (line);
        VD v;
        double x;
        while (ss >> x)
          v.push_back (x);
        MC_CHECK (v.size () == (s.mc ? 14u : 8u), "report",
                  "congestion report: a row of %zu values", v.size ());
        MC_CHECK (rows.insert ({ { (int) v[0], (int) v[1] }, v }).second,
                  "report", "congestion report: two rows for link %g at %g",
                  v[1], v[0]);
      }
    size_t want_rows = 0;
    auto near6 = [] (double a, double b) {
      return std::fabs (a - b) <= 1.5e-6 + 1e-7 * std::fabs (b);
    };
    for (int a = 0; a + f <= T; a += f)
      for (auto &l : s.links)
        {
          want_rows++;
          auto it = rows.find ({ a, l.id });
          MC_CHECK (it != rows.end (), "report",
                    "congestion report: no row for link %d at step %d", l.id, a);
          const VD &v = it->second;
          VD w;
          const LinkRef &k = r.ref.link.at (l.id);
          for (int c = 0; c < nc; ++c)
            for (auto *q : { &k.in[c], &k.out[c] })
              w.push_back (q->at (a + f) - q->at (a));
          double rt[2], ft[2];
          for (int c = 0; c < nc; ++c)
            w.push_back (rt[c] = r.ref.robust (l.id, c, a, a + f, 10) * u);
          for (int c = 0; c < nc; ++c)
            w.push_back (ft[c] = k.fftt[c] * u);
          for (int c = 0; c < nc; ++c)
            {
              w.push_back (k.len / ft[c] * 3600 / 1600);
              w.push_back (k.len / rt[c] * 3600 / 1600);
            }
          for (size_t j = 0; j < w.size (); ++j)
            {
              mc::g_stats.checks++;
              MC_CHECK (near6 (v.at (2 + j), w[j]), "report",
                        "congestion report of link %d from step %d over %d "
                        "steps: column %zu is %.9g instead of %.9g",
                        l.id, a, f, j + 3, v[2 + j], w[j]);
            }
        }
    MC_CHECK (rows.size () == want_rows, "report",
              "congestion report: %zu rows instead of %zu", rows.size (),
              want_rows);
  }
  // paths
  if (s.routing == "Hybrid" || s.routing == "Biclass_Hybrid")
    {
      r.d.attr ("build_link_cost_map") (false);
      if (!s.mc || true)
        r.d.attr ("register_paths") (iarr (r.paths));
      double vot = r.c.vot / 3600 * u;
      for (int c = 0; c < nc; ++c)
        {
          Mat reg = mat (
            r.d.attr (s.mc ? NAME (c, "get_registered_path_tt_car",
                                   "get_registered_path_tt_truck")
                           : "get_registered_path_tt") (iarr (st)));
          shape_is (reg, { (long) r.paths.size (), T }, "registered path tt");
          for (size_t i = 0; i < r.paths.size (); ++i)
            {
              auto &pl = r.ref.path_links[r.paths[i]];
              Mat one = mat (r.d.attr (s.mc ? NAME (c, "get_path_tt_car",
                                                    "get_path_tt_truck")
                                            : "get_path_tt") (iarr (pl), iarr (st)));
              shape_is (one, { 2, T }, "path tt");
              for (int t = 0; t < T; ++t)
                {
                  int cur = t;
                  double cost = 0;
                  bool amb = false;
                  for (int l : pl)
                    {
                      double x = r.ref.tt (l, c, std::min (cur, T - 1) + 1);
                      amb |= near_int (x);
                      cur += round_up (x);
                      auto &tl = c ? r.c.toll_t : r.c.toll;
                      cost += vot * x + (tl.count (l) ? tl.at (l) : 0);
                    }
                  if (amb)
                    {
                      mc::count ("ambiguous_paths");
                      continue;
                    }
                  mc::g_stats.checks += 2;
                  MC_CHECK (close (reg.at (i, t), (cur - t) * u), "path-tt",
                            "path %d class %d departing at step %d: registered "
                            "travel time %g s instead of %g",
                            r.paths[i], c, t, reg.at (i, t), (cur - t) * u);
                  MC_CHECK (close (one.at (0, t), (cur - t) * u), "path-tt",
                            "path %d class %d departing at step %d: travel time "
                            "%g s instead of %g",
                            r.paths[i], c, t, one.at (0, t), (cur - t) * u);
                  MC_CHECK (close (one.at (1, t), cost), "path-cost",
                            "path %d class %d departing at step %d: cost %.9g "
                            "instead of %.9g",
                            r.paths[i], c, t, one.at (1, t), cost);
                }
            }
        }
    }
  // fundamental-diagram travel times
  if (!s.mc)
    {
      Mat f = mat (r.d.attr ("get_link_tt_FD") (iarr (st)));
      for (size_t i = 0; i < r.links.size (); ++i)
        for (int t = 0; t < T; ++t)
          {
            const SLink &l = s.link (r.links[i]);
            const LinkRef &k = r.ref.link.at (l.id);
            double n = k.in[0].at (t) - k.out[0].at (t);
            double v = l.ffs * 1600 / 3600, q = l.cap / 3600, j = l.rhoj / 1600;
            double rho = n / l.lanes / k.len, kc = q / v;
            if (rho >= j * (1 - 1e-9) || std::fabs (rho - kc) < 1e-9 * kc)
              continue;
            double sp = rho <= kc ? v
                                  : std::max (l.type == "CTM" ? 0.001 * v
                                                              : 2.3e-16 * v,
                                              q * (j - rho) / ((j - kc) * rho));
            mc::g_stats.checks++;
            if (rho > kc)
              mc::count ("fd_congested");
            MC_CHECK (close (f.at (i, t), k.len / sp), "fd-tt",
                      "link %d: fundamental-diagram travel time at step %d is %g "
                      "instead of %g",
                      l.id, t, f.at (i, t), k.len / sp);
          }
    }
  for (int c = 0; c < nc; ++c)
    {
      const char *fn = s.mc ? NAME (c, "get_car_link_tt", "get_truck_link_tt")
                            : "get_link_tt";
      refused ("a start after the end of the loading", [&] {
        if (s.mc)
          r.d.attr (fn) (darr ({ 0, (double) T }), false);
        else
          r.d.attr (fn) (iarr ({ 0, T }), false);
      });
    }
}

// ---------------------------------------------------------------- P15
static void
check_dar (Run &r)
{
  const Scenario &s = r.s;
  int T = r.ref.T, nc = s.mc ? 2 : 1;
  // windows: consecutive ones of an assignment interval, and odd ones
  std::vector<std::pair<VI, VI>> win;
  {
    VI a, b;
    for (int x = 0; x < T; x += s.assign_frq)
      {
        a.push_back (x);
        b.push_back (std::min (T, x + s.assign_frq));
      }
    win.push_back ({ a, b });
    a.clear ();
    b.clear ();
    for (int x = 0; x < T; x += 3)
      {
        a.push_back (x);
        b.push_back (std::min (T, x + 5));
      }
    win.push_back ({ a, b });
  }
  int np = r.paths.size (), nl = r.links.size ();
  for (size_t w = 0; w < win.size (); ++w)
    {
      const VI &a = win[w].first, &b = win[w].second;
      for (int c = 0; c < nc; ++c)
        {
          // (path, assign, link, window) -> vehicles
          std::map<std::array<int, 4>, int> want;
          for (auto &x : r.ref.trips)
            {
              if (x.cls != c || x.path < 0
                  || std::find (r.paths.begin (), r.paths.end (), x.path)
                       == r.paths.end ())
                continue;
              for (auto &e : x.e)
                {
                  if (std::find (r.links.begin (), r.links.end (), e.first)
                        == r.links.end ()
                      || s.node (s.link (e.first).from).type == "DMOND")
                    continue;
                  for (size_t k = 0; k < a.size (); ++k)
                    if (a[k] < e.second + 1 && e.second + 1 <= b[k])
                      want[{ x.path, x.assign, e.first, (int) k }]++;
                }
            }
          const char *fn
            = s.mc ? NAME (c, "get_car_dar_matrix", "get_truck_dar_matrix")
                   : "get_dar_matrix";
          Mat m = mat (r.d.attr (fn) (iarr (a), iarr (b)));
          MC_CHECK (m.shape.size () == 2 && m.shape[1] == 5, "shape",
                    "%s: unexpected shape", fn);
          std::map<std::array<int, 4>, double> got;
          for (long i = 0; i < m.shape[0]; ++i)
            {
              int st = (int) m.at (i, 3);
              auto k = std::find (a.begin (), a.end (), st) - a.begin ();
              std::array<int, 4> key{ (int) m.at (i, 0), (int) m.at (i, 1),
                                      (int) m.at (i, 2), (int) k };
              if (s.node (s.link (key[2]).from).type == "DMOND")
                continue;
              MC_CHECK (!got.count (key), "dar-duplicate",
                        "path %d, departure interval %d, link %d, window %ld is "
                        "reported twice",
                        key[0], key[1], key[2], (long) k);
              got[key] = m.at (i, 4);
            }
          auto cmp = [&] (const char *what, double (*conv) (double)) {
            (void) what;
            (void) conv;
          };
          (void) cmp;
          for (auto &kv : want)
            {
              mc::g_stats.checks++;
              auto it = got.find (kv.first);
              double g = it == got.end () ? 0 : it->second,
                     e = kv.second / (double) s.flow_scalar;
              MC_CHECK (close (g, e), "dar",
                        "class %d, path %d, departure interval %d: %g vehicles "
                        "entered link %d in [%d, %d), reported %g",
                        c, kv.first[0], kv.first[1], e, kv.first[2],
                        a[kv.first[3]], b[kv.first[3]], g);
            }
          for (auto &kv : got)
            MC_CHECK (want.count (kv.first), "dar-extra",
                      "class %d, path %d, departure interval %d: %g vehicles "
                      "reported on link %d in [%d, %d), there were none",
                      c, kv.first[0], kv.first[1], kv.second, kv.first[2],
                      a[kv.first[3]], b[kv.first[3]]);
          if (want.size () > 2)
            mc::count ("dar_nonempty");
          // the matrix: rows (link, window), columns (path, departure interval)
          int ni = std::max ((int) a.size (), s.max_interval);
          VD f (np * ni);
          for (size_t i = 0; i < f.size (); ++i)
            f[i] = 0.5 + 0.25 * i;
          auto row = [&] (int link, int k) {
            return (int) (std::find (r.links.begin (), r.links.end (), link)
                          - r.links.begin ())
                   + nl * k;
          };
          auto col = [&] (int path, int as) {
            return (int) (std::find (r.paths.begin (), r.paths.end (), path)
                          - r.paths.begin ())
                   + np * as;
          };
          std::map<std::pair<int, int>, double> cell, seen;
          for (auto &kv : want)
            {
              int y = col (kv.first[0], kv.first[1]);
              cell[{ row (kv.first[2], kv.first[3]), y }]
                = kv.second / (double) s.flow_scalar / f[y];
            }
          const char *gn = s.mc ? NAME (c, "get_complete_car_dar_matrix",
                                        "get_complete_truck_dar_matrix")
                                : "get_complete_dar_matrix";
          // (the library reserves room for 1e9 entries here: not under ASan)
          if (!g_light)
          {
            py::object sm = r.d.attr (gn) (iarr (a), iarr (b), ni, darr (f));
            py::tuple shp = sm.attr ("shape");
            MC_CHECK (shp[0].cast<int> () == nl * ni
                        && shp[1].cast<int> () == np * ni,
                      "shape", "%s: shape (%d, %d) instead of (%d, %d)", gn,
                      shp[0].cast<int> (), shp[1].cast<int> (), nl * ni, np * ni);
            Mat d = mat (sm.attr ("toarray") ());
            for (int x = 0; x < nl * ni; ++x)
              for (int y = 0; y < np * ni; ++y)
                {
                  auto it = cell.find ({ x, y });
                  double e = it == cell.end () ? 0 : it->second;
                  if (e == 0
                      && s.node (s.link (r.links[x % nl]).from).type == "DMOND")
                    continue;
                  mc::g_stats.checks++;
                  MC_CHECK (close (d.at (x, y), e), "dar-matrix",
                            "%s: entry (link %d, window %d; path %d, interval "
                            "%d) is %g instead of %g",
                            gn, r.links[x % nl], x / nl, r.paths[y % np], y / np,
                            d.at (x, y), e);
                }
          }
          bool inorder = true; // the file numbers columns by path ID
          for (int i = 0; i < np; ++i)
            inorder &= r.paths[i] == i;
          inorder &= np == (int) s.paths.size ();
          if (inorder)
            {
              std::string fnm = scratch () + "/record/dar.txt";
              r.d.attr (s.mc ? NAME (c, "save_car_dar_matrix",
                                     "save_truck_dar_matrix")
                             : "save_dar_matrix") (iarr (a), iarr (b), darr (f),
                                                   fnm);
              FILE *fp = fopen (fnm.c_str (), "r");
              MC_CHECK (fp, "dar-file", "no file was written");
              int x, y;
              double v;
              std::map<std::pair<int, int>, double> file;
              while (fscanf (fp, "%d,%d,%lf", &x, &y, &v) == 3)
                {
                  if (s.node (s.link (r.links[x % nl]).from).type == "DMOND")
                    continue;
                  file[{ x, y }] = v;
                }
              fclose (fp);
              unlink (fnm.c_str ());
              MC_CHECK (file.size () == cell.size (), "dar-file",
                        "%zu entries in the file, %zu expected", file.size (),
                        cell.size ());
              for (auto &kv : cell)
                MC_CHECK (file.count (kv.first)
                            && std::fabs (file[kv.first] - kv.second) < 1e-6,
                          "dar-file",
                          "entry (%d, %d) of the file is wrong or missing",
                          kv.first.first, kv.first.second);
            }
        }
    }
  for (int c = 0; c < nc; ++c)
    {
      const char *fn = s.mc ? NAME (c, "get_car_dar_matrix", "get_truck_dar_matrix")
                            : "get_dar_matrix";
      refused ("an empty window", [&] { r.d.attr (fn) (iarr ({ 2 }), iarr ({ 2 })); });
      refused ("a window beyond the loading",
               [&] { r.d.attr (fn) (iarr ({ 0 }), iarr ({ T + 1 })); });
      refused ("windows of different number",
               [&] { r.d.attr (fn) (iarr ({ 0, 1 }), iarr ({ 1 })); });
    }
}

// ---------------------------------------------------------------- P05, P17, P23
static void
check_curves_api (Run &r)
{
  const Scenario &s = r.s;
  int T = r.ref.T, nc = s.mc ? 2 : 1;
  Mat lk = mat (r.d.attr ("links"));
  VI all;
  for (auto &l : s.links)
    all.push_back (l.id);
  std::sort (all.begin (), all.end ());
  MC_CHECK (lk.v.size () == all.size (), "links", "wrong number of links");
  for (size_t i = 0; i < all.size (); ++i)
    MC_CHECK (lk.v[i] == all[i], "links", "link %d is missing from the list",
              all[i]);
  Mat rl = mat (r.d.attr ("registered_links"));
  MC_CHECK (rl.v.size () == r.links.size (), "links", "registered links");
  for (size_t i = 0; i < r.links.size (); ++i)
    MC_CHECK (rl.v[i] == r.links[i], "links",
              "registered link %zu is reported as %g instead of %d", i, rl.v[i],
              r.links[i]);
  for (int c = 0; c < nc; ++c)
    for (int dir = 0; dir < 2; ++dir)
      {
        std::string fn = s.mc ? fmt ("get_%s_%s_ccs", c ? "truck" : "car",
                                     dir ? "out" : "in")
                              : fmt ("get_%s_ccs", dir ? "out" : "in");
        for (int own = 0; own < 2; ++own)
          {
            const VI &ls = own ? all : r.links;
            Mat m = mat (own ? r.d.attr (fn.c_str ()) (iarr (all))
                             : r.d.attr (fn.c_str ()) ());
            shape_is (m, { T + 1, (long) ls.size () }, fn.c_str ());
            for (size_t i = 0; i < ls.size (); ++i)
              {
                const LinkRef &k = r.ref.link.at (ls[i]);
                const Curve &cv = dir ? k.out[c] : k.in[c];
                for (int t = 0; t <= T; ++t)
                  {
                    mc::g_stats.checks++;
                    MC_CHECK (close (m.at (t, i), cv.at (t)), "curve",
                              "%s: link %d at time %d is %g, %g vehicles had "
                              "passed",
                              fn.c_str (), ls[i], t, m.at (t, i), cv.at (t));
                  }
              }
          }
        if (s.mc && dir)
          for (int l : all)
            for (double t = 0; t <= T; t += 0.5)
              {
                double g
                  = r.d.attr (NAME (c, "get_car_link_out_num",
                                    "get_truck_link_out_num")) (l, t)
                      .cast<double> ();
                MC_CHECK (close (g, r.ref.link.at (l).out[c].at (t)), "out-num",
                          "link %d class %d: %g vehicles out by %g instead of %g",
                          l, c, g, t, r.ref.link.at (l).out[c].at (t));
              }
      }
  for (int c = 0; c < nc; ++c)
    {
      const char *fn = s.mc ? NAME (c, "get_link_car_inflow", "get_link_truck_inflow")
                            : "get_link_inflow";
      VI a, b;
      for (int x = 0; x < T; ++x)
        for (int y : { x + 1, x + 4, T })
          if (y > x && y <= T)
            {
              a.push_back (x);
              b.push_back (y);
            }
      Mat m = mat (r.d.attr (fn) (iarr (a), iarr (b)));
      shape_is (m, { (long) r.links.size (), (long) a.size () }, fn);
      for (size_t i = 0; i < r.links.size (); ++i)
        for (size_t j = 0; j < a.size (); ++j)
          {
            const Curve &cv = r.ref.link.at (r.links[i]).in[c];
            mc::g_stats.checks++;
            MC_CHECK (close (m.at (i, j), cv.at (b[j]) - cv.at (a[j])), "inflow",
                      "link %d class %d: inflow in [%d, %d) is %g instead of %g",
                      r.links[i], c, a[j], b[j], m.at (i, j),
                      cv.at (b[j]) - cv.at (a[j]));
          }
      refused ("an empty window", [&] { r.d.attr (fn) (iarr ({ 2 }), iarr ({ 2 })); });
      refused ("a reversed window",
               [&] { r.d.attr (fn) (iarr ({ 3 }), iarr ({ 1 })); });
      refused ("a window beyond the loading",
               [&] { r.d.attr (fn) (iarr ({ 0 }), iarr ({ T + 1 })); });
      refused ("a window after the loading",
               [&] { r.d.attr (fn) (iarr ({ T }), iarr ({ T + 1 })); });
    }
  refused ("an unknown link", [&] {
    r.d.attr ("register_links") (iarr ({ 999 }));
  });
}
static void
check_stats_api (Run &r)
{
  const Scenario &s = r.s;
  int T = r.ref.T;
  double n[2] = { 0, 0 }, h[2] = { 0, 0 }, fin = 0;
  for (auto &x : r.ref.trips)
    {
      n[x.cls] += 1. / s.flow_scalar;
      int e = x.gone >= 0 ? x.gone : T;
      h[x.cls] += (e - x.start) * s.unit_time / 3600. / s.flow_scalar;
      fin += x.gone >= 0;
    }
  Mat m = mat (r.d.attr ("get_travel_stats") ());
  shape_is (m, { 4 }, "get_travel_stats");
  double want[4];
  if (s.mc)
    {
      want[0] = n[0];
      want[1] = n[1];
      want[2] = h[0];
      want[3] = h[1];
    }
  else
    {
      want[0] = n[0];
      want[1] = h[0];
      want[2] = n[0] - fin / s.flow_scalar;
      want[3] = fin / s.flow_scalar;
    }
  for (int i = 0; i < 4; ++i)
    {
      mc::g_stats.checks++;
      MC_CHECK (close (m.v[i], want[i]), "travel-stats",
                "travel statistic %d is %.9g instead of %.9g", i, m.v[i], want[i]);
    }
  if (!s.mc)
    return;
  Mat q = mat (r.d.attr ("get_enroute_and_queue_veh_stats_agg") ());
  shape_is (q, { T, 3 }, "get_enroute_and_queue_veh_stats_agg");
  for (int t = 0; t < T; ++t)
    {
      mc::g_stats.checks++;
      double e = r.ref.enroute[t] / (double) s.flow_scalar,
             w = r.ref.queued[t] / (double) s.flow_scalar;
      MC_CHECK (close (q.at (t, 0), e) && close (q.at (t, 1), w)
                  && close (q.at (t, 2), e - w),
                "queue-stats",
                "step %d: en route %g, queued %g, moving %g instead of %g, %g, %g",
                t, q.at (t, 0), q.at (t, 1), q.at (t, 2), e, w, e - w);
    }
  VI all, st;
  for (auto &l : s.links)
    all.push_back (l.id);
  for (int t = T - 1; t >= 0; --t)
    st.push_back (t);
  Mat k = mat (r.d.attr ("get_queue_veh_each_link") (iarr (all), iarr (st)));
  for (size_t i = 0; i < all.size (); ++i)
    for (size_t j = 0; j < st.size (); ++j)
      {
        mc::g_stats.checks++;
        MC_CHECK (close (k.at (i, j),
                         r.ref.queue.at (all[i])[st[j]] / (double) s.flow_scalar),
                  "queue-link", "link %d step %d: queue %g instead of %g", all[i],
                  st[j], k.at (i, j),
                  r.ref.queue.at (all[i])[st[j]] / (double) s.flow_scalar);
      }
  refused ("a step beyond the loading", [&] {
    r.d.attr ("get_queue_veh_each_link") (iarr (all), iarr ({ T }));
  });
}

// ---------------------------------------------------------------- P20
static double
rate (int what, double v)
{ // gallons or grams per mile at v mph, of a car
  switch (what)
    {
    case 0:
    case 1:
      {
        double e = 1.19102380e-07 * std::pow (v, 5) - 2.67383161e-05 * std::pow (v, 4)
                   + 2.35409750e-03 * std::pow (v, 3)
                   - 1.11752399e-01 * std::pow (v, 2) + 2.96137050 * v - 1.51623933;
        double f = std::max (1 / e, 0.);
        return what ? f * 8887 : f;
      }
    case 2:
      return std::max (
        0., 1.61479076909784e-13 * std::pow (v, 8) - 1.27884474982285e-10 * std::pow (v, 7)
              + 2.92924270300974e-8 * std::pow (v, 6) - 3.23670086149171e-6 * std::pow (v, 5)
              + 0.000201135990745703 * std::pow (v, 4)
              - 0.00737871178398462 * std::pow (v, 3)
              + 0.15792241257931 * std::pow (v, 2) - 1.82687242201925 * v
              + 9.84559996919605);
    case 3:
      return std::max (
        0., -1.08317411174986e-12 * std::pow (v, 8) + 2.53340626614398e-10 * std::pow (v, 7)
              - 2.12944112670644e-8 * std::pow (v, 6) + 5.97070024385679e-7 * std::pow (v, 5)
              + 1.79281854904105e-5 * std::pow (v, 4)
              - 0.00170366500109581 * std::pow (v, 3)
              + 0.047711166912908 * std::pow (v, 2) - 0.615061016205463 * v
              + 4.12900319568868);
    default:
      return std::max (
        0., -6.52009367269462e-13 * std::pow (v, 8) + 1.25335312366681e-10 * std::pow (v, 7)
              - 4.67202313364846e-9 * std::pow (v, 6) - 6.63892272105462e-7 * std::pow (v, 5)
              + 8.01942113220463e-5 * std::pow (v, 4)
              - 0.00374632777368871 * std::pow (v, 3)
              + 0.0895029037098895 * std::pow (v, 2) - 1.07265851515536 * v
              + 6.06514023873933);
    }
}
static double
truck_factor (int what, double v)
{
  static const double f[5][3] = { { 1.53, 1.50, 1.55 }, { 1.53, 1.50, 1.55 },
                                  { 1.87, 2.41, 2.01 }, { 3.97, 2.67, 5.01 },
                                  { 7.32, 6.03, 5.75 } };
  return f[what][v < 25 ? 0 : v < 55 ? 1 : 2];
}
static VD
numbers (const std::string &s)
{
  VD r;
  const char *p = s.c_str ();
  while (*p)
    {
      // digits that belong to a name (CO2) do not count
      if (isdigit (*p) || (*p == '-' && isdigit (p[1])))
        {
          if (p != s.c_str () && isalpha (p[-1]))
            {
              while (isdigit (*p))
                ++p;
              continue;
            }
          char *e;
          r.push_back (strtod (p, &e));
          p = e;
        }
      else
        ++p;
    }
  return r;
}
static void
check_emission (Run &r)
{
  const Scenario &s = r.s;
  int nc = s.mc ? 2 : 1, T = r.ref.T;
  double u = s.unit_time;
  VD want[2];
  std::set<int> trips[2];
  bool edge = false;
  for (auto &kv : r.tr.veh)
    { // labels come from the origin's shares
      const VInfo &v = kv.second;
      const VD &sh = r.c.share[v.cls == 1];
      mc::g_stats.checks++;
      if (sh.empty ())
        MC_CHECK (v.label == -1, "label", "vehicle %d has label %d without shares",
                  v.id, v.label);
      else
        {
          double tot = 0;
          for (double x : sh)
            tot += x;
          MC_CHECK ((v.label == -1 && tot < 1 - 1e-6)
                      || (v.label >= 0 && v.label < (int) sh.size ()),
                    "label", "vehicle %d of class %d has label %d",
                    v.id, v.cls, v.label);
        }
    }
  for (int c = 0; c < nc; ++c)
    {
      want[c].assign (8, 0); // fuel CO2 HC CO NOX VMT VMT_ev VHT
      for (int t = 0; t < T; ++t)
        for (int l : r.c.monitored)
          {
            const Step &st = r.tr.steps[t];
            double n[2] = { 0, 0 };
            for (auto &p : st.end.link.at (l))
              {
                const VInfo &v = r.tr.veh.at (p.id);
                if ((v.cls == 1) != (c == 1))
                  continue;
                trips[c].insert (p.id);
                if (p.stage == 2)
                  continue;
                n[v.label == r.c.ev[c]] += 1. / s.flow_scalar;
              }
            double v = r.ref.link.at (l).len / st.tt.at (l);
            double mph = std::min (65., std::max (5., v * 3600 / 1600));
            edge |= std::fabs (mph - 25) < 1e-9 || std::fabs (mph - 55) < 1e-9;
            double mi = v * u / 1600;
            for (int k = 0; k < 5; ++k)
              want[c][k] += rate (k, mph) * (c ? truck_factor (k, mph) : 1) * mi
                            * n[0];
            want[c][5] += mi * (n[0] + n[1]);
            want[c][6] += mi * n[1];
            want[c][7] += u * (n[0] + n[1]) / 3600;
            if (n[1] > 0)
              mc::count ("electric");
            if (n[0] > 0)
              mc::count ("fuelled");
          }
    }
  std::string out = r.d.attr ("print_emission_stats") ().cast<std::string> ();
  VD got = numbers (out);
  size_t per = s.mc ? 9 : 7;
  MC_CHECK (got.size () == per * nc, "emission", "unexpected output: %s",
            out.c_str ());
  static const char *nm[] = { "fuel", "CO2", "HC", "CO", "NOX",
                              "VMT",  "EV VMT", "VHT", "trips" };
  for (int c = 0; c < nc; ++c)
    for (size_t k = 0; k < per; ++k)
      {
        double w = k < 8 ? want[c][k] : trips[c].size ();
        if (c && k < 5 && edge)
          continue;
        mc::g_stats.checks++;
        MC_CHECK (std::fabs (got[c * per + k] - w) < 1.01e-6 + 1e-9 * std::fabs (w),
                  k < 8 ? "emission" : "trips",
                  "%s of class %d is reported as %.7f, the recorded trips give %.7f",
                  nm[k], c, got[c * per + k], w);
      }
  if (!s.mc)
    return;
  // time spent waiting at the end of each link
  VI all;
  for (auto &l : s.links)
    all.push_back (l.id);
  for (int own = 0; own < 2; ++own)
    for (int c = -1; c < 2; ++c)
      {
        const char *fn = c < 0    ? "get_waiting_time_at_intersections"
                         : c == 0 ? "get_waiting_time_at_intersections_car"
                                  : "get_waiting_time_at_intersections_truck";
        const VI &ls = r.links;
        if (own)
          break;
        Mat m = mat (r.d.attr (fn) ());
        MC_CHECK (m.v.size () == ls.size (), "shape", "%s: %zu values", fn,
                  m.v.size ());
        for (size_t i = 0; i < ls.size (); ++i)
          {
            double w = 0, in = 0;
            for (int t = 0; t < T; ++t)
              for (auto &p : r.tr.steps[t].end.link.at (ls[i]))
                if (p.stage == 0
                    && (c < 0 || (r.tr.veh.at (p.id).cls == 1) == (c == 1)))
                  w += u / s.flow_scalar;
            for (int k = 0; k < 2; ++k)
              if (c < 0 || c == k)
                in += r.ref.link.at (ls[i]).in[k].total ();
            mc::g_stats.checks++;
            MC_CHECK (close (m.v[i], w / (in + 1e-6)), "waiting",
                      "%s: link %d: %g s per vehicle instead of %g", fn, ls[i],
                      m.v[i], w / (in + 1e-6));
          }
      }
}

// ---------------------------------------------------------------- families
static ApiCase
make_case (const GenPoint &g, int variant, int limit, bool emission)
{
  ApiCase c;
  c.s = make_scenario (g);
  c.variant = variant;
  c.s.total_interval = limit;
  if (variant % 2)
    {
      c.vot = 15;
      c.s.extra_adaptive = "vot = 15\n";
      int i = 0;
      std::string f = c.s.mc ? "# link car truck\n" : "# link toll\n";
      for (auto &l : c.s.links)
        if (++i % 2)
          {
            c.toll[l.id] = 0.25 * i;
            c.toll_t[l.id] = 0.5 * i;
            f += c.s.mc ? fmt ("%d %s %s\n", l.id, num (c.toll[l.id]).c_str (),
                               num (c.toll_t[l.id]).c_str ())
                        : fmt ("%d %s\n", l.id, num (c.toll[l.id]).c_str ());
          }
      c.s.extra_conf += fmt ("num_of_tolled_link = %zu\n", c.toll.size ());
      c.s.extra["MNM_input_link_toll"] = f;
    }
  if (g.mc && variant >= 2)
    { // two-minute assignment intervals
      c.s.assign_frq = 24;
      c.s.fix_frq = 24;
    }
  if (emission)
    {
      std::string f;
      int i = 0;
      for (auto &l : c.s.links)
        if (variant % 3 == 0 || (++i % 2) == (variant % 3 == 1))
          {
            c.monitored.push_back (l.id);
            f += fmt ("%d\n", l.id);
          }
      c.s.extra["MNM_input_emission_linkID"] = f;
      static const VD sh[3][2] = { { {}, {} },
                                   { { 0.5, 0, 0.5 }, { 0, 0.75, 0.25 } },
                                   { { 0.25, 0.25, 0.25 }, { 0, 0, 0 } } };
      if (variant % 3 != 0)
        {
          auto txt = [&] (const VD &x) {
            std::string g = "# origin shares\n";
            for (auto &o : c.s.origins)
              {
                g += fmt ("%d", o.first);
                for (double y : x)
                  g += " " + num (y);
                g += "\n";
              }
            return g;
          };
          c.s.extra_conf += g.mc ? "num_of_car_labels = 3\nnum_of_truck_labels = 3\n"
                               : "num_of_vehicle_labels = 3\n";
          for (int k = 0; k < 1 + g.mc; ++k)
            {
              c.share[k] = sh[variant % 3][k];
              c.s.extra[!g.mc ? "MNM_input_origin_vehicle_label"
                        : k   ? "MNM_origin_label_truck"
                              : "MNM_origin_label_car"]
                = txt (c.share[k]);
              if (*std::max_element (c.share[k].begin (), c.share[k].end ()) <= 0)
                c.share[k].clear ();
            }
          if (g.mc)
            {
              c.ev[0] = variant % 3 == 1 ? 0 : 2;
              c.ev[1] = 1;
              c.s.extra_conf += fmt ("ev_label_car = %d\nev_label_truck = %d\n",
                                     c.ev[0], c.ev[1]);
            }
          else
            {
              c.ev[0] = variant % 2 ? 2 : 1;
              c.s.extra_conf += fmt ("ev_label = %d\n", c.ev[0]);
            }
        }
    }
  c.s.name += fmt ("/variant%d/limit%d", variant, limit);
  return c;
}
// ---------------------------------------------------------------- P11
// cheapest ways over the travel times of a loading (two-class)
static void
check_tdsp (Run &r)
{
  const Scenario &s = r.s;
  int T = r.ref.T, H = s.assign_frq * s.max_interval;
  if (!s.mc || H > T)
    return;
  double vot = r.c.vot / 3600 * s.unit_time;
  r.d.attr ("build_link_cost_map") (false);
  r.d.attr ("update_tdsp_tree") ();
  std::map<int, VD> x, cost;
  std::set<int> nodes;
  for (auto &l : s.links)
    {
      nodes.insert (l.from);
      nodes.insert (l.to);
      for (int t = 0; t < H; ++t)
        {
          double v = r.ref.tt (l.id, 0, t + 1);
          if (near_int (v))
            {
              mc::count ("ambiguous_paths");
              return;
            }
          x[l.id].push_back (v);
          cost[l.id].push_back (
            vot * v + (r.c.toll.count (l.id) ? r.c.toll.at (l.id) : 0));
        }
    }
  const double inf = std::numeric_limits<double>::infinity ();
  for (auto &kv : s.car)
    {
      int o = -1, d = -1;
      for (auto &k : s.origins)
        if (k.first == kv.first.first)
          o = k.second;
      for (auto &k : s.dests)
        if (k.first == kv.first.second)
          d = k.second;
      std::map<int, VD> D;
      for (int n : nodes)
        D[n].assign (H, n == d ? 0 : inf);
      for (size_t i = 0; i < nodes.size (); ++i)
        for (auto &l : s.links)
          if (l.from != d)
            D[l.from][H - 1] = std::min (D[l.from][H - 1],
                                         cost[l.id][H - 1] + D[l.to][H - 1]);
      for (int t = H - 2; t >= 0; --t)
        for (auto &l : s.links)
          if (l.from != d)
            D[l.from][t] = std::min (
              D[l.from][t],
              cost[l.id][t]
                + D[l.to][std::min (H - 1, t + round_up (x[l.id][t]))]);
      for (int t = 0; t + s.assign_frq <= H; ++t)
        {
          Mat m = mat (r.d.attr ("get_lowest_cost_path") (t, o, d));
          int n = m.shape.at (1);
          MC_CHECK (m.shape.size () == 2 && m.shape[0] == 4 && n >= 2, "shape",
                    "cheapest path: unexpected shape of the result");
          double want = D[o][t];
          mc::g_stats.checks++;
          MC_CHECK (std::fabs (m.at (1, 0) - want) <= 1, "distance",
                    "cheapest path from %d to %d at step %d: reported cost %g, "
                    "least is %g",
                    o, d, t, m.at (1, 0), want);
          VI pn, pl;
          for (int i = 0; i < n; ++i)
            {
              pn.push_back (m.at (2, i));
              if (i + 1 < n)
                pl.push_back (m.at (3, i));
            }
          MC_CHECK (pn.front () == o && pn.back () == d && m.at (3, n - 1) == -1,
                    "path-ends", "cheapest path from %d to %d has wrong ends", o,
                    d);
          double c = 0;
          int cur = t;
          bool simple = std::set<int> (pn.begin (), pn.end ()).size () == pn.size ();
          for (int i = 0; i + 1 < n; ++i)
            {
              MC_CHECK (s.link_between (pn[i], pn[i + 1]) == pl[i], "path",
                        "cheapest path from %d to %d is not connected", o, d);
              c += cost[pl[i]][cur];
              cur = std::min (H - 1, cur + round_up (x[pl[i]][cur]));
            }
          MC_CHECK (simple, "cycle", "cheapest path from %d to %d has a cycle", o,
                    d);
          MC_CHECK (r.c.s.name.find ("ring") != std::string::npos
                      || std::fabs (c - want) <= 1e-6 * std::max (1., want),
                    "path-cost",
                    "cheapest path from %d to %d at step %d costs %g, the least "
                    "is %g",
                    o, d, t, c, want);
          bool known = false;
          for (auto &p : s.paths)
            known |= p.nodes == pn;
          MC_CHECK ((m.at (0, 0) != 0) == known, "exists",
                    "cheapest path from %d to %d at step %d is reported as %s",
                    o, d, t, known ? "new, but it is in the table"
                                   : "in the table, but it is new");
        }
    }
}

typedef std::function<void (Run &)> Check;
static mc::Family
api_family (const std::string &name, bool mcl, bool trees, bool volumes, Check chk,
            std::function<void (Dims &, const mc::Tier &)> dims)
{
  auto pts = [mcl, dims] (const mc::Tier &t) {
    Dims d;
    d.topo = { T_CORRIDOR, T_MERGE, T_DIAMOND, T_CROSS, T_RING, T_BRAESS, T_HUB };
    d.ltype = { L_CTM, L_LQ, L_PQ, L_MIX };
    d.prof = { C_FREE, C_TIGHT, C_JAM, C_SHORT, C_TWO };
    d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3, 4, 7 } : std::vector<int>{ 1, 4 };
    d.routing = { R_HYBRID };
    d.demand = t.thorough ? std::vector<int>{ 1, 2, 3, 4 } : std::vector<int>{ 2, 4 };
    dims (d, t);
    std::vector<std::array<int, 3>> r; // point, variant, limit
    auto p = product (d, mcl);
    for (size_t i = 0; i < p.size (); ++i)
      for (int lim : { -1, 18 })
        for (int v = 0; v < 6; ++v)
          r.push_back ({ (int) i, v, lim });
    return std::make_pair (p, r);
  };
  mc::Family f;
  f.name = name;
  f.size = [pts] (const mc::Tier &t) { return (uint64_t) pts (t).second.size (); };
  f.describe = [pts, volumes] (const mc::Tier &t, uint64_t i) {
    auto x = pts (t);
    auto &e = x.second.at (i);
    return make_case (x.first[e[0]], e[1], e[2], volumes).s.name;
  };
  f.run = [pts, chk, trees, volumes] (const mc::Tier &t, uint64_t i) {
    static std::pair<std::vector<GenPoint>, std::vector<std::array<int, 3>>> x;
    static const void *of = nullptr;
    if (of != &chk)
      {
        x = pts (t);
        of = &chk;
      }
    auto &e = x.second.at (i);
    ApiCase c = make_case (x.first[e[0]], e[1], e[2], volumes);
    try
      {
        Run r (c);
        load (r, trees, volumes);
        chk (r);
      }
    catch (py::error_already_set &e)
      {
        throw Fail ("python-error", e.what ());
      }
  };
  f.policies_quick = 2;
  f.policies_thorough = 8;
  f.dev_quick = f.dev_thorough = 0;
  f.hang_s = 60;
  return f;
}
static mc::Family
api_deep (mc::Family f)
{
  f.name += "-deep";
  f.policies_quick = f.policies_thorough = 1;
  f.dev_quick = f.dev_thorough = 1;
  f.pos_cap_quick = 20;
  f.pos_cap_thorough = 200;
  return f;
}
static std::vector<mc::Family>
get (const std::string &p)
{
  std::vector<mc::Family> r;
  auto none = [] (Dims &, const mc::Tier &) {};
  auto few = [] (Dims &d, const mc::Tier &t) {
    d.topo = { T_CROSS, T_DIAMOND };
    d.ltype = { L_CTM, L_LQ };
    d.prof = t.thorough ? std::vector<int>{ C_TIGHT, C_JAM }
                        : std::vector<int>{ C_TIGHT };
    d.scalar = { 1 };
    d.demand = { 1 };
  };
  if (p == "P24")
    { // everything at once, judged by the sanitizers only
      g_light = true;
      for (int m = 0; m < 2; ++m)
        {
          auto all = [] (Run &r) {
            check_stats_api (r);
            check_emission (r);
            check_dar (r);
            check_tt (r);
            check_tdsp (r);
            check_curves_api (r);
          };
          auto dims = [] (Dims &d, const mc::Tier &t) {
            d.topo = { T_CROSS, T_DIAMOND, T_MERGE };
            d.ltype = { L_CTM, L_LQ, L_PQ, L_MIX };
            d.prof = { C_TIGHT, C_JAM, C_SHORT };
            d.scalar = { 1, 3 };
            d.demand = t.thorough ? std::vector<int>{ 1, 2, 4 } : std::vector<int>{ 2 };
          };
          auto f = api_family (m ? "api-biclass" : "api-single", m, true, true,
                               all, dims);
          f.policies_quick = 1;
          f.policies_thorough = 2;
          f.hang_s = 120;
          mc::append (r, mc::crash_only ({ f }, 1u << 30, 1u << 30));
        }
      return r;
    }
  for (int m = 0; m < 2; ++m)
    {
      std::string n = m ? "api-biclass" : "api-single";
      Check k;
      bool trees = false, volumes = false;
      if (p == "P14")
        k = check_tt;
      else if (p == "P11")
        {
          if (!m)
            continue;
          k = check_tdsp;
        }
      else if (p == "P15")
        {
          k = check_dar;
          trees = true;
        }
      else if (p == "P05")
        k = check_curves_api;
      else if (p == "P17")
        k = check_stats_api;
      else if (p == "P20")
        {
          k = check_emission;
          volumes = true;
        }
      else
        return r;
      r.push_back (api_family (n, m, trees, volumes, k, none));
      r.push_back (api_deep (api_family (n, m, trees, volumes, k, few)));
    }
  return r;
}
int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "api", get);
}
