// eq.cpp -- dynamic user equilibrium and system optimum: the iterations are
// driven step by step on the real classes, every table between two steps is
// compared with what the input and the link times of the loading imply, and the
// public run_due / run_dso must leave the same records under the same random
// answers.
#include "gen.h"
#include "sim.h"
#include "pyapi.h"
#include "dso.h"
#include "due.h"
#include <cfloat>
#include <fstream>
#include <sstream>

typedef std::map<VI, VD> Flows; // node sequence -> per interval
struct EqCase
{
  Scenario s;
  int engine = 0; // 0 user equilibrium, 1 system optimum
  int method = 0; // 0 with departure-time choice, 1 MSA, 2 gradient projection
  int iters = 3;
  double vot = 20, early = 10, late = 40, target = 4, lambda = 0.5;
  std::map<int, double> toll;
};
struct EqSnap
{
  Flows flow, tt, disu;
  double gap, total;
};
typedef std::unordered_map<TInt, TFlt *> LMap;

static Flows
flows_of (Path_Table *t, int what)
{
  Flows f;
  for (auto &o : *t)
    for (auto &d : *o.second)
      for (MNM_Path *p : d.second->m_path_vec)
        {
          VI n (p->m_node_vec.begin (), p->m_node_vec.end ());
          MC_CHECK (n.size () >= 2 && n.front () == o.first && n.back () == d.first,
                    "path-ends", "a path of the pair %d-%d runs %d..%d",
                    (int) o.first, (int) d.first, n.front (), n.back ());
          MC_CHECK (!f.count (n), "path-twice", "the same path is listed twice");
          VD v;
          if (what == 0)
            for (int i = 0; i < p->m_buffer_length; ++i)
              v.push_back (p->m_buffer[i]);
          else
            for (auto x : what == 1 ? p->m_travel_time_vec
                                    : p->m_travel_disutility_vec)
              v.push_back (x);
          f[n] = v;
        }
  return f;
}
static std::string
str (const VI &n)
{
  std::string r;
  for (int x : n)
    r += fmt ("%s%d", r.empty () ? "" : "-", x);
  return r;
}
static std::vector<int>
links_of (const Scenario &s, const VI &n)
{
  std::vector<int> l;
  for (size_t i = 0; i + 1 < n.size (); ++i)
    {
      int k = s.link_between (n[i], n[i + 1]);
      MC_CHECK (k >= 0, "path-connected", "no link %d -> %d on path %s", n[i],
                n[i + 1], str (n).c_str ());
      l.push_back (k);
    }
  return l;
}
// all simple paths between two nodes
static void
simple_paths (const Scenario &s, VI &cur, int to, std::vector<VI> &out)
{
  if (cur.back () == to)
    {
      out.push_back (cur);
      return;
    }
  for (auto &l : s.links)
    if (l.from == cur.back ()
        && std::find (cur.begin (), cur.end (), l.to) == cur.end ())
      {
        cur.push_back (l.to);
        simple_paths (s, cur, to, out);
        cur.pop_back ();
      }
}
static int
up (double x)
{
  if (x < 1)
    return 1;
  int f = (int) x;
  return x - f <= 1e-4 * x ? f : f + 1;
}
// steps and cost along a path when departing at t, given the link maps
static std::pair<double, double>
walk (const EqCase &c, const VI &n, int t, LMap &tt, LMap &cost, int L)
{
  int now = t;
  double sum = 0;
  for (int l : links_of (c.s, n))
    {
      int k = std::min (now, L - 1);
      sum += cost.at (l)[k];
      now += up (tt.at (l)[k]);
    }
  return { (double) now - t, sum };
}
// the same with the table's own notion of time: it stops at the last step
static double
walk_cost (const EqCase &c, const VI &n, int t, LMap &tt, LMap &cost, int L)
{
  int now = std::min (t, L - 1);
  double sum = 0;
  for (int l : links_of (c.s, n))
    {
      sum += cost.at (l)[now];
      now = std::min (now + up (tt.at (l)[now]), L - 1);
    }
  return sum;
}
static double
disutility (const EqCase &c, double depart, double tt)
{
  if (c.engine)
    return tt;
  double u = c.s.unit_time, arr = depart + tt, tgt = c.target * 60 / u;
  return c.vot / 3600 * u * tt
         + (arr >= tgt ? c.late / 3600 * u * (arr - tgt)
                       : c.early / 3600 * u * (tgt - arr));
}
static std::pair<int, int>
od_nodes (const Scenario &s, std::pair<int, int> od)
{
  int a = -1, b = -1;
  for (auto &o : s.origins)
    if (o.first == od.first)
      a = o.second;
  for (auto &d : s.dests)
    if (d.first == od.second)
      b = d.second;
  return { a, b };
}
static const double TOL = 1e-7;
static void
check_flows (const EqCase &c, const Flows &f, const char *when)
{
  const Scenario &s = c.s;
  std::map<std::pair<int, int>, VD> sum;
  for (auto &kv : f)
    {
      links_of (s, kv.first);
      auto &v = sum[{ kv.first.front (), kv.first.back () }];
      v.resize (s.max_interval);
      MC_CHECK ((int) kv.second.size () == s.max_interval, "flow-length",
                "%s: path %s has %zu intervals", when, str (kv.first).c_str (),
                kv.second.size ());
      for (int i = 0; i < s.max_interval; ++i)
        {
          MC_CHECK (kv.second[i] >= -TOL, "negative-flow",
                    "%s: path %s carries %g in interval %d", when,
                    str (kv.first).c_str (), kv.second[i], i);
          v[i] += kv.second[i];
        }
    }
  for (auto &od : s.car)
    {
      auto n = od_nodes (s, od.first);
      VD v = sum[n];
      v.resize (s.max_interval);
      if (c.method == 0)
        {
          double a = 0, b = 0;
          for (int i = 0; i < s.max_interval; ++i)
            {
              a += v[i];
              b += od.second[i];
            }
          MC_CHECK (std::fabs (a - b) <= TOL * (1 + b), "flow-total",
                    "%s: the paths of %d-%d carry %.9g in all, the demand is %.9g",
                    when, n.first, n.second, a, b);
        }
      else
        for (int i = 0; i < s.max_interval; ++i)
          MC_CHECK (std::fabs (v[i] - od.second[i]) <= TOL * (1 + od.second[i]),
                    "flow-interval",
                    "%s: the paths of %d-%d carry %.9g in interval %d, the demand "
                    "is %.9g",
                    when, n.first, n.second, v[i], i, od.second[i]);
      sum.erase (n);
    }
  for (auto &kv : sum)
    MC_CHECK (false, "flow-od", "%s: flow between %d and %d without demand", when,
              kv.first.first, kv.first.second);
}

// ---- what one update may do
static void
check_update (const EqCase &c, const Flows &a, const Flows &b, int iter, LMap &tt,
              LMap &cost, int L)
{
  const Scenario &s = c.s;
  auto old = [&] (const VI &p, int i) {
    auto it = a.find (p);
    return it == a.end () ? 0. : it->second[i];
  };
  for (auto &kv : a)
    MC_CHECK (b.count (kv.first), "path-lost", "path %s left the table",
              str (kv.first).c_str ());
  for (auto &od : s.car)
    {
      auto n = od_nodes (s, od.first);
      std::vector<VI> all, mine;
      VI cur{ n.first };
      simple_paths (s, cur, n.second, all);
      for (auto &kv : b)
        if (kv.first.front () == n.first && kv.first.back () == n.second)
          mine.push_back (kv.first);
      if (c.method == 0)
        { // the flow moves to one path in one interval
          double D = 0;
          for (double x : od.second)
            D += x;
          double cap = D * c.lambda / (iter + 1);
          bool ok = false;
          for (auto &best : mine)
            for (int col = 0; col < s.max_interval && !ok; ++col)
              {
                double moved = 0;
                bool fits = true;
                for (auto &p : mine)
                  for (int i = 0; i < s.max_interval; ++i)
                    if (p != best || i != col)
                      {
                        double m = std::min (old (p, i), cap);
                        moved += m;
                        fits &= std::fabs (b.at (p)[i] - (old (p, i) - m)) < TOL;
                      }
                fits &= std::fabs (b.at (best)[col] - (old (best, col) + moved)) < TOL;
                if (!fits)
                  continue;
                // is it a best one?
                double lo = DBL_MAX, hi = DBL_MAX;
                for (int t = 0; t < L; ++t)
                  {
                    // the least-cost paths of this departure time
                    double cm = DBL_MAX;
                    for (auto &p : all)
                      cm = std::min (cm, walk_cost (c, p, t, tt, cost, L));
                    int k = std::min (t / s.assign_frq, s.max_interval - 1);
                    for (auto &p : all)
                      if (walk_cost (c, p, t, tt, cost, L) <= cm + TOL)
                        {
                          double w = disutility (c, t,
                                                 walk_cost (c, p, t, tt, tt, L));
                          lo = std::min (lo, w);
                          if (k == col && p == best)
                            hi = std::min (hi, w);
                        }
                  }
                mc::g_stats.checks++;
                ok = hi <= lo + TOL;
                if (!ok && getenv ("EQ_DEBUG"))
                  fprintf (stderr, "best %s col %d: %g vs %g\n",
                           str (best).c_str (), col, hi, lo);
              }
          MC_CHECK (ok, "update-direction",
                    "iteration %d moved flow of %d-%d other than to a best path and "
                    "departure",
                    iter, n.first, n.second);
          continue;
        }
      for (int i = 0; i < s.max_interval; ++i)
        {
          int t = i * s.assign_frq;
          double cm = DBL_MAX;
          for (auto &p : all)
            cm = std::min (cm, walk_cost (c, p, t, tt, cost, L));
          if (c.method == 1)
            {
              double step = c.lambda / std::sqrt (iter + 1.);
              bool ok = false;
              for (auto &best : mine)
                if (!ok && walk_cost (c, best, t, tt, cost, L) <= cm + TOL)
                  {
                    double moved = 0;
                    bool fits = true;
                    for (auto &p : mine)
                      if (p != best)
                        {
                          double m = old (p, i) * step;
                          moved += m;
                          fits &= std::fabs (b.at (p)[i] - (old (p, i) - m)) < TOL;
                        }
                    ok = fits
                         && std::fabs (b.at (best)[i] - (old (best, i) + moved))
                              < TOL;
                    mc::g_stats.nontrivial += moved > 0;
                  }
              MC_CHECK (ok, "update-direction",
                        "iteration %d, interval %d: the flow of %d-%d did not move to "
                        "a least-cost path by the step",
                        iter, i, n.first, n.second);
            }
          else
            { // nobody costlier than the average of the paths in play gains, and
              // nobody cheaper loses
              double lo = DBL_MAX, hi = -DBL_MAX;
              std::vector<std::pair<double, double>> ch;
              for (auto &p : mine)
                {
                  double d = b.at (p)[i] - old (p, i);
                  double w = disutility (c, t, walk (c, p, t, tt, cost, L).first);
                  ch.push_back ({ w, d });
                  if (d > TOL)
                    hi = std::max (hi, w);
                  if (d < -TOL)
                    lo = std::min (lo, w);
                }
              mc::g_stats.nontrivial += lo < DBL_MAX;
              MC_CHECK (hi <= lo + TOL, "update-direction",
                        "iteration %d, interval %d: flow of %d-%d moved from cost %g "
                        "to cost %g",
                        iter, i, n.first, n.second, lo, hi);
              // the flow taken from the costliest used path is its share of the
              // smallest flow in play
              double fm = DBL_MAX, used_hi = -DBL_MAX, used_lo = DBL_MAX;
              for (size_t k = 0; k < mine.size (); ++k)
                if (old (mine[k], i) > TOL)
                  {
                    fm = std::min (fm, old (mine[k], i));
                    used_hi = std::max (used_hi, ch[k].first);
                    used_lo = std::min (used_lo, ch[k].first);
                  }
              if (used_hi > used_lo + 1e-6)
                MC_CHECK (lo < DBL_MAX, "update-stuck",
                          "iteration %d, interval %d: used paths of %d-%d cost %g and "
                          "%g, yet nothing moved",
                          iter, i, n.first, n.second, used_lo, used_hi);
            }
        }
    }
}

// ---- marginal time of one more vehicle entering at step i: free flow plus the
// time until the queue it finds (or causes) has dissolved
static double
marginal (const EqCase &c, const SLink &l, MNM_Dlink *k, const VD &tt, int ff, int i,
          int L)
{
  auto rate = [&] (MNM_Cumulative_Curve *q, int t) {
    return (q->get_result (t + 1.) - q->get_result ((double) t)) * c.s.flow_scalar;
  };
  double cap = std::max (1., std::floor (l.cap * l.lanes / 3600. * c.s.unit_time
                                           * c.s.flow_scalar
                                         + 1e-9));
  auto clear = [&] (int from) {
    for (int j = from + 1; j < L; ++j)
      if (tt[j - 1] > ff && tt[j] <= ff)
        return j;
    return 2 * L;
  };
  // the first step from i on at which another vehicle could still enter
  int j = i;
  if (l.type == "CTM")
    while (j < L && rate (k->m_N_in, j) > cap - 1e-3)
      ++j;
  int q;
  if (j == L)
    q = 2 * L;
  else if (tt[j] > ff)
    q = clear (j);
  else if (l.type == "CTM" && std::fabs (rate (k->m_N_out, j + ff) - cap) < 1e-3)
    q = clear (j);
  else
    q = j;
  return q - j + ff;
}

// ---- the iterations on the core classes
static std::vector<EqSnap>
drive (const EqCase &c)
{
  const Scenario &s = c.s;
  std::vector<EqSnap> out;
  std::unique_ptr<MNM_Due> due (c.engine ? (MNM_Due *) new MNM_Dso (scratch ())
                                         : new MNM_Due_Msa (scratch ()));
  due->initialize ();
  due->init_path_flow ();
  check_flows (c, flows_of (due->m_path_table, 0), "at the start");
  for (int it = 0; it < c.iters; ++it)
    {
      EqSnap x;
      x.flow = flows_of (due->m_path_table, 0);
      MNM_Dta *dta = due->run_dta (false);
      mc::g_stats.transitions += (int) dta->m_current_loading_interval;
      int T = dta->m_current_loading_interval;
      int L = s.total_interval > 0 ? s.total_interval
                                   : s.max_interval * s.assign_frq;
      // what was loaded is what the paths carry
      for (auto &o : dta->m_od_factory->m_origin_map)
        for (auto &d : o.second->m_demand)
          for (int i = 0; i < s.max_interval; ++i)
            {
              double f = 0;
              for (auto &kv : x.flow)
                if (kv.first.front () == o.second->m_origin_node->m_node_ID
                    && kv.first.back () == d.first->m_dest_node->m_node_ID)
                  f += kv.second[i];
              MC_CHECK (std::fabs (f - d.second[i]) < TOL, "loaded-demand",
                        "iteration %d loads %g for interval %d where the paths carry "
                        "%g",
                        it, (double) d.second[i], i, f);
            }
      due->build_link_cost_map (dta);
      for (auto &l : s.links)
        {
          MNM_Dlink *k = dta->m_link_factory->get_link (l.id);
          auto tl = c.toll.count (l.id) ? c.toll.at (l.id) : 0.;
          for (int i = 0; i < L; ++i)
            {
              double e = MNM_DTA_GRADIENT::get_travel_time (k, i + 1, s.unit_time, T);
              double v = due->m_link_tt_map.at (l.id)[i];
              MC_CHECK (close (e, v), "link-time",
                        "link %d, step %d: the table says %g, the loading %g", l.id, i,
                        v, e);
              double w = due->m_link_cost_map.at (l.id)[i];
              MC_CHECK (close (w, c.vot / 3600 * s.unit_time * e + tl), "link-cost",
                        "link %d, step %d: cost %g at time %g and toll %g", l.id, i, w,
                        e, tl);
            }
        }
      double total = 0;
      for (auto &kv : x.flow)
        for (int i = 0; i < s.max_interval; ++i)
          total += kv.second[i]
                   * walk (c, kv.first, i * s.assign_frq, due->m_link_tt_map,
                           due->m_link_cost_map, L)
                       .first;
      x.total = due->compute_total_travel_time ();
      MC_CHECK (close (x.total, total), "total-time",
                "iteration %d: total travel time %g, the paths give %g", it, x.total,
                total);
      if (c.engine)
        {
          auto *dso = (MNM_Dso *) due.get ();
          std::map<int, VD> before;
          for (auto &l : s.links)
            before[l.id] = VD (due->m_link_tt_map.at (l.id),
                               due->m_link_tt_map.at (l.id) + L);
          dso->get_link_marginal_cost (dta);
          for (auto &l : s.links)
            {
              int ff = dta->m_link_factory->get_link (l.id)
                         ->get_link_freeflow_tt_loading ();
              bool cong = false;
              for (int i = 0; i < L; ++i)
                cong |= before[l.id][i] > ff;
              for (int i = 0; i < L; ++i)
                {
                  double m = due->m_link_tt_map.at (l.id)[i];
                  MC_CHECK (m >= ff - TOL && m <= ff + 2 * L + TOL, "marginal-range",
                            "link %d, step %d: marginal time %g, free flow %d", l.id, i,
                            m, ff);
                  MC_CHECK (close (m, marginal (c, l, dta->m_link_factory
                                                        ->get_link (l.id),
                                                before[l.id], ff, i, L)),
                            "marginal-time",
                            "link %d, step %d: marginal time %g, expected %g", l.id, i,
                            m,
                            marginal (c, l, dta->m_link_factory->get_link (l.id),
                                      before[l.id], ff, i, L));
                  if (l.type == "PQ" && !cong)
                    MC_CHECK (close (m, ff), "marginal-free",
                              "link %d is never congested, yet its marginal time at "
                              "step %d is %g, not %d",
                              l.id, i, m, ff);
                  MC_CHECK (close (m, due->m_link_cost_map.at (l.id)[i]),
                            "marginal-cost",
                            "link %d, step %d: marginal time %g and cost %g", l.id, i,
                            m, (double) due->m_link_cost_map.at (l.id)[i]);
                }
            }
        }
      due->update_path_table_cost (dta);
      x.tt = flows_of (due->m_path_table, 1);
      x.disu = flows_of (due->m_path_table, 2);
      for (auto &kv : x.flow)
        for (int i = 0; i < s.max_interval; ++i)
          {
            double w = walk (c, kv.first, i * s.assign_frq, due->m_link_tt_map,
                             due->m_link_cost_map, L)
                         .first;
            MC_CHECK (close (x.tt.at (kv.first).at (i), w * s.unit_time), "path-time",
                      "iteration %d: path %s, interval %d takes %g s, its links take "
                      "%g s",
                      it, str (kv.first).c_str (), i, x.tt.at (kv.first).at (i),
                      w * s.unit_time);
            MC_CHECK (close (x.disu.at (kv.first).at (i),
                             disutility (c, i * s.assign_frq, w)),
                      "path-disutility",
                      "iteration %d: path %s, interval %d has disutility %g, expected "
                      "%g",
                      it, str (kv.first).c_str (), i, x.disu.at (kv.first).at (i),
                      disutility (c, i * s.assign_frq, w));
          }
      // the gap
      double gap = 0, base = 0;
      for (auto &od : s.car)
        {
          auto n = od_nodes (s, od.first);
          double all = DBL_MAX;
          for (int pass = 0; pass < 2; ++pass)
            for (int i = 0; i < s.max_interval; ++i)
              {
                double lo = DBL_MAX;
                for (auto &kv : x.flow)
                  if (kv.first.front () == n.first && kv.first.back () == n.second)
                    {
                      all = std::min (all, x.disu.at (kv.first)[i]);
                      if (kv.second[i] > 0)
                        lo = std::min (lo, x.disu.at (kv.first)[i]);
                    }
                if (!pass)
                  continue;
                for (auto &kv : x.flow)
                  if (kv.first.front () == n.first && kv.first.back () == n.second)
                    {
                      double f = kv.second[i], w = x.disu.at (kv.first)[i];
                      if (c.method == 0)
                        gap += f * (w - all);
                      else if (f > 0)
                        {
                          gap += f * (w - lo);
                          base += f * lo;
                        }
                    }
              }
        }
      x.gap = c.method == 0
                ? due->compute_merit_function ()
                : due->compute_merit_function_fixed_departure_time_choice ();
      if (c.method)
        gap /= base;
      MC_CHECK (close (x.gap, gap), "gap", "iteration %d: gap %g, expected %g", it,
                x.gap, gap);
      out.push_back (x);
      if (c.method == 0)
        due->update_path_table (dta, it);
      else if (c.method == 1)
        due->update_path_table_fixed_departure_time_choice (dta, it);
      else
        due->update_path_table_gp_fixed_departure_time_choice (dta, it);
      Flows now = flows_of (due->m_path_table, 0);
      check_flows (c, now, fmt ("after iteration %d", it).c_str ());
      check_update (c, x.flow, now, it, due->m_link_tt_map, due->m_link_cost_map, L);
      if (now.size () > x.flow.size ())
        mc::count ("new_paths");
      mc::Hash h;
      h.add (s.name);
      for (auto &kv : now)
        for (double v : kv.second)
          h.add (v);
      mc::g_stats.states.insert (h.h);
      dynamic_cast<MNM_Routing_Fixed *> (dta->m_routing)->m_path_table = nullptr;
      delete dta;
    }
  return out;
}

// ---- the records left by run_due / run_dso
static std::vector<VD>
rows (const std::string &f)
{
  std::vector<VD> r;
  std::ifstream in (f);
  MC_CHECK (in.good (), "record-missing", "%s was not written", f.c_str ());
  std::string line;
  while (std::getline (in, line))
    {
      std::istringstream is (line);
      VD v;
      double x;
      while (is >> x)
        v.push_back (x);
      if (!v.empty ())
        r.push_back (v);
    }
  return r;
}
static bool
near6 (double a, double b)
{
  if (std::isnan (a) || std::isnan (b))
    return std::isnan (a) && std::isnan (b);
  return std::fabs (a - b) <= 2e-6 + 1e-6 * std::fabs (b);
}
static void
check_records (const EqCase &c, const std::vector<EqSnap> &w, int k)
{
  std::string d = scratch () + "/record/";
  auto p = rows (d + "path_table"), f = rows (d + "path_table_buffer"),
       t = rows (d + "path_table_time"), u = rows (d + "path_table_disutility"),
       g = rows (d + "gap_iteration");
  const EqSnap &x = w.at (k - 1);
  MC_CHECK (p.size () == x.flow.size () && f.size () == p.size ()
              && t.size () == p.size () && u.size () == p.size (),
            "record-size", "%zu paths, %zu flows, %zu times, %zu costs recorded for "
                           "%zu paths",
            p.size (), f.size (), t.size (), u.size (), x.flow.size ());
  for (size_t i = 0; i < p.size (); ++i)
    {
      VI n (p[i].begin (), p[i].end ());
      MC_CHECK (x.flow.count (n), "record-path", "unexpected path %s in the record",
                str (n).c_str ());
      for (int j = 0; j < c.s.max_interval; ++j)
        {
          MC_CHECK (near6 (f[i].at (j), x.flow.at (n)[j]), "record-flow",
                    "after %d iterations path %s, interval %d: recorded flow %g, "
                    "expected %g",
                    k, str (n).c_str (), j, f[i][j], x.flow.at (n)[j]);
          MC_CHECK (near6 (t[i].at (j), x.tt.at (n)[j]), "record-time",
                    "after %d iterations path %s, interval %d: recorded time %g, "
                    "expected %g",
                    k, str (n).c_str (), j, t[i][j], x.tt.at (n)[j]);
          MC_CHECK (near6 (u[i].at (j), x.disu.at (n)[j]), "record-disutility",
                    "after %d iterations path %s, interval %d: recorded disutility "
                    "%g, expected %g",
                    k, str (n).c_str (), j, u[i][j], x.disu.at (n)[j]);
        }
    }
  MC_CHECK ((int) g.size () == k, "record-gap", "%zu gaps recorded for %d iterations",
            g.size (), k);
  for (int i = 0; i < k; ++i)
    MC_CHECK (near6 (g[i].at (0), w[i].gap) && near6 (g[i].at (1), w[i].total),
              "record-gap", "iteration %d: recorded gap %g and time %g, expected %g "
                            "and %g",
              i, g[i][0], g[i][1], w[i].gap, w[i].total);
}

// ---------------------------------------------------------------- cases
static EqCase
make_eq (const GenPoint &g, int engine, int method, int opt)
{
  EqCase c;
  c.s = make_scenario (g);
  c.s.routing = "Due";
  c.engine = engine;
  c.method = method;
  c.s.total_interval = opt & 1 ? -1 : 60;
  c.lambda = opt & 2 ? 1 : 0.4;
  c.target = opt & 2 ? 1.3 : 4;
  c.iters = 3;
  if (opt & 4)
    {
      std::string f = "# link toll\n";
      int i = 0;
      for (auto &l : c.s.links)
        if (i++ % 2)
          {
            c.toll[l.id] = 0.02 * i;
            f += fmt ("%d %s\n", l.id, num (c.toll[l.id]).c_str ());
          }
      c.s.extra_conf += fmt ("num_of_tolled_link = %zu\n", c.toll.size ());
      c.s.extra["MNM_input_link_toll"] = f;
    }
  c.s.extra_sections
    += fmt ("\n[DUE]\nvot = %s\nearly_penalty = %s\nlate_penalty = %s\n"
            "target_time = %s\nlambda = %s\nmax_iter = 3\n",
            num (c.vot).c_str (), num (c.early).c_str (), num (c.late).c_str (),
            num (c.target).c_str (), num (c.lambda).c_str ());
  c.s.name = fmt ("%s/%s/%s/opt%d", c.s.name.c_str (), engine ? "dso" : "due",
                  method == 0 ? "dtc" : method == 1 ? "msa" : "gp", opt);
  return c;
}
static void
run_eq (const EqCase &c)
{
  auto pol = mc::g_rand.policy;
  auto devs = mc::g_rand.devs;
  py::object &m = macposts_module ();
  mc::rand_begin (pol, devs);
  clear_dir (scratch ());
  write_scenario (c.s, scratch ());
  auto w = drive (c);
  for (int k : { 1, c.iters })
    {
      mc::rand_begin (pol, devs);
      try
        {
          py::object d = m.attr ("Dta") ();
          d.attr (c.engine ? "run_dso" : "run_due") (
            k, scratch (), false, c.method == 0, c.method == 2 ? "GP" : "MSA");
        }
      catch (py::error_already_set &e)
        {
          throw Fail ("python-error", e.what ());
        }
      check_records (c, w, k);
    }
}
static mc::Family
eq_family (const std::string &name, int engine, std::function<void (Dims &, const mc::Tier &)> dims)
{
  auto pts = [engine, dims] (const mc::Tier &t) {
    Dims d;
    d.topo = { T_DIAMOND, T_BRAESS, T_CROSS, T_RING, T_MERGE };
    d.ltype = engine ? std::vector<int>{ L_CTM, L_PQ }
                     : std::vector<int>{ L_CTM, L_LQ, L_PQ, L_MIX };
    d.prof = { C_FREE, C_TIGHT, C_JAM, C_TWO };
    d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3 } : std::vector<int>{ 1, 3 };
    d.routing = { R_FIXED };
    d.demand = t.thorough ? std::vector<int>{ 0, 1, 2, 3, 4 }
                          : std::vector<int>{ 1, 2, 4 };
    dims (d, t);
    return product (d, false);
  };
  mc::Family f;
  f.name = name;
  f.size = [pts] (const mc::Tier &t) { return (uint64_t) pts (t).size () * 24; };
  auto cache = std::make_shared<std::vector<GenPoint>> ();
  auto mk = [pts, engine, cache] (const mc::Tier &t, uint64_t i) {
    if (cache->empty ())
      *cache = pts (t);
    return make_eq (cache->at (i / 24), engine, i % 3, (i / 3) % 8);
  };
  f.describe = [mk] (const mc::Tier &t, uint64_t i) { return mk (t, i).s.name; };
  f.run = [mk] (const mc::Tier &t, uint64_t i) { run_eq (mk (t, i)); };
  f.policies_quick = 1;
  f.policies_thorough = 6;
  f.dev_quick = f.dev_thorough = 0;
  f.hang_s = 60;
  return f;
}
static std::vector<mc::Family>
get (const std::string &p)
{
  std::vector<mc::Family> r;
  auto none = [] (Dims &, const mc::Tier &) {};
  if (p == "P19" || p == "P24")
    {
      auto small = [] (Dims &d, const mc::Tier &t) {
        if (t.thorough)
          return;
        d.topo = { T_BRAESS, T_RING, T_MERGE };
        d.prof = { C_TIGHT, C_JAM };
        d.scalar = { 3 };
        d.demand = { 2 };
      };
      std::function<void (Dims &, const mc::Tier &)> dims = none;
      if (p == "P24")
        dims = small;
      r.push_back (eq_family ("due", 0, dims));
      r.push_back (eq_family ("dso", 1, dims));
      auto few = [] (Dims &d, const mc::Tier &t) {
        d.topo = { T_DIAMOND, T_BRAESS };
        d.ltype = { L_CTM };
        d.prof = t.thorough ? std::vector<int>{ C_TIGHT, C_JAM }
                            : std::vector<int>{ C_TIGHT };
        d.scalar = { 1 };
        d.demand = { 1 };
      };
      for (int e = 0; e < 2 && p == "P19"; ++e)
        {
          auto f = eq_family (e ? "dso-deep" : "due-deep", e, few);
          f.policies_quick = f.policies_thorough = 1;
          f.dev_quick = f.dev_thorough = 1;
          f.pos_cap_quick = 6;
          f.pos_cap_thorough = 60;
          r.push_back (f);
        }
      if (p == "P24")
        return mc::crash_only (r, 1u << 30, 1u << 30);
    }
  return r;
}
int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "eq", get);
}
