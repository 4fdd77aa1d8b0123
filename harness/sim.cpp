// sim.cpp -- whole-network properties, explored on the real simulator.
#include "gen.h"
#include "sim.h"
#include <cmath>
#include <memory>

using mc::Fail;
using mc::fmt;

// ---------------------------------------------------------------- helpers
static int
ff_steps (const Scenario &s, const SLink &l)
{
  double m = l.len * 1600, v = l.ffs * 1600 / 3600.;
  double x = m / (v * s.unit_time);
  if (l.type == "LQ" || l.type == "LTM")
    return 1;
  int n = (int) std::floor (x + 1e-6);
  return std::max (1, n);
}
typedef std::map<int, std::vector<std::pair<int, int>>> Trips; // id->(link,step)
static Trips
trips_of (const Trace &t)
{
  Trips r;
  std::map<int, int> last;
  for (size_t k = 0; k < t.steps.size (); ++k)
    for (auto &kv : t.steps[k].mid.link)
      for (auto &p : kv.second)
        {
          auto it = last.find (p.id);
          if (it == last.end () || it->second != kv.first)
            {
              last[p.id] = kv.first;
              r[p.id].push_back ({ kv.first, (int) k });
            }
        }
  return r;
}
struct CMap // class-aware view of "where" in a snapshot
{
  std::map<int, std::pair<int, int>> at; // veh -> (kind<<20|place, stage)
};
static void
locate (const Snap &s, CMap &m, const char *when, int step)
{
  auto put = [&] (const std::map<int, std::vector<Pos>> &x, int kind) {
    for (auto &kv : x)
      for (auto &p : kv.second)
        {
          bool fresh
            = m.at.insert ({ p.id, { kind << 20 | kv.first, p.stage } }).second;
          mc::g_stats.checks++;
          MC_CHECK (fresh, "duplicated-vehicle",
                    "step %d (%s): vehicle %d is in two places at once", step,
                    when, p.id);
        }
  };
  put (s.origin, 1);
  put (s.link, 2);
  put (s.dest, 3);
}

// ---------------------------------------------------------------- P01 / P02
static void
check_conservation (const Scenario &sc, const Trace &t)
{
  std::set<int> known; // released, not yet received
  int received = 0;
  int rec_c[2] = { 0, 0 };
  size_t maxq = 0;
  for (size_t k = 0; k < t.steps.size (); ++k)
    {
      const Step &s = t.steps[k];
      CMap mid, end;
      locate (s.mid, mid, "after junctions", k);
      locate (s.end, end, "end of step", k);
      for (int id : known)
        MC_CHECK (mid.at.count (id), "lost-vehicle",
                  "step %zu: vehicle %d vanished while crossing a junction", k,
                  id);
      for (auto &kv : mid.at)
        if (!known.count (kv.first))
          {
            const VInfo &v = t.veh.at (kv.first);
            MC_CHECK (v.start_time == (int) k, "spurious-vehicle",
                      "step %zu: vehicle %d appeared out of nowhere (released "
                      "at %d)",
                      k, kv.first, v.start_time);
            known.insert (kv.first);
          }
      for (int id : std::set<int> (known))
        {
          bool at_dest = mid.at[id].first >> 20 == 3;
          if (at_dest)
            {
              const VInfo &v = t.veh.at (id);
              MC_CHECK ((mid.at[id].first & 0xfffff) == v.dnode,
                        "wrong-destination",
                        "step %zu: vehicle %d left at node %d, bound for %d", k,
                        id, mid.at[id].first & 0xfffff, v.dnode);
              MC_CHECK (!end.at.count (id), "not-received",
                        "step %zu: vehicle %d reached its destination but was "
                        "not received",
                        k, id);
              known.erase (id);
              received++;
              rec_c[v.cls == 1]++;
            }
          else
            MC_CHECK (end.at.count (id), "lost-vehicle",
                      "step %zu: vehicle %d vanished on its link or at its "
                      "origin",
                      k, id);
        }
      MC_CHECK (end.at.size () == known.size (), "spurious-vehicle",
                "step %zu: %zu vehicles in the network, %zu expected", k,
                end.at.size (), known.size ());
      for (auto &kv : end.at)
        MC_CHECK (known.count (kv.first), "spurious-vehicle",
                  "step %zu: unknown vehicle %d", k, kv.first);
      // vehicles stay where the junction step put them
      for (auto &kv : end.at)
        MC_CHECK (mid.at[kv.first].first == kv.second.first, "teleport",
                  "step %zu: vehicle %d changed place during the link step", k,
                  kv.first);
      int n = (int) known.size ();
      MC_CHECK (s.num_veh == n + received && s.enroute == n
                  && s.finished == received,
                "counters",
                "step %zu: counters released=%d enroute=%d finished=%d, actual "
                "%d/%d/%d",
                k, s.num_veh, s.enroute, s.finished, n + received, n, received);
      if (sc.mc)
        {
          int nc[2] = { 0, 0 };
          for (int id : known)
            nc[t.veh.at (id).cls == 1]++;
          for (int c = 0; c < 2; ++c)
            MC_CHECK (s.num_c[c] == nc[c] + rec_c[c] && s.enroute_c[c] == nc[c]
                        && s.finished_c[c] == rec_c[c],
                      "class-counters",
                      "step %zu class %d: counters %d/%d/%d, actual %d/%d/%d", k,
                      c, s.num_c[c], s.enroute_c[c], s.finished_c[c],
                      nc[c] + rec_c[c], nc[c], rec_c[c]);
        }
      for (auto &kv : s.end.link)
        maxq = std::max (maxq, kv.second.size ());
      // everything is released and the network is empty: nothing left to do
      if (sc.total_interval <= 0 && known.empty ()
          && (int) k + 1 >= (sc.max_interval - sc.start_assign) * sc.assign_frq)
        MC_CHECK (k + 1 == t.steps.size (), "late-stop",
                  "the network is empty after step %zu, the loading goes on",
                  k);
    }
  MC_CHECK ((int) t.steps.size ()
              >= (sc.max_interval - sc.start_assign) * sc.assign_frq,
            "early-stop", "loading ended before the last departure interval");
  // total_interval = -1: loading ends exactly when the network is empty
  if (sc.total_interval <= 0)
    {
      MC_CHECK (known.empty (), "early-stop",
                "loading ended with %zu vehicles still travelling",
                known.size ());
      MC_CHECK (t.ret == (int) t.steps.size (), "length",
                "loading returned %d after %zu steps", t.ret, t.steps.size ());
    }
  else
    MC_CHECK ((int) t.steps.size ()
                == std::max (sc.total_interval,
                             (sc.max_interval - sc.start_assign)
                               * sc.assign_frq),
              "length", "%zu steps instead of the configured %d",
              t.steps.size (), sc.total_interval);
  if (received > 2 && maxq > 2)
    mc::g_stats.nontrivial++;
}

// ---------------------------------------------------------------- P04 trips
static void
check_trips (const Scenario &sc, const Trace &t)
{
  Trips tr = trips_of (t);
  // one link entered per step at most, and continuity
  for (auto &kv : tr)
    {
      const VInfo &v = t.veh.at (kv.first);
      auto &r = kv.second;
      MC_CHECK (sc.link (r[0].first).from == v.onode, "start",
                "vehicle %d enters link %d, which does not leave its origin "
                "node %d",
                v.id, r[0].first, v.onode);
      MC_CHECK (r[0].second >= v.start_time, "start",
                "vehicle %d moves before its release", v.id);
      for (size_t i = 0; i + 1 < r.size (); ++i)
        {
          const SLink &a = sc.link (r[i].first), &b = sc.link (r[i + 1].first);
          MC_CHECK (a.to == b.from, "disconnected",
                    "vehicle %d jumps from link %d to link %d", v.id, a.id,
                    b.id);
          int dt = r[i + 1].second - r[i].second;
          MC_CHECK (dt >= ff_steps (sc, a), "too-fast",
                    "vehicle %d crosses link %d in %d steps, free flow takes "
                    "%d",
                    v.id, a.id, dt, ff_steps (sc, a));
          mc::g_stats.checks++;
        }
      if (v.gone)
        {
          const SLink &z = sc.link (r.back ().first);
          MC_CHECK (z.to == v.dnode, "wrong-end",
                    "vehicle %d ends on link %d, not at its destination %d",
                    v.id, z.id, v.dnode);
          int dt = v.gone_step - r.back ().second;
          MC_CHECK (dt >= ff_steps (sc, z), "too-fast",
                    "vehicle %d crosses its last link %d in %d steps, free flow "
                    "takes %d",
                    v.id, z.id, dt, ff_steps (sc, z));
        }
      if (!v.adaptive)
        {
          // the whole trip follows one listed path of its OD pair
          bool found = false;
          for (auto &p : sc.paths)
            {
              if (p.nodes.front () != v.onode || p.nodes.back () != v.dnode)
                continue;
              bool ok = v.gone ? p.nodes.size () - 1 == r.size ()
                               : p.nodes.size () - 1 >= r.size ();
              for (size_t i = 0; ok && i < r.size (); ++i)
                ok = sc.link_between (p.nodes[i], p.nodes[i + 1]) == r[i].first;
              found = found || ok;
            }
          MC_CHECK (found, "off-path",
                    "fixed-route vehicle %d drove a route that is not listed "
                    "for its origin and destination",
                    v.id);
          if (!v.path_links.empty ())
            for (size_t i = 0; i < r.size (); ++i)
              MC_CHECK (v.path_links.at (i) == r[i].first, "off-path",
                        "fixed-route vehicle %d left the path it was assigned",
                        v.id);
        }
      if (r.size () > 2)
        mc::g_stats.nontrivial++;
    }
}

// ---------------------------------------------------------------- P08 FIFO
static std::vector<int>
ids (const std::vector<Pos> &v, const Trace &t, int cls)
{
  std::vector<int> r;
  for (auto &p : v)
    if (cls < 0 || t.veh.at (p.id).cls == cls)
      r.push_back (p.id);
  return r;
}
static void
check_fifo (const Scenario &sc, const Trace &t)
{
  for (size_t k = 0; k < t.steps.size (); ++k)
    {
      const Step &s = t.steps[k];
      for (auto &kv : s.mid.link)
        {
          int lid = kv.first;
          // link phase: nobody overtakes anybody (within a class)
          for (int c = sc.mc ? 0 : -1; c < (sc.mc ? 2 : 0); ++c)
            {
              std::vector<int> a = ids (kv.second, t, c),
                               b = ids (s.end.link.at (lid), t, c);
              mc::g_stats.checks++;
              MC_CHECK (a == b, "overtaking",
                        "step %zu link %d class %d: the order of vehicles "
                        "changed during the link step",
                        k, lid, c);
            }
          // junction phase
          if (k == 0)
            continue;
          const std::vector<Pos> &before = t.steps[k - 1].end.link.at (lid);
          std::map<int, int> now; // id -> next link at mid
          for (auto &p : kv.second)
            now[p.id] = p.next;
          size_t j = 0;
          std::set<int> left_next; // next links of vehicles still waiting ahead
          bool stay_dest = false;
          for (auto &p : before)
            {
              if (now.count (p.id))
                {
                  // stays: must keep its relative position
                  MC_CHECK (j < kv.second.size () && kv.second[j].id == p.id,
                            "overtaking",
                            "step %zu link %d: order changed at the junction",
                            k, lid);
                  ++j;
                  if (p.stage == 0)
                    {
                      left_next.insert (now[p.id]);
                      stay_dest = true;
                    }
                }
              else
                {
                  MC_CHECK (p.stage == 0, "left-early",
                            "step %zu: vehicle %d left link %d from its middle",
                            k, p.id, lid);
                  // where did it go?
                  int to = -1;
                  for (auto &q : s.mid.link)
                    for (auto &x : q.second)
                      if (x.id == p.id)
                        to = q.first;
                  if (to >= 0)
                    MC_CHECK (!left_next.count (to), "overtaking",
                              "step %zu: vehicle %d moved from link %d to %d "
                              "ahead of an earlier vehicle heading the same way",
                              k, p.id, lid, to);
                  else
                    MC_CHECK (!stay_dest, "overtaking",
                              "step %zu: vehicle %d left the network from link "
                              "%d ahead of an earlier one",
                              k, p.id, lid);
                  if (before.size () > 1)
                    mc::g_stats.nontrivial++;
                }
            }
          // what remains are newcomers, at the tail, freshly handed over
          for (; j < kv.second.size (); ++j)
            MC_CHECK (kv.second[j].stage == 2, "cut-in",
                      "step %zu link %d: vehicle %d joined ahead of the tail", k,
                      lid, kv.second[j].id);
        }
    }
}

// ---------------------------------------------------------------- P05 curves
static void
cmp_curve (MNM_Cumulative_Curve *c, const std::vector<int> &ev, int scalar,
           size_t steps, const char *what, int lid)
{
  // ev: the step at which each vehicle crossed; visible from time step+1 on
  MC_CHECK (c != nullptr, "no-curve", "link %d has no %s curve", lid, what);
  double prev = 0;
  for (size_t t = 0; t <= steps; ++t)
    {
      int n = 0;
      for (int e : ev)
        if (e + 1 <= (int) t)
          n++;
      double got = c->get_result (TFlt (t));
      mc::g_stats.checks++;
      MC_CHECK (std::fabs (got - double (n) / scalar) < 1e-6, "curve-value",
                "link %d: %s curve at time %zu reads %g, %d vehicles (%g) have "
                "crossed",
                lid, what, t, got, n, double (n) / scalar);
      MC_CHECK (got >= prev - 1e-9, "curve-monotone",
                "link %d: %s curve decreases at time %zu", lid, what, t);
      prev = got;
    }
  double before = -1;
  for (auto &r : c->m_recorder)
    {
      MC_CHECK (r.first > before, "curve-order",
                "link %d: %s curve records out of order", lid, what);
      before = r.first;
    }
}
static void
check_curves (const Scenario &sc, MNM_Dta *d, const Trace &t)
{
  Trips tr = trips_of (t);
  for (auto &l : sc.links)
    {
      std::vector<int> in[3], out[3]; // all, car, truck
      for (auto &kv : tr)
        {
          const VInfo &v = t.veh.at (kv.first);
          int c = v.cls == 1 ? 2 : 1;
          for (size_t i = 0; i < kv.second.size (); ++i)
            if (kv.second[i].first == l.id)
              {
                in[0].push_back (kv.second[i].second);
                in[c].push_back (kv.second[i].second);
                int o = i + 1 < kv.second.size () ? kv.second[i + 1].second
                                                  : v.gone_step;
                if (o >= 0)
                  {
                    out[0].push_back (o);
                    out[c].push_back (o);
                  }
              }
        }
      MNM_Dlink *k = d->m_link_factory->get_link (l.id);
      if (in[0].size () > 1)
        mc::g_stats.nontrivial++;
      if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (k))
        {
          cmp_curve (m->m_N_in_car, in[1], sc.flow_scalar, t.steps.size (),
                     "car entry", l.id);
          cmp_curve (m->m_N_out_car, out[1], sc.flow_scalar, t.steps.size (),
                     "car exit", l.id);
          cmp_curve (m->m_N_in_truck, in[2], sc.flow_scalar, t.steps.size (),
                     "truck entry", l.id);
          cmp_curve (m->m_N_out_truck, out[2], sc.flow_scalar, t.steps.size (),
                     "truck exit", l.id);
        }
      else
        {
          cmp_curve (k->m_N_in, in[0], sc.flow_scalar, t.steps.size (), "entry",
                     l.id);
          cmp_curve (k->m_N_out, out[0], sc.flow_scalar, t.steps.size (), "exit",
                     l.id);
        }
    }
}
static void
check_trees (const Scenario &sc, MNM_Dta *d, const Trace &t)
{
  Trips tr = trips_of (t);
  // path-resolved curves are kept at junctions, not at origins/destinations
  for (auto &l : sc.links)
    {
      bool jin = sc.node (l.from).type != "DMOND",
           jout = sc.node (l.to).type != "DMDND";
      // (path, interval) -> entry/exit steps, per class
      typedef std::map<std::pair<MNM_Path *, int>, std::vector<int>> M;
      M in[2], out[2];
      for (auto &kv : tr)
        {
          const VInfo &v = t.veh.at (kv.first);
          if (!v.path)
            continue;
          for (size_t i = 0; i < kv.second.size (); ++i)
            if (kv.second[i].first == l.id)
              {
                in[v.cls == 1][{ v.path, v.assign }].push_back (
                  kv.second[i].second);
                int o = i + 1 < kv.second.size () ? kv.second[i + 1].second
                                                  : v.gone_step;
                if (o >= 0)
                  out[v.cls == 1][{ v.path, v.assign }].push_back (o);
              }
        }
      auto cmp = [&] (MNM_Tree_Cumulative_Curve *tree, M &m, const char *what) {
        if (!tree)
          return;
        size_t seen = 0;
        for (auto &a : tree->m_record)
          for (auto &b : a.second)
            {
              auto it = m.find ({ a.first, b.first });
              static const std::vector<int> none;
              const std::vector<int> &ev = it == m.end () ? none : it->second;
              if (it != m.end ())
                seen++;
              // adaptive drivers may leave their nominal path; still counted
              cmp_curve (b.second, ev, sc.flow_scalar, t.steps.size (), what,
                         l.id);
            }
        MC_CHECK (seen == m.size (), "tree-missing",
                  "link %d: %zu of %zu (path, departure interval) groups "
                  "recorded by the %s tree",
                  l.id, seen, m.size (), what);
        if (m.size () > 1)
          mc::g_stats.nontrivial++;
      };
      MNM_Dlink *k = d->m_link_factory->get_link (l.id);
      if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (k))
        {
          if (jin)
            {
              MC_CHECK (m->m_N_in_tree_car && m->m_N_in_tree_truck, "no-tree",
                        "installed entry trees are missing");
              cmp (m->m_N_in_tree_car, in[0], "car entry");
              cmp (m->m_N_in_tree_truck, in[1], "truck entry");
            }
        }
      else
        {
          MC_CHECK (k->m_N_in_tree, "no-tree", "installed entry tree is missing");
          if (jin)
            cmp (k->m_N_in_tree, in[0], "entry");
          if (jout)
            cmp (k->m_N_out_tree, out[0], "exit");
        }
    }
}

// ---------------------------------------------------------------- P03 demand
static void
check_demand (const Scenario &sc, const Trace &t)
{
  // (step, onode, dnode, class) -> count
  std::map<std::array<int, 4>, int> got;
  for (auto &kv : t.veh)
    {
      const VInfo &v = kv.second;
      got[{ v.first_seen, v.onode, v.dnode, v.cls == 1 }]++;
      MC_CHECK (v.start_time == v.first_seen, "release-time",
                "vehicle %d carries release time %d, appeared at %d", v.id,
                v.start_time, v.first_seen);
      MC_CHECK (v.assign == v.first_seen / sc.assign_frq, "release-interval",
                "vehicle %d released at step %d carries departure interval %d",
                v.id, v.first_seen, v.assign);
      if (sc.routing == "Fixed")
        MC_CHECK (!v.adaptive, "vehicle-kind", "adaptive vehicle in fixed mode");
      if (sc.routing == "Adaptive")
        MC_CHECK (v.adaptive, "vehicle-kind", "fixed vehicle in adaptive mode");
      double r = sc.routing == "Fixed" ? 0 : sc.routing == "Adaptive" ? 1 : sc.ad_ratio;
      if (sc.mc)
        r = v.cls == 1 ? sc.ad_ratio_truck : sc.ad_ratio_car;
      r = std::min (1., std::max (0., r));
      int o = 0, d = 0;
      for (auto &x : sc.origins)
        if (x.second == v.onode)
          o = x.first;
      for (auto &x : sc.dests)
        if (x.second == v.dnode)
          d = x.first;
      auto td = sc.td_share.find ({ o, d });
      if (td != sc.td_share.end ())
        r = td->second.at (v.first_seen / sc.assign_frq + sc.start_assign
                           + (v.cls == 1 ? sc.max_interval : 0));
      if (r == 0)
        MC_CHECK (!v.adaptive, "vehicle-kind",
                  "vehicle %d is adaptive, the share of its pair is 0", v.id);
      if (r == 1)
        MC_CHECK (v.adaptive, "vehicle-kind",
                  "vehicle %d is not adaptive, the share of its pair is 1", v.id);
      auto lb = (v.cls == 1 ? sc.labels_t : sc.labels).find (o);
      if (lb == (v.cls == 1 ? sc.labels_t : sc.labels).end ())
        MC_CHECK (v.label == -1, "label", "vehicle %d carries label %d", v.id,
                  v.label);
      else
        MC_CHECK (v.label >= 0 && v.label < (int) lb->second.size (), "label",
                  "vehicle %d carries label %d of %zu", v.id, v.label,
                  lb->second.size ());
    }
  auto nodeof = [] (const std::vector<std::pair<int, int>> &v, int id) {
    for (auto &p : v)
      if (p.first == id)
        return p.second;
    return -1;
  };
  int minute = sc.mc ? 60 / sc.unit_time : sc.assign_frq;
  int per = sc.assign_frq / minute;
  size_t matched = 0;
  for (int c = 0; c < (sc.mc ? 2 : 1); ++c)
    for (auto &kv : c ? sc.truck : sc.car)
      {
        int on = nodeof (sc.origins, kv.first.first),
            dn = nodeof (sc.dests, kv.first.second);
        for (int i = sc.start_assign; i < sc.max_interval; ++i)
          {
            double want = kv.second[i] * sc.flow_scalar;
            // releases of this interval
            int base = (i - sc.start_assign) * sc.assign_frq, sum = 0;
            // split demand: equal shares for as many minutes as give each at
            // least one vehicle
            int spread = 1;
            if (sc.mc && sc.split)
              for (int m = per; m >= 1; --m)
                if (std::floor (want / m + 1e-9) >= 1)
                  {
                    spread = m;
                    break;
                  }
            for (int m = 0; m < per; ++m)
              {
                auto it = got.find ({ base + m * minute, on, dn, c });
                int n = it == got.end () ? 0 : it->second;
                if (it != got.end ())
                  matched++;
                if (sc.mc && sc.split)
                  {
                    double w = m < spread ? want / spread : 0;
                    MC_CHECK (n >= (int) std::floor (w + 1e-9)
                                && n <= (int) std::ceil (w - 1e-9),
                              "demand",
                              "od %d->%d class %d interval %d minute %d: %d "
                              "vehicles released, the minute's share of %g is %g",
                              kv.first.first, kv.first.second, c, i, m, n, want,
                              w);
                  }
                else
                  MC_CHECK (m == 0 || n == 0, "release-time",
                            "interval %d: vehicles released at minute %d", i, m);
                sum += n;
              }
            mc::g_stats.checks++;
            if (sc.mc && sc.split)
              continue;
            int lo = (int) std::floor (want + 1e-9),
                hi = (int) std::ceil (want - 1e-9);
            MC_CHECK (sum >= lo && sum <= hi, "demand",
                      "od %d->%d class %d interval %d: demand %g (x scalar %d) "
                      "but %d vehicles were released",
                      kv.first.first, kv.first.second, c, i, kv.second[i],
                      sc.flow_scalar, sum);
            if (lo != hi)
              {
                mc::g_stats.nontrivial++;
                mc::count (sum == lo ? "rounded_down" : "rounded_up");
              }
          }
      }
  MC_CHECK (matched == got.size (), "unrequested",
            "%zu release groups, %zu of them in the demand table", got.size (),
            matched);
}

// ---------------------------------------------------------------- P17 stats
static void
check_stats (const Scenario &sc, const Trace &t)
{
  for (size_t k = 0; k < t.steps.size (); ++k)
    {
      const Step &s = t.steps[k];
      double tot = 0, tc[2] = { 0, 0 };
      int n = 0;
      for (auto &kv : t.veh)
        if (kv.second.gone && kv.second.gone_step <= (int) k)
          {
            double d = kv.second.gone_step - kv.second.start_time;
            tot += d;
            tc[kv.second.cls == 1] += d;
            n++;
          }
      mc::g_stats.checks++;
      if (n > 1)
        mc::g_stats.nontrivial++;
      if (sc.mc)
        {
          MC_CHECK (std::fabs (s.total_c[0] - tc[0]) < 1e-6
                      && std::fabs (s.total_c[1] - tc[1]) < 1e-6,
                    "travel-time",
                    "step %zu: total travel time car %g truck %g, actual %g %g",
                    k, s.total_c[0], s.total_c[1], tc[0], tc[1]);
          MC_CHECK (std::fabs (s.total_time - tot) < 1e-6, "travel-time",
                    "step %zu: total travel time %g, actual %g", k,
                    s.total_time, tot);
        }
      else
        MC_CHECK (std::fabs (s.total_time - tot) < 1e-6, "travel-time",
                  "step %zu: total travel time %g, actual %g", k, s.total_time,
                  tot);
    }
}

// ---------------------------------------------------------------- P23 records
// a record file: a row per recorded step, a column per link
static void
check_record_file (const Scenario &sc, const Trace &t, const char *name, int every,
                   const std::map<int, double> Step::*val)
{
  FILE *f = fopen ((scratch () + "/record/" + name).c_str (), "r");
  MC_CHECK (f, "record-file", "the record file %s is missing", name);
  std::vector<std::vector<std::string>> rows;
  std::string cur;
  std::vector<std::string> row;
  for (int c; (c = fgetc (f)) != EOF;)
    {
      if (c == ' ' || c == '\n')
        {
          if (!cur.empty ())
            row.push_back (cur);
          cur.clear ();
          if (c == '\n')
            {
              rows.push_back (row);
              row.clear ();
            }
        }
      else
        cur += (char) c;
    }
  fclose (f);
  MC_CHECK (cur.empty () && row.empty () && !rows.empty (), "record-file",
            "%s is cut off", name);
  std::vector<int> col;
  std::set<int> seen;
  for (size_t i = 1; i < rows[0].size (); ++i)
    {
      col.push_back (atoi (rows[0][i].c_str ()));
      seen.insert (col.back ());
    }
  MC_CHECK (col.size () == sc.links.size () && seen.size () == col.size (),
            "record-file", "%s has %zu columns for %zu links", name, col.size (),
            sc.links.size ());
  std::map<int, int> at;
  for (size_t r = 1; r < rows.size (); ++r)
    {
      int k = atoi (rows[r][0].c_str ());
      MC_CHECK (at.insert ({ k, (int) r }).second, "record-file",
                "%s has two rows for step %d", name, k);
      MC_CHECK (rows[r].size () == col.size () + 1, "record-file",
                "%s: row %zu has %zu fields", name, r, rows[r].size ());
      if (k < 0) // the empty network
        continue;
      MC_CHECK (k % every == 0 && k < (int) t.steps.size (), "record-file",
                "%s has a row for step %d", name, k);
      for (size_t i = 0; i < col.size (); ++i)
        {
          double want = (t.steps[k].*val).at (col[i]),
                 got = atof (rows[r][i + 1].c_str ());
          mc::g_stats.checks++;
          MC_CHECK (std::fabs (got - want) <= 1e-6 * (1 + std::fabs (want)),
                    "record-file", "%s: step %d link %d reads %g, actual %g", name,
                    k, col[i], got, want);
        }
    }
  for (int k = 0; k < (int) t.steps.size (); k += every)
    MC_CHECK (at.count (k), "record-file", "%s has no row for step %d", name, k);
}
static void
check_records (const Scenario &sc, MNM_Dta *d, const Trace &t)
{
  std::map<int, std::vector<double>> vol, tts;
  for (size_t k = 0; k < t.steps.size (); ++k)
    {
      const Step &s = t.steps[k];
      int totq = 0, totin = 0;
      for (auto &l : sc.links)
        {
          int q = 0;
          for (auto &p : s.mid.link.at (l.id))
            if (p.stage == 0)
              q++;
          if (l.type != "PQ")
            totq += q;
          auto &rec = *d->m_queue_veh_map.at (l.id);
          MC_CHECK (rec.size () == t.steps.size () && rec[k] == q, "queue-record",
                    "step %zu link %d: recorded queue %d, actual %d", k, l.id,
                    k < rec.size () ? (int) rec[k] : -1, q);
          if (sc.mc)
            {
              auto *dm = dynamic_cast<MNM_Dta_Multiclass *> (d);
              int qc[2] = { 0, 0 };
              for (auto &p : s.mid.link.at (l.id))
                if (p.stage == 0)
                  qc[t.veh.at (p.id).cls == 1]++;
              auto &rc = *dm->m_queue_veh_map_car.at (l.id);
              auto &rt = *dm->m_queue_veh_map_truck.at (l.id);
              MC_CHECK (rc.size () == t.steps.size () && rc[k] == qc[0]
                          && rt.size () == t.steps.size () && rt[k] == qc[1],
                        "queue-record",
                        "step %zu link %d: recorded class queues differ from "
                        "actual %d/%d",
                        k, l.id, qc[0], qc[1]);
            }
          int n = 0, nc[2] = { 0, 0 };
          for (auto &p : s.end.link.at (l.id))
            {
              totin++;
              // a point queue may hold handed-over vehicles back for a step;
              // they are not on the link yet
              if (p.stage == 2)
                {
                  MC_CHECK (l.type == "PQ", "held-back",
                            "step %zu link %d: vehicle %d was handed over but "
                            "not admitted",
                            k, l.id, p.id);
                  continue;
                }
              n++;
              nc[t.veh.at (p.id).cls == 1]++;
            }
          mc::g_stats.checks++;
          if (sc.mc)
            {
              MC_CHECK (std::fabs (s.flow_car.at (l.id)
                                   - double (nc[0]) / sc.flow_scalar)
                          < 1e-6,
                        "volume", "step %zu link %d: reported %g cars, actual %g",
                        k, l.id, s.flow_car.at (l.id),
                        double (nc[0]) / sc.flow_scalar);
              MC_CHECK (std::fabs (s.flow_truck.at (l.id)
                                   - double (nc[1]) / sc.flow_scalar)
                          < 1e-6,
                        "volume",
                        "step %zu link %d: reported %g trucks, actual %g", k,
                        l.id, s.flow_truck.at (l.id),
                        double (nc[1]) / sc.flow_scalar);
            }
          double actual = double (n) / sc.flow_scalar;
          if (!sc.mc)
            MC_CHECK (std::fabs (s.flow.at (l.id) - actual) < 1e-6, "volume",
                      "step %zu link %d: reported volume %g, actual %g", k, l.id,
                      s.flow.at (l.id), actual);
          if (n > 1)
            mc::g_stats.nontrivial++;
          double fft = l.len * 1600 / (l.ffs * 1600 / 3600.);
          MC_CHECK (s.tt.at (l.id) >= fft * (1 - 1e-6), "tt",
                    "step %zu link %d: reported travel time %g s below free "
                    "flow %g s",
                    k, l.id, s.tt.at (l.id), fft);
          vol[l.id].push_back (s.flow.at (l.id));
          tts[l.id].push_back (s.tt.at (l.id));
          // recorded values: the step's value, and the mean of the last n steps
          MC_CHECK (std::fabs (s.load_vol.at (l.id) - s.flow.at (l.id)) < 1e-6
                      && std::fabs (s.load_tt.at (l.id) - s.tt.at (l.id)) < 1e-6,
                    "record", "step %zu link %d: per-step record is stale", k,
                    l.id);
          if (k % sc.rec_para == 0 && k > 0)
            {
              double mv = 0, mt = 0;
              for (int j = 0; j < sc.rec_para; ++j)
                {
                  mv += vol[l.id][k - j] / sc.rec_para;
                  mt += tts[l.id][k - j] / sc.rec_para;
                }
              MC_CHECK (std::fabs (s.rec_vol.at (l.id) - mv) < 1e-6
                          && std::fabs (s.rec_tt.at (l.id) - mt)
                               < 1e-6 * (1 + mt),
                        "record",
                        "step %zu link %d: averaged record %g/%g, mean of the "
                        "last %d steps is %g/%g",
                        k, l.id, s.rec_vol.at (l.id), s.rec_tt.at (l.id),
                        sc.rec_para, mv, mt);
            }
        }
      int atorigin = 0;
      for (auto &kv : s.end.origin)
        atorigin += kv.second.size ();
      MC_CHECK (d->m_enroute_veh_num.at (k) == totin + atorigin, "enroute-record",
                "step %zu: recorded %d vehicles en route, actual %d", k,
                (int) d->m_enroute_veh_num.at (k), totin + atorigin);
      MC_CHECK (d->m_queue_veh_num.at (k) == totq, "queue-record",
                "step %zu: recorded total queue %d, actual %d", k,
                (int) d->m_queue_veh_num.at (k), totq);
    }
  if (sc.load_rec)
    {
      check_record_file (sc, t, "MNM_output_load_interval_volume", 1, &Step::flow);
      check_record_file (sc, t, "MNM_output_load_interval_tt", 1, &Step::tt);
      check_record_file (sc, t, "MNM_output_record_interval_volume", sc.rec_para,
                         &Step::rec_vol);
      check_record_file (sc, t, "MNM_output_record_interval_tt", sc.rec_para,
                         &Step::rec_tt);
    }
}

// ---------------------------------------------------------------- P09
// Everything a user can read off a finished run.
struct Outcome
{
  Trace t;
  std::string curves;
  uint32_t draws = 0;
};
static std::string
curve_text (const char *n, MNM_Cumulative_Curve *c)
{
  if (!c)
    return "";
  std::string r = n;
  for (auto &x : c->m_recorder)
    r += fmt (" %.17g:%.17g", (double) x.first, (double) x.second);
  return r + "\n";
}
static void
outcome_of (const Scenario &s, Outcome &r,
            std::function<void (MNM_Dta *, int)> before = nullptr)
{
  RunOpt o;
  o.before_step = before;
  o.volumes = true;
  o.at_end = [&] (MNM_Dta *d, Trace &t) {
    for (auto &l : s.links)
      {
        MNM_Dlink *k = d->m_link_factory->m_link_map.at (l.id);
        r.curves += fmt ("link %d ", l.id);
        if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (k))
          {
            r.curves += curve_text ("in-car", m->m_N_in_car);
            r.curves += curve_text ("out-car", m->m_N_out_car);
            r.curves += curve_text ("in-truck", m->m_N_in_truck);
            r.curves += curve_text ("out-truck", m->m_N_out_truck);
          }
        else
          {
            r.curves += curve_text ("in", k->m_N_in);
            r.curves += curve_text ("out", k->m_N_out);
          }
        for (int q : *d->m_queue_veh_map.at (l.id))
          r.curves += fmt (" %d", q);
      }
    if (auto *e = d->m_emission)
      r.curves += e->output ();
  };
  run_sim (s, o, r.t);
  r.draws = mc::g_rand.n;
}
static std::string
differ (const Outcome &a, const Outcome &b)
{
  if (a.t.steps.size () != b.t.steps.size ())
    return fmt ("the loading takes %zu steps in one run, %zu in the other",
                a.t.steps.size (), b.t.steps.size ());
  for (size_t k = 0; k < a.t.steps.size (); ++k)
    {
      const Step &x = a.t.steps[k], &y = b.t.steps[k];
      auto same = [] (const std::map<int, std::vector<Pos>> &p,
                      const std::map<int, std::vector<Pos>> &q) {
        for (auto &kv : p)
          {
            auto &w = q.at (kv.first);
            if (w.size () != kv.second.size ())
              return kv.first;
            for (size_t i = 0; i < w.size (); ++i)
              if (w[i].id != kv.second[i].id || w[i].stage != kv.second[i].stage
                  || w[i].next != kv.second[i].next)
                return kv.first;
          }
        return -1;
      };
      for (int half = 0; half < 2; ++half)
        {
          const Snap &p = half ? x.end : x.mid, &q = half ? y.end : y.mid;
          int w;
          if ((w = same (p.origin, q.origin)) >= 0)
            return fmt ("step %zu: the queue at origin node %d differs", k, w);
          if ((w = same (p.link, q.link)) >= 0)
            return fmt ("step %zu: the vehicles on link %d differ", k, w);
          if ((w = same (p.dest, q.dest)) >= 0)
            return fmt ("step %zu: the arrivals at node %d differ", k, w);
        }
      if (x.num_veh != y.num_veh || x.enroute != y.enroute
          || x.finished != y.finished || x.total_time != y.total_time)
        return fmt ("step %zu: the vehicle counters differ", k);
      auto near = [] (const std::map<int, double> &p,
                      const std::map<int, double> &q) {
        for (auto &kv : p)
          if (!(std::fabs (kv.second - q.at (kv.first))
                <= 1e-9 * (1 + std::fabs (kv.second))))
            return false;
        return p.size () == q.size ();
      };
      if (!near (x.flow, y.flow) || !near (x.tt, y.tt)
          || !near (x.rec_vol, y.rec_vol) || !near (x.rec_tt, y.rec_tt))
        return fmt ("step %zu: the reported volumes or travel times differ", k);
    }
  for (auto &kv : a.t.veh)
    {
      auto &v = kv.second, &w = b.t.veh.at (kv.first);
      if (v.cls != w.cls || v.onode != w.onode || v.dnode != w.dnode
          || v.start_time != w.start_time || v.adaptive != w.adaptive
          || v.path_links != w.path_links)
        return fmt ("vehicle %d is a different trip", kv.first);
    }
  if (a.draws != b.draws)
    return fmt ("%u random numbers drawn in one run, %u in the other", a.draws,
                b.draws);
  if (a.curves != b.curves)
    return "the recorded curves, queues or emissions differ";
  return "";
}
static void
check_reproducible (const Scenario &s)
{
  uint64_t pol = mc::g_rand.policy;
  std::vector<mc::Dev> devs = mc::g_rand.devs;
  auto restart = [&] () {
    mc::rand_begin (pol, devs);
    mc::g_rand.follow_srand = true;
    MNM_Ults::set_random_state (12345 + pol);
  };
  struct Restore
  {
    mc::HeapCtl h = mc::g_heap;
    ~Restore () { mc::g_heap = h; }
  } keep;
  Outcome a;
  restart ();
  outcome_of (s, a);
  mc::g_stats.checks++;
  mc::g_stats.nontrivial += a.t.veh.size () > 1;
  for (int k = 1; k <= 3; ++k)
    {
      // another layout and content of the heap; the second time also after an
      // unrelated simulation in the same process
      mc::g_heap.skew = k;
      mc::g_heap.fill = k == 1 ? 0x00 : k == 2 ? 0x7F : 0x3C;
      if (k == 2)
        {
          GenPoint g;
          g.topo = T_CROSS;
          g.lt = L_MIX;
          g.prof = C_JAM;
          g.dem = 2;
          g.rt = R_HYBRID;
          g.mc = s.mc;
          Trace t;
          RunOpt o;
          mc::rand_begin (77, {});
          run_sim (make_scenario (g), o, t);
        }
      restart ();
      Outcome b;
      outcome_of (s, b);
      std::string w = differ (a, b);
      mc::g_stats.checks++;
      MC_CHECK (w.empty (), "not-reproducible",
                "two runs of the same input with the same seed differ (heap "
                "setting %d): %s",
                k, w.c_str ());
    }
}

// ---------------------------------------------------------------- P22
// attribute k of a link: a variation that keeps the cells of a CTM link
static SLink
varied (const SLink &l, int k, double *toll)
{
  SLink m = l;
  *toll = 0;
  switch (k)
    {
    case 0:
      m.cap *= 0.6;
      m.cap_t *= 0.6;
      break;
    case 1:
      m.lanes += 1;
      *toll = 0.25;
      break;
    case 2:
      m.rhoj *= 1.4;
      m.rhoj_t *= 1.3;
      m.cap *= 1.1;
      break;
    case 3:
      m.ffs_t *= 0.75;
      m.cap_t *= 0.5;
      *toll = 1.5;
      break;
    }
  return m;
}
static std::string
td_row (int step, const SLink &l, double toll)
{
  return fmt ("%d %d %s %s %s %s %s %d %s %s %s %s %s\n", step, l.id,
              l.type.c_str (), num (l.len).c_str (), num (l.ffs).c_str (),
              num (l.cap).c_str (), num (l.rhoj).c_str (), l.lanes,
              num (l.ffs_t).c_str (), num (l.cap_t).c_str (),
              num (l.rhoj_t).c_str (), num (l.conv).c_str (),
              num (toll).c_str ());
}
static void
check_td (const Scenario &base, int mode, int var, int pick, int T)
{
  uint64_t pol = mc::g_rand.policy;
  std::vector<mc::Dev> devs = mc::g_rand.devs;
  // pick: bit set over the roads
  std::vector<SLink> roads;
  for (auto &l : base.links)
    if (l.type != "PQ")
      roads.push_back (l);
  Scenario a = base, b = base;
  std::string td = "# interval link type ...\n", tolls = "# link toll\n";
  int ntoll = 0;
  std::map<int, std::vector<std::pair<SLink, double>>> plan;
  for (size_t i = 0; i < roads.size (); ++i)
    {
      if (!(pick >> (i % 3) & 1))
        continue;
      double toll;
      SLink m = mode == 1 ? roads[i] : varied (roads[i], (var + i) % 4, &toll);
      if (mode == 1)
        toll = 0;
      int when = mode == 0 ? 0 : T + 3 * ((int) i % 2);
      td += td_row (when, m, toll);
      plan[when].push_back ({ m, toll });
      if (mode == 2 && i % 2 == 0)
        {
          // and back
          td += td_row (when + 9, roads[i], 0);
          plan[when + 9].push_back ({ roads[i], 0. });
        }
      if (mode == 0)
        {
          for (auto &l : b.links)
            if (l.id == m.id)
              l = m;
          if (toll > 0)
            {
              tolls += fmt ("%d %s %s\n", m.id, num (toll).c_str (),
                            num (toll).c_str ());
              ntoll++;
            }
        }
    }
  if (plan.empty ())
    return;
  a.extra["MNM_input_link_td_attribute"] = td;
  if (ntoll)
    {
      b.extra["MNM_input_link_toll"] = tolls;
      b.extra_conf += fmt ("num_of_tolled_link = %d\n", ntoll);
    }
  Outcome x, y;
  // the tolls in force before each step, and those the file asks for
  std::map<int, double> asked;
  auto tolls_now = [&] (MNM_Dta *d, int k) {
    if (mode != 0)
      for (auto &l : base.links)
        {
          auto *p = dynamic_cast<MNM_Dlink_Multiclass *> (
            d->m_link_factory->m_link_map.at (l.id));
          double w = asked.count (l.id) ? asked[l.id] : 0;
          MC_CHECK (p->m_toll == w && p->m_toll_car == w && p->m_toll_truck == w,
                    "td-toll",
                    "before step %d link %d has tolls %g, %g and %g, the file "
                    "asks for %g",
                    k, l.id, (double) p->m_toll, (double) p->m_toll_car,
                    (double) p->m_toll_truck, w);
        }
    auto it = plan.find (k);
    if (it != plan.end ())
      for (auto &p : it->second)
        asked[p.first.id] = p.second;
  };
  mc::rand_begin (pol, devs);
  if (mode == 0)
    outcome_of (a, x);
  else
    outcome_of (a, x, tolls_now);
  mc::rand_begin (pol, devs);
  if (mode == 2)
    outcome_of (b, y, [&] (MNM_Dta *d, int k) {
      auto it = plan.find (k);
      if (it == plan.end ())
        return;
      for (auto &p : it->second)
        {
          auto *l = dynamic_cast<MNM_Dlink_Multiclass *> (
            d->m_link_factory->m_link_map.at (p.first.id));
          SLink m = p.first;
          for (double *v : { &m.len, &m.ffs, &m.cap, &m.rhoj, &m.ffs_t,
                             &m.cap_t, &m.rhoj_t })
            *v = std::stod (num (*v)); // as written in the file
          l->modify_property (m.lanes, m.len * 1600, m.rhoj / 1600,
                              m.rhoj_t / 1600, m.cap / 3600, m.cap_t / 3600,
                              m.ffs * 1600 / 3600, m.ffs_t * 1600 / 3600);
          l->m_toll = p.second;
        }
    });
  else
    outcome_of (b, y);
  mc::g_stats.checks++;
  mc::g_stats.nontrivial += x.t.veh.size () > 1;
  std::string w = differ (x, y);
  static const char *M[]
    = { "attributes that apply from the first step differ from a network built "
        "with them",
        "restating the attributes of a link changes the loading",
        "the attribute file differs from changing the links at the given "
        "steps" };
  MC_CHECK (w.empty (), "td-attributes", "%s: %s", M[mode], w.c_str ());
  check_conservation (a, x.t);
}

// ---------------------------------------------------------------- P25
struct RouteCfg
{
  double vot = -1; // $/h, -1: not configured
  int freq = 6;
  std::map<int, double> toll;
};
static void
apply_cfg (Scenario &s, const RouteCfg &c)
{
  s.ad_frq = c.freq;
  if (c.vot >= 0)
    s.extra_adaptive = "vot = " + num (c.vot) + "\n";
  if (!c.toll.empty ())
    {
      s.extra_conf += fmt ("num_of_tolled_link = %zu\n", c.toll.size ());
      std::string f = s.mc ? "# link car truck\n" : "# link toll\n";
      for (auto &kv : c.toll)
        f += s.mc ? fmt ("%d %s %s\n", kv.first, num (kv.second).c_str (),
                         num (kv.second).c_str ())
                  : fmt ("%d %s\n", kv.first, num (kv.second).c_str ());
      s.extra["MNM_input_link_toll"] = f;
    }
}
// every adaptive vehicle that chooses a link chooses one on a cheapest route
static void
run_adaptive (Scenario s, const RouteCfg &c)
{
  apply_cfg (s, c);
  double vot = (c.vot < 0 ? 20. : c.vot) / 3600;
  std::map<int, double> free_tt, cost;
  std::map<int, std::map<int, double>> dist; // destination node -> node -> cost
  int last_step = -1;
  auto bellman = [&] (int dn) {
    auto &d = dist[dn];
    d.clear ();
    d[dn] = 0;
    for (size_t i = 0; i < s.nodes.size (); ++i)
      for (auto &l : s.links)
        if (d.count (l.to))
          {
            double x = d[l.to] + cost[l.id];
            if (!d.count (l.from) || x < d[l.from])
              d[l.from] = x;
          }
  };
  uint64_t choices = 0;
  auto check = [&] (const VInfo &v, int node, int link, int step) {
    auto &d = dist[v.dnode];
    const SLink &l = s.link (link);
    MC_CHECK (l.from == node, "route", "step %d: vehicle %d at node %d heads "
              "for link %d, which does not start there",
              step, v.id, node, link);
    MC_CHECK (d.count (l.to), "route",
              "step %d: vehicle %d at node %d is sent into link %d, from which "
              "its destination %d cannot be reached",
              step, v.id, node, link, v.dnode);
    double x = cost[link] + d[l.to];
    mc::g_stats.checks++;
    int alt = 0;
    for (auto &m : s.links)
      alt += m.from == node && d.count (m.to);
    choices += alt > 1;
    MC_CHECK (x <= d[node] + 1e-7 * (1 + x), "not-cheapest",
              "step %d: vehicle %d at node %d bound for %d takes link %d (route "
              "cost %.9g, cheapest %.9g)",
              step, v.id, node, v.dnode, link, x, d[node]);
  };
  RunOpt o;
  o.curves = false;
  o.after_build = [&] (MNM_Dta *d) {
    for (auto &l : s.links)
      free_tt[l.id] = d->m_link_factory->m_link_map.at (l.id)->get_link_tt ();
  };
  o.at_step_mid = [&] (MNM_Dta *d, Trace &t, int k) {
    MC_CHECK (k == last_step + 1, "step", "step %d follows step %d", k,
              last_step);
    last_step = k;
    if (k % c.freq == 0)
      {
        for (auto &l : s.links)
          {
            double tt = d->m_statistics->m_record_interval_tt.at (l.id);
            if (k == 0)
              {
                double ff = free_tt[l.id];
                MC_CHECK (std::fabs (tt - ff) < 1e-6 * (1 + ff), "initial-cost",
                          "link %d: travel time %g s is in force when the first "
                          "routes are chosen, the empty road takes %g s",
                          l.id, tt, ff);
              }
            auto it = c.toll.find (l.id);
            cost[l.id] = tt * vot + (it == c.toll.end () ? 0. : it->second);
          }
        for (auto &x : s.dests)
          bellman (x.second);
      }
    const Step &st = t.steps.back ();
    std::map<int, int> was; // vehicle -> link at the end of the previous step
    if (k)
      for (auto &kv : t.steps[k - 1].end.link)
        for (auto &p : kv.second)
          was[p.id] = kv.first;
    for (auto &kv : st.mid.link)
      for (auto &p : kv.second)
        {
          const VInfo &v = t.veh.at (p.id);
          if (!v.adaptive)
            continue;
          auto w = was.find (p.id);
          if (w == was.end () || w->second != kv.first)
            check (v, w == was.end () ? v.onode : s.link (w->second).to,
                   kv.first, k);
          else if (p.stage == 0)
            check (v, s.link (kv.first).to, p.next, k);
        }
    for (auto &kv : st.mid.origin)
      for (auto &p : kv.second)
        if (t.veh.at (p.id).adaptive)
          check (t.veh.at (p.id), kv.first, p.next, k);
  };
  Trace t;
  run_sim (s, o, t);
  mc::g_stats.nontrivial += choices > 0;
  // vehicles with a nominal or prescribed path carry one of their own OD pair
  for (auto &kv : t.veh)
    if (!kv.second.adaptive)
      {
        bool found = false;
        for (auto &p : s.paths)
          if (p.nodes.front () == kv.second.onode
              && p.nodes.back () == kv.second.dnode)
            {
              std::vector<int> ls;
              for (size_t i = 0; i + 1 < p.nodes.size (); ++i)
                ls.push_back (s.link_between (p.nodes[i], p.nodes[i + 1]));
              found = found || ls == kv.second.path_links;
            }
        MC_CHECK (found, "route", "vehicle %d follows a route that is not in "
                  "the path table for its trip",
                  kv.first);
      }
}
// the share of the possible draws that leads to a path is the path's share
static void
run_shares (bool mcl, int rt, const std::vector<double> &sh, int freq)
{
  // sh: three paths x (two intervals x classes)
  GenPoint g;
  g.topo = T_BRAESS;
  g.mc = mcl;
  g.rt = rt;
  Scenario s = make_scenario (g);
  int w = mcl ? 4 : 2;
  s.paths.resize (3);
  s.dests = { s.dests[0] };
  for (int i = 0; i < 3; ++i)
    s.paths[i].buf.assign (sh.begin () + i * w, sh.begin () + i * w + w);
  const int N = 480;
  s.car.clear ();
  s.truck.clear ();
  s.car[{ 1, 9 }] = { N, N };
  s.truck[{ 1, 9 }] = { N, N };
  s.fix_frq = freq;
  s.ad_ratio = s.ad_ratio_car = s.ad_ratio_truck = rt == R_HYBRID ? 0.5 : 0;
  const std::string &dir = prepare_dir (s);
  std::unique_ptr<MNM_Dta> d (mcl ? new MNM_Dta_Multiclass (dir)
                                  : new MNM_Dta (dir));
  d->build_from_files ();
  d->hook_up_node_and_link ();
  d->pre_loading ();
  for (auto &kv : d->m_link_factory->m_link_map)
    d->m_statistics->m_record_interval_tt[kv.first] = kv.second->get_link_tt ();
  auto *org = d->m_od_factory->m_origin_map.at (1);
  auto *on = dynamic_cast<MNM_DMOND *> (
    d->m_node_factory->m_node_map.at (11));
  double r = rt == R_HYBRID ? 0.5 : 0;
  for (int k = 0; k < 2; ++k)
    for (int cl = 0; cl < (mcl ? 2 : 1); ++cl)
      {
        // only this class waits at the origin
        on->m_in_veh_queue.clear ();
        if (mcl)
          {
            auto *om = dynamic_cast<MNM_Origin_Multiclass *> (org);
            for (auto &kv : om->m_demand_car)
              kv.second[k] = cl == 0 ? N : 0;
            for (auto &kv : om->m_demand_truck)
              kv.second[k] = cl == 1 ? N : 0;
            org->release_one_interval_biclass (k * freq, d->m_veh_factory, k, r,
                                               r);
          }
        else
          org->release_one_interval (k * freq, d->m_veh_factory, k, r);
        MC_CHECK ((int) on->m_in_veh_queue.size () == N, "setup",
                  "%zu vehicles released", on->m_in_veh_queue.size ());
        // fixed and nominal draws sweep the whole range of answers once
        mc::g_rand.sweep = N;
        mc::g_rand.n = 0;
        d->m_routing->update_routing (k * freq);
        mc::g_rand.sweep = 0;
        std::map<std::vector<int>, int> cnt;
        int tot = 0;
        for (auto *v : on->m_in_veh_queue)
          if (v->m_path)
            {
              std::vector<int> p;
              for (auto x : v->m_path->m_node_vec)
                p.push_back (x);
              cnt[p]++;
              tot++;
            }
        MC_CHECK (tot == N, "route", "%d of %d vehicles got a route", tot, N);
        double sum = 0;
        int col = k + (cl ? 2 : 0);
        for (auto &p : s.paths)
          sum += p.buf[col];
        for (auto &p : s.paths)
          {
            double e = p.buf[col] / sum * N;
            mc::g_stats.checks++;
            mc::g_stats.nontrivial++;
            MC_CHECK (std::fabs (cnt[p.nodes] - e) <= 1.5, "share",
                      "interval %d class %d: a path with share %g of %g gets %d "
                      "of %d equally spaced draws",
                      k, cl, p.buf[col], sum, cnt[p.nodes], N);
          }
        mc::Hash h;
        h.add ((uint64_t) k);
        for (auto &kv : cnt)
          h.add ((uint64_t) kv.second);
        mc::g_stats.states.insert (h.h);
      }
  on->m_in_veh_queue.clear ();
}

// P03: shares and rounding over equally spaced answers
static const double SH[] = { 0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9, 1 };
static void
run_release (bool mcl, int a, int b, int td, int q)
{
  GenPoint g;
  g.topo = T_CORRIDOR;
  g.mc = mcl;
  g.rt = R_HYBRID;
  Scenario s = make_scenario (g);
  static const double Q[] = { 1, 0.1, 0.25, 0.4, 0.5, 0.75, 0.96 };
  s.ad_ratio = s.ad_ratio_car = SH[a];
  s.ad_ratio_truck = SH[b];
  s.flow_scalar = 1 + q % 2;
  double qq = Q[q] / s.flow_scalar;
  s.car[{ 1, 9 }] = { 1. / s.flow_scalar, qq };
  s.truck[{ 1, 9 }] = { 1. / s.flow_scalar, qq };
  double want[2][2] = { { SH[a], SH[a] }, { SH[b], SH[b] } };
  if (td)
    {
      want[0][0] = SH[b];
      want[0][1] = SH[8 - a];
      want[1][0] = SH[(a + b) % 9];
      want[1][1] = SH[(a + 2 * b) % 9];
      s.extra["MNM_input_od_td_adaptive_ratio"]
        = "# x\n1 9 " + num (want[0][0]) + " " + num (want[0][1])
          + (mcl ? " " + num (want[1][0]) + " " + num (want[1][1]) : "") + "\n";
    }
  const std::string &dir = prepare_dir (s);
  std::unique_ptr<MNM_Dta> d (mcl ? new MNM_Dta_Multiclass (dir)
                                  : new MNM_Dta (dir));
  d->build_from_files ();
  d->hook_up_node_and_link ();
  auto *org = d->m_od_factory->m_origin_map.at (1);
  auto *on = dynamic_cast<MNM_DMOND *> (d->m_node_factory->m_node_map.at (11));
  const int N = 240;
  for (int k = 0; k < 2; ++k)
    {
      int n[2] = { 0, 0 }, ad[2] = { 0, 0 };
      for (int cl = 0; cl < (mcl ? 2 : 1); ++cl)
        for (int i = 0; i < N; ++i)
          {
            on->m_in_veh_queue.clear ();
            if (mcl)
              {
                auto *om = dynamic_cast<MNM_Origin_Multiclass *> (org);
                for (auto &kv : om->m_demand_car)
                  kv.second[k] = cl == 0 ? s.car[{ 1, 9 }][k] : 0;
                for (auto &kv : om->m_demand_truck)
                  kv.second[k] = cl == 1 ? s.car[{ 1, 9 }][k] : 0;
              }
            // every draw of this release gives the same answer
            mc::g_rand.sweep = N;
            mc::g_rand.hold = i + 1;
            if (mcl)
              org->release_one_interval_biclass (k * s.assign_frq,
                                                 d->m_veh_factory, k, SH[a],
                                                 SH[b]);
            else
              org->release_one_interval (k * s.assign_frq, d->m_veh_factory, k,
                                         SH[a]);
            mc::g_rand.sweep = 0;
            mc::g_rand.hold = 0;
            for (auto *v : on->m_in_veh_queue)
              {
                n[v->get_class () == 1]++;
                ad[v->get_class () == 1] += v->m_type == MNM_TYPE_ADAPTIVE;
              }
          }
      for (int cl = 0; cl < (mcl ? 2 : 1); ++cl)
        {
          double e = s.car[{ 1, 9 }][k] * s.flow_scalar * N;
          mc::g_stats.checks += 2;
          mc::g_stats.nontrivial++;
          MC_CHECK (std::fabs (n[cl] - e) <= 1.5, "rounding",
                    "interval %d class %d: %d vehicles for %d equally likely "
                    "answers, demand %g",
                    k, cl, n[cl], N, e / N);
          if (k == 0 || q == 0)
            MC_CHECK (std::fabs (ad[cl] - want[cl][k] * N) <= 1.5, "share",
                      "interval %d class %d: %d of %d equally likely answers "
                      "give an adaptive vehicle, its share is %g",
                      k, cl, ad[cl], N, want[cl][k]);
        }
      mc::Hash h;
      for (int c = 0; c < 2; ++c)
        h.add ((uint64_t) n[c] << 32 | (uint64_t) ad[c]);
      mc::g_stats.states.insert (h.h);
    }
  on->m_in_veh_queue.clear ();
}

// ---------------------------------------------------------------- families
typedef std::function<void (const Scenario &)> Runner;
static mc::Family
family (const std::string &name, std::function<std::vector<GenPoint> (const mc::Tier &)> pts,
        Runner run)
{
  mc::Family f;
  f.name = name;
  f.size = [pts] (const mc::Tier &t) { return (uint64_t) pts (t).size (); };
  f.describe = [pts] (const mc::Tier &t, uint64_t i) {
    return make_scenario (pts (t)[i]).name;
  };
  auto cache = std::make_shared<std::vector<GenPoint>> ();
  f.run = [pts, run, cache] (const mc::Tier &t, uint64_t i) {
    if (cache->empty ())
      *cache = pts (t);
    run (make_scenario (cache->at (i)));
  };
  return f;
}

static std::vector<GenPoint>
wide_points (const mc::Tier &t, bool mcl)
{
  Dims d;
  d.topo = { T_CORRIDOR, T_MERGE, T_DIAMOND, T_CROSS, T_RING, T_NOCONN };
  d.ltype = { L_CTM, L_LQ, L_PQ, L_MIX };
  d.prof = { C_FREE, C_TIGHT, C_JAM, C_SHORT, C_TWO };
  d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3, 7 } : std::vector<int>{ 1, 3 };
  d.routing = { R_ADAPT, R_FIXED, R_HYBRID };
  d.demand = t.thorough ? std::vector<int>{ 0, 1, 2, 3, 4 } : std::vector<int>{ 1, 2 };
  return product (d, mcl);
}
static std::vector<GenPoint>
deep_points (const mc::Tier &t, bool mcl)
{
  Dims d;
  d.topo = { T_CROSS, T_DIAMOND, T_MERGE, T_RING };
  d.ltype = { L_CTM, L_LQ, L_PQ };
  d.prof = t.thorough ? std::vector<int>{ C_TIGHT, C_JAM, C_SHORT }
                      : std::vector<int>{ C_TIGHT, C_JAM };
  d.scalar = { 1, 2 };
  d.routing = t.thorough ? std::vector<int>{ R_HYBRID, R_FIXED, R_ADAPT }
                         : std::vector<int>{ R_HYBRID };
  d.demand = { 1 };
  return product (d, mcl);
}

// few vehicles: the whole tree of random answers for the first K draws
static std::vector<GenPoint>
tree_points (const mc::Tier &t, bool mcl)
{
  Dims d;
  d.topo = { T_MERGE, T_DIAMOND, T_CROSS };
  d.ltype = { L_CTM, L_LQ, L_PQ };
  d.prof = t.thorough ? std::vector<int>{ C_TIGHT, C_JAM }
                      : std::vector<int>{ C_JAM };
  d.scalar = { 1 };
  d.routing = t.thorough ? std::vector<int>{ R_HYBRID, R_FIXED }
                         : std::vector<int>{ R_HYBRID };
  d.demand = { 1 };
  return product (d, mcl);
}

// every setting, on networks with larger junctions
static std::vector<GenPoint>
vary_points (const mc::Tier &t, bool mcl)
{
  Dims d;
  d.topo = { T_HUB, T_FAN, T_BRAESS, T_CROSS, T_NOCONN, T_RING };
  d.ltype = { L_CTM, L_LQ, L_PQ, L_MIX };
  d.prof = t.thorough ? std::vector<int>{ C_FREE, C_TIGHT, C_JAM, C_SHORT, C_TWO }
                      : std::vector<int>{ C_TIGHT, C_JAM };
  d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3 } : std::vector<int>{ 1, 3 };
  d.routing = { R_HYBRID, R_FIXED, R_ADAPT };
  d.demand = t.thorough ? std::vector<int>{ 1, 2, 4 } : std::vector<int>{ 2 };
  d.var.clear ();
  for (int i = 0; i < V_N; ++i)
    d.var.push_back (i);
  return product (d, mcl);
}

static std::vector<mc::Family>
std_families (bool single, bool multi, Runner run)
{
  std::vector<mc::Family> r;
  for (int m = 0; m < 2; ++m)
    {
      if (m ? !multi : !single)
        continue;
      bool b = m;
      mc::Family w = family (b ? "wide-biclass" : "wide-single",
                             [b] (const mc::Tier &t) { return wide_points (t, b); },
                             run);
      w.policies_quick = 3;
      w.policies_thorough = 16;
      w.dev_quick = 0;
      w.dev_thorough = 0;
      r.push_back (w);
      mc::Family v = family (b ? "vary-biclass" : "vary-single",
                             [b] (const mc::Tier &t) { return vary_points (t, b); },
                             run);
      v.policies_quick = 2;
      v.policies_thorough = 4;
      v.dev_quick = v.dev_thorough = 0;
      r.push_back (v);
      mc::Family d = family (b ? "deep-biclass" : "deep-single",
                             [b] (const mc::Tier &t) { return deep_points (t, b); },
                             run);
      d.policies_quick = 1;
      d.policies_thorough = 2;
      d.dev_quick = 1;
      d.dev_thorough = 1;
      d.pos_cap_quick = 60;
      d.pos_cap_thorough = 400;
      r.push_back (d);
      mc::Family x = family (b ? "tree-biclass" : "tree-single",
                             [b] (const mc::Tier &t) { return tree_points (t, b); },
                             run);
      x.policies_quick = x.policies_thorough = 1;
      x.dev_quick = x.dev_thorough = 0;
      x.prefix_quick = 5;
      x.prefix_thorough = 7;
      r.push_back (x);
    }
  return r;
}

// every q-th (thorough: th-th) case of a family, in the enumeration order
static mc::Family
every (mc::Family f, uint64_t q, uint64_t th)
{
  auto size = f.size;
  auto run = f.run;
  auto desc = f.describe;
  f.size = [=] (const mc::Tier &t) { return (size (t) + (t.thorough ? th : q) - 1) / (t.thorough ? th : q); };
  f.run = [=] (const mc::Tier &t, uint64_t i) { run (t, i * (t.thorough ? th : q)); };
  f.describe = [=] (const mc::Tier &t, uint64_t i) { return desc (t, i * (t.thorough ? th : q)); };
  return f;
}

static std::vector<mc::Family>
get (const std::string &p)
{
  if (p == "P01" || p == "P02")
    return std_families (p == "P01", p == "P02", [] (const Scenario &s) {
      Trace t;
      RunOpt o;
      run_sim (s, o, t);
      check_conservation (s, t);
    });
  if (p == "P03")
    {
      auto r = std_families (true, true, [] (const Scenario &s) {
        Trace t;
        RunOpt o;
        o.curves = false;
        run_sim (s, o, t);
        check_demand (s, t);
      });
      mc::Family f;
      f.name = "release";
      f.size = [] (const mc::Tier &) { return (uint64_t) 2 * 9 * 9 * 2 * 7; };
      f.describe = [] (const mc::Tier &, uint64_t i) {
        return fmt ("%s shares %g/%g%s, demand %d", i % 2 ? "biclass" : "single",
                    SH[i / 2 % 9], SH[i / 18 % 9], i / 162 % 2 ? " (file)" : "",
                    (int) (i / 324));
      };
      f.run = [] (const mc::Tier &, uint64_t i) {
        run_release (i % 2, i / 2 % 9, i / 18 % 9, i / 162 % 2, i / 324);
      };
      f.policies_quick = f.policies_thorough = 1;
      f.dev_thorough = 0;
      r.push_back (f);
      return r;
    }
  if (p == "P04")
    return std_families (true, true, [] (const Scenario &s) {
      Trace t;
      RunOpt o;
      o.curves = false;
      run_sim (s, o, t);
      check_trips (s, t);
    });
  if (p == "P05")
    return std_families (true, true, [] (const Scenario &s) {
      Trace t;
      RunOpt o;
      o.trees = s.routing != "Adaptive";
      o.at_end = [&s, &o] (MNM_Dta *d, Trace &tr) {
        check_curves (s, d, tr);
        if (o.trees)
          check_trees (s, d, tr);
      };
      run_sim (s, o, t);
    });
  if (p == "P08")
    return std_families (true, true, [] (const Scenario &s) {
      Trace t;
      RunOpt o;
      o.curves = false;
      run_sim (s, o, t);
      check_fifo (s, t);
    });
  if (p == "P17")
    return std_families (true, true, [] (const Scenario &s) {
      Trace t;
      RunOpt o;
      o.curves = false;
      run_sim (s, o, t);
      check_stats (s, t);
    });
  if (p == "P23")
    return std_families (true, true, [] (const Scenario &s) {
      Trace t;
      RunOpt o;
      o.volumes = true;
      o.at_end
        = [&s] (MNM_Dta *d, Trace &tr) { check_records (s, d, tr); };
      run_sim (s, o, t);
    });
  if (p == "P25")
    {
      std::vector<mc::Family> r;
      static const RouteCfg CFG[]
        = { { -1, 6, {} },
            { -1, 1, {} },
            { 6, 4, { { 9, 0.05 }, { 8, 0.125 } } },
            { 40, 12, { { 4, 0.25 } } },
            { 0, 5, { { 1, 0.5 }, { 4, 0.1 } } },
            { 12.5, 7, { { 2, 0.02 }, { 5, 0.03 }, { 6, 0.3 } } } };
      for (int m = 0; m < 2; ++m)
        {
          bool b = m;
          auto pts = [b] (const mc::Tier &t) {
            Dims d;
            d.topo = t.thorough ? std::vector<int>{ T_BRAESS, T_DIAMOND, T_RING,
                                                    T_CROSS, T_HUB }
                                : std::vector<int>{ T_BRAESS, T_DIAMOND, T_HUB };
            d.ltype = { L_CTM, L_LQ, L_PQ, L_MIX };
            d.prof = t.thorough ? std::vector<int>{ C_FREE, C_TIGHT, C_JAM,
                                                    C_SHORT, C_TWO }
                                : std::vector<int>{ C_TIGHT, C_JAM, C_TWO };
            d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3 }
                                  : std::vector<int>{ 1 };
            d.routing = { R_ADAPT, R_HYBRID };
            d.demand = t.thorough ? std::vector<int>{ 1, 2, 3, 4 }
                                  : std::vector<int>{ 2, 4 };
            return product (d, b);
          };
          mc::Family f;
          f.name = b ? "choice-biclass" : "choice-single";
          f.size = [pts] (const mc::Tier &t) {
            return (uint64_t) pts (t).size () * 6;
          };
          f.describe = [pts] (const mc::Tier &t, uint64_t i) {
            return make_scenario (pts (t)[i / 6]).name
                   + fmt ("/costs%d", (int) (i % 6));
          };
          f.run = [pts] (const mc::Tier &t, uint64_t i) {
            Scenario s = make_scenario (pts (t)[i / 6]);
            RouteCfg c = CFG[i % 6], k = c;
            k.toll.clear ();
            for (auto &l : s.links)
              if (c.toll.count (l.id))
                k.toll[l.id] = c.toll[l.id];
            run_adaptive (s, k);
          };
          f.policies_quick = 6;
          f.policies_thorough = 12;
          f.dev_thorough = 0;
          r.push_back (f);
          // shares: three paths x 2 intervals (x 2 classes)
          static const double A[] = { 0, 1, 2.5, 0.3 };
          mc::Family g;
          g.name = b ? "share-biclass" : "share-single";
          // column k of path i: digit; all-zero columns are skipped
          g.size = [b] (const mc::Tier &t) {
            return (uint64_t) (t.thorough ? (b ? 4096 * 2 * 2 : 4096 * 2 * 2)
                                          : (b ? 512 : 4096));
          };
          g.describe = [] (const mc::Tier &, uint64_t i) {
            return fmt ("share pattern %llu", (unsigned long long) i);
          };
          g.run = [b] (const mc::Tier &t, uint64_t i) {
            int w = b ? 4 : 2;
            uint64_t x = t.thorough ? i / 4 : (b ? i * 8 + i % 8 : i);
            int rt = t.thorough ? (i % 4 / 2 ? R_HYBRID : R_FIXED) : R_FIXED;
            int freq = t.thorough && i % 2 ? 7 : 12;
            std::vector<double> sh (3 * w);
            for (int c = 0; c < 2; ++c)
              {
                double sum = 0;
                for (int k = 0; k < 3; ++k)
                  {
                    double v = A[(x >> (2 * (c * 3 + k))) & 3];
                    sum += v;
                    sh[k * w + c] = v;
                    // trucks: the same columns, rotated and swapped
                    if (b)
                      sh[(k + 1) % 3 * w + 2 + (1 - c)] = v;
                  }
                if (sum == 0)
                  return;
              }
            run_shares (b, rt, sh, freq);
          };
          g.policies_quick = g.policies_thorough = 1;
          g.dev_thorough = 0;
          r.push_back (g);
        }
      return r;
    }
  if (p == "P22")
    {
      auto pts = [] (const mc::Tier &t) {
        Dims d;
        d.topo = { T_CORRIDOR, T_BRAESS, T_DIAMOND, T_MERGE, T_HUB };
        d.ltype = { L_CTM, L_LQ, L_MIX };
        d.prof = { C_TIGHT, C_JAM, C_TWO };
        d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3 } : std::vector<int>{ 1 };
        d.routing = { R_HYBRID };
        d.demand = t.thorough ? std::vector<int>{ 1, 2, 4 } : std::vector<int>{ 2 };
        return product (d, true);
      };
      static const int PICK[] = { 1, 2, 6, 7 };
      const uint64_t K = 3 * 4 * 4;
      mc::Family f;
      f.name = "attribute-file";
      f.size = [pts, K] (const mc::Tier &t) {
        return (uint64_t) pts (t).size () * K * (t.thorough ? 6 : 2);
      };
      f.describe = [pts, K] (const mc::Tier &t, uint64_t i) {
        int nt = t.thorough ? 6 : 2;
        return make_scenario (pts (t)[i / K / nt]).name
               + fmt ("/rows%d.%d", (int) (i / nt % K), (int) (i % nt));
      };
      f.run = [pts, K] (const mc::Tier &t, uint64_t i) {
        int nt = t.thorough ? 6 : 2;
        static const int TT[] = { 4, 13, 0, 1, 12, 21 };
        int k = i / nt % K;
        if (k % 3 == 0 && i % nt)
          return;
        check_td (make_scenario (pts (t)[i / K / nt]), k % 3, k / 3 % 4,
                  PICK[k / 12], TT[i % nt]);
      };
      f.policies_quick = 1;
      f.policies_thorough = 3;
      f.dev_thorough = 0;
      return { f };
    }
  if (p == "P09")
    {
      std::vector<mc::Family> r;
      for (int m = 0; m < 2; ++m)
        {
          bool b = m;
          mc::Family f
            = family (b ? "repeat-biclass" : "repeat-single",
                      [b] (const mc::Tier &t) {
                        Dims d;
                        d.topo = { T_FAN, T_DIAMOND, T_CROSS, T_RING, T_NOCONN, T_HUB };
                        d.ltype = { L_CTM, L_LQ, L_PQ, L_MIX };
                        d.prof = t.thorough
                                   ? std::vector<int>{ C_FREE, C_TIGHT, C_JAM,
                                                       C_SHORT, C_TWO }
                                   : std::vector<int>{ C_TIGHT, C_TWO };
                        d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3 }
                                              : std::vector<int>{ 1, 3 };
                        d.routing = { R_ADAPT, R_FIXED, R_HYBRID };
                        d.demand = t.thorough ? std::vector<int>{ 0, 1, 2, 3, 4 }
                                              : std::vector<int>{ 1, 2 };
                        return product (d, b);
                      },
                      check_reproducible);
          f.policies_quick = 3;
          f.policies_thorough = 12;
          f.dev_thorough = 0;
          r.push_back (f);
        }
      return r;
    }
  if (p == "P24")
    {
      auto v = std_families (true, true, [] (const Scenario &s) {
        Trace t;
        RunOpt o;
        o.trees = s.routing != "Adaptive";
        o.volumes = true;
        o.states = false;
        o.at_end = [&s, &o] (MNM_Dta *d, Trace &tr) {
          check_curves (s, d, tr);
          if (o.trees)
            check_trees (s, d, tr);
          check_records (s, d, tr);
        };
        run_sim (s, o, t);
      });
      for (auto &f : v)
        {
          if (f.name.compare (0, 4, "vary") == 0)
            f = every (f, 23, 3);
          f.policies_quick = 1;
          f.policies_thorough = 4;
          f.pos_cap_quick = 8;
          f.pos_cap_thorough = 100;
          f.prefix_quick = std::min (f.prefix_quick, 3);
          f.prefix_thorough = std::min (f.prefix_thorough, 5);
          f.hang_s = 120;
        }
      auto r = mc::crash_only (v, 1u << 30, 1u << 30);
      auto more = get ("P25");
      mc::append (more, get ("P09"));
      for (auto &f : more)
        {
          f.policies_quick = 1;
          f.policies_thorough = 2;
          f.hang_s = 120;
        }
      mc::append (r, mc::crash_only (more, 150, 4000));
      return r;
    }
  return {};
}

int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "sim", get);
}
