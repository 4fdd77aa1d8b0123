// gen.h -- the enumerated scenario space (topology x link models x capacity
// profile x flow scalar x routing x demand).
#pragma once
#include "scenario.h"

struct Dims
{
  std::vector<int> topo, ltype, prof, scalar, routing, demand, var = { 0 };
};
enum Topo
{
  T_CORRIDOR,
  T_MERGE,
  T_DIAMOND,
  T_CROSS,
  T_RING,
  T_NOCONN,
  T_FAN,
  T_BRAESS,
  T_HUB,
  T_N
};
enum LT
{
  L_CTM,
  L_LQ,
  L_PQ,
  L_MIX,
  L_LTM,
  L_N
};
enum Prof
{
  C_FREE,  // ample capacity, about three cells
  C_TIGHT, // the exit-side links carry about one vehicle per step
  C_JAM,   // few vehicles fit on a link
  C_SHORT, // links shorter than one step's travel
  C_TWO,   // two lanes, non-integral number of cells
  C_N
};
enum Rt
{
  R_ADAPT,
  R_FIXED,
  R_HYBRID,
  R_N
};
static const char *TOPO_N[] = { "corridor", "merge", "diamond", "cross", "ring", "noconn",
                                "fan", "braess", "hub" };
static const char *LT_N[] = { "CTM", "LQ", "PQ", "MIX", "LTM" };
static const char *PROF_N[] = { "free", "tight", "jam", "short", "two" };
static const char *RT_N[] = { "adaptive", "fixed", "hybrid" };

// variations of the settings of a scenario
enum Var
{
  V_PLAIN,
  V_GRJ,     // general road junctions (single-class)
  V_UNIT6,   // six-second steps, intervals of two minutes
  V_LIMIT,   // a limit on the number of steps
  V_SPLIT,   // demand split over the minutes of its interval (two-class)
  V_THREE,   // three departure intervals
  V_START,   // loading starts with the second interval
  V_TDSHARE, // adaptive shares per origin, destination and interval
  V_LABEL,   // labelled vehicles
  V_FREQ,    // odd interval lengths and routing frequencies
  V_CONV,    // other equivalents of a truck, flow scalar 5
  V_REC,     // records averaged over one step, routing at every step
  V_FILES,   // records written to files
  V_TDZERO,  // as V_TDSHARE, with an overall share of zero
  V_LONG,    // a step limit after the last arrival; shares beyond 0 and 1
  V_N
};
static const char *VAR_N[] = { "plain", "grj", "unit6", "limit", "split", "three",
                               "start", "tdshare", "label", "freq", "conv",
                               "rec", "files", "tdzero", "long" };
struct GenPoint
{
  int topo = 0, lt = 0, prof = 0, scalar = 1, rt = 0, dem = 0, var = 0;
  bool mc = false;
};

inline void
set_geom (SLink &l, const GenPoint &g, bool exit_side, int k)
{
  // ffs 45 mph = 20 m/s -> 100 m per 5 s step; lengths in miles of 1600 m
  l.ffs = 45;
  l.lanes = 1;
  l.cap = 2160; // 3 veh/step
  l.rhoj = 150;
  l.len = 0.2; // 320 m: 3 cells
  switch (g.prof)
    {
    case C_FREE:
      if (k % 2)
        l.len = 0.15; // 240 m: 2 cells
      break;
    case C_TIGHT:
      l.cap = exit_side ? 900 : 1800; // 1.25 and 2.5 veh/step
      break;
    case C_JAM:
      l.len = 0.13; // 208 m: 2 cells
      l.rhoj = 75;
      l.cap = exit_side ? 720 : 1800;
      break;
    case C_SHORT:
      l.len = 0.05; // 80 m: below one step
      l.cap = exit_side ? 1440 : 2160;
      break;
    case C_TWO:
      l.len = 0.22 + 0.03 * (k % 3);
      l.lanes = 2;
      l.ffs = 35;
      l.cap = exit_side ? 1000 : 1700;
      l.rhoj = 180;
      break;
    }
  l.ffs_t = l.ffs * (g.prof == C_TWO ? 0.8 : 2. / 3);
  l.cap_t = l.cap * 0.6;
  l.rhoj_t = l.rhoj * 0.5;
  l.conv = 2;
}

inline Scenario
make_scenario (const GenPoint &g)
{
  Scenario s;
  s.mc = g.mc;
  s.flow_scalar = g.scalar;
  s.unit_time = 5;
  s.assign_frq = 12;
  s.max_interval = 2;
  s.total_interval = -1;
  s.fix_frq = 12;
  s.ad_frq = 6;
  s.rec_para = 3;
  int nk = 0;
  auto typ = [&] () -> std::string {
    switch (g.lt)
      {
      case L_CTM:
        return "CTM";
      case L_LQ:
        return "LQ";
      case L_PQ:
        return "PQ";
      case L_LTM:
        return "LTM";
      default:
        return nk % 2 ? "LQ" : "CTM";
      }
  };
  auto road = [&] (int id, int a, int b, bool exit_side) {
    SLink l;
    l.id = id;
    l.from = a;
    l.to = b;
    l.type = typ ();
    set_geom (l, g, exit_side, nk);
    nk++;
    s.links.push_back (l);
  };
  auto conn = [&] (int id, int a, int b) {
    SLink l;
    l.id = id;
    l.from = a;
    l.to = b;
    l.type = "PQ";
    l.len = 0.05;
    l.ffs = 50;
    l.cap = 36000;
    l.rhoj = 1e5;
    l.lanes = 1;
    l.ffs_t = 50;
    l.cap_t = 36000;
    l.rhoj_t = 1e5;
    l.conv = 1;
    s.links.push_back (l);
  };
  auto node = [&] (int id, const char *t) { s.nodes.push_back (SNode{ id, t }); };
  // ids deliberately unordered and non contiguous
  switch (g.topo)
    {
    case T_CORRIDOR:
      node (11, "DMOND");
      node (3, "FWJ");
      node (25, "FWJ");
      node (7, "FWJ");
      node (40, "DMDND");
      conn (100, 11, 3);
      road (5, 3, 25, false);
      road (2, 25, 7, true);
      conn (101, 7, 40);
      s.origins = { { 1, 11 } };
      s.dests = { { 9, 40 } };
      s.paths.push_back (SPath{ { 11, 3, 25, 7, 40 }, { 1, 1, 1, 1 } });
      break;
    case T_BRAESS: // three routes to one destination, two to the other
      node (11, "DMOND");
      node (3, "FWJ");
      node (30, "FWJ");
      node (5, "FWJ");
      node (6, "FWJ");
      node (40, "DMDND");
      node (41, "DMDND");
      conn (100, 11, 3);
      road (9, 3, 30, false);
      road (4, 3, 5, false);
      road (7, 30, 5, true);
      road (1, 30, 6, true);
      road (8, 5, 6, false);
      conn (101, 6, 40);
      conn (103, 5, 41);
      s.origins = { { 1, 11 } };
      s.dests = { { 9, 40 }, { 4, 41 } };
      s.paths.push_back (SPath{ { 11, 3, 30, 6, 40 }, { 1, 2, 0, 4 } });
      s.paths.push_back (SPath{ { 11, 3, 5, 6, 40 }, { 3, 0, 1, 1 } });
      s.paths.push_back (SPath{ { 11, 3, 30, 5, 6, 40 }, { 0, 2, 2, 5 } });
      s.paths.push_back (SPath{ { 11, 3, 5, 41 }, { 0.25, 1, 0, 1 } });
      s.paths.push_back (SPath{ { 11, 3, 30, 5, 41 }, { 0.75, 3, 1, 0 } });
      break;
    case T_FAN: // one origin, six destinations
      node (11, "DMOND");
      node (3, "FWJ");
      node (7, "FWJ");
      conn (100, 11, 3);
      road (5, 3, 7, false);
      s.origins = { { 1, 11 } };
      for (int i = 0; i < 6; ++i)
        {
          node (40 + 3 * i, "DMDND");
          conn (200 - 7 * i, 7, 40 + 3 * i);
          s.dests.push_back ({ 60 - 5 * i, 40 + 3 * i });
          s.paths.push_back (SPath{ { 11, 3, 7, 40 + 3 * i }, { 1, 1, 1, 1 } });
        }
      break;
    case T_NOCONN:
      node (11, "DMOND");
      node (3, "FWJ");
      node (7, "FWJ");
      node (40, "DMDND");
      node (41, "DMDND");
      road (5, 11, 3, false);
      road (6, 3, 7, false);
      road (8, 7, 40, true);
      road (9, 7, 41, true);
      s.origins = { { 1, 11 } };
      s.dests = { { 9, 40 }, { 4, 41 } };
      s.paths.push_back (SPath{ { 11, 3, 7, 40 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 11, 3, 7, 41 }, { 1, 1, 1, 1 } });
      break;
    case T_MERGE:
      node (11, "DMOND");
      node (12, "DMOND");
      node (3, "FWJ");
      node (25, "FWJ");
      node (8, "FWJ");
      node (7, "FWJ");
      node (40, "DMDND");
      conn (100, 11, 3);
      conn (102, 12, 25);
      road (5, 3, 8, false);
      road (6, 25, 8, false);
      road (2, 8, 7, true);
      conn (101, 7, 40);
      s.origins = { { 1, 11 }, { 2, 12 } };
      s.dests = { { 9, 40 } };
      s.paths.push_back (SPath{ { 11, 3, 8, 7, 40 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 12, 25, 8, 7, 40 }, { 1, 1, 1, 1 } });
      break;
    case T_DIAMOND:
      node (11, "DMOND");
      node (3, "FWJ");
      node (25, "FWJ");
      node (8, "FWJ");
      node (7, "FWJ");
      node (40, "DMDND");
      conn (100, 11, 3);
      road (5, 3, 25, false);
      road (6, 3, 8, false);
      road (2, 25, 7, true);
      road (4, 8, 7, true);
      conn (101, 7, 40);
      s.origins = { { 1, 11 } };
      s.dests = { { 9, 40 } };
      s.paths.push_back (SPath{ { 11, 3, 25, 7, 40 }, { .5, .25, .5, 1 } });
      s.paths.push_back (SPath{ { 11, 3, 8, 7, 40 }, { .5, .75, .5, 0 } });
      break;
    case T_CROSS:
      node (11, "DMOND");
      node (12, "DMOND");
      node (3, "FWJ");
      node (8, "FWJ");
      node (40, "DMDND");
      node (41, "DMDND");
      node (5, "FWJ");
      node (6, "FWJ");
      conn (100, 11, 5);
      conn (102, 12, 6);
      road (5, 5, 3, false);
      road (6, 6, 3, false);
      road (2, 3, 8, true);
      conn (101, 8, 40);
      conn (103, 8, 41);
      s.origins = { { 1, 11 }, { 2, 12 } };
      s.dests = { { 9, 40 }, { 4, 41 } };
      s.paths.push_back (SPath{ { 11, 5, 3, 8, 40 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 11, 5, 3, 8, 41 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 12, 6, 3, 8, 40 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 12, 6, 3, 8, 41 }, { 1, 1, 1, 1 } });
      break;
    case T_HUB: // a 3x3 junction; origins and destinations with two links
      node (11, "DMOND");
      node (12, "DMOND");
      node (3, "FWJ");
      node (25, "FWJ");
      node (4, "FWJ");
      node (8, "FWJ");
      node (5, "FWJ");
      node (6, "FWJ");
      node (7, "FWJ");
      node (40, "DMDND");
      node (41, "DMDND");
      conn (100, 11, 3);
      conn (90, 11, 25);
      conn (102, 12, 4);
      road (15, 3, 8, false);
      road (2, 25, 8, false);
      road (6, 4, 8, false);
      road (9, 8, 5, true);
      road (1, 8, 6, true);
      road (13, 8, 7, false);
      conn (101, 5, 40);
      conn (91, 6, 40);
      conn (103, 6, 41);
      conn (92, 7, 41);
      s.origins = { { 1, 11 }, { 2, 12 } };
      s.dests = { { 9, 40 }, { 4, 41 } };
      s.paths.push_back (SPath{ { 11, 3, 8, 5, 40 }, { 1, 2, 0, 4 } });
      s.paths.push_back (SPath{ { 11, 25, 8, 6, 40 }, { 3, 0, 1, 1 } });
      s.paths.push_back (SPath{ { 11, 25, 8, 7, 41 }, { 1, 1, 1, 0 } });
      s.paths.push_back (SPath{ { 11, 3, 8, 6, 41 }, { 0, 1, 2, 1 } });
      s.paths.push_back (SPath{ { 12, 4, 8, 5, 40 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 12, 4, 8, 6, 40 }, { 1, 0, 1, 3 } });
      s.paths.push_back (SPath{ { 12, 4, 8, 7, 41 }, { 1, 1, 1, 1 } });
      break;
    case T_RING: // a cycle 3 -> 8 -> 5 -> 3 with entries and exits
      node (11, "DMOND");
      node (12, "DMOND");
      node (3, "FWJ");
      node (8, "FWJ");
      node (5, "FWJ");
      node (40, "DMDND");
      node (41, "DMDND");
      conn (100, 11, 3);
      conn (102, 12, 8);
      road (5, 3, 8, false);
      road (6, 8, 5, false);
      road (2, 5, 3, false);
      conn (101, 5, 40);
      conn (103, 3, 41);
      s.origins = { { 1, 11 }, { 2, 12 } };
      s.dests = { { 9, 40 }, { 4, 41 } };
      s.paths.push_back (SPath{ { 11, 3, 8, 5, 40 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 11, 3, 41 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 12, 8, 5, 40 }, { 1, 1, 1, 1 } });
      s.paths.push_back (SPath{ { 12, 8, 5, 3, 41 }, { 1, 1, 1, 1 } });
      break;
    }
  // demand levels
  static const double LV[][2] = { { 1, 1 }, { 2.5, 0.4 }, { 9, 4.3 }, { 0, 3 }, {14.6, 9} };
  int k = 0;
  for (auto &o : s.origins)
    for (auto &d : s.dests)
      {
        std::vector<double> v (2), w (2);
        for (int i = 0; i < 2; ++i)
          {
            v[i] = LV[g.dem][i];
            w[i] = LV[g.dem][1 - i] * 0.5;
          }
        if (k % 2)
          std::swap (v[0], v[1]);
        if (s.origins.size () * s.dests.size () == 4)
          for (int i = 0; i < 2; ++i)
            {
              v[i] = k == 3 ? 0 : v[i] * 0.5;
              w[i] *= 0.5;
            }
        s.car[{ o.first, d.first }] = v;
        s.truck[{ o.first, d.first }] = w;
        ++k;
      }
  switch (g.rt)
    {
    case R_ADAPT:
      s.routing = s.mc ? "Biclass_Hybrid" : "Adaptive";
      s.ad_ratio_car = s.ad_ratio_truck = 1;
      break;
    case R_FIXED:
      s.routing = s.mc ? "Biclass_Hybrid" : "Fixed";
      s.ad_ratio_car = s.ad_ratio_truck = 0;
      break;
    case R_HYBRID:
      s.routing = s.mc ? "Biclass_Hybrid" : "Hybrid";
      s.ad_ratio = 0.5;
      s.ad_ratio_car = 0.25;
      s.ad_ratio_truck = 0.75;
      break;
    }
  // settings
  auto grow = [&] (int n) { // n departure intervals
    for (auto *m : { &s.car, &s.truck })
      for (auto &kv : *m)
        while ((int) kv.second.size () < n)
          kv.second.push_back (kv.second[kv.second.size () - 2] * 0.7);
    for (auto &p : s.paths)
      {
        std::vector<double> b = p.buf, c;
        for (int k = 0; k < (s.mc ? 2 : 1); ++k)
          for (int i = 0; i < n; ++i)
            c.push_back (i < 2 ? b[2 * k + i] : 1 + k);
        p.buf = c;
      }
    s.max_interval = n;
  };
  switch (g.var)
    {
    case V_GRJ:
      for (auto &n : s.nodes)
        if (n.type == "FWJ")
          n.type = "GRJ";
      break;
    case V_UNIT6:
      s.unit_time = 6;
      s.assign_frq = 20;
      s.fix_frq = 20;
      break;
    case V_LIMIT:
      s.total_interval = 29;
      break;
    case V_SPLIT:
      s.split = 1;
      s.assign_frq = 36;
      s.fix_frq = 36;
      {
        // a pair with little demand after one with much
        int j = 0;
        for (auto &x : s.car)
          if (j++ % 2 && s.truck.count (x.first))
            for (size_t i = 0; i < x.second.size (); ++i)
              {
                x.second[i] = i % 2 ? 0 : 1;
                s.truck[x.first][i] = i % 2 ? 1 : 0;
              }
          else if (s.truck.count (x.first))
            for (size_t i = 0; i < x.second.size (); ++i)
              s.truck[x.first][i] = std::max (s.truck[x.first][i], 2. + i % 2);
      }
      break;
    case V_THREE:
      grow (3);
      break;
    case V_START:
      grow (3);
      s.start_assign = 1;
      break;
    case V_TDSHARE:
    case V_TDZERO:
      {
        std::string f = "# O D shares\n";
        static const double R[] = { 0, 1, 0.5, 1, 0, 0.25, 1, 0 };
        int j = 0;
        for (auto &x : s.car)
          {
            f += mc::fmt ("%d %d", x.first.first, x.first.second);
            for (int i = 0; i < s.max_interval * (s.mc ? 2 : 1); ++i)
              {
                double v = R[(3 * j + i) % 8];
                s.td_share[x.first].push_back (v);
                f += " " + num (v);
              }
            f += "\n";
            ++j;
          }
        s.extra["MNM_input_od_td_adaptive_ratio"] = f;
        if (g.var == V_TDZERO)
          s.ad_ratio = s.ad_ratio_car = s.ad_ratio_truck = 0;
      }
      break;
    case V_LABEL:
      {
        std::string f = "# O shares\n", h = f;
        int j = 0;
        for (auto &x : s.origins)
          {
            double a = 0.25 * j++;
            s.labels[x.first] = { a, 0.5, 0.5 - a };
            s.labels_t[x.first] = { 1 - a, a };
            f += mc::fmt ("%d %s 0.5 %s\n", x.first, num (a).c_str (),
                          num (0.5 - a).c_str ());
            h += mc::fmt ("%d %s %s\n", x.first, num (1 - a).c_str (),
                          num (a).c_str ());
          }
        if (s.mc)
          {
            s.extra["MNM_origin_label_car"] = f;
            s.extra["MNM_origin_label_truck"] = h;
            s.extra_conf += "num_of_car_labels = 3\nnum_of_truck_labels = 2\n";
          }
        else
          {
            s.extra["MNM_input_origin_vehicle_label"] = f;
            s.extra_conf += "num_of_vehicle_labels = 3\n";
          }
      }
      break;
    case V_FREQ:
      s.assign_frq = s.mc ? 24 : 7;
      s.fix_frq = s.mc ? 24 : 7;
      s.ad_frq = 5;
      break;
    case V_CONV:
      s.flow_scalar = 5;
      s.node_conv = 1.5;
      for (auto &l : s.links)
        if (l.type != "PQ")
          l.conv = 1.5;
      break;
    case V_REC:
      s.rec_para = 1;
      s.ad_frq = 1;
      s.load_rec = s.record_rec = 1;
      break;
    case V_FILES:
      s.load_rec = s.record_rec = 1;
      break;
    case V_LONG:
      s.total_interval = 150;
      if (g.rt == R_HYBRID)
        {
          s.ad_ratio = s.ad_ratio_car = 1.5;
          s.ad_ratio_truck = -0.5;
        }
      else
        {
          s.ad_ratio_truck = 1.5;
          s.ad_ratio_car = -0.5;
        }
      break;
    }
  s.name = mc::fmt ("%s/%s/%s/%s/scalar%d/%s/dem%d%s%s", g.mc ? "biclass" : "single",
                    TOPO_N[g.topo], LT_N[g.lt], PROF_N[g.prof], g.scalar,
                    RT_N[g.rt], g.dem, g.var ? "/" : "",
                    g.var ? VAR_N[g.var] : "");
  return s;
}
inline std::vector<GenPoint>
product (const Dims &d, bool mc)
{
  std::vector<GenPoint> out;
  for (int va : d.var)
   for (int sc : d.scalar)
    for (int dem : d.demand)
      for (int rt : d.routing)
        for (int p : d.prof)
          for (int l : d.ltype)
            for (int t : d.topo)
              {
                // two-class origins are attached through PQ connectors only
                if (mc && t == T_NOCONN)
                  continue;
                // settings that exist for one kind of loading only
                if ((mc && va == V_GRJ) || (!mc && va == V_SPLIT)
                    || ((va == V_TDZERO || (va == V_TDSHARE && !mc)) && rt != R_HYBRID))
                  continue;
                GenPoint g;
                g.topo = t;
                g.lt = l;
                g.prof = p;
                g.scalar = sc;
                g.rt = rt;
                g.dem = dem;
                g.mc = mc;
                g.var = va;
                out.push_back (g);
              }
  return out;
}
