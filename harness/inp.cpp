// inp.cpp -- P21: the network that is built is the one the input files
// describe, whatever their layout; what they leave out or garble is rejected.
//
// A case is a scenario, a set of optional files, and one edit (thorough: also
// two edits) of its input files.  Layout edits must not change the network;
// faults must be rejected with an exception.  The expected network is derived
// from the Scenario, never from what the code parsed.
#include "gen.h"
#include "sim.h"
#include "workzone.h"

using mc::fmt;

typedef std::map<std::string, double> Facts;
typedef std::map<std::string, std::string> Files;

// ---------------------------------------------------------------- scenario
static GenPoint
base_point (uint64_t i, bool mc)
{
  // a few scenarios that together use every row kind
  static const int T[] = { T_DIAMOND, T_CROSS, T_BRAESS, T_RING };
  static const int P[] = { C_TWO, C_TIGHT, C_SHORT, C_FREE };
  static const int R[] = { R_HYBRID, R_FIXED, R_HYBRID, R_ADAPT };
  static const int L[] = { L_MIX, L_CTM, L_LQ, L_PQ };
  GenPoint g;
  g.topo = T[i];
  g.prof = P[i];
  g.rt = R[i];
  g.lt = L[i];
  g.dem = 1 + i % 4;
  g.scalar = 1 + i % 3;
  g.mc = mc;
  return g;
}
struct Opt
{
  std::map<int, std::pair<double, double>> toll; // link -> car, truck
  struct Td
  {
    int when, link, lanes;
    std::string type;
    double len, ffs, cap, rhoj, ffs_t, cap_t, rhoj_t, conv, toll;
  };
  std::vector<Td> td;
  std::map<std::pair<int, int>, std::vector<double>> ratio; // car then truck
  std::map<int, std::vector<double>> label, label_t;
};
// attach the optional files
static Opt
optional (Scenario &s, int bits)
{
  Opt o;
  if (bits & 1)
    {
      std::string f = "#link_ID toll\n";
      int k = 0;
      for (auto &l : s.links)
        if (k++ % 2 == 0)
          {
            o.toll[l.id] = { 0.25 * k + 1, 3.5 * k };
            f += fmt ("%d %s", l.id, num (0.25 * k + 1).c_str ());
            if (s.mc)
              f += " " + num (3.5 * k);
            f += "\n";
          }
      s.extra["MNM_input_link_toll"] = f;
    }
  s.extra_conf += fmt ("num_of_tolled_link = %d\n", (int) o.toll.size ());
  if (bits & 2)
    {
      std::string f = "# when link type len ffs cap rhoj lanes ...\n";
      int k = 0;
      for (auto &l : s.links)
        {
          if (k % 3 != 2)
            {
              Opt::Td t{ 5 + 7 * (k % 2), l.id,          l.lanes + 1, l.type,
                         l.len,           l.ffs * 0.5,   l.cap * 0.75, l.rhoj * 0.5,
                         l.ffs_t * 0.5,   l.cap_t * 0.5, l.rhoj_t * 0.25,
                         l.conv + 1,      0.5 * k };
              o.td.push_back (t);
              f += fmt ("%d %d %s", t.when, t.link, t.type.c_str ());
              std::vector<double> v = { t.len, t.ffs, t.cap, t.rhoj, (double) t.lanes };
              if (s.mc)
                for (double d : { t.ffs_t, t.cap_t, t.rhoj_t, t.conv, t.toll })
                  v.push_back (d);
              else
                for (double d : { t.toll, 0., 0., 0., 0. })
                  v.push_back (d);
              for (double d : v)
                f += " " + num (d);
              f += "\n";
            }
          ++k;
        }
      s.extra["MNM_input_link_td_attribute"] = f;
    }
  if (bits & 4)
    {
      std::string f = "# O D shares\n";
      int k = 0;
      for (auto &x : s.car)
        {
          std::vector<double> v;
          for (int i = 0; i < s.max_interval * (s.mc ? 2 : 1); ++i)
            v.push_back (((3 * k + 5 * i) % 8) / 8.);
          o.ratio[x.first] = v;
          f += fmt ("%d %d", x.first.first, x.first.second);
          for (double d : v)
            f += " " + num (d);
          f += "\n";
          ++k;
        }
      s.extra["MNM_input_od_td_adaptive_ratio"] = f;
    }
  if (bits & 8)
    {
      std::string f = "# O shares\n", g = f;
      int k = 0;
      for (auto &x : s.origins)
        {
          double a = 0.125 * (k + 1);
          o.label[x.first] = { a, 0.5, 0.5 - a };
          o.label_t[x.first] = { 1 - a, a };
          f += fmt ("%d %s 0.5 %s\n", x.first, num (a).c_str (), num (0.5 - a).c_str ());
          g += fmt ("%d %s %s\n", x.first, num (1 - a).c_str (), num (a).c_str ());
          ++k;
        }
      if (s.mc)
        {
          s.extra["MNM_origin_label_car"] = f;
          s.extra["MNM_origin_label_truck"] = g;
          s.extra_conf += "num_of_car_labels = 3\nnum_of_truck_labels = 2\n";
        }
      else
        {
          s.extra["MNM_input_origin_vehicle_label"] = f;
          s.extra_conf += "num_of_vehicle_labels = 3\n";
        }
    }
  return o;
}

// ---------------------------------------------------------------- facts
static double
code (const std::string &s)
{
  mc::Hash h;
  h.add (s);
  return (double) (h.h >> 12);
}
static double
ctm_flow (double c)
{
  return std::min (c, 3500.) / 3600;
}
// what the files describe
static Facts
expected (const Scenario &s, const Opt &o, const std::vector<SPath> &paths)
{
  Facts f;
  for (auto &n : s.nodes)
    {
      f[fmt ("node %d type", n.id)] = code (n.type);
      f[fmt ("node %d scalar", n.id)] = s.flow_scalar;
      if (s.mc && n.type != "DMDND")
        f[fmt ("node %d pce", n.id)] = s.node_conv;
    }
  for (auto &l : s.links)
    {
      std::string k = fmt ("link %d ", l.id);
      f[k + "type"] = code (l.type);
      f[k + "from"] = l.from;
      f[k + "to"] = l.to;
      f[k + "lanes"] = l.lanes;
      f[fmt ("node %d out %d", l.from, l.id)] = 1;
      f[fmt ("node %d in %d", l.to, l.id)] = 1;
      double len = l.len * 1600, v = l.ffs * 1600 / 3600, vt = l.ffs_t * 1600 / 3600;
      double q = l.cap / 3600, qt = l.cap_t / 3600;
      double r = l.rhoj / 1600, rt = l.rhoj_t / 1600;
      if (l.type == "CTM")
        {
          q = ctm_flow (l.cap);
          r = std::min (l.rhoj, 300.) / 1600;
          if (s.mc)
            {
              qt = ctm_flow (l.cap_t);
              rt = std::min (l.rhoj_t, 300.) / 1600;
              // at least one vehicle per step, at least one cell
              double one = 1. / (l.lanes * (double) s.unit_time * s.flow_scalar);
              q = std::max (q, one);
              qt = std::max (qt, one);
              len = std::max (len, v * s.unit_time);
            }
        }
      if (l.type == "LQ")
        {
          double one = 1. / (l.lanes * (double) s.unit_time * s.flow_scalar);
          q = std::max (q, one);
          qt = std::max (qt, one);
        }
      f[k + "length"] = len;
      f[k + "speed"] = v;
      f[k + "capacity"] = q;
      f[k + "density"] = r;
      f[k + "free-flow time"] = len / v;
      auto t = o.toll.find (l.id);
      f[k + "toll"] = t == o.toll.end () ? 0 : t->second.first;
      if (s.mc)
        {
          f[k + "truck speed"] = vt;
          // point queues have one capacity
          f[k + "truck capacity"] = l.type == "PQ" ? -1 : qt;
          f[k + "truck density"] = l.type == "PQ" ? -1 : rt;
          f[k + "truck free-flow time"] = len / vt;
          f[k + "pce"] = l.conv;
          f[k + "truck toll"] = t == o.toll.end () ? 0 : t->second.second;
        }
    }
  for (auto &x : s.origins)
    f[fmt ("origin %d node", x.first)] = x.second;
  for (auto &x : s.dests)
    f[fmt ("destination %d node", x.first)] = x.second;
  for (auto &x : s.car)
    for (int i = 0; i < s.max_interval; ++i)
      {
        f[fmt ("demand %d %d %d", x.first.first, x.first.second, i)] = x.second[i];
        if (s.mc)
          f[fmt ("truck demand %d %d %d", x.first.first, x.first.second, i)]
            = s.truck.at (x.first)[i];
      }
  if (s.mc || s.routing == "Hybrid")
  for (auto &x : o.ratio)
    for (int i = 0; i < s.max_interval; ++i)
      {
        f[fmt ("share %d %d %d", x.first.first, x.first.second, i)] = x.second[i];
        if (s.mc)
          f[fmt ("truck share %d %d %d", x.first.first, x.first.second, i)]
            = x.second[s.max_interval + i];
      }
  for (auto &x : o.label)
    for (size_t i = 0; i < x.second.size (); ++i)
      f[fmt ("label %d %zu", x.first, i)] = x.second[i];
  if (s.mc)
    for (auto &x : o.label_t)
      for (size_t i = 0; i < x.second.size (); ++i)
        f[fmt ("truck label %d %zu", x.first, i)] = x.second[i];
  for (auto &t : o.td)
    {
      std::string k = fmt ("change %d %d ", t.when, t.link);
      f[k + "type"] = code (t.type);
      f[k + "length"] = t.len * 1600;
      f[k + "speed"] = t.ffs * 1600 / 3600;
      f[k + "capacity"] = t.cap / 3600;
      f[k + "density"] = t.rhoj / 1600;
      f[k + "lanes"] = t.lanes;
      f[k + "toll"] = t.toll;
      if (s.mc)
        {
          f[k + "truck speed"] = t.ffs_t * 1600 / 3600;
          f[k + "truck capacity"] = t.cap_t / 3600;
          f[k + "truck density"] = t.rhoj_t / 1600;
          f[k + "pce"] = t.conv;
        }
    }
  f["unit time"] = s.unit_time;
  f["scalar"] = s.flow_scalar;
  f["start"] = s.start_assign;
  // vehicles are released every assignment interval (two classes: every minute)
  f["release every"] = s.mc ? 60 / s.unit_time : s.assign_frq;
  f["releases"]
    = s.mc ? s.max_interval * s.assign_frq * s.unit_time / 60 : s.max_interval;
  bool table = s.routing != "Adaptive";
  f["routing"] = code (s.routing);
  if (table)
    for (size_t i = 0; i < paths.size (); ++i)
      {
        for (size_t j = 0; j < paths[i].nodes.size (); ++j)
          f[fmt ("path %zu node %zu", i, j)] = paths[i].nodes[j];
        for (size_t j = 0; j + 1 < paths[i].nodes.size (); ++j)
          f[fmt ("path %zu link %zu", i, j)]
            = s.link_between (paths[i].nodes[j], paths[i].nodes[j + 1]);
        int bl = s.mc ? 2 * s.max_interval : s.max_interval;
        for (int j = 0; j < bl; ++j)
          f[fmt ("path %zu share %d", i, j)] = paths[i].buf[j];
      }
  return f;
}
// what was built
static std::string
link_type (MNM_Dlink *l)
{
  if (dynamic_cast<MNM_Dlink_Ctm *> (l) || dynamic_cast<MNM_Dlink_Ctm_Multiclass *> (l))
    return "CTM";
  if (dynamic_cast<MNM_Dlink_Pq *> (l) || dynamic_cast<MNM_Dlink_Pq_Multiclass *> (l))
    return "PQ";
  if (dynamic_cast<MNM_Dlink_Lq *> (l) || dynamic_cast<MNM_Dlink_Lq_Multiclass *> (l))
    return "LQ";
  return "other";
}
static std::string
node_type (MNM_Dnode *n)
{
  if (dynamic_cast<MNM_Dnode_GRJ *> (n))
    return "GRJ";
  if (dynamic_cast<MNM_Dnode_FWJ *> (n) || dynamic_cast<MNM_Dnode_FWJ_Multiclass *> (n))
    return "FWJ";
  if (dynamic_cast<MNM_DMOND *> (n))
    return "DMOND";
  if (dynamic_cast<MNM_DMDND *> (n))
    return "DMDND";
  return "other";
}
static Facts
built (const Scenario &s, MNM_Dta *d)
{
  Facts f;
  for (auto &x : d->m_node_factory->m_node_map)
    {
      auto *n = x.second;
      MC_CHECK (x.first == n->m_node_ID, "node", "node %d filed as %d",
                n->m_node_ID, x.first);
      f[fmt ("node %d type", x.first)] = code (node_type (n));
      f[fmt ("node %d scalar", x.first)] = n->m_flow_scalar;
      if (auto *j = dynamic_cast<MNM_Dnode_Inout_Multiclass *> (n))
        f[fmt ("node %d pce", x.first)] = j->m_veh_convert_factor;
      if (auto *j = dynamic_cast<MNM_DMOND_Multiclass *> (n))
        f[fmt ("node %d pce", x.first)] = j->m_veh_convert_factor;
      for (auto *l : n->m_out_link_array)
        f[fmt ("node %d out %d", x.first, l->m_link_ID)] += 1;
      for (auto *l : n->m_in_link_array)
        f[fmt ("node %d in %d", x.first, l->m_link_ID)] += 1;
    }
  for (auto &x : d->m_link_factory->m_link_map)
    {
      auto *l = x.second;
      MC_CHECK (x.first == l->m_link_ID, "link", "link %d filed as %d",
                l->m_link_ID, x.first);
      std::string k = fmt ("link %d ", x.first);
      f[k + "type"] = code (link_type (l));
      f[k + "from"] = l->m_from_node ? l->m_from_node->m_node_ID : -1;
      f[k + "to"] = l->m_to_node ? l->m_to_node->m_node_ID : -1;
      f[k + "lanes"] = l->m_number_of_lane;
      f[k + "length"] = l->m_length;
      f[k + "speed"] = l->m_ffs;
      f[k + "toll"] = l->m_toll;
      f[k + "free-flow time"] = l->get_link_freeflow_tt ();
      double q = -1, qt = -1, r = -1, rt = -1;
      if (auto *c = dynamic_cast<MNM_Dlink_Ctm *> (l))
        q = c->m_lane_flow_cap, r = c->m_lane_hold_cap;
      if (auto *c = dynamic_cast<MNM_Dlink_Lq *> (l))
        q = c->m_lane_flow_cap, r = c->m_lane_hold_cap;
      if (auto *c = dynamic_cast<MNM_Dlink_Pq *> (l))
        q = c->m_lane_flow_cap, r = c->m_lane_hold_cap;
      double pce = -1, n = l->m_number_of_lane;
      if (auto *c = dynamic_cast<MNM_Dlink_Ctm_Multiclass *> (l))
        {
          q = c->m_lane_flow_cap_car, r = c->m_lane_hold_cap_car;
          qt = c->m_lane_flow_cap_truck, rt = c->m_lane_hold_cap_truck;
          pce = c->m_veh_convert_factor;
        }
      if (auto *c = dynamic_cast<MNM_Dlink_Lq_Multiclass *> (l))
        {
          q = c->m_C_car / n, r = c->m_k_j_car / n;
          qt = c->m_C_truck / n, rt = c->m_k_j_truck / n;
          pce = c->m_veh_convert_factor;
        }
      if (auto *c = dynamic_cast<MNM_Dlink_Pq_Multiclass *> (l))
        {
          q = c->m_lane_flow_cap, r = c->m_lane_hold_cap;
          pce = c->m_veh_convert_factor;
        }
      f[k + "capacity"] = q;
      f[k + "density"] = r;
      if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (l))
        {
          f[k + "speed"] = m->m_ffs_car;
          f[k + "truck speed"] = m->m_ffs_truck;
          f[k + "truck capacity"] = qt;
          f[k + "truck density"] = rt;
          f[k + "pce"] = pce;
          f[k + "free-flow time"] = m->get_link_freeflow_tt_car ();
          f[k + "truck free-flow time"] = m->get_link_freeflow_tt_truck ();
          f[k + "toll"] = m->m_toll_car;
          f[k + "truck toll"] = m->m_toll_truck;
          MC_CHECK (l->m_toll == m->m_toll_car, "toll",
                    "link %d: toll %g, car toll %g", x.first, l->m_toll,
                    m->m_toll_car);
        }
    }
  int minutes = s.mc ? s.assign_frq * s.unit_time / 60 : 1;
  auto series = [&] (const char *what, int o, int dd, double *v, bool spread) {
    for (int i = 0; i < s.max_interval; ++i)
      {
        double sum = 0;
        for (int j = 0; j < minutes; ++j)
          sum += v[i * minutes + j];
        f[fmt ("%s %d %d %d", what, o, dd, i)] = spread ? sum / minutes : sum;
      }
  };
  for (auto &x : d->m_od_factory->m_origin_map)
    {
      auto *o = x.second;
      f[fmt ("origin %d node", o->m_Origin_ID)] = o->m_origin_node->m_node_ID;
      MC_CHECK (x.first == o->m_Origin_ID && o->m_origin_node->m_origin == o,
                "origin", "origin %d not attached to its node", x.first);
      for (auto &y : o->m_demand)
        series ("demand", x.first, y.first->m_Dest_ID, y.second, false);
      for (auto &y : o->m_adaptive_ratio)
        series ("share", x.first, y.first->m_Dest_ID, y.second, false);
      for (size_t i = 0; i < o->m_vehicle_label_ratio.size (); ++i)
        f[fmt ("label %d %zu", x.first, i)] = o->m_vehicle_label_ratio[i];
      if (auto *m = dynamic_cast<MNM_Origin_Multiclass *> (o))
        {
          for (auto &y : m->m_demand_car)
            series ("demand", x.first, y.first->m_Dest_ID, y.second, false);
          for (auto &y : m->m_demand_truck)
            series ("truck demand", x.first, y.first->m_Dest_ID, y.second, false);
          for (auto &y : m->m_adaptive_ratio_car)
            series ("share", x.first, y.first->m_Dest_ID, y.second, true);
          for (auto &y : m->m_adaptive_ratio_truck)
            series ("truck share", x.first, y.first->m_Dest_ID, y.second, true);
          for (size_t i = 0; i < m->m_car_label_ratio.size (); ++i)
            f[fmt ("label %d %zu", x.first, i)] = m->m_car_label_ratio[i];
          for (size_t i = 0; i < m->m_truck_label_ratio.size (); ++i)
            f[fmt ("truck label %d %zu", x.first, i)] = m->m_truck_label_ratio[i];
        }
    }
  for (auto &x : d->m_od_factory->m_destination_map)
    {
      auto *o = x.second;
      f[fmt ("destination %d node", o->m_Dest_ID)] = o->m_dest_node->m_node_ID;
      MC_CHECK (x.first == o->m_Dest_ID && o->m_dest_node->m_dest == o, "dest",
                "destination %d not attached to its node", x.first);
    }
  if (s.mc)
    {
      auto *lf = dynamic_cast<MNM_Link_Factory_Multiclass *> (d->m_link_factory);
      for (auto &x : *lf->m_td_link_attribute_table)
        for (auto &y : *x.second)
          {
            std::string k = fmt ("change %d %d ", x.first, y.first);
            auto *t = y.second;
            f[k + "type"] = code (t->link_type);
            f[k + "length"] = t->length;
            f[k + "speed"] = t->FFS_car;
            f[k + "capacity"] = t->Cap_car;
            f[k + "density"] = t->RHOJ_car;
            f[k + "lanes"] = t->Lane;
            f[k + "toll"] = t->toll;
            f[k + "truck speed"] = t->FFS_truck;
            f[k + "truck capacity"] = t->Cap_truck;
            f[k + "truck density"] = t->RHOJ_truck;
            f[k + "pce"] = t->Convert_factor;
          }
    }
  else
    for (auto &x : *d->m_link_factory->m_td_link_attribute_table)
      for (auto &y : *x.second)
        {
          std::string k = fmt ("change %d %d ", x.first, y.first);
          auto *t = y.second;
          f[k + "type"] = code (t->link_type);
          f[k + "length"] = t->length;
          f[k + "speed"] = t->FFS;
          f[k + "capacity"] = t->Cap;
          f[k + "density"] = t->RHOJ;
          f[k + "lanes"] = t->Lane;
          f[k + "toll"] = t->toll;
        }
  f["unit time"] = d->m_unit_time;
  f["scalar"] = d->m_flow_scalar;
  f["start"] = d->m_start_assign_interval;
  f["release every"] = d->m_assign_freq;
  f["releases"] = d->m_total_assign_inter;
  Path_Table *t = nullptr;
  std::string rt = "other";
  if (auto *r = dynamic_cast<MNM_Routing_Biclass_Hybrid *> (d->m_routing))
    {
      t = r->m_routing_fixed_car->m_path_table;
      MC_CHECK (t == r->m_routing_fixed_truck->m_path_table, "paths",
                "the classes use different path tables");
      rt = "Biclass_Hybrid";
    }
  else if (auto *r = dynamic_cast<MNM_Routing_Hybrid *> (d->m_routing))
    t = r->m_routing_fixed->m_path_table, rt = "Hybrid";
  else if (auto *r = dynamic_cast<MNM_Routing_Fixed *> (d->m_routing))
    t = r->m_path_table, rt = "Fixed";
  else if (dynamic_cast<MNM_Routing_Adaptive *> (d->m_routing))
    rt = "Adaptive";
  f["routing"] = code (rt);
  if (t)
    for (auto &a : *t)
      for (auto &b : *a.second)
        for (auto *p : b.second->m_path_vec)
          {
            MC_CHECK (p->m_node_vec.size () > 1
                        && a.first == p->m_node_vec.front ()
                        && b.first == p->m_node_vec.back (),
                      "paths", "path %d filed under %d -> %d", p->m_path_ID,
                      a.first, b.first);
            for (size_t j = 0; j < p->m_node_vec.size (); ++j)
              f[fmt ("path %d node %zu", p->m_path_ID, j)] = p->m_node_vec[j];
            for (size_t j = 0; j < p->m_link_vec.size (); ++j)
              f[fmt ("path %d link %zu", p->m_path_ID, j)] = p->m_link_vec[j];
            for (int j = 0; j < p->m_buffer_length; ++j)
              f[fmt ("path %d share %d", p->m_path_ID, j)] = p->m_buffer[j];
          }
  return f;
}
static void
compare (const Facts &want, const Facts &got)
{
  for (auto &x : want)
    {
      auto it = got.find (x.first);
      MC_CHECK (it != got.end (), "missing", "%s (%g) is in the files, not in "
                "the network", x.first.c_str (), x.second);
      MC_CHECK (std::fabs (it->second - x.second) <= 1e-6 * (1 + std::fabs (x.second)),
                "different", "%s is %.12g, the files say %.12g", x.first.c_str (),
                it->second, x.second);
      mc::g_stats.checks++;
    }
  for (auto &x : got)
    MC_CHECK (want.count (x.first), "invented", "%s (%g) is in the network, not "
              "in the files", x.first.c_str (), x.second);
}

// ---------------------------------------------------------------- edits
static std::vector<std::string>
lines_of (const std::string &c)
{
  std::vector<std::string> v;
  std::string cur;
  for (char ch : c)
    if (ch == '\n')
      {
        v.push_back (cur);
        cur.clear ();
      }
    else
      cur += ch;
  if (!cur.empty ())
    v.push_back (cur);
  return v;
}
static std::string
join (const std::vector<std::string> &v, const char *end = "\n")
{
  std::string s;
  for (auto &l : v)
    s += l + end;
  return s;
}
static std::vector<std::string>
words_of (const std::string &l)
{
  std::vector<std::string> w;
  std::string cur;
  for (char c : l)
    if (c == ' ')
      {
        if (!cur.empty ())
          w.push_back (cur);
        cur.clear ();
      }
    else
      cur += c;
  if (!cur.empty ())
    w.push_back (cur);
  return w;
}
static std::string
unwords (const std::vector<std::string> &w, const char *sep = " ")
{
  std::string s;
  for (size_t i = 0; i < w.size (); ++i)
    s += (i ? sep : "") + w[i];
  return s;
}
static bool
is_data (const std::string &l)
{
  return !l.empty () && l[0] != '#' && l[0] != '[';
}
// files that take comments and blank lines anywhere
static const char *MAIN[] = { "MNM_input_node", "MNM_input_link", "MNM_input_od",
                              "MNM_input_demand", "Snap_graph", "path_table",
                              "path_table_buffer", "config.conf" };
// files with one header line and rows only
static const char *HEADED[]
  = { "MNM_input_link_toll", "MNM_input_link_td_attribute",
      "MNM_input_od_td_adaptive_ratio", "MNM_input_origin_vehicle_label",
      "MNM_origin_label_car", "MNM_origin_label_truck" };

struct Edit
{
  std::string file, what;
  std::function<std::string (const std::string &)> f; // new content
  bool remove = false;
  bool load = false; // the fault shows when the loading uses the row
};
static std::vector<Edit>
layout_edits (const Files &files)
{
  std::vector<Edit> r;
  auto add = [&] (const std::string &file, const std::string &what,
                  std::function<void (std::vector<std::string> &)> g,
                  const char *end = "\n") {
    std::string e = end;
    r.push_back (Edit{ file, what, [g, e] (const std::string &c) {
                        auto v = lines_of (c);
                        g (v);
                        return join (v, e.c_str ());
                      } });
  };
  std::vector<std::pair<std::string, bool>> all;
  for (auto *m : MAIN)
    all.push_back ({ m, true });
  for (auto *m : HEADED)
    all.push_back ({ m, false });
  for (auto &m : all)
    {
      auto it = files.find (m.first);
      if (it == files.end ())
        continue;
      auto L = lines_of (it->second);
      bool conf = m.first == "config.conf";
      if (m.second)
        for (size_t p = 0; p <= L.size (); ++p)
          for (const char *ins : { "# a comment 1 2 3", "", "    ", "  # x", "\r" })
            add (m.first, fmt ("insert '%s' at line %zu", ins[0] == '\r' ? "CR" : ins, p),
                 [p, ins] (std::vector<std::string> &v) {
                   v.insert (v.begin () + p, ins);
                 });
      for (size_t p = 0; p < L.size (); ++p)
        if (is_data (L[p]))
          {
            add (m.first, fmt ("indent line %zu", p),
                 [p] (std::vector<std::string> &v) { v[p] = "  " + v[p]; });
            add (m.first, fmt ("trailing blanks in line %zu", p),
                 [p] (std::vector<std::string> &v) { v[p] += "   "; });
            add (m.first, fmt ("CR in line %zu", p),
                 [p] (std::vector<std::string> &v) { v[p] += "\r"; });
            add (m.first, fmt ("wide line %zu", p),
                 [p] (std::vector<std::string> &v) {
                   v[p] = unwords (words_of (v[p]), "   ");
                 });
            if (conf)
              add (m.first, fmt ("tight line %zu", p),
                   [p] (std::vector<std::string> &v) {
                     v[p] = unwords (words_of (v[p]), "");
                   });
          }
      add (m.first, "CR LF", [] (std::vector<std::string> &) {}, "\r\n");
      r.push_back (Edit{ m.first, "no final newline", [] (const std::string &c) {
                          std::string s = c;
                          while (!s.empty () && s.back () == '\n')
                            s.pop_back ();
                          return s;
                        } });
      // order of the rows
      if (m.first == "path_table" || m.first == "path_table_buffer")
        continue; // ordered with respect to each other
      std::vector<std::vector<size_t>> blocks (1);
      for (size_t p = 0; p < L.size (); ++p)
        if (is_data (L[p]))
          blocks.back ().push_back (p);
        else if (!blocks.back ().empty ())
          blocks.push_back ({});
      for (auto &b : blocks)
        {
          for (size_t i = 0; i + 1 < b.size (); ++i)
            for (size_t j = i + 1; j < b.size (); ++j)
              {
                size_t x = b[i], y = b[j];
                add (m.first, fmt ("swap lines %zu and %zu", x, y),
                     [x, y] (std::vector<std::string> &v) { std::swap (v[x], v[y]); });
              }
          if (b.size () > 2)
            {
              add (m.first, fmt ("reverse from line %zu", b[0]),
                   [b] (std::vector<std::string> &v) {
                     std::reverse (v.begin () + b[0], v.begin () + b.back () + 1);
                   });
              for (size_t k = 1; k < b.size (); ++k)
                add (m.first, fmt ("rotate from line %zu by %zu", b[0], k),
                     [b, k] (std::vector<std::string> &v) {
                       std::rotate (v.begin () + b[0], v.begin () + b[0] + k,
                                    v.begin () + b.back () + 1);
                     });
            }
        }
    }
  return r;
}
// the configuration entries every build reads
static bool
required (const Scenario &s, const std::string &section, const std::string &key)
{
  static const std::set<std::string> dta
    = { "network_name", "unit_time",   "assign_frq", "start_assign_interval",
        "max_interval", "flow_scalar", "num_of_link", "num_of_node",
        "num_of_O",     "num_of_D",    "OD_pair",     "routing_type",
        "init_demand_split" };
  static const std::set<std::string> fixed
    = { "path_file_name", "num_path", "choice_portion", "buffer_length", "route_frq" };
  if (section == "DTA")
    return dta.count (key);
  if (section == "FIXED")
    return s.routing != "Adaptive" && fixed.count (key);
  if (section == "ADAPTIVE")
    return s.routing != "Fixed" && key == "route_frq";
  return false;
}
static std::vector<Edit>
faults (const Scenario &s, const Files &files)
{
  std::vector<Edit> r;
  bool table = s.routing != "Adaptive";
  auto add = [&] (const std::string &file, const std::string &what,
                  std::function<void (std::vector<std::string> &)> g,
                  bool load = false) {
    r.push_back (Edit{ file, what,
                       [g] (const std::string &c) {
                         auto v = lines_of (c);
                         g (v);
                         return join (v);
                       },
                       false, load });
  };
  for (auto *m : MAIN)
    {
      std::string file = m;
      bool paths = file.compare (0, 10, "path_table") == 0;
      if (!files.count (file) || (paths && !table))
        continue;
      r.push_back (Edit{ file, "no file", nullptr, true, false });
    }
  std::vector<std::string> all (MAIN, MAIN + 7);
  for (auto *m : HEADED)
    all.push_back (m);
  for (auto &file : all)
    {
      bool paths = file.compare (0, 10, "path_table") == 0;
      bool buffer = file == "path_table_buffer";
      auto it = files.find (file);
      if (it == files.end () || (paths && !table))
        continue;
      // only read where it matters
      if (file == "MNM_input_od_td_adaptive_ratio" && !s.mc && s.routing != "Hybrid")
        continue;
      auto L = lines_of (it->second);
      // rows the configuration counts
      bool counted = file != "MNM_input_link_td_attribute"
                     && file != "MNM_input_od_td_adaptive_ratio";
      for (size_t p = 0; p < L.size (); ++p)
        {
          if (!is_data (L[p]))
            continue;
          auto w = words_of (L[p]);
          if (counted)
            add (file, fmt ("line %zu deleted", p),
                 [p] (std::vector<std::string> &v) { v.erase (v.begin () + p); });
          // a path loses a field without becoming malformed
          if (!paths)
            for (size_t k = 0; k < w.size (); ++k)
              add (file, fmt ("line %zu without field %zu", p, k),
                   [p, k] (std::vector<std::string> &v) {
                     auto x = words_of (v[p]);
                     x.erase (x.begin () + k);
                     v[p] = unwords (x);
                   });
          if (buffer)
            add (file, fmt ("line %zu too short", p),
                 [p] (std::vector<std::string> &v) {
                   auto x = words_of (v[p]);
                   x.pop_back ();
                   v[p] = unwords (x);
                 },
                 true);
          if (file == "path_table")
            {
              add (file, fmt ("line %zu with one node", p),
                   [p] (std::vector<std::string> &v) { v[p] = words_of (v[p])[0]; });
              for (size_t k = 1; k + 1 < w.size (); ++k)
                if (s.link_between (std::stoi (w[k - 1]), std::stoi (w[k + 1])) < 0)
                add (file, fmt ("line %zu without node %zu", p, k),
                     [p, k] (std::vector<std::string> &v) {
                       auto x = words_of (v[p]);
                       x.erase (x.begin () + k);
                       v[p] = unwords (x);
                     });
            }
          for (size_t k = 0; k < w.size (); ++k)
            {
              auto put_word = [&] (const char *what, const std::string &nw) {
                add (file, fmt ("line %zu field %zu is %s", p, k, what),
                     [p, k, nw] (std::vector<std::string> &v) {
                       auto x = words_of (v[p]);
                       x[k] = nw;
                       v[p] = unwords (x);
                     });
              };
              // the columns of a time-dependent attribute row that the
              // single-class reader does not use
              bool unused = file == "MNM_input_link_td_attribute"
                            && (k == 2 || (!s.mc && k > 8));
              if (!unused)
                put_word ("garbled", "x7");
              // identifiers of something that does not exist
              bool id = file == "path_table"
                        || (file == "MNM_input_od" && k == 1)
                        || (file == "MNM_input_demand" && k < 2)
                        || file == "Snap_graph"
                        || (file == "MNM_input_link_toll" && k == 0)
                        || (file == "MNM_input_od_td_adaptive_ratio" && k < 2)
                        || (file.find ("label") != std::string::npos && k == 0);
              if (id)
                put_word ("unknown", "98765");
            }
        }
    }
  // configuration entries
  auto L = lines_of (files.at ("config.conf"));
  std::string section;
  for (size_t p = 0; p < L.size (); ++p)
    {
      if (!L[p].empty () && L[p][0] == '[')
        section = L[p].substr (1, L[p].find (']') - 1);
      else if (!L[p].empty ())
        {
          std::string key = words_of (L[p])[0];
          if (required (s, section, key))
            add ("config.conf", "no " + section + "/" + key,
                 [p] (std::vector<std::string> &v) { v.erase (v.begin () + p); });
        }
    }
  return r;
}

// ---------------------------------------------------------------- execution
static void
write_files (const Files &files)
{
  clear_dir (scratch ());
  mkdir ((scratch () + "/record").c_str (), 0755);
  for (auto &f : files)
    put (scratch () + "/" + f.first, f.second);
}
static MNM_Dta *
build (bool mc)
{
  // not released when something throws half way
  MNM_Dta *d = mc ? new MNM_Dta_Multiclass (scratch ()) : new MNM_Dta (scratch ());
  d->build_from_files ();
  d->hook_up_node_and_link ();
  return d;
}
static uint64_t
digest (const Files &files)
{
  mc::Hash h;
  for (auto &f : files)
    {
      h.add (f.first);
      h.add (f.second);
    }
  return h.h;
}
struct Case
{
  Scenario s;
  Opt o;
  Files files;
};
static Case
make_case (const GenPoint &g, int bits, int grj)
{
  Case c;
  c.s = make_scenario (g);
  if (grj && !g.mc)
    for (size_t i = 0; i < c.s.nodes.size (); i += 2)
      if (c.s.nodes[i].type == "FWJ")
        c.s.nodes[i].type = "GRJ";
  c.o = optional (c.s, bits);
  c.files = scenario_files (c.s);
  c.s.name += fmt ("/optional%d", bits);
  return c;
}
static void
run_same (const Case &c, const std::vector<SPath> &paths)
{
  write_files (c.files);
  MNM_Dta *d = build (c.s.mc);
  compare (expected (c.s, c.o, paths), built (c.s, d));
  MC_CHECK (d->is_ok (), "is-ok", "a well-formed network fails the check");
  mc::g_stats.transitions++;
  mc::g_stats.nontrivial++;
  mc::g_stats.states.insert (digest (c.files));
  delete d;
}
static void
run_fault (const Case &c, bool load)
{
  write_files (c.files);
  mc::g_stats.transitions++;
  mc::g_stats.nontrivial++;
  mc::g_stats.states.insert (digest (c.files));
  mc::g_stats.checks++;
  try
    {
      MNM_Dta *d = build (c.s.mc);
      if (load)
        {
          d->pre_loading ();
          d->loading (false);
        }
    }
  catch (mc::Fail &)
    {
      throw;
    }
  catch (std::exception &)
    {
      mc::count ("rejected");
      return;
    }
  throw mc::Fail ("accepted", "malformed input is accepted");
}

// base scenarios x optional files, for the edit families
static const int NB = 4;
struct Base
{
  bool mc;
  int bits;
};
static Case
edit_base (uint64_t b)
{
  // b in [0, 2 * NB)
  bool mc = b % 2;
  uint64_t i = b / 2;
  static const int BITS[NB] = { 15, 5, 2 + 8, 1 + 4 };
  return make_case (base_point (i, mc), BITS[i], i % 2 == 0);
}
struct Table
{
  // per base: the edits
  std::vector<Case> base;
  std::vector<std::vector<Edit>> edits;
  std::vector<uint64_t> start;
  uint64_t total = 0;
};
static const Table &
table (int kind)
{
  static Table T[2];
  Table &t = T[kind];
  if (t.base.empty ())
    for (uint64_t b = 0; b < 2 * NB; ++b)
      {
        t.base.push_back (edit_base (b));
        auto &c = t.base.back ();
        t.edits.push_back (kind == 0 ? layout_edits (c.files)
                                     : faults (c.s, c.files));
        t.start.push_back (t.total);
        t.total += t.edits.back ().size ();
      }
  return t;
}
static void
apply (Case &c, const Edit &e)
{
  if (e.remove)
    c.files.erase (e.file);
  else
    c.files[e.file] = e.f (c.files.at (e.file));
  c.s.name += ": " + e.file + ": " + e.what;
}
static Case
edited (int kind, uint64_t i, bool &load)
{
  const Table &t = table (kind);
  size_t b = std::upper_bound (t.start.begin (), t.start.end (), i) - t.start.begin () - 1;
  Case c = t.base[b];
  const Edit &e = t.edits[b][i - t.start[b]];
  apply (c, e);
  load = e.load;
  return c;
}
// two layout edits of the same file: all pairs whose order does not matter
// much (whole-file edits with line edits, line edits with line edits)
struct Pairs
{
  std::vector<std::array<uint32_t, 3>> v; // base, first, second
};
static const Pairs &
pairs ()
{
  static Pairs P;
  if (P.v.empty ())
    {
      const Table &t = table (0);
      for (uint32_t b = 0; b < t.base.size (); ++b)
        {
          auto &E = t.edits[b];
          for (uint32_t i = 0; i < E.size (); ++i)
            for (uint32_t j = i + 1; j < E.size (); ++j)
              {
                // (all pairs of swaps are permutations like the other ones)
                auto order = [] (const Edit &e) {
                  return e.what.compare (0, 4, "swap") == 0
                         || e.what.compare (0, 6, "rotate") == 0
                         || e.what.compare (0, 7, "reverse") == 0;
                };
                if (order (E[i]) && order (E[j]) && E[i].file == "config.conf")
                  continue;
                // the files with a header line do not take blanks before a CR
                bool headed = std::find (std::begin (HEADED), std::end (HEADED),
                                         E[i].file)
                              != std::end (HEADED);
                auto is = [] (const Edit &e, const char *w) {
                  return e.what.compare (0, strlen (w), w) == 0;
                };
                if (headed && E[i].file == E[j].file
                    && ((is (E[i], "trailing") && is (E[j], "CR"))
                        || (is (E[j], "trailing") && is (E[i], "CR"))))
                  continue;
                // the same file (line numbers of the second refer to the
                // edited file: an insertion first may shift them onto a
                // comment, so only non-inserting edits come first), or two
                // different files
                if (E[i].file != E[j].file)
                  {
                    // one representative pair of files per kind of edit
                    if (E[i].what.substr (0, 5) != E[j].what.substr (0, 5))
                      continue;
                    if (E[i].what != E[j].what)
                      continue;
                  }
                else if (E[j].what.compare (0, 6, "insert") == 0)
                  continue;
                else if (E[i].what.compare (0, 6, "insert") == 0)
                  {
                    P.v.push_back ({ b, j, i });
                    continue;
                  }
                else if (E[i].what.compare (0, 2, "no") == 0
                         || E[i].what.compare (0, 5, "CR LF") == 0)
                  {
                    P.v.push_back ({ b, j, i });
                    continue;
                  }
                P.v.push_back ({ b, i, j });
              }
        }
    }
  return P;
}
static Case
edited2 (uint64_t i)
{
  auto &p = pairs ().v.at (i);
  const Table &t = table (0);
  Case c = t.base[p[0]];
  apply (c, t.edits[p[0]][p[1]]);
  apply (c, t.edits[p[0]][p[2]]);
  return c;
}

// ---------------------------------------------------------------- consistency
// is_ok(): the counts agree, origins only have exits and destinations only
// entries, every destination can be reached from every origin
static void
run_consistency (uint64_t i, std::string *name)
{
  // a base network with one structural change, well-formed as files
  bool mc = i % 2;
  i /= 2;
  int topo = i % 4;
  i /= 4;
  GenPoint g = base_point (topo, mc);
  g.rt = R_ADAPT;
  Scenario s = make_scenario (g);
  s.paths.clear ();
  if (!s.mc)
    s.routing = "Adaptive";
  else
    s.routing = "Biclass_Hybrid";
  int change = i % 5;
  i /= 5;
  std::string what = "unchanged";
  bool extra_node = false;
  if (change == 0 && i < s.links.size ())
    {
      what = fmt ("without link %d", s.links[i].id);
      s.links.erase (s.links.begin () + i);
    }
  else if (change == 1 && i < s.links.size ())
    {
      what = fmt ("link %d reversed", s.links[i].id);
      std::swap (s.links[i].from, s.links[i].to);
    }
  else if (change == 2 && i < s.nodes.size ())
    {
      // an additional link from that node to the last junction
      int to = -1;
      for (auto &n : s.nodes)
        if (n.type == "FWJ" && n.id != s.nodes[i].id)
          to = n.id;
      SLink l = s.links[1];
      l.id = 777;
      l.from = s.nodes[i].id;
      l.to = to;
      if (s.link_between (l.from, l.to) >= 0)
        what = "unchanged";
      else
        {
          what = fmt ("with a link %d -> %d", l.from, l.to);
          s.links.push_back (l);
        }
    }
  else if (change == 4 && i < s.nodes.size ())
    {
      // an additional link from the first junction to that node
      int from = -1;
      for (auto &n : s.nodes)
        if (n.type == "FWJ" && n.id != s.nodes[i].id && from < 0)
          from = n.id;
      SLink l = s.links[1];
      l.id = 778;
      l.from = from;
      l.to = s.nodes[i].id;
      if (s.link_between (l.from, l.to) >= 0)
        what = "unchanged";
      else
        {
          what = fmt ("with a link %d -> %d", l.from, l.to);
          s.links.push_back (l);
        }
    }
  else if (change == 3 && i < 2)
    {
      what = "with an isolated node";
      s.nodes.insert (i ? s.nodes.begin () : s.nodes.end (), SNode{ 555, "FWJ" });
      extra_node = true;
    }
  if (name)
    {
      *name = s.name + ": " + what;
      return;
    }
  // expected verdict
  std::set<int> used;
  for (auto &l : s.links)
    {
      used.insert (l.from);
      used.insert (l.to);
    }
  bool ok = !extra_node && used.size () == s.nodes.size ();
  bool known = true; // all origin and destination nodes appear in the graph
  for (auto &o : s.origins)
    {
      known = known && used.count (o.second);
      bool out = false, in = false;
      for (auto &l : s.links)
        out = out || l.from == o.second, in = in || l.to == o.second;
      ok = ok && out && !in;
    }
  for (auto &o : s.dests)
    {
      known = known && used.count (o.second);
      bool out = false, in = false;
      for (auto &l : s.links)
        out = out || l.from == o.second, in = in || l.to == o.second;
      ok = ok && !out && in;
    }
  for (auto &o : s.origins)
    {
      std::set<int> seen = { o.second };
      std::vector<int> todo = { o.second };
      while (!todo.empty ())
        {
          int x = todo.back ();
          todo.pop_back ();
          for (auto &l : s.links)
            if (l.from == x && seen.insert (l.to).second)
              todo.push_back (l.to);
        }
      for (auto &d : s.dests)
        ok = ok && seen.count (d.second);
    }
  Files files = scenario_files (s);
  write_files (files);
  mc::g_stats.transitions++;
  mc::g_stats.states.insert (digest (files));
  mc::g_stats.checks++;
  mc::count (ok ? "sound networks" : "unsound networks");
  if (!ok)
    mc::g_stats.nontrivial++;
  bool got = false;
  try
    {
      MNM_Dta *d = build (s.mc);
      got = d->is_ok ();
    }
  catch (mc::Fail &)
    {
      throw;
    }
  catch (std::exception &)
    {
      // refusing a network whose origins or destinations have no road at all,
      // or that cannot be routed, is a rejection too
      MC_CHECK (!ok, "rejected", "a sound network is rejected");
      return;
    }
  MC_CHECK (got == ok, "is-ok", "the input check says %s", got ? "sound" : "unsound");
}

static std::vector<mc::Family>
fam_p21 ()
{
  std::vector<mc::Family> r;
  auto values = [] (const mc::Tier &t) {
    Dims d;
    d.topo = { T_CORRIDOR, T_MERGE, T_DIAMOND, T_CROSS, T_RING, T_NOCONN, T_FAN, T_BRAESS };
    d.ltype = { L_CTM, L_LQ, L_PQ, L_MIX };
    d.prof = { C_FREE, C_TIGHT, C_JAM, C_SHORT, C_TWO };
    d.scalar = t.thorough ? std::vector<int>{ 1, 2, 3, 7, 10 } : std::vector<int>{ 1, 3 };
    d.routing = { R_ADAPT, R_FIXED, R_HYBRID };
    d.demand = { 0, 1, 2, 3, 4 };
    auto v = product (d, false);
    mc::append (v, product (d, true));
    return v;
  };
  {
    mc::Family f;
    f.name = "values";
    auto cache = std::make_shared<std::vector<GenPoint>> ();
    auto mk = [values, cache] (const mc::Tier &t, uint64_t i) {
      if (cache->empty ())
        *cache = values (t);
      uint64_t n = cache->size ();
      Case c = make_case (cache->at (i % n), (i % n + 5 * (i / n)) % 16, i & 1);
      return c;
    };
    f.size = [values] (const mc::Tier &t) {
      return (uint64_t) values (t).size () * (t.thorough ? 16 : 2);
    };
    f.describe = [mk] (const mc::Tier &t, uint64_t i) { return mk (t, i).s.name; };
    f.run = [mk] (const mc::Tier &t, uint64_t i) {
      Case c = mk (t, i);
      run_same (c, c.s.paths);
    };
    r.push_back (f);
  }
  {
    mc::Family f;
    f.name = "layout";
    f.size = [] (const mc::Tier &) { return table (0).total; };
    f.describe = [] (const mc::Tier &, uint64_t i) {
      bool l;
      return edited (0, i, l).s.name;
    };
    f.run = [] (const mc::Tier &, uint64_t i) {
      bool l;
      Case c = edited (0, i, l);
      run_same (c, c.s.paths);
    };
    r.push_back (f);
  }
  {
    mc::Family f;
    f.name = "layout-pairs";
    f.size = [] (const mc::Tier &t) {
      return t.thorough ? (uint64_t) pairs ().v.size () : (uint64_t) 0;
    };
    f.describe = [] (const mc::Tier &, uint64_t i) { return edited2 (i).s.name; };
    f.run = [] (const mc::Tier &, uint64_t i) {
      Case c = edited2 (i);
      run_same (c, c.s.paths);
    };
    r.push_back (f);
  }
  {
    // all orders of the paths (the buffer rows follow them)
    mc::Family f;
    f.name = "path-order";
    auto mk = [] (uint64_t i) {
      static const int T[] = { T_DIAMOND, T_CROSS, T_BRAESS, T_RING };
      static const int F[] = { 2, 24, 120, 24 };
      int total = 0;
      for (int x : F)
        total += x;
      bool mc = i >= (uint64_t) total;
      i %= total;
      int k = 0;
      while (i >= (uint64_t) F[k])
        i -= F[k++];
      GenPoint g = base_point (k, mc);
      if (!mc)
        g.rt = R_FIXED;
      g.topo = T[k];
      Case c = make_case (g, 0, 0);
      // distinct rows
      int n = 0;
      for (auto &p : c.s.paths)
        for (auto &b : p.buf)
          b = 1 + 0.25 * n++;
      std::vector<SPath> q;
      auto rest = c.s.paths;
      while (!rest.empty ())
        {
          size_t j = i % rest.size ();
          i /= rest.size ();
          q.push_back (rest[j]);
          rest.erase (rest.begin () + j);
        }
      c.s.paths = q;
      c.files = scenario_files (c.s);
      for (auto &p : q)
        c.s.name += fmt (" ..%d", p.nodes[2]);
      return c;
    };
    f.size = [] (const mc::Tier &) { return (uint64_t) 2 * (2 + 24 + 120 + 24); };
    f.describe = [mk] (const mc::Tier &, uint64_t i) { return mk (i).s.name; };
    f.run = [mk] (const mc::Tier &, uint64_t i) {
      Case c = mk (i);
      run_same (c, c.s.paths);
    };
    r.push_back (f);
  }
  {
    mc::Family f;
    f.name = "faults";
    f.size = [] (const mc::Tier &) { return table (1).total; };
    f.describe = [] (const mc::Tier &, uint64_t i) {
      bool l;
      return edited (1, i, l).s.name;
    };
    f.run = [] (const mc::Tier &, uint64_t i) {
      bool l = false;
      Case c = edited (1, i, l);
      run_fault (c, l);
    };
    f.hang_s = 10;
    r.push_back (f);
  }
  {
    mc::Family f;
    f.name = "consistency";
    f.size = [] (const mc::Tier &) { return (uint64_t) 2 * 4 * 5 * 12; };
    f.describe = [] (const mc::Tier &, uint64_t i) {
      std::string s;
      run_consistency (i, &s);
      return s;
    };
    f.run = [] (const mc::Tier &, uint64_t i) { run_consistency (i, nullptr); };
    r.push_back (f);
  }
  for (auto &f : r)
    {
      // nothing is drawn at random
      f.policies_quick = f.policies_thorough = 1;
      f.dev_quick = f.dev_thorough = 0;
    }
  return r;
}
static std::vector<mc::Family>
get (const std::string &p)
{
  if (p == "P21")
    return fam_p21 ();
  if (p == "P24")
    return mc::crash_only (fam_p21 (), 6000, 100000);
  return {};
}
int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "inp", get);
}
