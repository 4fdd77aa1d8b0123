// mm.h -- cars, trucks, buses, park-and-ride cars and bus passengers on a
// small multimodal network, loaded by the real simulator; every step of every
// execution is compared with what a passenger, a bus and a stop may do.
#pragma once
#define MC_MULTIMODAL
#include "sim.h"

typedef std::vector<double> VD;
typedef std::vector<int> VI;

struct MWalk
{
  int id, from, to;
  const char *ft, *tt, *type;
  double time;
};
struct MBus
{
  int id, from, to, route;
};
struct MStop
{
  int id, link;
  double loc;
};
struct MTPath
{
  VI links;
  double share;
};
struct Mm
{
  int unit = 5, assign_frq = 12, n = 2, total = -1, fs = 1, split = 0, start = 0;
  int cap = 2, dwell = 0, lost = 0, talight = 5, tboard = 5;
  int explicit_bus = 1, hist_wait = 0, pickup = 0;
  double ratio_car = 0, ratio_truck = 0, ratio_pass = 0;
  std::string routing = "Multimodal_Hybrid";
  double conv = 1;
  std::vector<SNode> nodes;
  std::vector<SLink> links;
  std::vector<MStop> stops;               // physical
  std::vector<std::array<int, 3>> vstops; // id, physical, route
  std::vector<MWalk> walks;
  std::vector<MBus> buses;
  std::map<int, VI> routes;       // route -> virtual stops in order
  std::map<int, VI> bus_nodes;    // route -> nodes
  std::vector<VI> driving_paths;  // nodes
  std::vector<MTPath> tpaths;     // transit paths of the pair
  VI pnr_nodes, pnr_links;        // the park-and-ride path
  VD car, truck, pass, pnr;       // demand of the only pair
  std::map<int, VD> bus_demand;   // route -> demand
  int lot = 51, lot_node = 5;
  int o = 1, d = 4; // nodes; the od ids are 101.. below
  int lot_cap = 10;
  std::map<int, std::pair<double, double>> toll; // car, truck

  // driving links from the link of the first stop to that of the second
  VI bus_over (const MBus &x) const
  {
    auto lk = [&] (int vs) {
      for (auto &y : vstops)
        if (y[0] == vs)
          for (auto &z : stops)
            if (z.id == y[1])
              return z.link;
      return -1;
    };
    VI r;
    bool on = false;
    for (int k : path_links (bus_nodes.at (x.route)))
      {
        if (k == lk (x.from))
          on = true;
        if (on)
          r.push_back (k);
        if (k == lk (x.to))
          on = false;
      }
    return r;
  }
  double bus_length (const MBus &x) const
  {
    double len = 0;
    for (int k : bus_over (x))
      len += link (k).len;
    return len;
  }
  const SLink &link (int id) const
  {
    for (auto &l : links)
      if (l.id == id)
        return l;
    throw std::runtime_error ("no link");
  }
  int between (int a, int b) const
  {
    for (auto &l : links)
      if (l.from == a && l.to == b)
        return l.id;
    return -1;
  }
  VI path_links (const VI &nodes) const
  {
    VI r;
    for (size_t i = 0; i + 1 < nodes.size (); ++i)
      r.push_back (between (nodes[i], nodes[i + 1]));
    return r;
  }
  const MWalk *walk (int id) const
  {
    for (auto &w : walks)
      if (w.id == id)
        return &w;
    return nullptr;
  }
  const MBus *bus (int id) const
  {
    for (auto &b : buses)
      if (b.id == id)
        return &b;
    return nullptr;
  }
};

static std::map<std::string, std::string>
mm_files (const Mm &s)
{
  std::map<std::string, std::string> out;
  auto row = [] (const VD &v) {
    std::string r;
    for (double x : v)
      r += " " + num (x);
    return r + "\n";
  };
  std::string c = "[DTA]\nnetwork_name = Snap_graph\n";
  c += mc::fmt (
    "unit_time = %d\ntotal_interval = %d\nassign_frq = %d\n"
    "start_assign_interval = %d\nmax_interval = %d\nflow_scalar = %d\n"
    "num_of_link = %d\nnum_of_node = %d\nnum_of_O = 1\nnum_of_D = 2\n"
    "OD_pair = 1\nOD_pair_driving = 1\nOD_pair_pnr = 1\nOD_pair_bustransit = 1\n"
    "OD_pair_passenger = 1\nrouting_type = %s\ninit_demand_split = %d\n",
    s.unit, s.total, s.assign_frq, s.start, s.n, s.fs, (int) s.links.size (),
    (int) s.nodes.size (), s.routing.c_str (), s.split);
  c += "adaptive_ratio_car = " + num (s.ratio_car) + "\nadaptive_ratio_truck = "
       + num (s.ratio_truck) + "\nadaptive_ratio_passenger = "
       + num (s.ratio_pass) + "\n";
  c += mc::fmt (
    "bus_capacity = %d\nfixed_dwell_time = %d\nboarding_lost_time = %d\n"
    "alighting_time_per_passenger = %d\nboarding_time_per_passenger = %d\n"
    "explicit_bus = %d\nhistorical_bus_waiting_time = %d\n"
    "num_of_bus_stop_physical = %d\nnum_of_bus_stop_virtual = %d\n"
    "num_of_parking_lot = 1\nnum_of_walking_link = %d\nnum_of_bus_link = %d\n"
    "num_bus_routes = %d\n",
    s.cap, s.dwell * s.unit, s.lost * s.unit, s.talight, s.tboard,
    s.explicit_bus, s.hist_wait, (int) s.stops.size (), (int) s.vstops.size (),
    (int) s.walks.size (), (int) s.buses.size (), (int) s.routes.size ());
  if (!s.toll.empty ())
    {
      std::string f = "# link car truck\n";
      for (auto &kv : s.toll)
        f += mc::fmt ("%d %s %s\n", kv.first, num (kv.second.first).c_str (),
                      num (kv.second.second).c_str ());
      out["MNM_input_link_toll"] = f;
      c += mc::fmt ("num_of_tolled_link = %d\n", (int) s.toll.size ());
    }
  c += "\n[STAT]\nrec_mode = LRn\nrec_mode_para = 5\nrec_folder = record\n"
       "rec_volume = 1\nvolume_load_automatic_rec = 0\n"
       "volume_record_automatic_rec = 0\nrec_tt = 1\n"
       "tt_load_automatic_rec = 0\ntt_record_automatic_rec = 0\n"
       "rec_gridlock = 0\n";
  c += mc::fmt ("\n[FIXED]\nchoice_portion = Buffer\nbuffer_length = %d\n"
                "route_frq = %d\ndriving_path_file_name = driving_path_table\n"
                "num_driving_path = %d\npnr_path_file_name = pnr_path_table\n"
                "num_pnr_path = 1\nbustransit_path_file_name = "
                "bustransit_path_table\nnum_bustransit_path = %d\n"
                "bus_path_file_name = bus_path_table\n"
                "bus_route_file_name = bus_route\nnum_bus_routes = %d\n",
                2 * s.n, s.assign_frq, (int) s.driving_paths.size (),
                (int) s.tpaths.size (), (int) s.routes.size ());
  c += "\n[ADAPTIVE]\nroute_frq = 6\nvot = 20\n";
  c += "\n[MMDUE]\ndriving = 1\ntransit = 1\npnr = 1\nalpha1_driving = 0\n"
       "alpha1_transit = 0\nalpha1_pnr = 0\nbeta1 = 1\nvot = 20\n"
       "early_penalty = 10\nlate_penalty = 30\ntarget_time = 5\n"
       "parking_lot_to_destination_walking_time = 60\n"
       "carpool_cost_multiplier = 1\nbus_fare = 2\nmetro_fare = 3\n"
       "pnr_inconvenience = 0.5\nbus_inconvenience = 0.25\nmax_iter = 1\n"
       "step_size = 0.01\n";
  out["config.conf"] = c;
  std::string g = "# ID from to\n", n = "# nodes\n", l = "# links\n";
  for (auto &x : s.links)
    g += mc::fmt ("%d %d %d\n", x.id, x.from, x.to);
  for (auto &x : s.nodes)
    n += mc::fmt ("%d %s %s\n", x.id, x.type.c_str (), num (s.conv).c_str ());
  for (auto &x : s.links)
    l += mc::fmt ("%d %s %s %s %s %s %d %s %s %s %s\n", x.id, x.type.c_str (),
                  num (x.len).c_str (), num (x.ffs).c_str (),
                  num (x.cap).c_str (), num (x.rhoj).c_str (), x.lanes,
                  num (x.ffs_t).c_str (), num (x.cap_t).c_str (),
                  num (x.rhoj_t).c_str (), num (x.conv).c_str ());
  out["Snap_graph"] = g;
  out["driving_node"] = n;
  out["driving_link"] = l;
  out["od"] = mc::fmt ("# origins\n101 %d %d\n# destinations\n104 %d\n105 %d\n",
                       s.o, s.pickup * s.unit, s.d, s.lot_node);
  std::string p = "# physical\n", v = "# virtual\n", w = "# walking\n",
              b = "# bus links\n";
  for (auto &x : s.stops)
    {
      p += mc::fmt ("%d %d %s", x.id, x.link, num (x.loc).c_str ());
      for (auto &y : s.vstops)
        if (y[1] == x.id)
          p += mc::fmt (" %d", y[2]);
      p += "\n";
    }
  for (auto &x : s.vstops)
    v += mc::fmt ("%d %d %d\n", x[0], x[1], x[2]);
  for (auto &x : s.walks)
    w += mc::fmt ("%d %d %d %s %s %s %s\n", x.id, x.from, x.to, x.ft, x.tt,
                  x.type, num (x.time).c_str ());
  for (auto &x : s.buses)
    {
      VI pl = s.bus_over (x);
      std::string t;
      double len = s.bus_length (x);
      for (int k : pl)
        t += mc::fmt (" %d", k);
      b += mc::fmt ("%d %d %d %s %s %d%s\n", x.id, x.from, x.to,
                    num (len).c_str (), num (len / 30).c_str (), x.route,
                    t.c_str ());
    }
  out["bus_stop_physical"] = p;
  out["bus_stop_virtual"] = v;
  out["walking_link"] = w;
  out["bus_link"] = b;
  out["parking_lot"]
    = mc::fmt ("# lots\n%d %d 1 0.5 10 %d\n", s.lot, s.lot_node, s.lot_cap);
  std::string dd = "# demand\n101 104", bd = "# bus\n";
  for (double x : s.car)
    dd += " " + num (x);
  dd += row (s.truck);
  out["driving_demand"] = dd;
  for (auto &kv : s.bus_demand)
    bd += mc::fmt ("101 104 %d", kv.first) + row (kv.second);
  out["bus_demand"] = bd;
  out["pnr_demand"] = "# pnr\n101 104" + row (s.pnr);
  out["passenger_demand"] = "# all\n101 104" + row (VD (s.n, 0.));
  out["bustransit_demand"] = "# passengers\n101 104" + row (s.pass);
  auto join = [] (const VI &x) {
    std::string r;
    for (size_t i = 0; i < x.size (); ++i)
      r += mc::fmt (i ? " %d" : "%d", x[i]);
    return r;
  };
  auto buf = [&] (double share) {
    std::string r;
    for (int i = 0; i < 2 * s.n; ++i)
      r += (i ? " " : "") + num (share);
    return r + "\n";
  };
  std::string dp, db;
  for (auto &x : s.driving_paths)
    {
      dp += join (x) + "\n";
      db += buf (1. / s.driving_paths.size ());
    }
  out["driving_path_table"] = dp;
  out["driving_path_table_buffer"] = db;
  std::string tp = "", tb = "";
  tp = "# transit paths\n";
  for (auto &x : s.tpaths)
    {
      tp += mc::fmt ("%d %d ", s.o, s.d) + join (x.links) + "\n";
      tb += buf (x.share);
    }
  out["bustransit_path_table"] = tp;
  out["bustransit_path_table_buffer"] = tb;
  out["pnr_path_table"] = mc::fmt ("# pnr paths\n%d %d %d %d ", s.o, s.d, s.lot,
                                   s.lot_node)
                          + join (s.pnr_nodes) + " " + join (s.pnr_links)
                          + "\n";
  out["pnr_path_table_buffer"] = buf (1);
  std::string bp = "# bus paths\n", br = "# bus routes\n";
  for (auto &kv : s.routes)
    {
      bp += mc::fmt ("%d %d %d ", s.o, s.d, kv.first)
            + join (s.bus_nodes.at (kv.first)) + "\n";
      br += mc::fmt ("%d %d %d ", s.o, s.d, kv.first) + join (kv.second) + "\n";
    }
  out["bus_path_table"] = bp;
  out["bus_route"] = br;
  return out;
}

// ---------------------------------------------------------------------------
// observation
struct PSeen // one passenger at the end of one step
{
  int where; // 0 walking to enter, 1 walking, 2 walked/waiting, 3 in a bus,
             // 4 bus link (no buses), 5 queue of an origin, lot or destination
  int place; // transit link id, or bus
  int cur, next;
  int order; // position within its container
};
struct PInfo
{
  int id = 0, start = 0, assign = 0, first_step = 0, gone = -1;
  bool pnr = false;
  VI itin;
  std::vector<int> idx; // index in the itinerary at the end of each step since
                        // first_step (location)
};
struct BSeen
{
  int route, stop; // virtual stop it is registered at, -1 none
  std::set<int> pool;
  int order;           // its place in the line of that stop
};
struct MStep
{
  std::map<int, PSeen> pass;
  std::map<int, BSeen> bus; // living buses
  std::map<int, VI> fin;    // transit link -> its finished array
  std::map<int, int> kind_num, kind_enroute, kind_fin; // 0 car 1 truck 2 bus 3 pnr
  int np, ep, fp, npp, epp, fpp;
  double tp, tv[3];
  std::map<int, std::pair<double, double>> vol; // link -> cars, trucks reported
};
struct MTrace
{
  std::vector<MStep> st;
  std::map<int, PInfo> pass;
  std::map<int, int> kind;      // vehicle -> 0 car, 1 truck, 2 bus, 3 pnr car
  std::map<int, int> bus_route; // vehicle -> route
  std::map<int, int> bus_stage;
};

struct MmDta : SimDta<MNM_Dta_Multimodal>
{
  using SimDta<MNM_Dta_Multimodal>::SimDta;
};

static void
observe (MNM_Dta_Multimodal *d, Trace &tr, MTrace &m, int t, bool midstep)
{
  // kinds of vehicles (they disappear when they finish)
  for (auto &kv : d->m_veh_factory->m_veh_map)
    {
      auto *v = dynamic_cast<MNM_Veh_Multimodal *> (kv.second);
      MC_CHECK (v, "vehicle-kind", "a vehicle is not a multimodal one");
      int k = v->get_class () == 0 ? (v->get_ispnr () ? 3 : 0)
                                   : (v->get_bus_route_ID () != -1 ? 2 : 1);
      auto it = m.kind.find (kv.first);
      if (it == m.kind.end ())
        m.kind[kv.first] = k;
      else
        MC_CHECK (it->second == k, "vehicle-kind", "vehicle %d changes kind",
                  (int) kv.first);
      if (k == 2)
        m.bus_route[kv.first] = v->get_bus_route_ID ();
    }
  if (midstep)
    return;
  m.st.emplace_back ();
  MStep &s = m.st.back ();
  std::map<MNM_Passenger *, int> seen;
  auto see = [&] (MNM_Passenger *p, int where, int place, int order) {
    MC_CHECK (!seen[p], "passenger-twice",
              "step %d: a passenger is in two places", t);
    seen[p] = 1;
    auto it = d->m_passenger_factory->m_passenger_map.find (p->m_passenger_ID);
    MC_CHECK (it != d->m_passenger_factory->m_passenger_map.end ()
                && it->second == p,
              "passenger-unknown", "step %d: unknown passenger in the network",
              t);
    int id = p->m_passenger_ID;
    PSeen x;
    x.where = where;
    x.place = place;
    x.order = order;
    x.cur = p->m_current_link ? (int) p->m_current_link->m_link_ID : -1;
    x.next = p->m_next_link ? (int) p->m_next_link->m_link_ID : -1;
    s.pass[id] = x;
    PInfo &i = m.pass[id];
    if (!i.id)
      {
        i.id = id;
        i.start = p->m_start_time;
        i.assign = p->m_assign_interval;
        i.first_step = t;
        i.pnr = p->m_pnr;
        MC_CHECK (p->m_transit_path, "passenger-path",
                  "step %d: passenger %d has no path", t, id);
        i.itin.assign (p->m_transit_path->m_link_vec.begin (),
                       p->m_transit_path->m_link_vec.end ());
        MC_CHECK (p->get_origin ()->m_origin_node->m_node_ID == 1
                    && p->get_destination ()->m_dest_node->m_node_ID == 4,
                  "passenger-pair", "passenger %d has the wrong pair", id);
      }
    else
      MC_CHECK (i.gone < 0, "passenger-reappears", "passenger %d reappears", id);
  };
  for (auto &kv : d->m_transitlink_factory->m_transit_link_map)
    {
      auto *l = kv.second;
      bool bus = dynamic_cast<MNM_Bus_Link *> (l) != nullptr;
      int n = 0;
      for (auto *p : l->m_incoming_array)
        see (p, bus ? 4 : 0, kv.first, n++);
      for (auto &q : l->m_passenger_queue)
        see (q.first, bus ? 4 : 1, kv.first, n++);
      n = 0;
      auto &f = s.fin[kv.first];
      for (auto *p : l->m_finished_array)
        {
          see (p, bus ? 4 : 2, kv.first, n++);
          f.push_back (p->m_passenger_ID);
        }
    }
  for (auto &kv : d->m_od_factory->m_origin_map)
    for (auto *p :
         dynamic_cast<MNM_Origin_Multimodal *> (kv.second)->m_in_passenger_queue)
      see (p, 5, 0, 0);
  for (auto &kv : d->m_od_factory->m_destination_map)
    for (auto *p : dynamic_cast<MNM_Destination_Multimodal *> (kv.second)
                     ->m_out_passenger_queue)
      see (p, 5, 1, 0);
  for (auto &kv : d->m_parkinglot_factory->m_parking_lot_map)
    for (auto *p : kv.second->m_in_passenger_queue)
      see (p, 5, 2, 0);
  for (auto &kv : d->m_veh_factory->m_veh_map)
    {
      auto *v = dynamic_cast<MNM_Veh_Multimodal *> (kv.second);
      if (m.kind[kv.first] != 2)
        {
          MC_CHECK (v->m_passenger_pool.empty (), "pool-of-a-car",
                    "vehicle %d is no bus and carries passengers",
                    (int) kv.first);
          continue;
        }
      BSeen b;
      b.route = v->get_bus_route_ID ();
      b.stop = -1;
      b.order = -1;
      for (auto *p : v->m_passenger_pool)
        {
          see (p, 3, kv.first, 0);
          b.pool.insert (p->m_passenger_ID);
        }
      s.bus[kv.first] = b;
    }
  for (auto &kv : d->m_busstop_factory->m_busstop_map)
    if (auto *v = dynamic_cast<MNM_Busstop_Virtual *> (kv.second))
      {
        int order = 0;
        for (auto *b : v->m_bus_queue)
          {
            auto it = s.bus.find (b->m_veh_ID);
            MC_CHECK (it != s.bus.end (), "stop-queue",
                      "step %d: stop %d holds a bus that is gone", t,
                      (int) kv.first);
            MC_CHECK (it->second.stop < 0, "bus-two-stops",
                      "step %d: bus %d is at two stops", t, (int) b->m_veh_ID);
            it->second.stop = kv.first;
            it->second.order = order++;
          }
      }
  for (auto &kv : d->m_passenger_factory->m_passenger_map)
    MC_CHECK (seen.count (kv.second), "passenger-lost",
              "step %d: passenger %d is nowhere", t, (int) kv.first);
  auto *f = dynamic_cast<MNM_Veh_Factory_Multimodal *> (d->m_veh_factory);
  s.kind_num[0] = f->m_num_car;
  s.kind_num[1] = f->m_num_truck;
  s.kind_num[2] = f->m_num_bus;
  s.kind_num[3] = f->m_num_car_pnr;
  s.kind_enroute[0] = f->m_enroute_car;
  s.kind_enroute[1] = f->m_enroute_truck;
  s.kind_enroute[2] = f->m_enroute_bus;
  s.kind_enroute[3] = f->m_enroute_car_pnr;
  s.kind_fin[0] = f->m_finished_car;
  s.kind_fin[1] = f->m_finished_truck;
  s.kind_fin[2] = f->m_finished_bus;
  s.kind_fin[3] = f->m_finished_car_pnr;
  s.tv[0] = f->m_total_time_car;
  s.tv[1] = f->m_total_time_truck;
  s.tv[2] = f->m_total_time_bus;
  auto *pf = d->m_passenger_factory;
  s.np = pf->m_num_passenger;
  s.ep = pf->m_enroute_passenger;
  s.fp = pf->m_finished_passenger;
  s.npp = pf->m_num_passenger_pnr;
  s.epp = pf->m_enroute_passenger_pnr;
  s.fpp = pf->m_finished_passenger_pnr;
  s.tp = pf->m_total_time_passenger;
  for (auto &kv : d->m_link_factory->m_link_map)
    {
      auto *l = dynamic_cast<MNM_Dlink_Multiclass *> (kv.second);
      s.vol[kv.first] = { l->get_link_flow_car (), l->get_link_flow_truck () };
    }
  mc::Hash h;
  for (auto &kv : s.pass)
    {
      auto &i = m.pass[kv.first];
      h.add ((uint64_t) (kv.second.where | kv.second.place << 4
                         | i.start << 20));
      h.add ((uint64_t) (i.itin.size () << 10 | (i.itin.empty () ? 0 : i.itin[0])));
    }
  for (auto &kv : s.bus)
    h.add ((uint64_t) (kv.second.route << 16 | (kv.second.stop + 1)));
  mc::g_stats.states.insert (h.h ^ tr.hash);
}

// ---------------------------------------------------------------------------
// scenarios
static const VI MM_DIMS = { 4, 3, 8, 4, 4, 6, 6, 3 };
static void
mm_case (uint64_t c, Mm &s)
{
  int v[8];
  // the axes turn at different speeds, so that a prefix of the cases mixes them
  for (int i = 0; i < 8; ++i)
    {
      v[i] = c % MM_DIMS[i];
      c /= MM_DIMS[i];
    }
  auto node = [&] (int id, const char *t) { s.nodes.push_back ({ id, t }); };
  node (1, "DMOND");
  node (2, "FWJ");
  node (3, "FWJ");
  node (7, "FWJ");
  node (4, "DMDND");
  node (5, "DMDND");
  auto link = [&] (int id, int a, int b, const char *t, double len) {
    SLink l;
    l.id = id;
    l.from = a;
    l.to = b;
    l.type = t;
    l.len = len;
    l.ffs = 30;
    l.cap = 2000;
    l.rhoj = 200;
    l.lanes = 1;
    l.ffs_t = 30;
    l.cap_t = 2000;
    l.rhoj_t = 200;
    l.conv = 1;
    s.links.push_back (l);
  };
  link (1, 1, 2, "PQ", 0.05);
  link (2, 2, 3, v[0] & 1 ? "CTM" : "PQ", 0.13);
  link (3, 3, 7, v[0] & 2 ? "CTM" : "PQ", 0.13);
  link (5, 7, 4, "PQ", 0.05);
  link (4, 2, 5, "PQ", 0.05);
  for (auto &l : s.links)
    if (l.id == 1 || l.id == 5 || l.id == 4)
      l.cap = l.cap_t = 99999, l.rhoj = l.rhoj_t = 99999;
  static const double LOC1[3] = { 0.03, 0.07, 0.12 };
  s.stops = { { 11, 2, LOC1[v[1]] }, { 12, 3, v[1] == 1 ? 0.02 : 0.06 },
              { 13, 3, 0.11 } };
  s.vstops = { { 21, 11, 1 }, { 22, 12, 1 }, { 23, 13, 1 }, { 32, 12, 2 },
               { 33, 13, 2 } };
  s.routes = { { 1, { 21, 22, 23 } }, { 2, { 32, 33 } } };
  s.bus_nodes = { { 1, { 1, 2, 3, 7, 4 } }, { 2, { 1, 2, 3, 7, 4 } } };
  auto walk = [&] (int id, int a, const char *ft, int b, const char *tt,
                   const char *type, double time) {
    s.walks.push_back ({ id, a, b, ft, tt, type, time });
  };
  const char *O = "origin", *D = "destination", *P = "parking_lot",
             *B = "bus_stop_physical", *V = "bus_stop_virtual", *N = "normal", *BO = "boarding",
             *AL = "alighting";
  walk (101, 1, O, 11, B, N, 12);
  walk (102, 1, O, 12, B, N, 3);
  walk (103, 12, B, 4, D, N, 10);
  walk (104, 13, B, 4, D, N, 5);
  walk (105, 5, P, 11, B, N, 20);
  walk (107, 1, O, 4, D, N, 130);
  walk (108, 11, B, 12, B, N, 16);
  walk (121, 11, B, 21, V, BO, 0);
  walk (122, 12, B, 22, V, BO, 0);
  walk (132, 12, B, 32, V, BO, 0);
  walk (222, 22, V, 12, B, AL, 0);
  walk (223, 23, V, 13, B, AL, 0);
  walk (233, 33, V, 13, B, AL, 0);
  s.buses = { { 301, 21, 22, 1 }, { 302, 22, 23, 1 }, { 303, 32, 33, 2 } };
  s.driving_paths = { { 1, 2, 3, 7, 4 } };
  s.pnr_nodes = { 1, 2, 5 };
  s.pnr_links = { 105, 121, 301, 222, 103 };
  VI A{ 101, 121, 301, 222, 103 }, Bp{ 101, 121, 301, 302, 223, 104 },
    C{ 101, 121, 301, 222, 132, 303, 233, 104 }, W{ 107 },
    J{ 102, 122, 302, 223, 104 }, X{ 101, 108, 132, 303, 233, 104 };
  switch (v[2])
    {
    case 0:
      s.tpaths = { { A, 1 } };
      break;
    case 1:
      s.tpaths = { { Bp, 1 } };
      break;
    case 2:
      s.tpaths = { { C, 1 } };
      break;
    case 3:
      s.tpaths = { { A, 0.5 }, { Bp, 0.5 } };
      break;
    case 4:
      s.tpaths = { { Bp, 0.5 }, { J, 0.5 } };
      break;
    case 5:
      s.tpaths = { { C, 0.5 }, { X, 0.25 }, { W, 0.25 } };
      break;
    case 6:
      s.tpaths = { { A, 0.25 }, { Bp, 0.25 }, { C, 0.25 }, { J, 0.25 } };
      break;
    default:
      s.tpaths = { { A, 0.5 }, { W, 0 }, { J, 0.5 } };
    }
  static const VD PASS[4] = { { 3, 0 }, { 1, 2 }, { 5, 0 }, { 2, 4 } };
  s.pass = PASS[v[3]];
  switch (v[4])
    {
    case 0:
      s.bus_demand = { { 1, { 2, 1 } }, { 2, { 1, 1 } } };
      break;
    case 1:
      s.bus_demand = { { 1, { 1, 2 } }, { 2, { 0, 2 } } };
      break;
    case 2:
      s.bus_demand = { { 1, { 0, 3 } }, { 2, { 2, 2 } } };
      break;
    default:
      s.bus_demand = { { 1, { 1.5, 3 } }, { 2, { 1, 2.6 } } };
    }
  // capacity, dwell (steps), lost (steps), seconds per boarding, per alighting
  static const int BUS[6][5]
    = { { 2, 0, 0, 5, 5 }, { 1, 1, 0, 5, 5 }, { 10, 2, 1, 5, 5 },
        { 3, 0, 2, 5, 1 }, { 2, 1, 3, 1, 5 }, { 10, 3, 0, 1, 1 } };
  s.cap = BUS[v[5]][0];
  s.dwell = BUS[v[5]][1];
  s.lost = BUS[v[5]][2];
  s.tboard = BUS[v[5]][3];
  s.talight = BUS[v[5]][4];
  s.car = { 0, 0 };
  s.truck = { 0, 0 };
  s.pnr = { 0, 0 };
  switch (v[6])
    {
    case 0:
      break;
    case 1:
      s.fs = 2;
      break;
    case 2:
      s.assign_frq = 24;
      break;
    case 3:
      s.assign_frq = 24;
      s.split = 1;
      break;
    case 4:
      s.total = 60;
      break;
    default:
      s.fs = 2;
      s.total = 200;
    }
  switch (v[7])
    {
    case 0:
      break;
    case 1:
      s.car = { 2, 1 };
      s.truck = { 1, 2 };
      s.pnr = { 2, 0 };
      break;
    default:
      s.truck = { 3, 1 };
      s.pnr = { 1, 2 };
      s.pickup = 2;
      // the lot is far: its passengers start in a later interval
      s.links[4].len = 0.6;
    }
}
static std::string
mm_text (uint64_t c)
{
  static const char *N[8] = { "links", "stop1", "paths", "passengers", "buses",
                              "bus", "setting", "others" };
  std::string r = "multimodal:";
  for (int i = 0; i < 8; ++i)
    {
      r += mc::fmt (" %s=%d", N[i], (int) (c % MM_DIMS[i]));
      c /= MM_DIMS[i];
    }
  return r;
}
static uint64_t
mm_size ()
{
  uint64_t n = 1;
  for (int d : MM_DIMS)
    n *= d;
  return n;
}

// ---------------------------------------------------------------------------
// the oracle
struct Visit // one bus at one stop
{
  int bus, stop, arrive, leave; // steps; leave: first step it is gone
  int pos;                      // position of the stop on the link, in steps
  bool ctm;
  int order; // in line when it arrived, -1: did not stop
};

static int
minutes (const Mm &s)
{
  return s.n * s.assign_frq * s.unit / 60;
}
// what is released in a minute, times the flow scalar
static double
due (const Mm &s, const VD &demand, int minute)
{
  int per = s.assign_frq * s.unit / 60;
  int k = minute / per;
  if (k >= s.n)
    return 0;
  if (s.split)
    // over as many minutes as get at least one vehicle each
    for (int over = per; over >= 1; --over)
      if (std::floor (demand[k] / over * s.fs) >= 1)
        return minute % per < over ? demand[k] / over * s.fs : 0;
  return minute % per ? 0 : demand[k] * s.fs;
}

// a curve must rise exactly where and by what was counted
static void
curve (MNM_Cumulative_Curve *c, const std::map<int, double> &inc,
       const std::string &what)
{
  double sum = 0;
  for (auto &kv : inc)
    {
      sum += kv.second;
      double v = c->get_result (TFlt (kv.first + 1));
      MC_CHECK (std::fabs (v - sum) < 1e-6, "curve",
                "%s: %g by the end of step %d, %g counted", what.c_str (), v,
                kv.first, sum);
    }
  double v = c->m_recorder.empty () ? 0 : (double) c->m_recorder.back ().second;
  MC_CHECK (std::fabs (v - sum) < 1e-6, "curve", "%s: %g in all, %g counted",
            what.c_str (), v, sum);
}

// what the trips say, for the measurements asked for afterwards
struct MmRef
{
  struct PIn // a passenger enters a transit link
  {
    int path, assign, link, step; // path: of the pair, -1: park and ride
  };
  struct VIn // a vehicle enters a driving link (out: -1 still there)
  {
    int kind, route, assign, link, step, out;
    bool from_node;
  };
  int T = 0;
  std::vector<PIn> pin;
  std::map<int, VI> in, out; // transit link -> steps
  std::vector<VIn> veh;
  std::map<int, std::vector<Visit>> at; // stop -> buses
  std::map<int, int> bus_assign;
  std::map<int, std::map<int, int>> waiting; // walking link -> step -> number
  std::map<int, VI> queued;                  // driving link -> per step
  std::map<int, double> held[2], most; // ready vehicles summed over the steps by
                                       // class; most vehicles at once
  VI enroute, penroute;
  double count[5] = { 0, 0, 0, 0, 0 }, time[4] = { 0, 0, 0, 0 };
};

static void
check_mm (const Mm &s, MNM_Dta_Multimodal *d, Trace &tr, MTrace &m,
          MmRef *ref = nullptr)
{
  int T = tr.steps.size ();
  const int per_min = 60 / s.unit;
  MC_CHECK ((int) m.st.size () == T && tr.ret == T, "steps",
            "%d steps, %d reported", T, tr.ret);
  // ---- when it ends
  {
    int release = minutes (s) * per_min;
    auto idle = [&] (int n) { // after n steps
      for (auto &kv : tr.steps[n - 1].end.link)
        if (!kv.second.empty ())
          return false;
      for (auto &kv : tr.steps[n - 1].end.origin)
        if (!kv.second.empty ())
          return false;
      return true;
    };
    int want;
    if (s.total > 0)
      want = std::max (s.total, release);
    else
      {
        want = release;
        while (want < T && !idle (want))
          ++want;
        MC_CHECK (idle (T), "ends-early",
                  "the loading ends with vehicles under way");
      }
    MC_CHECK (T == want, "loading-length", "the loading takes %d steps, not %d",
              T, want);
  }
  // ---- releases
  {
    std::map<std::pair<int, int>, int> got; // (minute, kind) -> vehicles
    std::map<std::pair<int, int>, int> gotb; // (minute, route)
    for (auto &kv : tr.veh)
      {
        auto &v = kv.second;
        int k = m.kind[kv.first];
        MC_CHECK (v.first_seen == v.start_time && v.start_time % per_min == 0
                    && v.assign == v.start_time / s.assign_frq,
                  "release-time",
                  "vehicle %d appears at step %d (departure %d, interval %d)",
                  kv.first, v.first_seen, v.start_time, v.assign);
        got[{ v.start_time / per_min, k }]++;
        if (k == 2)
          gotb[{ v.start_time / per_min, m.bus_route[kv.first] }]++;
      }
    std::map<int, int> gotp;
    for (auto &kv : m.pass)
      if (!kv.second.pnr)
        {
          auto &p = kv.second;
          MC_CHECK (p.first_step == p.start && p.start % per_min == 0
                      && p.assign == p.start / s.assign_frq,
                    "passenger-release",
                    "passenger %d appears at step %d (departure %d, interval "
                    "%d)",
                    kv.first, p.first_step, p.start, p.assign);
          gotp[p.start / per_min]++;
        }
    int last = (T + per_min - 1) / per_min;
    for (int k = 0; k < last; ++k)
      {
        auto in = [&] (double want, int have, const char *what) {
          MC_CHECK (have >= std::floor (want + 1e-9)
                      && have <= std::ceil (want - 1e-9),
                    "demand", "minute %d: %d %s released, the demand is %g", k,
                    have, what, want);
        };
        in (due (s, s.car, k), got[{ k, 0 }], "cars");
        in (due (s, s.truck, k), got[{ k, 1 }], "trucks");
        in (due (s, s.pnr, k), got[{ k, 3 }], "park-and-ride cars");
        in (due (s, s.pass, k), gotp[k], "passengers");
        for (auto &kv : s.bus_demand)
          {
            double w = due (s, kv.second, k);
            int have = gotb[{ k, kv.first }];
            MC_CHECK (have == std::floor (w + 1e-9), "demand",
                      "minute %d: %d buses of route %d released, %g due", k,
                      have, kv.first, w);
          }
      }
  }
  // ---- vehicles: one place each, along their way, to their destination
  std::map<int, std::map<int, std::vector<std::pair<int, int>>>>
    where; // vehicle -> link -> (step, stage at the end)
  for (auto &kv : tr.veh)
    {
      int k = m.kind[kv.first];
      auto &v = kv.second;
      VI want = k == 2   ? s.path_links (s.bus_nodes.at (m.bus_route[kv.first]))
                : k == 3 ? s.path_links (s.pnr_nodes)
                         : s.path_links (s.driving_paths[0]);
      int i = -1; // -1 at the origin
      int end = k == 3 ? s.lot_node : s.d;
      for (int t = v.first_seen; t < T; ++t)
        {
          auto look = [&] (const Snap &sn, bool at_end) {
            int n = 0, place = -2, stage = 0;
            for (auto &x : sn.origin)
              for (auto &p : x.second)
                if (p.id == kv.first)
                  n++, place = -1;
            for (auto &x : sn.link)
              for (auto &p : x.second)
                if (p.id == kv.first)
                  {
                    n++;
                    place = x.first;
                    stage = p.stage;
                  }
            for (auto &x : sn.dest)
              for (auto &p : x.second)
                if (p.id == kv.first)
                  {
                    n++;
                    place = -3;
                    MC_CHECK (x.first == end, "vehicle-destination",
                              "step %d: vehicle %d arrives at node %d", t,
                              kv.first, x.first);
                  }
            bool gone = v.gone_step >= 0
                        && (t > v.gone_step || (at_end && t == v.gone_step));
            MC_CHECK (n == (gone ? 0 : 1), "vehicle-places",
                      "step %d: vehicle %d is in %d places", t, kv.first, n);
            if (gone)
              return;
            int j = place == -1   ? -1
                    : place == -3 ? (int) want.size ()
                                  : std::find (want.begin (), want.end (), place)
                                      - want.begin ();
            MC_CHECK (place == -3 || place == -1 || j < (int) want.size (),
                      "vehicle-path",
                      "step %d: vehicle %d is on link %d, off its path", t,
                      kv.first, place);
            MC_CHECK (j == i || (!at_end && j == i + 1), "vehicle-path",
                      "step %d: vehicle %d moves from leg %d to leg %d", t,
                      kv.first, i, j);
            i = j;
            if (at_end && place >= 0)
              where[kv.first][place].push_back ({ t, stage });
          };
          look (tr.steps[t].mid, false);
          look (tr.steps[t].end, true);
        }
    }
  // ---- counters
  for (int t = 0; t < T; ++t)
    {
      auto &st = m.st[t];
      int num[4] = { 0, 0, 0, 0 }, fin[4] = { 0, 0, 0, 0 };
      double tot[3] = { 0, 0, 0 };
      for (auto &kv : tr.veh)
        {
          int k = m.kind[kv.first];
          if (kv.second.first_seen <= t)
            num[k]++;
          if (kv.second.gone_step >= 0 && kv.second.gone_step <= t)
            {
              fin[k]++;
              tot[k == 3 ? 0 : k]
                += kv.second.gone_step - kv.second.start_time;
            }
        }
      for (int k = 0; k < 4; ++k)
        MC_CHECK (st.kind_num[k] == num[k] && st.kind_fin[k] == fin[k]
                    && st.kind_enroute[k] == num[k] - fin[k],
                  "vehicle-counters",
                  "step %d: kind %d reports %d = %d + %d, there are %d = %d + "
                  "%d",
                  t, k, st.kind_num[k], st.kind_enroute[k], st.kind_fin[k],
                  num[k], num[k] - fin[k], fin[k]);
      for (int k = 0; k < 3; ++k)
        MC_CHECK (std::fabs (st.tv[k] - tot[k]) < 1e-9, "vehicle-time",
                  "step %d: total time of kind %d is %g, not %g", t, k,
                  st.tv[k], tot[k]);
      int np = 0, fp = 0, npp = 0, fpp = 0;
      double tp = 0;
      for (auto &kv : m.pass)
        {
          auto &p = kv.second;
          bool f = p.gone >= 0 && p.gone <= t;
          if (p.first_step > t)
            continue;
          np++;
          fp += f;
          if (p.pnr)
            npp++, fpp += f;
          if (f)
            tp += p.gone - p.start;
        }
      MC_CHECK (st.np == np && st.fp == fp && st.ep == np - fp && st.npp == npp
                  && st.fpp == fpp && st.epp == npp - fpp,
                "passenger-counters",
                "step %d: passengers %d = %d + %d (park-and-ride %d = %d + %d) "
                "reported, %d = %d + %d (%d = %d + %d) there",
                t, st.np, st.ep, st.fp, st.npp, st.epp, st.fpp, np, np - fp, fp,
                npp, npp - fpp, fpp);
      MC_CHECK (std::fabs (st.tp - tp) < 1e-9, "passenger-time",
                "step %d: total passenger time %g, not %g", t, st.tp, tp);
      MC_CHECK (d->m_enroute_passenger_num[t] == np - fp, "passenger-record",
                "step %d: %d passengers recorded under way, %d are", t,
                (int) d->m_enroute_passenger_num[t], np - fp);
    }
  // ---- reported volumes: cars, and trucks with buses, past the entrance
  for (int t = 0; t < T; ++t)
    for (auto &l : s.links)
      {
        double n[2] = { 0, 0 };
        auto it = tr.steps[t].end.link.find (l.id);
        if (it != tr.steps[t].end.link.end ())
          for (auto &p : it->second)
            if (p.stage != 2)
              n[m.kind[p.id] == 1 || m.kind[p.id] == 2] += 1. / s.fs;
        auto &x = m.st[t].vol.at (l.id);
        MC_CHECK (std::fabs (x.first - n[0]) < 1e-9
                    && std::fabs (x.second - n[1]) < 1e-9,
                  "link-volume",
                  "step %d: link %d reports %g cars and %g trucks, there are %g "
                  "and %g",
                  t, l.id, x.first, x.second, n[0], n[1]);
      }
  // ---- park-and-ride: each car hands over exactly one passenger
  {
    std::multiset<std::pair<int, int>> cars, pas;
    for (auto &kv : tr.veh)
      if (m.kind[kv.first] == 3 && kv.second.gone_step >= 0)
        cars.insert ({ kv.second.gone_step, kv.second.assign });
    for (auto &kv : m.pass)
      if (kv.second.pnr)
        {
          MC_CHECK (kv.second.first_step == kv.second.start, "pnr-start",
                    "passenger %d starts at %d, seen at %d", kv.first,
                    kv.second.start, kv.second.first_step);
          pas.insert ({ kv.second.start, kv.second.assign });
        }
    MC_CHECK (cars == pas, "pnr-passengers",
              "%d park-and-ride cars arrive, %d passengers start (or at other "
              "times)",
              (int) cars.size (), (int) pas.size ());
  }
  // ---- passengers along their itinerary
  std::map<int, std::map<int, double>> in, out; // transit link -> step -> number
  for (auto &kv : m.pass)
    {
      auto &p = kv.second;
      bool ok = false;
      if (p.pnr)
        ok = p.itin == s.pnr_links;
      else
        for (auto &x : s.tpaths)
          if (x.links == p.itin && x.share > 0)
            ok = true;
      MC_CHECK (ok, "itinerary", "passenger %d has an itinerary it cannot have",
                kv.first);
      int i = -1, since = -1;
      int last = p.gone >= 0 ? p.gone : T - 1;
      for (int t = p.first_step; t <= last; ++t)
        {
          int j;
          bool fin = false;
          if (t == p.gone)
            {
              fin = true;
              j = p.itin.size ();
            }
          else
            {
              auto &x = m.st[t].pass.at (kv.first);
              MC_CHECK (x.where != 5, "passenger-stuck",
                        "step %d: passenger %d is left in a queue", t, kv.first);
              j = std::find (p.itin.begin (), p.itin.end (), x.cur)
                  - p.itin.begin ();
              MC_CHECK (j < (int) p.itin.size (), "passenger-path",
                        "step %d: passenger %d is on link %d, off its "
                        "itinerary",
                        t, kv.first, x.cur);
              const MBus *b = s.bus (p.itin[j]);
              if (x.where == 3)
                {
                  MC_CHECK (b && m.bus_route[x.place] == b->route,
                            "wrong-bus",
                            "step %d: passenger %d is in a bus of route %d "
                            "while its itinerary has link %d",
                            t, kv.first, m.bus_route[x.place], p.itin[j]);
                }
              else
                MC_CHECK (x.place == x.cur && !b, "passenger-link",
                          "step %d: passenger %d stands on link %d but is "
                          "booked on %d",
                          t, kv.first, x.place, x.cur);
            }
          MC_CHECK (j >= i && j <= i + 2 && (i >= 0 || j == 0),
                    "passenger-path",
                    "step %d: passenger %d jumps from leg %d to %d", t,
                    kv.first, i, j);
          if (j == i + 2)
            {
              const MWalk *w = s.walk (p.itin[i + 1]);
              MC_CHECK (w && std::string (w->type) == "boarding",
                        "passenger-path",
                        "step %d: passenger %d skips link %d", t, kv.first,
                        p.itin[i + 1]);
            }
          if (j != i)
            {
              for (int k = i; k < j; ++k)
                if (k >= 0)
                  out[p.itin[k]][t] += 1. / s.fs;
              for (int k = i + 1; k <= j && k < (int) p.itin.size (); ++k)
                in[p.itin[k]][t] += 1. / s.fs;
              if (ref)
                {
                  int path = -1;
                  if (!p.pnr)
                    for (size_t q = 0; q < s.tpaths.size (); ++q)
                      if (s.tpaths[q].links == p.itin)
                        path = q;
                  for (int k = i; k < j; ++k)
                    if (k >= 0)
                      ref->out[p.itin[k]].push_back (t);
                  for (int k = i + 1; k <= j && k < (int) p.itin.size (); ++k)
                    {
                      ref->in[p.itin[k]].push_back (t);
                      ref->pin.push_back ({ path, p.assign, p.itin[k], t });
                    }
                }
              if (i >= 0)
                {
                  const MWalk *w = s.walk (p.itin[i]);
                  int need = -1;
                  if (w && std::string (w->type) == "normal")
                    need = std::max (1, (int) (w->time / s.unit + 1e-9))
                           + (p.pnr && i == 0 ? 1 : 0);
                  else if (w && std::string (w->type) == "alighting")
                    need = 1;
                  MC_CHECK (need < 0 || t - since == need, "walking-time",
                            "passenger %d spends %d steps on walking link %d, "
                            "it takes %d",
                            kv.first, t - since, p.itin[i], need);
                }
              since = t;
              i = j;
            }
          else
            {
              const MWalk *w = i >= 0 && !fin ? s.walk (p.itin[i]) : nullptr;
              if (w && std::string (w->type) != "boarding")
                {
                  int need = std::string (w->type) == "normal"
                               ? std::max (1, (int) (w->time / s.unit + 1e-9))
                                   + (p.pnr && i == 0 ? 1 : 0)
                               : 1;
                  MC_CHECK (t - since < need, "walking-time",
                            "step %d: passenger %d is still on walking link %d",
                            t, kv.first, p.itin[i]);
                }
            }
        }
    }
  // ---- driving links: time needed, order, curves
  std::map<int, std::map<int, int>> enter; // vehicle -> link -> step on the link
  std::map<int, std::map<int, int>> handed;
  for (auto &kv : where)
    for (auto &x : kv.second)
      {
        handed[kv.first][x.first] = x.second[0].first;
        for (auto &y : x.second)
          if (y.second != 2)
            {
              enter[kv.first][x.first] = y.first;
              break;
            }
      }
  auto steps_of = [&] (const SLink &l) {
    double x = l.len / l.ffs * 3600 / s.unit;
    return std::max (1, (int) x);
  };
  std::map<int, int> stop_link, stop_pos;
  for (auto &v : s.vstops)
    for (auto &p : s.stops)
      if (p.id == v[1])
        {
          auto &l = s.link (p.link);
          double x = p.loc / l.ffs * 3600 / s.unit;
          stop_link[v[0]] = p.link;
          stop_pos[v[0]] = std::min (steps_of (l) - 1,
                                     std::max (0, (int) std::ceil (x) - 1));
        }
  auto in_link = [&] (int stop) {
    for (auto &b : s.buses)
      if (b.to == stop)
        return b.id;
    return -1;
  };
  auto walk_from = [&] (int stop, bool boarding) {
    for (auto &w : s.walks)
      if (boarding ? (w.to == stop && std::string (w.type) == "boarding")
                   : (w.from == stop && std::string (w.type) == "alighting"))
        return w.id;
    return -1;
  };
  // ---- buses at stops
  const int NEVER = 1 << 30;
  std::map<int, std::vector<Visit>> at; // stop -> visits
  std::map<int, int> held_on;           // vehicle*8+link -> steps held
  for (auto &kv : m.bus_route)
    {
      int b = kv.first, prev_leave = -1, prev_stop = -1;
      bool open = false;
      for (int stop : s.routes.at (kv.second))
        {
          int L = stop_link[stop], q = stop_pos[stop];
          bool ctm = s.link (L).type == "CTM";
          int first = NEVER, lastseen = -1, n = 0;
          for (int t = 0; t < T; ++t)
            {
              auto it = m.st[t].bus.find (b);
              if (it != m.st[t].bus.end () && it->second.stop == stop)
                {
                  first = std::min (first, t);
                  lastseen = t;
                  ++n;
                }
            }
          MC_CHECK (n == 0 || lastseen - first + 1 == n, "stop-twice",
                    "bus %d is at stop %d more than once", b, stop);
          bool on = enter[b].count (L);
          if (open)
            {
              MC_CHECK (n == 0, "stop-order",
                        "bus %d is at stop %d before having left the one "
                        "before",
                        b, stop);
              continue;
            }
          if (n == 0 && q == 0 && on)
            {
              first = enter[b][L];
              lastseen = first - 1;
            }
          else if (n == 0)
            {
              bool past = false;
              for (auto &x : where[b][L])
                past |= x.second == 0;
              MC_CHECK (!past, "stop-skipped", "bus %d passes stop %d", b, stop);
              open = true;
              continue;
            }
          MC_CHECK (on, "stop-off-link", "bus %d is at stop %d, off the link", b,
                    stop);
          Visit v{ b, stop, first, lastseen + 1, q, ctm,
                   n ? m.st[first].bus[b].order : -1 };
          if (!n)
            {
              // it passed within the step: before those that are held, in
              // the order of the link
              auto &on_link = tr.steps[first].end.link[L];
              v.order = -(int) on_link.size ();
              for (auto &x : on_link)
                {
                  if (x.id == b)
                    break;
                  ++v.order;
                }
            }
          if (v.leave >= T)
            {
              v.leave = NEVER;
              open = true;
            }
          int want;
          if (prev_stop >= 0 && stop_link[prev_stop] == L)
            want = prev_leave + (q - stop_pos[prev_stop] - 1);
          else
            want = enter[b][L] + std::max (0, q - 1);
          MC_CHECK (ctm ? first >= want : first == want, "stop-arrival",
                    "bus %d reaches stop %d at step %d instead of %d", b, stop,
                    first, want);
          at[stop].push_back (v);
          prev_leave = v.leave;
          prev_stop = stop;
        }
    }
  std::map<int, std::map<int, int>> moved; // bus -> step -> 1: accounted for
  std::map<int, int> exch;                 // step -> boarded - alighted
  for (auto &sv : at)
    {
      int stop = sv.first, al = walk_from (stop, false),
          bo = walk_from (stop, true), inl = in_link (stop);
      auto &vs = sv.second;
      std::sort (vs.begin (), vs.end (), [] (const Visit &a, const Visit &b) {
        return std::make_pair (a.arrive, a.order)
               < std::make_pair (b.arrive, b.order);
      });
      int free_at = 0; // the stop is free from this step on
      // who waits: boarding link before step 8 of each step
      auto waiting = [&] (int t, VI &old, std::set<int> &fresh,
                          std::set<int> &boarded) {
        old.clear ();
        fresh.clear ();
        boarded.clear ();
        if (bo < 0)
          return;
        if (t > 0)
          old = m.st[t - 1].fin[bo];
        std::set<int> o (old.begin (), old.end ());
        for (int p : m.st[t].fin[bo])
          if (!o.count (p))
            fresh.insert (p);
        for (auto &kv : m.st[t].pass)
          if (kv.second.where == 3)
            {
              auto &pi = m.pass[kv.first];
              int j = std::find (pi.itin.begin (), pi.itin.end (),
                                 kv.second.cur)
                      - pi.itin.begin ();
              if (j < 1 || pi.itin[j - 1] != bo)
                continue;
              // just boarded?
              bool before = false;
              if (t > 0)
                {
                  auto it = m.st[t - 1].pass.find (kv.first);
                  before = it != m.st[t - 1].pass.end ()
                           && it->second.where == 3;
                }
              if (!before)
                {
                  boarded.insert (kv.first);
                  if (!o.count (kv.first))
                    fresh.insert (kv.first);
                }
            }
      };
      for (size_t k = 0; k < vs.size (); ++k)
        {
          Visit &v = vs[k];
          bool real = (k + 1) % s.fs == 0;
          int s0 = std::max (v.arrive + (v.pos > 0 ? 1 : 0), free_at);
          MC_CHECK (v.leave >= s0, "stop-overtaken",
                    "bus %d leaves stop %d at step %d, before its turn (%d)",
                    v.bus, stop, v.leave, s0);
          held_on[v.bus * 8 + stop_link[stop]]
            += v.leave == NEVER
                 ? 0
                 : v.leave - v.arrive - (v.pos > 0 ? 1 : 0);
          free_at = v.leave;
          for (int t = s0; t <= v.leave && t < T; ++t)
            {
              auto bit = m.st[t].bus.find (v.bus);
              std::set<int> P0, P1;
              if (t > 0 && m.st[t - 1].bus.count (v.bus))
                P0 = m.st[t - 1].bus[v.bus].pool;
              if (bit != m.st[t].bus.end ())
                P1 = bit->second.pool;
              VI old;
              std::set<int> fresh, boarded;
              waiting (t, old, fresh, boarded);
              int alighters = 0;
              for (int p : P0)
                {
                  auto &pi = m.pass[p];
                  int c = m.st[t - 1].pass[p].cur;
                  int j = std::find (pi.itin.begin (), pi.itin.end (), c)
                          - pi.itin.begin ();
                  MC_CHECK (c == inl
                              || (j > 0 && pi.itin[j - 1] == bo),
                            "wrong-bus",
                            "step %d: passenger %d reaches stop %d while on "
                            "link %d",
                            t, p, stop, c);
                  if (c == inl && al >= 0 && j + 1 < (int) pi.itin.size ()
                      && pi.itin[j + 1] == al)
                    ++alighters;
                }
              int W = old.size () + fresh.size ();
              int room = s.cap * s.fs - (int) P0.size () + alighters;
              bool demand = alighters > 0 || (W > 0 && room > 0);
              int dwell = s.dwell;
              if (!alighters && room == 0 && t == s0)
                dwell = 0;
              // a bus that arrived full leaves at once; otherwise it has been
              // here for t - s0 steps
              bool may_leave = real ? (!demand && t - s0 >= dwell) : true;
              if (t == v.leave)
                {
                  MC_CHECK (may_leave, "leaves-early",
                            "step %d: bus %d leaves stop %d after %d steps with "
                            "%d to alight and %d waiting (%d on board)",
                            t, v.bus, stop, t - s0, alighters, W,
                            (int) P0.size ());
                  continue;
                }
              MC_CHECK (v.ctm || !may_leave, "stays",
                        "step %d: bus %d stays at stop %d for no reason", t,
                        v.bus, stop);
              // exchange
              int out_n = 0, in_n = 0;
              for (int p : P0)
                out_n += !P1.count (p);
              for (int p : P1)
                in_n += !P0.count (p);
              auto rate = [&] (int sec) {
                return (int) std::lround ((double) s.unit / sec) * s.fs;
              };
              int wa = std::min (rate (s.talight), alighters);
              int wb = bo < 0 ? 0
                              : std::min (std::min (rate (s.tboard), W),
                                          s.cap * s.fs - (int) P0.size () + wa);
              if (!real || t - s0 < s.lost)
                wa = wb = 0;
              bool none = out_n == 0 && in_n == 0;
              MC_CHECK ((out_n == wa && in_n == wb) || (v.ctm && none),
                        "exchange",
                        "step %d: bus %d at stop %d (since %d, %d on board): %d "
                        "alight and %d board instead of %d and %d",
                        t, v.bus, stop, s0, (int) P0.size (), out_n, in_n, wa,
                        wb);
              if (!none)
                {
                  mc::count ("exchanges");
                  mc::g_stats.nontrivial++;
                }
              moved[v.bus][t] = 1;
              exch[t] += in_n - out_n;
              if (ref)
                {
                  ref->waiting[bo][t] += in_n;
                  ref->waiting[al][t] -= out_n;
                }
              // those who wait longest board first
              int nold = 0;
              bool gap = false;
              for (int p : old)
                if (boarded.count (p))
                  {
                    MC_CHECK (!gap, "boarding-order",
                              "step %d: passenger %d boards at stop %d before "
                              "one who waited longer",
                              t, p, stop);
                    ++nold;
                  }
                else
                  gap = true;
              MC_CHECK (!gap || (int) boarded.size () == nold, "boarding-order",
                        "step %d: a passenger who just came to stop %d boards "
                        "before the others",
                        t, stop);
              for (int p : P0)
                if (!P1.count (p))
                  {
                    auto it = m.st[t].pass.find (p);
                    MC_CHECK (it != m.st[t].pass.end ()
                                && it->second.place == al,
                              "alighting",
                              "step %d: passenger %d leaves bus %d elsewhere "
                              "than at stop %d",
                              t, p, v.bus, stop);
                  }
            }
        }
      // curves of the stop
      auto *st = dynamic_cast<MNM_Busstop_Virtual *> (
        d->m_busstop_factory->get_busstop (stop));
      std::map<int, double> ci, co;
      for (auto &v : vs)
        {
          ci[v.arrive] += 1. / s.fs;
          if (v.leave != NEVER)
            co[v.leave] += 1. / s.fs;
        }
      curve (st->m_N_in_bus, ci, mc::fmt ("arrivals of buses at stop %d", stop));
      curve (st->m_N_out_bus, co,
             mc::fmt ("departures of buses from stop %d", stop));
    }
  // nobody gets on or off anywhere else, and no bus is overfull
  for (int t = 0; t < T; ++t)
    {
      for (auto &kv : m.st[t].bus)
        {
          MC_CHECK ((int) kv.second.pool.size () <= s.cap * s.fs, "capacity",
                    "step %d: bus %d carries %d passengers", t, kv.first,
                    (int) kv.second.pool.size ());
          std::set<int> P0;
          if (t > 0 && m.st[t - 1].bus.count (kv.first))
            P0 = m.st[t - 1].bus[kv.first].pool;
          MC_CHECK (P0 == kv.second.pool || moved[kv.first].count (t),
                    "exchange-elsewhere",
                    "step %d: passengers get on or off bus %d away from a stop",
                    t, kv.first);
        }
      int q = -exch[t] * 0;
      for (auto &x : m.st[t].fin)
        if (s.walk (x.first))
          q += x.second.size ();
      q += exch[t];
      MC_CHECK (d->m_queue_passenger_num[t] == q, "queue-record",
                "step %d: %d waiting passengers recorded, %d there", t,
                (int) d->m_queue_passenger_num[t], q);
    }
  // ---- time on links
  for (auto &kv : enter)
    for (auto &x : kv.second)
      {
        auto &l = s.link (x.first);
        int f = -1, lastt = -1;
        for (auto &y : where[kv.first][x.first])
          {
            if (y.second == 0 && f < 0)
              f = y.first;
            lastt = y.first;
          }
        int held = held_on[kv.first * 8 + x.first];
        int need = steps_of (l) - 1;
        if (f >= 0)
          MC_CHECK (l.type == "PQ" ? f - x.second == need + held
                                   : f - x.second >= need + held,
                    "link-time",
                    "vehicle %d is on link %d from step %d and reaches its end "
                    "at %d (%d steps needed, held %d)",
                    kv.first, x.first, x.second, f, need + 1, held);
        else
          MC_CHECK (lastt == T - 1, "link-time",
                    "vehicle %d leaves link %d from its middle", kv.first,
                    x.first);
        if (x.first == 1)
          MC_CHECK (x.second - handed[kv.first][1]
                      == (m.kind[kv.first] == 3 ? s.pickup : 0),
                    "pickup", "vehicle %d starts after %d steps", kv.first,
                    x.second - handed[kv.first][1]);
      }
  // ---- curves of driving and transit links
  for (auto &l : s.links)
    {
      std::map<int, double> ci[2], co[2];
      for (auto &kv : handed)
        if (kv.second.count (l.id))
          {
            int c = m.kind[kv.first] == 1; // buses are not counted
            if (m.kind[kv.first] == 2)
              continue;
            ci[c][kv.second[l.id]] += 1. / s.fs;
            int lt = where[kv.first][l.id].back ().first;
            if (lt < T - 1)
              co[c][lt + 1] += 1. / s.fs;
          }
      auto *x
        = dynamic_cast<MNM_Dlink_Multiclass *> (d->m_link_factory->get_link (
          l.id));
      curve (x->m_N_in_car, ci[0], mc::fmt ("cars into link %d", l.id));
      curve (x->m_N_in_truck, ci[1], mc::fmt ("trucks into link %d", l.id));
      curve (x->m_N_out_car, co[0], mc::fmt ("cars out of link %d", l.id));
      curve (x->m_N_out_truck, co[1], mc::fmt ("trucks out of link %d", l.id));
    }
  for (auto &kv : d->m_transitlink_factory->m_transit_link_map)
    {
      curve (kv.second->m_N_in, in[kv.first],
             mc::fmt ("passengers into link %d", (int) kv.first));
      curve (kv.second->m_N_out, out[kv.first],
             mc::fmt ("passengers out of link %d", (int) kv.first));
    }
  if (!ref)
    return;
  ref->T = T;
  ref->at = at;
  for (auto &kv : tr.veh)
    {
      int k = m.kind[kv.first];
      if (k == 2)
        ref->bus_assign[kv.first] = kv.second.assign;
      int last = kv.second.gone_step >= 0 ? kv.second.gone_step : T;
      ref->count[k == 0 ? 0 : k == 3 ? 1 : k == 1 ? 2 : 3] += 1. / s.fs;
      ref->time[k == 3 ? 0 : k]
        += (last - kv.second.start_time) * s.unit / 3600. / s.fs;
      bool first = true;
      VI want = k == 2   ? s.path_links (s.bus_nodes.at (m.bus_route[kv.first]))
                : k == 3 ? s.path_links (s.pnr_nodes)
                         : s.path_links (s.driving_paths[0]);
      for (int l : want)
        {
          if (!handed[kv.first].count (l))
            break;
          int lt = where[kv.first][l].back ().first;
          ref->veh.push_back ({ k, k == 2 ? m.bus_route[kv.first] : -1,
                                kv.second.assign, l, handed[kv.first][l],
                                lt < T - 1 ? lt + 1 : -1, !first });
          first = false;
        }
    }
  for (auto &kv : m.pass)
    {
      ref->count[4] += 1. / s.fs;
      ref->time[3] += ((kv.second.gone >= 0 ? kv.second.gone : T)
                       - kv.second.start)
                      * s.unit / 3600. / s.fs;
    }
  for (int t = 0; t < T; ++t)
    {
      for (auto &w : s.walks)
        ref->waiting[w.id][t] += m.st[t].fin[w.id].size ();
      for (auto &l : s.links)
        {
          int n = 0;
          auto it = tr.steps[t].mid.link.find (l.id);
          if (it != tr.steps[t].mid.link.end ())
            for (auto &p : it->second)
              n += p.stage == 0;
          ref->queued[l.id].push_back (n);
          it = tr.steps[t].end.link.find (l.id);
          if (it == tr.steps[t].end.link.end ())
            continue;
          double all = 0;
          for (auto &p : it->second)
            {
              bool big = m.kind[p.id] == 1 || m.kind[p.id] == 2;
              all += big ? l.conv : 1;
              if (p.stage == 0)
                ref->held[big][l.id] += 1;
            }
          ref->most[l.id] = std::max (ref->most[l.id], all);
        }
      ref->enroute.push_back (tr.steps[t].enroute);
      ref->penroute.push_back (m.st[t].ep);
    }
}

static std::string
mm_differ (const MTrace &a, const MTrace &b)
{
  if (a.st.size () != b.st.size ())
    return "the loadings last differently long";
  for (size_t t = 0; t < a.st.size (); ++t)
    {
      auto &x = a.st[t], &y = b.st[t];
      if (x.pass.size () != y.pass.size () || x.bus.size () != y.bus.size ())
        return mc::fmt ("step %zu: different numbers of passengers or buses", t);
      for (auto &kv : x.pass)
        {
          auto it = y.pass.find (kv.first);
          if (it == y.pass.end () || it->second.where != kv.second.where
              || it->second.place != kv.second.place
              || it->second.cur != kv.second.cur
              || it->second.next != kv.second.next)
            return mc::fmt ("step %zu: passenger %d is elsewhere", t, kv.first);
        }
      for (auto &kv : x.bus)
        {
          auto it = y.bus.find (kv.first);
          if (it == y.bus.end () || it->second.stop != kv.second.stop
              || it->second.pool != kv.second.pool)
            return mc::fmt ("step %zu: bus %d is elsewhere or carries others", t,
                            kv.first);
        }
      if (x.vol != y.vol)
        return mc::fmt ("step %zu: the reported volumes differ", t);
      if (x.fin != y.fin)
        return mc::fmt ("step %zu: the passengers wait in another order", t);
    }
  for (auto &kv : a.pass)
    {
      auto it = b.pass.find (kv.first);
      if (it == b.pass.end () || it->second.itin != kv.second.itin
          || it->second.start != kv.second.start)
        return mc::fmt ("passenger %d is a different trip", kv.first);
    }
  return "";
}
static const std::string &
mm_write (const Mm &s)
{
  static std::string last;
  static pid_t owner = 0;
  const std::string &dir = scratch ();
  auto files = mm_files (s);
  std::string sig;
  for (auto &f : files)
    sig += f.first + "\n" + f.second + "\n";
  if (owner != getpid () || sig != last)
    {
      clear_dir (dir);
      for (auto &f : files)
        put (dir + "/" + f.first, f.second);
      mkdir ((dir + "/record").c_str (), 0755);
      last = sig;
      owner = getpid ();
    }
  return dir;
}
static void
mm_run (const Mm &s, MTrace *keep = nullptr, uint64_t *hash = nullptr,
        MmRef *ref = nullptr)
{
  const std::string &dir = mm_write (s);
  Trace tr;
  MTrace m;
  RunOpt o;
  o.states = false;
  o.at_step_mid = [&] (MNM_Dta *d, Trace &tr, int t) {
    observe (dynamic_cast<MNM_Dta_Multimodal *> (d), tr, m, t, true);
  };
  o.at_step_end = [&] (MNM_Dta *d, Trace &tr, int t) {
    auto *x = dynamic_cast<MNM_Dta_Multimodal *> (d);
    observe (x, tr, m, t, false);
    if (t)
      for (auto &kv : m.st[t - 1].pass)
        if (!m.st[t].pass.count (kv.first))
          m.pass[kv.first].gone = t;
  };
  std::unique_ptr<MmDta> d (new MmDta (dir + "/", &tr, &o));
  d->build_from_files ();
  d->hook_up_node_and_link ();
  d->find_connected_pnr_parkinglot_for_destination ();
  for (auto &kv : d->m_link_factory->m_link_map)
    dynamic_cast<MNM_Dlink_Multiclass *> (kv.second)
      ->install_cumulative_curve_multiclass ();
  for (auto &kv : d->m_transitlink_factory->m_transit_link_map)
    kv.second->install_cumulative_curve ();
  for (auto &kv : d->m_busstop_factory->m_busstop_map)
    if (auto *v = dynamic_cast<MNM_Busstop_Virtual *> (kv.second))
      v->install_cumulative_curve_multiclass ();
  if (ref)
    mc::rand_begin (mc::g_rand.policy, std::vector<mc::Dev> (mc::g_rand.devs));
  d->pre_loading ();
  tr.ret = d->loading (false);
  mc::g_stats.outcomes.insert (tr.hash);
  mc::g_stats.checks++;
  if (hash)
    *hash = tr.hash;
  if (keep)
    *keep = m;
  else
    check_mm (s, d.get (), tr, m, ref);
}

