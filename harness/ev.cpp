// ev.cpp -- delivery tours and electric vehicles with charging stations.
//
// Every execution runs one small network to the end and records, in the middle
// (after the nodes, before the links) and at the end of every step, where every
// vehicle is.  The oracle knows only the input files: it replays each vehicle's
// tour leg by leg, every charging station, the counters, the curves and the
// saved station records.
#include "sim.h"

#include "delivery_traffic.h"
#include "ev_traffic.h"
#include <fstream>
#include <sstream>

struct Ev
{
  Scenario s;
  bool ev = false;
  std::vector<std::vector<std::pair<int, int>>> tours; // (origin, dest) IDs
  std::vector<std::vector<double>> tdem;
  std::map<int, double> wait;  // origin ID -> seconds
  std::map<int, double> road;  // origin ID -> share, absent: not written
  struct St
  {
    int id, slots, steps;
    double price;
  };
  std::vector<St> st;
  bool cand_file = false;
  std::map<std::pair<int, int>, std::vector<int>> cand; // as meant
  double start_road = 0, start_other = 0, full = 10;
  double ev_share = 0;
  bool tight = false;
  double vot = 20. / 3600;
  std::map<int, double> toll;
};

static const int EVL = 1;

static SLink
pq (int id, int from, int to, double len, double cap = 36000)
{
  return SLink{ id, "PQ", len, 36, cap, 2000, 1, from, to };
}
static int
stamp (const SLink &l)
{
  return std::max (1, (int) std::floor (l.len * 720 / l.ffs));
}

static const std::vector<std::vector<std::vector<std::pair<int, int>>>> TOURS
  = { {},
      { { { 1, 1 }, { 2, 2 } } },
      { { { 1, 1 }, { 2, 1 } } },
      { { { 1, 1 }, { 2, 2 }, { 1, 1 } } },
      { { { 1, 1 }, { 2, 2 } }, { { 2, 1 }, { 1, 2 } } },
      { { { 1, 1 }, { 2, 2 } }, { { 1, 2 }, { 2, 1 } } },
      { { { 1, 2 }, { 1, 1 }, { 2, 2 } } },
      { { { 1, 1 }, { 1, 1 } } },
      { { { 1, 1 }, { 2, 2 } },
        { { 1, 2 }, { 2, 1 } },
        { { 2, 1 }, { 1, 2 } },
        { { 1, 2 }, { 1, 1 } },
        { { 1, 1 }, { 1, 2 } },
        { { 1, 2 }, { 2, 2 } } } };

static void
base (Ev &e, int dem, int fs, int ratio, int core, int toll, int open)
{
  Scenario &s = e.s;
  s.unit_time = 5;
  s.assign_frq = 4;
  s.max_interval = 2;
  s.fix_frq = 4;
  s.ad_frq = 3;
  s.rec_para = 2;
  s.flow_scalar = fs;
  s.total_interval = open ? -1 : 34;
  s.routing = "Hybrid";
  static const double R[] = { 0, 0.5, 1 };
  s.ad_ratio = R[ratio];
  s.nodes = { { 1, "DMOND" }, { 2, "DMOND" }, { 3, "FWJ" }, { 4, "FWJ" },
              { 5, "FWJ" },   { 7, "DMDND" }, { 8, "DMDND" } };
  double oc = e.tight ? 720 : 36000;
  s.links = { pq (11, 1, 3, 0.055, oc), pq (12, 2, 5, 0.125, oc),
              pq (13, 1, 5, core ? 0.625 : 0.125, oc), pq (41, 4, 7, 0.055),
              pq (42, 4, 8, 0.125) };
  std::string ty = core ? "LQ" : "CTM";
  s.links.push_back (SLink{ 31, ty, 0.3, 36, 7200, 800, 1, 3, 4 });
  s.links.push_back (SLink{ 32, ty, 0.2, 36, 7200, 800, 1, 3, 5 });
  s.links.push_back (SLink{ 33, ty, 0.35, 36, 7200, 800, 1, 5, 4 });
  s.origins = { { 1, 1 }, { 2, 2 } };
  s.dests = { { 1, 7 }, { 2, 8 } };
  static const double D[3][4][2] = { { { 1, 0 }, { 0, 1 }, { 0, 0 }, { 1, 1 } },
                                     { { 2, 1 }, { 1, 0 }, { 1, 2 }, { 0, 0 } },
                                     { { 0.5, 1 }, { 0, 0.5 }, { 1, 0 },
                                       { 1.5, 0 } } };
  int k = 0;
  for (int o : { 1, 2 })
    for (int d : { 1, 2 })
      {
        s.car[{ o, d }] = { D[dem][k][0], D[dem][k][1] };
        ++k;
      }
  static const double TD[3][2][2] = { { { 1, 1 }, { 0, 1 } },
                                      { { 2, 1 }, { 1, 1 } },
                                      { { 0.5, 1.5 }, { 1, 0.5 } } };
  for (size_t i = 0; i < e.tours.size (); ++i)
    e.tdem.push_back ({ TD[dem][i % 2][0], TD[dem][i % 2][1] });
  for (int d : { 7, 8 })
    {
      s.paths.push_back (SPath{ { 1, 3, 4, d }, { 0.5, 0.25 } });
      s.paths.push_back (SPath{ { 1, 3, 5, 4, d }, { 0.25, 0.25 } });
      s.paths.push_back (SPath{ { 1, 5, 4, d }, { 0.25, 0.5 } });
      s.paths.push_back (SPath{ { 2, 5, 4, d }, { 1, 1 } });
    }
  if (toll)
    {
      e.toll[31] = 0.5;
      e.vot = 36. / 3600;
      s.extra_adaptive += "vot = 36\n";
      s.extra_conf += "num_of_tolled_link = 1\n";
      s.extra["MNM_input_link_toll"] = "# link toll\n31 0.5\n";
    }
}

static void
finish (Ev &e)
{
  Scenario &s = e.s;
  std::string o = "# origins\n";
  for (auto &x : s.origins)
    {
      o += mc::fmt ("%d %d", x.first, x.second);
      if (e.wait.count (x.first) || e.road.count (x.first))
        o += " " + num (e.wait[x.first]);
      if (e.road.count (x.first))
        o += " " + num (e.road[x.first]);
      o += "\n";
    }
  o += "# destinations\n";
  for (auto &x : s.dests)
    o += mc::fmt ("%d %d\n", x.first, x.second);
  s.extra["MNM_input_od"] = o;
  s.extra_conf += mc::fmt ("multi_OD_seq = %d\n", (int) e.tours.size ());
  std::string a = "# tours\n", b = "# demand\n";
  for (size_t i = 0; i < e.tours.size (); ++i)
    {
      std::string l;
      for (auto &x : e.tours[i])
        l += mc::fmt (l.empty () ? "%d %d" : " %d %d", x.first, x.second);
      a += l + "\n";
      b += num (e.tdem[i][0]) + " " + num (e.tdem[i][1]) + "\n";
    }
  s.extra["MNM_input_multi_od_seq"] = a;
  s.extra["MNM_input_multi_od_seq_demand"] = b;
  if (e.ev)
    {
      s.extra_conf
        += mc::fmt ("num_of_charging_station = %d\nev_label = %d\n"
                    "num_of_vehicle_labels = 2\n",
                    (int) e.st.size (), EVL);
      s.extra_conf
        += "EV_starting_range_roadside_charging = " + num (e.start_road)
           + "\nEV_starting_range_non_roadside_charging = "
           + num (e.start_other) + "\nEV_full_range = " + num (e.full) + "\n";
      std::string c = "# station slots charging waiting price\n";
      for (auto &x : e.st)
        c += mc::fmt ("%d %d %d 10 %s\n", x.id, x.slots,
                      x.steps * s.unit_time + 2, num (x.price).c_str ());
      s.extra["MNM_input_charging_station"] = c;
      std::string l = "# origin shares\n";
      for (auto &x : s.origins)
        l += mc::fmt ("%d %s %s\n", x.first, num (1 - e.ev_share).c_str (),
                      num (e.ev_share).c_str ());
      s.extra["MNM_input_origin_vehicle_label"] = l;
    }
}

// ---- the two families
static const int TA[] = { 9, 3, 3, 3, 2, 2, 2, 2, 2 };
static const int EA[] = { 5, 2, 2, 3, 2, 2, 3, 2, 3, 4, 3, 2 };
template <size_t N>
static uint64_t
prod (const int (&a)[N])
{
  uint64_t r = 1;
  for (int x : a)
    r *= x;
  return r;
}
template <size_t N>
static std::vector<int>
digits (const int (&a)[N], uint64_t c)
{
  std::vector<int> r;
  for (int x : a)
    {
      r.push_back (c % x);
      c /= x;
    }
  return r;
}
static void
tour_case (uint64_t c, Ev &e)
{
  auto d = digits (TA, c);
  e.tours = TOURS[d[0]];
  e.tight = d[5];
  base (e, d[1], d[4] + 1, d[3], d[6], d[7], d[8]);
  static const double W[] = { 0, 10, 7 };
  if (d[2])
    e.wait = { { 1, W[d[2]] }, { 2, d[2] == 1 ? 17.5 : 10 } };
  finish (e);
}
static void
ev_case (uint64_t c, Ev &e)
{
  auto d = digits (EA, c);
  e.ev = true;
  e.tours = TOURS[d[0]];
  e.tight = d[11];
  base (e, d[1], d[4] + 1, d[3], (d[7] + d[9]) % 2, (d[8] + d[10]) % 2,
        (d[0] + d[6] + d[9]) % 2);
  Scenario &s = e.s;
  e.wait = { { 1, d[2] ? 10. : 0. }, { 2, d[2] ? 15. : 0. } };
  e.ev_share = d[5] ? 0.5 : 1;
  e.road[1] = d[6] == 1 ? 0.5 : 1;
  if (d[6] < 2)
    e.road[2] = d[6] == 1 ? 0.5 : 1;
  // the last variant makes both stations equally attractive from node 5
  bool alike = d[8] == 2;
  e.st = { { 21, d[7] + 1, alike ? 2 : d[8] ? 3 : 1, 0.1 },
           { 22, 1, 2, alike ? 0.1 : 0.12 } };
  for (SLink l : { pq (51, 3, 21, 0.055),
                   pq (52, 21, 4, alike ? 0.055 : 0.125),
                   pq (53, 5, 21, alike ? 0.055 : 0.125),
                   pq (54, alike ? 5 : 6, 22, 0.055), pq (55, 22, 4, 0.055) })
    s.links.push_back (l);
  s.nodes.push_back (SNode{ 6, "FWJ" });
  std::string ty = s.link (31).type;
  s.links.push_back (SLink{ 34, ty, 0.25, 36, 7200, 800, 1, 5, 6 });
  s.links.push_back (SLink{ 35, ty, 0.3, 36, 7200, 800, 1, 6, 4 });
  static const double R[] = { 0.5, 1.2, 8 };
  e.start_road = R[d[10]];
  e.start_other = 9;
  std::string f = "# O D stations\n";
  for (int o : { 1, 2 })
    for (int k : { 1, 2 })
      switch (d[9])
        {
        case 0:
          e.cand[{ o, k }] = { 21, 22 };
          break;
        case 1:
          e.cand[{ o, k }] = { 22 };
          f += mc::fmt ("%d %d 22\n", o, k);
          break;
        case 2:
          if (o == 1 && k == 1)
            {
              e.cand[{ o, k }] = { 21, 22 };
              f += mc::fmt ("%d %d 22 21\n", o, k);
            }
          else if (o == 2 && k == 2)
            f += mc::fmt ("%d %d\n", o, k);
          break;
        case 3:
          e.cand[{ o, k }] = o == 1 ? std::vector<int>{ 21, 22 }
                                    : std::vector<int>{ 21 };
          f += mc::fmt (o == 1 ? "%d %d 21 21 22\n" : "%d %d 21\n", o, k);
          break;
        }
  if (d[9])
    {
      e.cand_file = true;
      s.extra["MNM_input_candidate_charging_station"] = f;
    }
  finish (e);
}

// ---------------------------------------------------------------- observation
struct Place
{
  char k = 0; // O origin queue, L link, S station, D destination queue
  int id = 0, stage = 0, pos = 0;
  bool operator== (const Place &o) const
  {
    return k == o.k && id == o.id && stage == o.stage && pos == o.pos;
  }
};
struct Seen
{
  Place p;
  bool adaptive = false;
  int dest = 0, onode = 0;
  std::vector<int> path;
};
struct EVeh
{
  bool tour = false, elec = false, road = false;
  std::vector<std::pair<int, int>> plan; // node IDs of the legs
  int label = -1, start = -1, first = -1;
};
struct EStep
{
  std::map<int, Seen> mid, end;
  // station -> queues
  std::map<int, std::vector<std::vector<int>>> q;
  std::map<int, std::vector<int>> fin; // PQ links: finished at the end, in order
  std::map<int, double> tt;            // travel times the router sees
  int num = 0, enroute = 0, finished = 0, deliv = 0, elec = 0, home = 0;
  double total = 0;
};
struct ETrace
{
  std::vector<EStep> st;
  std::map<int, EVeh> veh;
  int ret = -1;
  uint64_t hash = 0;
};

template <class Base> struct EvDta : Base
{
  const Ev *e;
  ETrace *tr;
  int cur = -1;
  EvDta (const std::string &d, const Ev *e, ETrace *t)
      : Base (d), e (e), tr (t)
  {
  }
  void see (std::map<int, Seen> &m, MNM_Veh *v, Place p)
  {
    int id = v->m_veh_ID;
    MC_CHECK (!m.count (id), "two-places",
              "vehicle %d is in two places at step %d", id, cur);
    Seen x;
    x.p = p;
    x.adaptive = v->m_type == MNM_TYPE_ADAPTIVE;
    x.dest = v->get_destination ()->m_dest_node->m_node_ID;
    x.onode = v->get_origin ()->m_origin_node->m_node_ID;
    if (v->m_path && !x.adaptive)
      x.path.assign (v->m_path->m_link_vec.begin (),
                     v->m_path->m_link_vec.end ());
    m[id] = x;
    if (!tr->veh.count (id))
      {
        EVeh &w = tr->veh[id];
        w.start = v->m_start_time;
        w.first = cur;
        w.label = v->m_label;
        if (auto *d = dynamic_cast<MNM_Veh_Delivery *> (v))
          {
            w.tour = true;
            for (auto &l : *d->m_multi_od_seq)
              w.plan.push_back ({ l.first->m_origin_node->m_node_ID,
                                  l.second->m_dest_node->m_node_ID });
          }
        else
          w.plan.push_back ({ x.onode, x.dest });
        if (auto *d = dynamic_cast<MNM_Veh_Electrified *> (v))
          {
            w.elec = true;
            w.road = d->m_using_roadside_charging;
          }
      }
  }
  void snap (std::map<int, Seen> &m, EStep &s, bool end)
  {
    std::vector<Item> it;
    for (auto &kv : this->m_link_factory->m_link_map)
      {
        it.clear ();
        link_contents (kv.second, it);
        int k = 0;
        for (auto &x : it)
          {
            see (m, x.v, Place{ 'L', kv.first, x.stage, k++ });
            if (end && x.stage == 0)
              s.fin[kv.first].push_back (x.v->m_veh_ID);
          }
      }
    for (auto &kv : this->m_node_factory->m_node_map)
      {
        int k = 0;
        if (auto *n = dynamic_cast<MNM_DMOND *> (kv.second))
          for (auto *v : n->m_in_veh_queue)
            see (m, v, Place{ 'O', kv.first, 0, k++ });
        else if (auto *n = dynamic_cast<MNM_DMDND *> (kv.second))
          for (auto *v : n->m_out_veh_queue)
            see (m, v, Place{ 'D', kv.first, 0, k++ });
        else if (auto *n = dynamic_cast<MNM_Charging_Station *> (kv.second))
          {
            int qi = 0;
            s.q[kv.first].clear ();
            for (auto &q : n->m_queue_pool)
              {
                s.q[kv.first].emplace_back ();
                k = 0;
                for (auto *v : q)
                  {
                    see (m, v, Place{ 'S', kv.first, qi, k++ });
                    s.q[kv.first].back ().push_back (v->m_veh_ID);
                  }
                ++qi;
              }
          }
      }
  }
  uint64_t hash (const std::map<int, Seen> &m)
  {
    mc::Hash h;
    for (auto &kv : m)
      {
        const EVeh &v = tr->veh[kv.first];
        h.add ((uint64_t) kv.second.p.k | (uint64_t) kv.second.p.id << 8
               | (uint64_t) kv.second.p.stage << 24
               | (uint64_t) kv.second.p.pos << 32);
        h.add ((uint64_t) (kv.second.adaptive | v.tour << 1 | v.elec << 2
                           | v.road << 3 | kv.second.dest << 8
                           | kv.second.onode << 16)
               | (uint64_t) (unsigned) v.start << 32);
      }
    return h.h;
  }
  int load_once (bool verbose, TInt t, TInt a) override
  {
    cur = t;
    tr->st.emplace_back ();
    MC_CHECK (tr->st.size () < 800, "no-termination",
              "the loading is still running after %d steps",
              (int) tr->st.size ());
    int r = Base::load_once (verbose, t, a);
    EStep &s = tr->st.back ();
    snap (s.end, s, true);
    auto *f = this->m_veh_factory;
    s.num = f->m_num_veh;
    s.enroute = f->m_enroute;
    s.finished = f->m_finished;
    s.total = f->m_total_time;
    if (auto *g = dynamic_cast<MNM_Veh_Factory_Delivery *> (f))
      s.deliv = g->m_veh_delivery;
    if (auto *g = dynamic_cast<MNM_Veh_Factory_EV *> (f))
      {
        s.elec = g->m_veh_electrified;
        s.home = g->m_veh_non_roadside_charging;
      }
    mc::g_stats.transitions++;
    uint64_t hm = hash (s.mid), he = hash (s.end);
    mc::g_stats.states.insert (mc::mix (hm ^ (e->ev ? 77 : 0)));
    mc::g_stats.states.insert (mc::mix (he ^ (e->ev ? 99 : 11)));
    tr->hash = mc::mix (tr->hash ^ hm);
    tr->hash = mc::mix (tr->hash ^ he);
    return r;
  }
  int record_queue_vehicles () override
  {
    EStep &s = tr->st.back ();
    snap (s.mid, s, false);
    for (auto &kv : this->m_statistics->m_record_interval_tt)
      s.tt[kv.first] = kv.second;
    return Base::record_queue_vehicles ();
  }
};

// -------------------------------------------------------------------- oracle
struct Costs
{
  std::map<int, double> c;                   // link -> cost
  std::map<int, std::map<int, double>> dist; // target -> node -> cost
};
static void
check_ev (const Ev &e, MNM_Dta *d, const ETrace &tr, const std::string &dir)
{
  const Scenario &s = e.s;
  int fs = s.flow_scalar, T = tr.st.size ();
  std::map<int, const SLink *> L;
  for (auto &l : s.links)
    L[l.id] = &l;
  std::map<int, const Ev::St *> S;
  for (auto &x : e.st)
    S[x.id] = &x;
  auto is_dest = [] (int n) { return n == 7 || n == 8; };
  auto is_orig = [] (int n) { return n == 1 || n == 2; };

  // 1. releases
  std::map<std::pair<int, std::vector<std::pair<int, int>>>, int> rel;
  for (auto &kv : tr.veh)
    {
      auto &v = kv.second;
      MC_CHECK (v.first == v.start && v.start % s.assign_frq == 0, "release",
                "vehicle %d appears at step %d with departure time %d",
                kv.first, v.first, v.start);
      if (e.ev)
        MC_CHECK (v.elec == (v.label == EVL), "release-kind",
                  "vehicle %d with label %d is%s electric", kv.first, v.label,
                  v.elec ? "" : " not");
      auto p = v.plan;
      if (v.tour)
        p.push_back ({ -1, -1 });
      rel[{ v.start / s.assign_frq, p }]++;
    }
  std::map<std::pair<int, std::vector<std::pair<int, int>>>, double> want;
  auto node_o = [&] (int o) { return s.origins[o - 1].second; };
  auto node_d = [&] (int o) { return s.dests[o - 1].second; };
  for (int a = 0; a < s.max_interval; ++a)
    {
      for (auto &kv : s.car)
        {
          std::vector<std::pair<int, int>> p (
            1, { node_o (kv.first.first), node_d (kv.first.second) });
          want[{ a, p }] += kv.second[a] * fs;
        }
      for (size_t i = 0; i < e.tours.size (); ++i)
        {
          std::vector<std::pair<int, int>> p;
          for (auto &x : e.tours[i])
            p.push_back ({ node_o (x.first), node_d (x.second) });
          p.push_back ({ -1, -1 });
          want[{ a, p }] += e.tdem[i][a] * fs;
        }
    }
  for (auto &kv : rel)
    MC_CHECK (want.count (kv.first), "release-plan",
              "a vehicle with a plan that is not in the input is released");
  for (auto &kv : want)
    {
      int n = rel.count (kv.first) ? rel[kv.first] : 0;
      MC_CHECK (std::fabs (n - kv.second) < 1, "release-count",
                "%d vehicles of a plan with %d legs released in interval %d, "
                "the input says %g",
                n, (int) kv.first.second.size (), kv.first.first, kv.second);
    }

  // 2. costs the router must use
  std::vector<Costs> cost;
  for (int t = 0; t < T; ++t)
    {
      if (t % s.ad_frq == 0)
        {
          Costs k;
          for (auto &l : s.links)
            {
              double c = tr.st[t].tt.at (l.id) * e.vot;
              auto it = e.toll.find (l.id);
              if (it != e.toll.end ())
                c += it->second;
              if (S.count (l.to))
                {
                  size_t m = 0;
                  if (t)
                    {
                      m = 1000000;
                      for (auto &q : tr.st[t - 1].q.at (l.to))
                        m = std::min (m, q.size ());
                    }
                  auto *x = S[l.to];
                  c += 10
                       * (e.vot * (m * x->steps + x->steps) * s.unit_time
                          + x->price);
                }
              k.c[l.id] = c;
            }
          std::vector<int> target = { 7, 8 };
          for (auto &x : e.st)
            target.push_back (x.id);
          for (int g : target)
            {
              auto &ds = k.dist[g];
              ds[g] = 0;
              for (int i = 0; i < 12; ++i)
                for (auto &l : s.links)
                  if (ds.count (l.to)
                      && (!ds.count (l.from)
                          || ds[l.from] > ds[l.to] + k.c[l.id]))
                    ds[l.from] = ds[l.to] + k.c[l.id];
            }
          cost.push_back (k);
        }
      else
        cost.push_back (cost.back ());
    }
  const double eps = 1e-7;

  // 3. stations
  std::map<int, int> front; // vehicle -> first step at the front
  std::map<int, std::map<int, int>> charged; // station -> step -> count
  std::map<int, std::vector<std::pair<int, int>>> visits; // veh -> (station, t)
  for (auto &x : e.st)
    {
      std::vector<std::vector<int>> q (x.slots * fs);
      for (int t = 0; t < T; ++t)
        {
          auto &now = tr.st[t].q.at (x.id);
          MC_CHECK (now.size () == q.size (), "station-slots",
                    "station %d has %d charging places, the input gives %d",
                    x.id, (int) now.size (), (int) q.size ());
          std::set<int> arr;
          std::vector<size_t> sz;
          for (auto &a : q)
            sz.push_back (a.size ());
          if (t)
            for (auto &l : s.links)
              if (l.to == x.id && tr.st[t - 1].fin.count (l.id))
                for (int v : tr.st[t - 1].fin.at (l.id))
                  {
                    arr.insert (v);
                    ++*std::min_element (sz.begin (), sz.end ());
                    visits[v].push_back ({ x.id, t });
                  }
          std::vector<size_t> got;
          std::map<int, int> depth;
          size_t joined = 0;
          for (size_t i = 0; i < q.size (); ++i)
            {
              std::vector<int> full = now[i];
              int out = -1;
              // who is due?
              int f = !q[i].empty () ? q[i][0] : -1;
              if (f >= 0 && !front.count (f))
                front[f] = t;
              if (f >= 0 && t == front[f] + x.steps)
                {
                  out = f;
                  full.insert (full.begin (), f);
                  charged[x.id][t]++;
                  auto m = tr.st[t].mid.find (f);
                  MC_CHECK (m != tr.st[t].mid.end () && m->second.p.k == 'L'
                              && L[m->second.p.id]->from == x.id,
                            "charging-time",
                            "vehicle %d started charging at station %d in "
                            "step %d, charges for %d steps, and has not left "
                            "in step %d",
                            f, x.id, front[f], x.steps, t);
                }
              MC_CHECK (full.size () >= q[i].size (), "station-queue",
                        "a vehicle left station %d at step %d before it was "
                        "charged",
                        x.id, t);
              for (size_t j = 0; j < full.size (); ++j)
                if (j < q[i].size ())
                  MC_CHECK (full[j] == q[i][j], "station-queue",
                            "the queue order at station %d changed at step %d",
                            x.id, t);
                else
                  {
                    MC_CHECK (arr.count (full[j]), "station-queue",
                              "vehicle %d joins station %d at step %d without "
                              "having arrived",
                              full[j], x.id, t);
                    depth[full[j]] = j;
                    ++joined;
                    // an empty place starts charging at once
                    if (j == 0 && !front.count (full[j]))
                      front[full[j]] = t;
                  }
              got.push_back (full.size ());
              q[i] = now[i];
            }
          MC_CHECK (joined == arr.size (), "station-queue",
                    "%d vehicles arrived at station %d in step %d, %d joined "
                    "its queues",
                    (int) arr.size (), x.id, t, (int) joined);
          std::sort (sz.begin (), sz.end ());
          std::sort (got.begin (), got.end ());
          MC_CHECK (sz == got, "station-shortest-queue",
                    "arrivals at station %d in step %d did not join the "
                    "shortest queue",
                    x.id, t);
          if (t)
            for (auto &l : s.links)
              if (l.to == x.id && tr.st[t - 1].fin.count (l.id))
                {
                  int last = -1;
                  for (int v : tr.st[t - 1].fin.at (l.id))
                    {
                      MC_CHECK (depth[v] >= last, "station-order",
                                "vehicle %d overtakes a vehicle that reached "
                                "station %d before it on the same road",
                                v, x.id);
                      last = depth[v];
                    }
                }
          // a vehicle leaving lets the next one start in the following step:
          // recorded when it is seen at the front
          size_t m = 1000000;
          for (auto &a : now)
            m = std::min (m, a.size ());
          auto *n = dynamic_cast<MNM_Charging_Station *> (
            d->m_node_factory->get_node (x.id));
          auto it = n->m_waiting_time_record.find (t + 1);
          MC_CHECK (it != n->m_waiting_time_record.end ()
                      && it->second == (int) m * x.steps,
                    "waiting-record",
                    "the waiting time of station %d recorded for step %d is "
                    "not that of its shortest queue (%d vehicles)",
                    x.id, t + 1, (int) m);
          double cum = 0;
          for (auto &kv : charged[x.id])
            cum += kv.second;
          MC_CHECK (std::fabs (n->m_N_out->get_result (t + 1) - cum / fs) < 1e-6,
                    "charged-curve",
                    "station %d reports %g charged vehicles at %d, there were "
                    "%g",
                    x.id, n->m_N_out->get_result (t + 1), t + 1, cum / fs);
        }
      for (auto &kv : charged[x.id])
        mc::count ("charged_vehicles", kv.second);
    }

  // 4. every vehicle
  std::map<int, std::map<int, int>> nin, nout; // link -> step -> count
  std::map<int, std::map<int, int>> begin;     // tight links: step -> count
  std::map<int, int> pick;                     // origin -> observed wait
  std::vector<int> fin_at (T, 0);
  std::vector<double> tot (T, 0);
  for (auto &kv : tr.veh)
    {
      int id = kv.first;
      const EVeh &v = kv.second;
      size_t leg = 0;
      double range = v.road ? e.start_road : e.start_other;
      bool gone = false;
      Place p{ 'O', v.plan[0].first, 0, 0 };
      std::vector<int> walk;
      std::vector<int> path;
      bool adaptive = false;
      int leave_t = -1, stops = 0, ent = -1;
      bool need = false;
      std::vector<int> want_st; // best stations at departure
      int target = -1;          // station this leg must visit
      auto want_wait = [&] (int link) {
        if (!v.tour || leg == 0 || !is_orig (L[link]->from))
          return 0.;
        auto it = e.wait.find (L[link]->from);
        return it == e.wait.end () ? 0. : it->second / s.unit_time;
      };
      auto leg_end = [&] (int t) {
        if (!adaptive)
          MC_CHECK (walk == path, "fixed-route",
                    "vehicle %d with a fixed route for leg %d did not follow "
                    "it (%d of %d links, step %d)",
                    id, (int) leg, (int) walk.size (), (int) path.size (), t);
        MC_CHECK (stops == (target >= 0 ? 1 : 0), "charging-stop",
                  "vehicle %d stopped %d times to charge on leg %d, %d "
                  "expected",
                  id, stops, (int) leg, target >= 0 ? 1 : 0);
      };
      for (int t = v.first; t < T; ++t)
        {
          auto mi = tr.st[t].mid.find (id), ei = tr.st[t].end.find (id);
          if (gone)
            {
              MC_CHECK (mi == tr.st[t].mid.end () && ei == tr.st[t].end.end (),
                        "reappears", "vehicle %d is seen after its last leg",
                        id);
              continue;
            }
          MC_CHECK (mi != tr.st[t].mid.end (), "lost",
                    "vehicle %d vanishes at step %d on leg %d of %d", id, t,
                    (int) leg + 1, (int) v.plan.size ());
          const Seen &m = mi->second;
          const Place &q = m.p;
          MC_CHECK (m.dest == v.plan[leg].second && m.onode == v.plan[leg].first,
                    "leg",
                    "vehicle %d on leg %d heads from %d to %d, the plan says "
                    "%d to %d",
                    id, (int) leg + 1, m.onode, m.dest, v.plan[leg].first,
                    v.plan[leg].second);
          int node = -1;
          bool ok = false;
          if (p.k == 'O')
            {
              node = p.id;
              ok = (q.k == 'O' && q.id == p.id && e.tight)
                   || (q.k == 'L' && L[q.id]->from == p.id && q.stage == 2);
              if (q.k == 'L')
                {
                  leave_t = t;
                  walk.clear ();
                  adaptive = m.adaptive;
                  path = m.path;
                  stops = 0;
                  target = -1;
                  if (s.ad_ratio == 1)
                    MC_CHECK (adaptive, "adaptive-share",
                              "vehicle %d has a fixed route although all "
                              "vehicles are adaptive",
                              id);
                  if (!adaptive)
                    {
                      bool f = false;
                      for (auto &sp : s.paths)
                        {
                          if (sp.nodes.front () != v.plan[leg].first
                              || sp.nodes.back () != v.plan[leg].second)
                            continue;
                          std::vector<int> l;
                          for (size_t i = 1; i < sp.nodes.size (); ++i)
                            l.push_back (s.link_between (sp.nodes[i - 1],
                                                         sp.nodes[i]));
                          f = f || l == path;
                        }
                      MC_CHECK (f, "fixed-route",
                                "the fixed route of vehicle %d is no route of "
                                "leg %d",
                                id, (int) leg + 1);
                    }
                  need = v.elec && v.road
                         && (!v.tour || range <= 0.1 * e.full + 1e-12);
                  if (s.ad_ratio == 0 && !need)
                    MC_CHECK (!adaptive, "adaptive-share",
                              "vehicle %d is adaptive although none should be",
                              id);
                  want_st.clear ();
                  int od = v.plan[leg].first, dd = v.plan[leg].second == 7 ? 1 : 2;
                  auto ci = e.cand.find ({ od, dd });
                  if (need && ci != e.cand.end ())
                    {
                      MC_CHECK (adaptive, "charging-stop",
                                "vehicle %d needs charging on leg %d but has "
                                "a fixed route",
                                id, (int) leg + 1);
                      double best = 1e30;
                      auto total = [&] (int g) {
                        return cost[t].dist.at (g).at (od)
                               + cost[t].dist.at (v.plan[leg].second).at (g);
                      };
                      for (int g : ci->second)
                        best = std::min (best, total (g));
                      for (int g : ci->second)
                        if (total (g) <= best + eps)
                          want_st.push_back (g);
                      // which one did it go to?
                      for (auto &vs : visits[id])
                        if (vs.second > t)
                          {
                            target = vs.first;
                            break;
                          }
                      bool in = false;
                      for (int g : want_st)
                        in = in || g == target;
                      if (target < 0)
                        target = want_st[0]; // not reached yet at the end
                      else
                        MC_CHECK (in, "station-choice",
                                  "vehicle %d charges at station %d on leg %d, "
                                  "which was not the cheapest (%d) when it "
                                  "departed in step %d",
                                  id, target, (int) leg + 1, want_st[0], t);
                      mc::count ("charging_legs", 1);
                    }
                }
            }
          else if (p.k == 'L')
            {
              int to = L[p.id]->to;
              if (q.k == 'L' && q.id == p.id)
                ok = q.stage == p.stage && !(p.stage == 0 && (is_dest (to) || S.count (to)));
              else if (p.stage == 0)
                {
                  ok = (q.k == 'L' && L[q.id]->from == to && q.stage == 2
                        && !S.count (to))
                       || (q.k == 'S' && q.id == to)
                       || (q.k == 'D' && q.id == to);
                  node = to;
                }
            }
          else if (p.k == 'S')
            {
              node = p.id;
              ok = (q.k == 'S' && q.id == p.id)
                   || (q.k == 'L' && L[q.id]->from == p.id && q.stage == 2);
            }
          MC_CHECK (ok, "move",
                    "vehicle %d is at %c%d (stage %d) at the end of step %d "
                    "and at %c%d (stage %d) in the middle of the next",
                    id, p.k, p.id, p.stage, t - 1, q.k, q.id, q.stage);
          bool enter = q.k == 'L' && !(p.k == 'L' && p.id == q.id);
          if (p.k == 'L' && (enter || q.k == 'D'))
            {
              nout[p.id][t]++;
              if (L[p.id]->type != "PQ")
                range -= L[p.id]->len;
            }
          if (p.k == 'S' && enter)
            {
              // the road into the station is left with the station
              nout[walk.back ()][t]++;
              range = e.full;
            }
          if (q.k == 'S' && p.k == 'L')
            {
              ++stops;
              MC_CHECK (target == q.id && v.elec && v.road, "charging-stop",
                        "vehicle %d enters station %d on leg %d, expected "
                        "station %d (-1: none)",
                        id, q.id, (int) leg + 1, target);
            }
          if (enter)
            {
              nin[q.id][t]++;
              ent = t;
              if (adaptive)
                {
                  std::vector<int> tg;
                  if (target < 0 || stops)
                    tg.push_back (v.plan[leg].second);
                  else
                    tg = visits[id].empty () ? want_st
                                             : std::vector<int>{ target };
                  bool best = false;
                  double c = cost[t].c.at (q.id);
                  for (int g : tg)
                    {
                      auto &ds = cost[t].dist.at (g);
                      auto n2 = ds.find (L[q.id]->to);
                      best = best
                             || (n2 != ds.end ()
                                 && c + n2->second <= ds.at (node) + eps);
                    }
                  MC_CHECK (best, "cheapest",
                            "vehicle %d takes link %d at node %d in step %d, "
                            "which is not on a cheapest route to %d",
                            id, q.id, node, t, tg[0]);
                  mc::g_stats.checks++;
                }
              walk.push_back (q.id);
              if (!adaptive)
                MC_CHECK (walk.size () <= path.size ()
                            && walk.back () == path[walk.size () - 1],
                          "fixed-route",
                          "vehicle %d leaves its fixed route of leg %d with "
                          "link %d in step %d",
                          id, (int) leg + 1, q.id, t);
            }
          // ---- the second half of the step
          if (q.k == 'D')
            {
              MC_CHECK (q.id == v.plan[leg].second, "destination",
                        "vehicle %d enters destination %d on leg %d", id, q.id,
                        (int) leg + 1);
              leg_end (t);
              if (leg + 1 == v.plan.size ())
                {
                  MC_CHECK (ei == tr.st[t].end.end (), "finish",
                            "vehicle %d has done its last leg in step %d and "
                            "is still there",
                            id, t);
                  gone = true;
                  fin_at[t]++;
                  tot[t] += t - v.start;
                  continue;
                }
              ++leg;
              MC_CHECK (ei != tr.st[t].end.end () && ei->second.p.k == 'O'
                          && ei->second.p.id == v.plan[leg].first,
                        "next-leg",
                        "vehicle %d ends leg %d of %d in step %d and does not "
                        "wait at the origin of the next",
                        id, (int) leg, (int) v.plan.size (), t);
              p = ei->second.p;
              mc::count ("next_legs", 1);
              continue;
            }
          MC_CHECK (ei != tr.st[t].end.end (), "lost",
                    "vehicle %d vanishes in step %d on leg %d of %d", id, t,
                    (int) leg + 1, (int) v.plan.size ());
          Place r = ei->second.p;
          MC_CHECK (r.k == q.k && r.id == q.id
                      && (r.k != 'L' || r.stage <= q.stage),
                    "move", "vehicle %d moves from %c%d to %c%d in step %d", id,
                    q.k, q.id, r.k, r.id, t);
          if (r.k == 'L' && L[r.id]->type == "PQ")
            {
              double w = want_wait (r.id);
              bool exact = !(e.tight && is_orig (L[r.id]->from));
              int on = L[r.id]->from;
              int held = t - ent; // steps since it entered
              if (q.stage == 2 && r.stage < 2)
                {
                  begin[r.id][t]++;
                  if (v.tour && leg > 0 && is_orig (on))
                    {
                      MC_CHECK (held > w - 1 && (!exact || held < w + 1),
                                "pickup-wait",
                                "vehicle %d waits %d steps to pick up at "
                                "origin %d, the input says %g",
                                id, held, on, w);
                      if (exact)
                        {
                          if (!pick.count (on))
                            pick[on] = held;
                          MC_CHECK (pick[on] == held, "pickup-wait",
                                    "the pickup wait at origin %d is %d steps "
                                    "for one vehicle and %d for another",
                                    on, pick[on], held);
                          mc::count ("pickups", 1);
                        }
                    }
                  else
                    MC_CHECK (held == 0 || !exact, "pq-delay",
                              "vehicle %d stands %d steps before link %d", id,
                              held, r.id);
                }
              if (q.stage != 0)
                {
                  int run = std::max (0, stamp (*L[r.id]) - 1);
                  double lo = w > 0 ? std::floor (w) : 0,
                         hi = w > 0 ? std::ceil (w) : 0;
                  if (r.stage == 0)
                    MC_CHECK (held >= lo + run && (!exact || held <= hi + run),
                              "pq-time",
                              "vehicle %d needs %d steps on link %d, expected "
                              "%g",
                              id, held + 1, r.id, lo + run + 1);
                  else if (exact)
                    MC_CHECK (held < hi + run, "pq-time",
                              "vehicle %d is on link %d for %d steps, expected "
                              "%g",
                              id, r.id, held + 1, hi + run + 1);
                }
            }
          p = r;
        }
      mc::g_stats.checks += 1 + leg;
    }
  if (e.tight)
    for (auto &kv : begin)
      if (is_orig (L[kv.first]->from))
        for (auto &x : kv.second)
          MC_CHECK (x.second <= fs, "entry-rate",
                    "%d vehicles enter link %d in step %d, it takes %d",
                    x.second, kv.first, x.first, fs);

  // 5. counters, curves, length of the loading
  int num = 0, fin = 0;
  double total = 0;
  for (int t = 0; t < T; ++t)
    {
      int n = 0, dl = 0, el = 0, home = 0;
      for (auto &kv : tr.veh)
        if (kv.second.first <= t)
          {
            ++n;
            dl += kv.second.tour;
            el += kv.second.elec;
            home += kv.second.elec && !kv.second.road;
          }
      num = n;
      fin += fin_at[t];
      total += tot[t];
      const EStep &x = tr.st[t];
      MC_CHECK (x.num == num && x.finished == fin && x.enroute == num - fin
                  && x.deliv == dl && x.elec == el && x.home == home,
                "counters",
                "step %d counts %d released %d underway %d finished %d "
                "delivery %d electric %d home-charging, there are %d %d %d %d "
                "%d %d",
                t, x.num, x.enroute, x.finished, x.deliv, x.elec, x.home, num,
                num - fin, fin, dl, el, home);
      MC_CHECK (std::fabs (x.total - total) < 1e-6, "total-time",
                "the total travel time after step %d is %g, expected %g", t,
                x.total, total);
      MC_CHECK ((int) d->m_enroute_veh_num.size () > t
                  && d->m_enroute_veh_num[t] == num - fin,
                "counters", "the record of vehicles underway is wrong at %d",
                t);
    }
  for (auto &l : s.links)
    {
      int a = 0, b = 0;
      auto *k = d->m_link_factory->get_link (l.id);
      for (int t = 0; t < T; ++t)
        {
          a += nin[l.id].count (t) ? nin[l.id][t] : 0;
          b += nout[l.id].count (t) ? nout[l.id][t] : 0;
          double x = k->m_N_in->get_result (t + 1),
                 y = k->m_N_out->get_result (t + 1);
          MC_CHECK (std::fabs (x - double (a) / fs) < 1e-6
                      && std::fabs (y - double (b) / fs) < 1e-6,
                    "curve",
                    "link %d counts %g in and %g out at %d, there were %g and "
                    "%g",
                    l.id, x, y, t + 1, double (a) / fs, double (b) / fs);
        }
    }
  int need = s.max_interval * s.assign_frq, n = need;
  if (s.total_interval > 0)
    n = std::max (n, s.total_interval);
  else
    while (n < T && tr.st[n - 1].enroute > 0)
      ++n;
  MC_CHECK (T == n && tr.ret == n
              && (s.total_interval > 0 || tr.st[T - 1].end.empty ()),
            "length", "the loading takes %d steps, expected %d", T, n);

  // 6. the saved records
  if (e.ev)
    {
      MNM_IO_EV::save_charging_station_record (dir + "/record",
                                               d->m_node_factory);
      for (auto &x : e.st)
        {
          auto read = [&] (const char *suffix) {
            std::ifstream f (dir + "/record/charging_station_"
                             + std::to_string (x.id) + suffix);
            std::vector<std::vector<double>> r;
            std::string line;
            std::getline (f, line);
            while (std::getline (f, line))
              {
                std::stringstream ss (line);
                std::string w;
                r.emplace_back ();
                while (std::getline (ss, w, ','))
                  r.back ().push_back (atof (w.c_str ()));
              }
            return r;
          };
          auto wt = read ("_wt.txt");
          MC_CHECK ((int) wt.size () == T + 1, "saved-waiting",
                    "the waiting times of station %d have %d rows for %d steps",
                    x.id, (int) wt.size (), T);
          for (int t = 0; t <= T; ++t)
            {
              size_t m = 0;
              if (t)
                {
                  m = 1000000;
                  for (auto &q : tr.st[t - 1].q.at (x.id))
                    m = std::min (m, q.size ());
                }
              MC_CHECK (wt[t].size () == 2 && wt[t][0] == t
                          && wt[t][1] == (double) m * x.steps * s.unit_time,
                        "saved-waiting",
                        "the saved waiting time of station %d at %d is wrong",
                        x.id, t);
            }
          auto cc = read ("_cc.txt");
          for (int t = 0; t <= T; ++t)
            {
              double cum = 0, got = 0;
              for (auto &kv : charged[x.id])
                if (kv.first + 1 <= t)
                  cum += kv.second;
              for (auto &row : cc)
                if (row.size () == 2 && row[0] <= t)
                  got = row[1];
              MC_CHECK (std::fabs (cum / fs - got) < 1e-6, "saved-charged",
                        "the saved count of charged vehicles of station %d at "
                        "%d is %g, expected %g",
                        x.id, t, got, cum / fs);
            }
        }
    }
  mc::g_stats.nontrivial += tr.veh.size () > 1;
}

template <class Base>
static void
ev_run_t (const Ev &e, ETrace &tr, bool judge)
{
  const std::string &dir = prepare_dir (e.s);
  std::unique_ptr<EvDta<Base>> d (new EvDta<Base> (dir, &e, &tr));
  d->build_from_files ();
  d->hook_up_node_and_link ();
  MC_CHECK (d->is_ok (), "is-ok", "a consistent network is reported not ok");
  for (auto &kv : d->m_link_factory->m_link_map)
    kv.second->install_cumulative_curve ();
  d->pre_loading ();
  tr.ret = d->loading (false);
  mc::g_stats.outcomes.insert (tr.hash);
  if (judge)
    check_ev (e, d.get (), tr, dir);
}
static void
ev_run (const Ev &e, ETrace &tr, bool judge = true)
{
  if (e.ev)
    ev_run_t<MNM_Dta_EV> (e, tr, judge);
  else
    ev_run_t<MNM_Dta_Delivery> (e, tr, judge);
}

// the same seed gives the same run, whatever the memory layout
static void
ev_same (const Ev &e)
{
  uint64_t pol = mc::g_rand.policy;
  std::vector<mc::Dev> devs = mc::g_rand.devs;
  struct Restore
  {
    mc::HeapCtl h = mc::g_heap;
    ~Restore () { mc::g_heap = h; }
  } keep;
  uint64_t ha = 0;
  unsigned draws = 0;
  for (int k = 0; k <= 3; ++k)
    {
      if (k)
        {
          mc::g_heap.skew = k;
          mc::g_heap.fill = k == 1 ? 0x00 : 0x7F;
        }
      mc::rand_begin (pol, devs);
      mc::g_rand.follow_srand = true;
      MNM_Ults::set_random_state (12345 + pol);
      ETrace b;
      ev_run (e, b, false);
      uint64_t h = b.hash;
      for (auto &st : b.st)
        h = mc::mix (h ^ (uint64_t) (st.num * 131 + st.finished * 17)
                     ^ (uint64_t) st.total);
      if (!k)
        {
          ha = h;
          draws = mc::g_rand.n;
          mc::g_stats.nontrivial += b.veh.size () > 1;
          continue;
        }
      MC_CHECK (h == ha && draws == mc::g_rand.n, "not-reproducible",
                "two runs of the same %s input with the same seed differ "
                "(heap setting %d)",
                e.ev ? "electric-vehicle" : "delivery", k);
    }
}

static std::string
text (const char *what, const std::vector<int> &d)
{
  std::string r = what;
  for (int x : d)
    r += mc::fmt (" %d", x);
  return r;
}

static std::vector<mc::Family>
get (const std::string &p)
{
  std::vector<mc::Family> r;
  if (p != "P29" && p != "P24" && p != "P09")
    return r;
  bool same = p == "P09";
  auto n1 = [] (uint64_t c) { return c * 5003 % prod (TA); };
  auto n2 = [] (uint64_t c) { return c * 10007 % prod (EA); };
  mc::Family f;
  f.name = same ? "same-seed-tours" : "tours";
  f.size = [same] (const mc::Tier &t) {
    return same ? (t.thorough ? prod (TA) : prod (TA) / 8) : prod (TA);
  };
  f.describe = [n1] (const mc::Tier &, uint64_t c) {
    return text ("tours, demand, wait, ratio, scalar, tight, core, toll, open:",
                 digits (TA, n1 (c)));
  };
  f.run = [n1, same] (const mc::Tier &, uint64_t c) {
    Ev e;
    tour_case (n1 (c), e);
    if (same)
      return ev_same (e);
    ETrace tr;
    ev_run (e, tr);
  };
  f.policies_quick = same ? 1 : 2;
  f.policies_thorough = same ? 2 : 6;
  f.dev_quick = 0;
  f.dev_thorough = 0;
  r.push_back (f);
  f.name = same ? "same-seed-charging" : "charging";
  f.size = [same] (const mc::Tier &t) {
    return same ? (t.thorough ? prod (EA) / 2 : prod (EA) / 32)
                : (t.thorough ? prod (EA) : prod (EA) / 4);
  };
  f.describe = [n2] (const mc::Tier &, uint64_t c) {
    return text ("tours, demand, wait, ratio, scalar, share, roadside, slots, "
                 "charging, candidates, range, tight:",
                 digits (EA, n2 (c)));
  };
  f.run = [n2, same] (const mc::Tier &, uint64_t c) {
    Ev e;
    ev_case (n2 (c), e);
    if (same)
      return ev_same (e);
    ETrace tr;
    ev_run (e, tr);
  };
  r.push_back (f);
  if (p == "P24")
    return mc::crash_only (r, 1500, 30000);
  return r;
}

int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "ev", get);
}
