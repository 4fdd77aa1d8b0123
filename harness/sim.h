// sim.h -- run one scenario on the real simulator and record a full trace.
#pragma once
#include "mc.h"
#include "scenario.h"

#include "dlink.h"
#include "dnode.h"
#include "dta.h"
#include "emission.h"
#include "factory.h"
#include "io.h"
#include "multiclass.h"
#include "od.h"
#include "path.h"
#include "routing.h"
#include "statistics.h"
#include "vehicle.h"
#ifdef MC_MULTIMODAL
#include "multimodal.h"
#endif

// ---------------------------------------------------------------------------
// Where is everybody?  Contents of a link, front (closest to the exit) first.
struct Item
{
  MNM_Veh *v;
  int stage; // 0 waiting at the exit, 1 on the link, 2 just handed over
};
inline void
link_contents (MNM_Dlink *l, std::vector<Item> &out)
{
  for (auto *v : l->m_finished_array)
    out.push_back (Item{ v, 0 });
  auto q = [&] (std::deque<MNM_Veh *> &d) {
    for (auto *v : d)
      out.push_back (Item{ v, 1 });
  };
  if (auto *c = dynamic_cast<MNM_Dlink_Ctm *> (l))
    {
      for (size_t i = c->m_cell_array.size (); i-- > 0;)
        q (c->m_cell_array[i]->m_veh_queue);
    }
  else if (auto *c = dynamic_cast<MNM_Dlink_Pq *> (l))
    {
      for (auto &p : c->m_veh_queue)
        out.push_back (Item{ p.first, 1 });
    }
  else if (auto *c = dynamic_cast<MNM_Dlink_Lq *> (l))
    q (c->m_veh_queue);
  else if (auto *c = dynamic_cast<MNM_Dlink_Ltm *> (l))
    q (c->m_veh_queue);
  else if (auto *c = dynamic_cast<MNM_Dlink_Ctm_Multiclass *> (l))
    {
      for (size_t i = c->m_cell_array.size (); i-- > 0;)
        {
          q (c->m_cell_array[i]->m_veh_queue_car);
          q (c->m_cell_array[i]->m_veh_queue_truck);
        }
    }
  else if (auto *c = dynamic_cast<MNM_Dlink_Lq_Multiclass *> (l))
    {
      q (c->m_veh_out_buffer_car);
      q (c->m_veh_out_buffer_truck);
      q (c->m_veh_queue_car);
      q (c->m_veh_queue_truck);
    }
#ifdef MC_MULTIMODAL
  else if (auto *c = dynamic_cast<MNM_Dlink_Pq_Multimodal *> (l))
    {
      for (auto &p : c->m_veh_queue)
        out.push_back (Item{ p.first, 1 });
    }
#endif
  else if (auto *c = dynamic_cast<MNM_Dlink_Pq_Multiclass *> (l))
    {
      for (auto &p : c->m_veh_pool)
        out.push_back (Item{ p.first, 1 });
    }
  for (auto *v : l->m_incoming_array)
    out.push_back (Item{ v, 2 });
}

// ---------------------------------------------------------------------------
struct VInfo
{
  int id = 0, cls = 0, onode = 0, dnode = 0;
  int start_time = 0, assign = 0, first_seen = 0, label = -1;
  bool adaptive = false;
  MNM_Path *path = nullptr;
  std::vector<int> path_links;
  bool gone = false;
  int gone_step = -1;
};
struct Pos
{
  int id;
  int stage;
  int next; // next link id at the time of the snapshot, -1 none
};
struct Snap
{
  std::map<int, std::vector<Pos>> link;   // link id -> front first
  std::map<int, std::vector<Pos>> origin; // node id
  std::map<int, std::vector<Pos>> dest;   // node id
};
struct Step
{
  Snap mid, end;
  int num_veh, enroute, finished; // the simulator's own counters
  double total_time;
  int num_c[2], enroute_c[2], finished_c[2];
  double total_c[2];
  std::map<int, double> flow, flow_car, flow_truck; // reported volumes
  std::map<int, double> tt;                         // reported travel times
  std::map<int, double> rec_vol, rec_tt, load_vol, load_tt;
  std::map<int, double> pre_rec_tt; // record the router saw this step
};
struct Trace
{
  std::vector<Step> steps;
  std::map<int, VInfo> veh;
  uint64_t hash = 0;
  int ret = -1;
};

struct RunOpt
{
  bool curves = true, trees = false, volumes = false, router = false;
  bool through_loading = true; // use loading(); else step manually
  bool states = true;
  int max_steps = 4000;
  std::function<void (MNM_Dta *)> after_build;
  std::function<void (MNM_Dta *, int)> before_step;
  std::function<void (MNM_Dta *, Trace &)> at_end; // before teardown
  std::function<void (MNM_Dta *, Trace &, int)> at_step_end;
  std::function<void (MNM_Dta *, Trace &, int)> at_step_mid;
};

struct SimCore
{
  Trace *tr = nullptr;
  RunOpt *opt = nullptr;
  MNM_Dta *dta = nullptr;
  int cur = -1;
  Pos pos (MNM_Veh *v, int stage)
  {
    VInfo &i = tr->veh[v->m_veh_ID];
    if (i.id == 0)
      {
        i.id = v->m_veh_ID;
        i.label = v->m_label;
        i.cls = v->get_class ();
        i.onode = v->get_origin ()->m_origin_node->m_node_ID;
        i.dnode = v->get_destination ()->m_dest_node->m_node_ID;
        i.start_time = v->m_start_time;
        i.assign = v->m_assign_interval;
        i.adaptive = v->m_type == MNM_TYPE_ADAPTIVE;
        i.first_seen = cur;
        i.path = v->m_path;
        if (v->m_path)
          i.path_links.assign (v->m_path->m_link_vec.begin (),
                               v->m_path->m_link_vec.end ());
      }
    else
      MC_CHECK (!i.gone, "vehicle-reappears",
                "vehicle %d reappears at step %d after leaving the network",
                i.id, cur);
    MNM_Dlink *n = v->get_next_link ();
    return Pos{ v->m_veh_ID, stage, n ? n->m_link_ID : -1 };
  }
  void snap (Snap &s)
  {
    std::vector<Item> it;
    for (auto &kv : dta->m_link_factory->m_link_map)
      {
        it.clear ();
        link_contents (kv.second, it);
        auto &o = s.link[kv.first];
        for (auto &x : it)
          o.push_back (pos (x.v, x.stage));
      }
    for (auto &kv : dta->m_node_factory->m_node_map)
      {
        if (auto *n = dynamic_cast<MNM_DMOND *> (kv.second))
          {
            auto &o = s.origin[kv.first];
            for (auto *v : n->m_in_veh_queue)
              o.push_back (pos (v, 0));
          }
        else if (auto *n = dynamic_cast<MNM_DMDND *> (kv.second))
          {
            auto &o = s.dest[kv.first];
            for (auto *v : n->m_out_veh_queue)
              o.push_back (pos (v, 0));
          }
      }
  }
  void hash_snap (mc::Hash &h, const Snap &s)
  {
    auto part = [&] (const std::map<int, std::vector<Pos>> &m) {
      for (auto &kv : m)
        {
          h.add ((uint64_t) kv.first);
          for (auto &p : kv.second)
            {
              // canonical: a vehicle is its (class, od, release step, next)
              VInfo &i = tr->veh[p.id];
              h.add ((uint64_t) (i.cls | i.onode << 2 | i.dnode << 10
                                 | p.stage << 18));
              h.add ((uint64_t) (unsigned) i.start_time << 32
                     | (unsigned) p.next);
            }
          h.add ((uint64_t) 0xfeed);
        }
    };
    part (s.link);
    part (s.origin);
    part (s.dest);
  }
  void begin (int t)
  {
    cur = t;
    tr->steps.emplace_back ();
    if ((int) tr->steps.size () > opt->max_steps)
      throw mc::Fail ("no-termination",
                      mc::fmt ("the loading is still running after %d steps",
                               opt->max_steps));
  }
  void mid ()
  {
    snap (tr->steps.back ().mid);
    if (opt->at_step_mid)
      opt->at_step_mid (dta, *tr, cur);
  }
  void end ()
  {
    Step &s = tr->steps.back ();
    snap (s.end);
    for (auto &kv : s.mid.dest)
      for (auto &p : kv.second)
        {
          tr->veh[p.id].gone = true;
          tr->veh[p.id].gone_step = cur;
        }
    auto *f = dta->m_veh_factory;
    s.num_veh = f->m_num_veh;
    s.enroute = f->m_enroute;
    s.finished = f->m_finished;
    s.total_time = f->m_total_time;
    if (auto *g = dynamic_cast<MNM_Veh_Factory_Multiclass *> (f))
      {
        s.num_c[0] = g->m_num_car;
        s.num_c[1] = g->m_num_truck;
        s.enroute_c[0] = g->m_enroute_car;
        s.enroute_c[1] = g->m_enroute_truck;
        s.finished_c[0] = g->m_finished_car;
        s.finished_c[1] = g->m_finished_truck;
        s.total_c[0] = g->m_total_time_car;
        s.total_c[1] = g->m_total_time_truck;
      }
    if (opt->volumes)
      {
        for (auto &kv : dta->m_link_factory->m_link_map)
          {
            s.flow[kv.first] = kv.second->get_link_flow ();
            s.tt[kv.first] = kv.second->get_link_tt ();
            if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (kv.second))
              {
                s.flow_car[kv.first] = m->get_link_flow_car ();
                s.flow_truck[kv.first] = m->get_link_flow_truck ();
              }
          }
        auto cp = [] (std::unordered_map<TInt, TFlt> &a,
                      std::map<int, double> &b) {
          for (auto &kv : a)
            b[kv.first] = kv.second;
        };
        cp (dta->m_statistics->m_record_interval_volume, s.rec_vol);
        cp (dta->m_statistics->m_record_interval_tt, s.rec_tt);
        cp (dta->m_statistics->m_load_interval_volume, s.load_vol);
        cp (dta->m_statistics->m_load_interval_tt, s.load_tt);
      }
    mc::g_stats.transitions++;
    mc::Hash h;
    hash_snap (h, s.mid);
    uint64_t hm = h.h;
    hash_snap (h, s.end);
    tr->hash = mc::mix (tr->hash ^ h.h);
    if (opt->states)
      {
        mc::g_stats.states.insert (hm);
        mc::g_stats.states.insert (h.h);
      }
    if (opt->at_step_end)
      opt->at_step_end (dta, *tr, cur);
  }
};

template <class Base> struct SimDta : Base
{
  SimCore core;
  SimDta (const std::string &d, Trace *t, RunOpt *o) : Base (d)
  {
    core.tr = t;
    core.opt = o;
    core.dta = this;
  }
  int load_once (bool verbose, TInt load_int, TInt assign_int) override
  {
    core.begin (load_int);
    if (core.opt->before_step)
      core.opt->before_step (this, load_int);
    int r = Base::load_once (verbose, load_int, assign_int);
    core.end ();
    return r;
  }
  int record_queue_vehicles () override
  {
    core.mid ();
    return Base::record_queue_vehicles ();
  }
};

inline const std::string &
prepare_dir (const Scenario &s)
{
  static std::string last;
  static pid_t owner = 0;
  const std::string &d = scratch ();
  std::string sig;
  for (auto &f : scenario_files (s))
    sig += f.first + "\n" + f.second + "\n";
  if (owner != getpid () || sig != last || s.load_rec || s.record_rec)
    {
      clear_dir (d);
      write_scenario (s, d);
      last = sig;
      owner = getpid ();
    }
  return d;
}

template <class Base>
inline void
run_sim_t (const Scenario &s, RunOpt &o, Trace &tr)
{
  const std::string &dir = prepare_dir (s);
  std::unique_ptr<SimDta<Base>> d (new SimDta<Base> (dir, &tr, &o));
  d->build_from_files ();
  d->hook_up_node_and_link ();
  MC_CHECK (d->is_ok (), "is-ok", "a consistent network is reported not ok");
  for (auto &kv : d->m_link_factory->m_link_map)
    {
      if (auto *m = dynamic_cast<MNM_Dlink_Multiclass *> (kv.second))
        {
          if (o.curves)
            m->install_cumulative_curve_multiclass ();
          if (o.trees)
            m->install_cumulative_curve_tree_multiclass ();
        }
      else
        {
          if (o.curves)
            kv.second->install_cumulative_curve ();
          if (o.trees)
            kv.second->install_cumulative_curve_tree ();
        }
    }
  if (o.after_build)
    o.after_build (d.get ());
  d->pre_loading ();
  tr.ret = d->loading (false);
  mc::g_stats.outcomes.insert (tr.hash);
  if (o.at_end)
    o.at_end (d.get (), tr);
}
inline void
run_sim (const Scenario &s, RunOpt &o, Trace &tr)
{
  if (s.mc)
    run_sim_t<MNM_Dta_Multiclass> (s, o, tr);
  else
    run_sim_t<MNM_Dta> (s, o, tr);
}
