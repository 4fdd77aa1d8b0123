// comp.cpp -- link models (P06) and junctions (P07) driven directly, one
// component at a time, through every bounded sequence of arrivals and
// departures, against set-valued reference models written from the traffic
// theory (a flow of x vehicles may be realised as floor(x) or ceil(x)).
#include "mc.h"

#include "dlink.h"
#include "dnode.h"
#include "multiclass.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>

using mc::Fail;
using mc::fmt;
static const double INF = std::numeric_limits<double>::infinity ();

static uint64_t
ipow (uint64_t b, int e)
{
  uint64_t r = 1;
  while (e--)
    r *= b;
  return r;
}
// is the whole number n a realisation of the real number x?
static bool
realises (double n, double x)
{
  double r = std::nearbyint (x);
  if (std::fabs (x - r) < 1e-9)
    return n == r;
  return n == std::floor (x) || n == std::ceil (x);
}
static double
cap_real (double n, double x, double avail)
{
  // n = min(avail, a realisation of x)
  double r = std::nearbyint (x);
  double lo = std::fabs (x - r) < 1e-9 ? r : std::floor (x);
  double hi = std::fabs (x - r) < 1e-9 ? r : std::ceil (x);
  lo = std::max (0., lo);
  hi = std::max (0., hi);
  return n == std::min (avail, lo) || n == std::min (avail, hi);
}

// ================================================================ P06
enum Model
{
  CTM,
  PQ,
  LQ,
  MCTM,
  MPQ,
  MLQ
};
static const char *MN[] = { "CTM", "PQ", "LQ", "CTM2", "PQ2", "LQ2" };
struct LP
{
  int lanes;
  double len, ffs, hold, cap, unit, scalar;
  double ffs_t, hold_t, cap_t, conv;
};
// hold in vehicles per metre and lane, cap in vehicles per second and lane
static const LP LPS[] = {
  // one, two and three whole cells; plenty of room
  { 1, 50, 10, 0.12, 0.5, 5, 1, 8, 0.06, 0.30, 2 },
  { 1, 100, 10, 0.12, 0.5, 5, 1, 7, 0.06, 0.25, 2 },
  { 1, 150, 10, 0.12, 0.6, 5, 2, 8, 0.06, 0.30, 2 },
  // a longer last cell
  { 1, 130, 10, 0.10, 0.4, 5, 1, 8, 0.05, 0.25, 2.5 },
  { 2, 190, 10, 0.10, 0.4, 5, 3, 6, 0.05, 0.20, 2 },
  // tight storage: few vehicles per cell
  { 1, 120, 10, 0.06, 0.25, 5, 1, 8, 0.04, 0.15, 2 },
  { 1, 160, 10, 0.07, 0.28, 5, 2, 5, 0.045, 0.12, 3 },
  // capacity below one vehicle per step: raised to one
  { 1, 120, 10, 0.10, 0.1, 5, 1, 8, 0.06, 0.08, 2 },
  { 1, 60, 10, 0.10, 0.15, 5, 1, 8, 0.05, 0.10, 2 },
  // shorter than one cell
  { 1, 60, 15, 0.11, 0.5, 5, 1, 10, 0.06, 0.30, 2 },
  { 2, 70, 12, 0.12, 0.7, 6, 1, 9, 0.06, 0.35, 2 },
  // steep congested branch (a wave as fast as free flow, or faster)
  { 1, 120, 10, 0.10, 0.5, 5, 1, 8, 0.08, 0.30, 2 },
  { 1, 120, 10, 0.09, 0.55, 5, 2, 8, 0.07, 0.32, 2 },
  // parameters above the admissible range
  { 1, 140, 10, 0.5, 1.5, 5, 1, 8, 0.4, 1.2, 2 },
  // large flow scalar, four cells
  { 1, 210, 10, 0.08, 0.35, 5, 7, 7, 0.05, 0.20, 1.5 },
  { 2, 160, 8, 0.09, 0.30, 5, 2, 6, 0.05, 0.20, 3 },
};
static const int NLP = sizeof LPS / sizeof *LPS;
// the link queue is a whole-link approximation: it needs a link at least as
// long as one step of free flow and of the backward wave
static bool
lp_ok (int m, const LP &p)
{
  if (m == CTM)
    {
      double h = std::min (p.hold, 300. / 1600), c = std::min (p.cap, 3500. / 3600);
      return h - c / p.ffs > 0;
    }
  if (m == MCTM)
    {
      double k = 1 / (p.unit * p.scalar * p.lanes);
      double h = std::min (p.hold, 0.25), ht = std::min (p.hold_t, 0.25);
      double c = std::max (std::min (p.cap, 3500. / 3600), k);
      double ct = std::max (std::min (p.cap_t, 3500. / 3600), k);
      return h > c / p.ffs && ht > ct / p.ffs_t;
    }
  if (m == LQ || m == MLQ)
    {
      double k = 1 / (p.unit * p.scalar * p.lanes);
      double c = std::max (p.cap, k), ct = std::max (p.cap_t, k);
      double w = c / (p.hold - c / p.ffs), wt = ct / (p.hold_t - ct / p.ffs_t);
      return w > 0 && wt > 0 && w * p.unit <= p.len && p.ffs * p.unit <= p.len;
    }
  return true;
}

// state of the two-class fundamental diagram for given densities
struct Perceived
{
  double fc = 1, ft = 0; // shares of the road space
  double kc = 0, kt = 0; // perceived densities
};
struct FD2
{
  double kjc, kjt, cc, ct, vc, vt; // whole link: veh/m, veh/s, m/s
  double kcc () const { return cc / vc; }
  double kct () const { return ct / vt; }
  double wc () const { return cc / (kjc - kcc ()); }
  double wt () const { return ct / (kjt - kct ()); }
  double rho1N () const { return kjc * (wc () / (vt + wc ())); }
  Perceived at (double dc, double dt) const
  {
    Perceived r;
    double ac = dc / kcc (), at = dt / kct ();
    if (ac + at <= 1)
      {
        r.kc = dc + kcc () * at;
        r.kt = dt + kct () * ac;
        if (ac + at > 0)
          {
            r.fc = ac / (ac + at);
            r.ft = at / (ac + at);
          }
      }
    else if (at < 1 && dc / (1 - at) <= rho1N ())
      {
        r.ft = at;
        r.fc = 1 - at;
        r.kc = dc / r.fc;
        r.kt = kct ();
      }
    else if (dt == 0)
      {
        r.fc = 1;
        r.ft = 0;
        r.kc = dc;
        double u = (kjc - dc) * wc () / dc;
        r.kt = kjt * wt () / (u + wt ());
      }
    else if (dc == 0)
      {
        r.fc = 0;
        r.ft = 1;
        r.kt = dt;
        double u = (kjt - dt) * wt () / dt;
        r.kc = kjc * wc () / (u + wc ());
      }
    else
      {
        double a = kjc * wc () * dt, b = kjt * wt () * dc;
        r.fc = (dc * dt * (wc () - wt ()) + b) / (a + b);
        r.ft = (dc * dt * (wt () - wc ()) + a) / (a + b);
        r.kc = dc / r.fc;
        r.kt = dt / r.ft;
      }
    return r;
  }
  // distance of the densities to a regime boundary (there, floating-point
  // noise may pick either side)
  bool near_edge (double dc, double dt) const
  {
    double ac = dc / kcc (), at = dt / kct ();
    if (std::fabs (ac + at - 1) < 1e-9 || std::fabs (at - 1) < 1e-9)
      return true;
    if (at < 1 && std::fabs (dc / (1 - at) - rho1N ()) < 1e-9 * rho1N ())
      return true;
    // more than jam density (a link that was narrowed): outside the diagram
    Perceived q = this->at (dc, dt);
    return q.fc < 0 || q.ft < 0 || q.kc < 0 || q.kt < 0;
  }
};

struct Sut
{
  int model;
  LP p;
  std::unique_ptr<MNM_Dlink> link;
  std::unique_ptr<MNM_Dlink> next;
  std::vector<std::unique_ptr<MNM_Veh>> vehs;
  std::vector<int> cls;
  std::vector<int> entered_at;
  std::deque<int> order[2]; // vehicles inside, in order of entry, per class
  int now = 0;
  int changed = -1; // step at which the attributes were changed last
  bool two () const { return model >= MCTM; }
  int id (MNM_Veh *v) const { return (int) v->m_veh_ID; }

  // reference: occupancy at the end of the previous step
  std::vector<std::pair<int, int>> vol; // CTM cells
  std::pair<int, int> lvol{ 0, 0 };     // LQ
  std::deque<std::pair<int, int>> pq;   // PQ: vehicle, steps left
  double cell_len (int i) const
  {
    double s = p.ffs * p.unit;
    int n = ncell ();
    double L = std::max (p.len, s);
    if (model == CTM)
      return s; // (the last one is only given more storage)
    return i + 1 < n ? s : L - (n - 1) * s;
  }
  int ncell () const
  {
    return std::max (1, (int) std::floor (p.len / (p.ffs * p.unit)));
  }

  Sut (int m, const LP &lp) : model (m), p (lp)
  {
    next.reset (new MNM_Dlink (2, 1, 100., 10.));
    switch (m)
      {
      case CTM:
        link.reset (new MNM_Dlink_Ctm (1, p.hold, p.cap, p.lanes, p.len, p.ffs, p.unit, p.scalar));
        break;
      case PQ:
        link.reset (new MNM_Dlink_Pq (1, p.hold, p.cap, p.lanes, p.len, p.ffs, p.unit, p.scalar));
        break;
      case LQ:
        link.reset (new MNM_Dlink_Lq (1, p.hold, p.cap, p.lanes, p.len, p.ffs, p.unit, p.scalar));
        break;
      case MCTM:
        link.reset (new MNM_Dlink_Ctm_Multiclass (1, p.lanes, p.len, p.hold, p.hold_t, p.cap, p.cap_t, p.ffs, p.ffs_t, p.unit, p.conv, p.scalar));
        break;
      case MPQ:
        link.reset (new MNM_Dlink_Pq_Multiclass (1, p.lanes, p.len, p.hold, p.hold_t, p.cap, p.cap_t, p.ffs, p.ffs_t, p.unit, p.conv, p.scalar));
        break;
      case MLQ:
        link.reset (new MNM_Dlink_Lq_Multiclass (1, p.lanes, p.len, p.hold, p.hold_t, p.cap, p.cap_t, p.ffs, p.ffs_t, p.unit, p.conv, p.scalar));
        break;
      }
    vol.assign (ncell (), { 0, 0 });
  }
  void change (const LP &q)
  {
    auto *m = (MNM_Dlink_Multiclass *) link.get ();
    auto c0 = cells ();
    auto f0 = fin ();
    m->modify_property (q.lanes, q.len, q.hold, q.hold_t, q.cap, q.cap_t, q.ffs, q.ffs_t);
    p = q;
    changed = now;
    MC_CHECK (c0 == cells () && f0 == fin (), "change", "step %d: changing the attributes moved vehicles", now);
    flow_check ();
  }
  MNM_Veh *make (int c)
  {
    int id = (int) vehs.size ();
    vehs.emplace_back (two () ? (MNM_Veh *) new MNM_Veh_Multiclass (id, c, now)
                              : new MNM_Veh (id, now));
    cls.push_back (c);
    entered_at.push_back (now);
    MNM_Veh *v = vehs.back ().get ();
    v->set_current_link (link.get ());
    v->set_next_link (next.get ());
    return v;
  }
  // ---------------------------------------------------------- observations
  std::pair<int, int> count (const std::deque<MNM_Veh *> &q) const
  {
    std::pair<int, int> r{ 0, 0 };
    for (auto *v : q)
      (cls[id (v)] ? r.second : r.first)++;
    return r;
  }
  std::vector<std::pair<int, int>> cells () const
  {
    std::vector<std::pair<int, int>> r;
    if (model == CTM)
      for (auto *c : ((MNM_Dlink_Ctm *) link.get ())->m_cell_array)
        r.push_back (count (c->m_veh_queue));
    else if (model == MCTM)
      for (auto *c : ((MNM_Dlink_Ctm_Multiclass *) link.get ())->m_cell_array)
        {
          auto a = count (c->m_veh_queue_car), b = count (c->m_veh_queue_truck);
          MC_CHECK (a.second == 0 && b.first == 0, "class", "a vehicle queues with the other class");
          r.push_back ({ a.first, b.second });
        }
    else if (model == LQ)
      r.push_back (count (((MNM_Dlink_Lq *) link.get ())->m_veh_queue));
    else if (model == MLQ)
      {
        auto *l = (MNM_Dlink_Lq_Multiclass *) link.get ();
        auto a = count (l->m_veh_queue_car), b = count (l->m_veh_queue_truck);
        MC_CHECK (a.second == 0 && b.first == 0, "class", "a vehicle queues with the other class");
        r.push_back ({ a.first, b.second });
      }
    return r;
  }
  std::pair<int, int> fin () const { return count (link->m_finished_array); }

  // ---------------------------------------------------------- reference
  double ctm_hold (int i) const
  {
    double h = std::min (p.hold, 300. / 1600), s = p.ffs * p.unit;
    int n = ncell ();
    double hl = i + 1 < n ? h : std::max ((p.len - (n - 1) * s) / s * h, h);
    return p.lanes * s * hl;
  }
  double ctm_cap () const
  {
    return std::max (p.lanes * std::min (p.cap, 3500. / 3600) * p.unit, 1 / p.scalar);
  }
  double ctm_supply (int i, double n) const
  {
    double x = n / p.scalar, H = ctm_hold (i), C = ctm_cap ();
    double c = std::min (p.cap, 3500. / 3600);
    // backward wave of this cell, in cells per step
    double hl = H / (p.lanes * p.ffs * p.unit);
    double wave = c / (hl - c / p.ffs) / p.ffs;
    if (x >= H)
      return 0;
    if (wave <= 1)
      return x < C ? C : (H - x) * wave;
    return std::min (C, H - x);
  }
  FD2 fd2 () const
  {
    FD2 f;
    double k = 1 / (p.unit * p.scalar);
    if (model == MCTM)
      {
        f.kjc = p.lanes * std::min (p.hold, 0.25);
        f.kjt = p.lanes * std::min (p.hold_t, 0.25);
        f.cc = std::max (p.lanes * std::min (p.cap, 3500. / 3600), k);
        f.ct = std::max (p.lanes * std::min (p.cap_t, 3500. / 3600), k);
      }
    else
      {
        f.kjc = p.lanes * p.hold;
        f.kjt = p.lanes * p.hold_t;
        f.cc = std::max (p.lanes * p.cap, k);
        f.ct = std::max (p.lanes * p.cap_t, k);
      }
    f.vc = p.ffs;
    f.vt = p.ffs_t;
    return f;
  }
  Perceived perceived (std::pair<int, int> n, double L, bool *edge = nullptr) const
  {
    FD2 f = fd2 ();
    double dc = n.first / p.scalar / L, dt = n.second / p.scalar / L;
    if (edge && f.near_edge (dc, dt))
      *edge = true;
    return f.at (dc, dt);
  }
  // what the link says it can take, from the occupancy after the last step
  double supply_ref () const
  {
    switch (model)
      {
      case CTM:
        return ctm_supply (0, vol[0].first);
      case PQ:
      case MPQ:
        return p.cap * p.lanes * p.unit;
      case LQ:
        {
          double C = std::max (p.cap * p.lanes, 1 / (p.unit * p.scalar));
          double kc = C / p.ffs, kj = p.hold * p.lanes;
          double k = lvol.first / p.scalar / p.len;
          double c1 = C / p.lanes;
          double w = c1 / (p.hold - c1 / p.ffs);
          return (k > kc ? (kj - k) * w : C) * p.unit;
        }
      case MCTM:
        {
          FD2 f = fd2 ();
          double k = (vol[0].second * p.conv + vol[0].first) / p.scalar / cell_len (0);
          double s = std::max (std::min (f.cc, f.wc () * (f.kjc - k)), 0.25 * f.wc () * (f.kjc - k));
          return std::max (0., s) * p.unit;
        }
      case MLQ:
        {
          FD2 f = fd2 ();
          Perceived q = perceived (lvol, p.len);
          double a = std::max (std::min (f.cc, f.wc () * (f.kjc - q.kc)), 0.30 * f.wc () * (f.kjc - f.kcc ()));
          double b = std::max (std::min (f.ct, f.wt () * (f.kjt - q.kt)), 0.30 * f.wt () * (f.kjt - f.kct ()));
          return (q.fc * std::max (0., a) + p.conv * q.ft * std::max (0., b)) * p.unit;
        }
      }
    return 0;
  }

  // ---------------------------------------------------------- one step
  void step (int arr, int drain)
  {
    mc::g_stats.transitions++;
    double S = link->get_link_supply (), R = supply_ref ();
    bool edge = false;
    if (model == MLQ)
      perceived (lvol, p.len, &edge);
    if (model == LQ)
      edge = std::fabs (lvol.first / p.scalar / p.len
                        - std::max (p.cap * p.lanes, 1 / (p.unit * p.scalar)) / p.ffs)
             < 1e-9;
    if (model == CTM)
      edge = std::fabs (vol[0].first / p.scalar - ctm_cap ()) < 1e-9
             || std::fabs (vol[0].first / p.scalar - ctm_hold (0)) < 1e-9;
    // the perceived densities of a link queue are those of the last step
    if (model == MLQ && changed == now)
      edge = true;
    if (!edge)
      MC_CHECK (std::fabs (S - R) <= 1e-9 * (1 + std::fabs (R)), "supply",
                "step %d: the link offers room for %.9g vehicles; its occupancy allows %.9g", now, S, R);
    mc::g_stats.checks++;
    // the node phase: departures from the finished vehicles, in order
    auto &F = link->m_finished_array;
    int nd = drain == 0 ? 0 : drain == 1 ? std::min<int> (1, F.size ()) : (int) F.size ();
    for (int i = 0; i < nd; ++i)
      {
        MNM_Veh *v = F.front ();
        F.pop_front ();
        int k = id (v), c = cls[k];
        MC_CHECK (!order[c].empty () && order[c].front () == k, "fifo",
                  "step %d: vehicle %d leaves before vehicle %d, which entered the link earlier", now, k,
                  order[c].empty () ? -1 : order[c].front ());
        order[c].pop_front ();
        int need = min_steps (c);
        MC_CHECK (now - entered_at[k] >= need, "too-fast",
                  "vehicle %d spent %d steps on a link of at least %d", k, now - entered_at[k], need);
      }
    // arrivals: whole vehicles while there is room
    double room = S * p.scalar;
    int na = 0, nt = 0;
    auto push = [&] (int c) {
      link->m_incoming_array.push_back (make (c));
      order[c].push_back ((int) vehs.size () - 1);
      (c ? nt : na)++;
    };
    if (!two ())
      {
        int most = (int) room;
        if (model == PQ)
          most = std::min (most, 4);
        int n = arr == 0 ? 0 : arr == 1 ? std::min (1, most) : most;
        for (int i = 0; i < n; ++i)
          push (0);
      }
    else
      {
        // a junction hands over vehicles while any of the granted flow is left
        double left = arr == 0 ? 0 : arr <= 2 ? std::min (1e-3, room) : room;
        if (model == MPQ)
          left = std::min (left, 4.);
        int alt = 0;
        while (left > 1e-9)
          {
            int c = arr == 1 || arr == 3 ? 0 : arr == 2 || arr == 4 ? 1 : (alt++ % 2);
            push (c);
            left -= model == MPQ ? 1 : c ? p.conv : 1;
          }
      }
    auto c0 = cells ();
    auto f0 = fin ();
    std::vector<int> inc;
    for (auto *v : link->m_incoming_array)
      inc.push_back (id (v));
    link->clear_incoming_array (now);
    if (model != PQ && model != MPQ)
      {
        MC_CHECK (link->m_incoming_array.empty (), "entry", "step %d: %zu vehicles were not let in", now,
                  link->m_incoming_array.size ());
        auto c1 = cells ();
        c0[0].first += na;
        c0[0].second += nt;
        MC_CHECK (c0 == c1 && f0 == fin (), "entry", "step %d: the vehicles let in are not where they belong", now);
      }
    else
      {
        int allow = model == PQ ? (int) (p.cap * p.lanes * p.unit * p.scalar)
                                : (int) std::ceil (p.cap * p.lanes * p.unit * p.scalar - 1e-9);
        allow = std::min<int> (allow, inc.size ());
        MC_CHECK ((int) link->m_incoming_array.size () == (int) inc.size () - allow, "entry",
                  "step %d: %zu of %zu vehicles wait outside a link that admits %d per step", now,
                  link->m_incoming_array.size (), inc.size (), allow);
        for (int i = 0; i < allow; ++i)
          pq.push_back ({ inc[i], std::max (1, (int) std::floor (p.len / (p.ffs * p.unit) + 1e-12)) });
      }
    link->evolve (now);
    check_evolve (c0, f0);
    flow_check ();
    hash ();
    ++now;
  }
  int min_steps (int c) const
  {
    if (model == LQ || model == MLQ)
      return 1;
    return ncell ();
  }
  void check_evolve (const std::vector<std::pair<int, int>> &c0, std::pair<int, int> f0)
  {
    auto c1 = cells ();
    auto f1 = fin ();
    mc::g_stats.checks++;
    if (model == CTM)
      {
        int n = ncell ();
        MC_CHECK ((int) c1.size () == n, "cells", "%zu cells instead of %d", c1.size (), n);
        std::vector<int> out (n);
        // outflow of the cells, front to back
        int carry = 0; // into cell i
        for (int i = 0; i < n; ++i)
          {
            out[i] = i + 1 < n ? c0[i].first + carry - c1[i].first : f1.first - f0.first;
            if (i + 1 == n)
              MC_CHECK (out[i] == c0[i].first && c1[i].first == carry, "last-cell",
                        "step %d: %d of %d vehicles reached the end of the link", now, out[i], c0[i].first);
            else
              {
                double d = std::min (c0[i].first / p.scalar, ctm_cap ());
                double s = ctm_supply (i + 1, vol[i + 1].first);
                bool edge = std::fabs (vol[i + 1].first / p.scalar - ctm_cap ()) < 1e-9
                            || std::fabs (vol[i + 1].first / p.scalar - ctm_hold (i + 1)) < 1e-9;
                if (!edge)
                  MC_CHECK (cap_real (out[i], std::min (d, s) * p.scalar, c0[i].first), "cell-flow",
                            "step %d: %d vehicles moved from cell %d to the next; demand %g, room %g, flow scalar %g",
                            now, out[i], i, d * p.scalar, s * p.scalar, p.scalar);
                carry = out[i];
              }
          }
        for (int i = 0; i < n; ++i)
          {
            vol[i] = c1[i];
            if (i + 1 == n)
              vol[i].first += f1.first;
            double most = std::ceil (ctm_hold (i) * p.scalar - 1e-9);
            MC_CHECK (vol[i].first <= most, "storage", "step %d: cell %d holds %d vehicles, room for %g", now, i,
                      vol[i].first, most);
          }
      }
    else if (model == MCTM)
      {
        int n = ncell ();
        MC_CHECK ((int) c1.size () == n, "cells", "%zu cells instead of %d", c1.size (), n);
        FD2 f = fd2 ();
        auto v = vol;
        v[0] = c0[0];
        int carry[2] = { 0, 0 };
        for (int i = 0; i < n; ++i)
          for (int k = 0; k < 2; ++k)
            {
              int q0 = k ? c0[i].second : c0[i].first, q1 = k ? c1[i].second : c1[i].first;
              int ff0 = k ? f0.second : f0.first, ff1 = k ? f1.second : f1.first;
              int out = i + 1 < n ? q0 + carry[k] - q1 : ff1 - ff0;
              if (i + 1 == n)
                {
                  MC_CHECK (out == q0 && q1 == carry[k], "last-cell",
                            "step %d: %d of %d %s reached the end of the link", now, out, q0, k ? "trucks" : "cars");
                  continue;
                }
              bool edge = changed == now;
              Perceived a = perceived (v[i], cell_len (i), &edge),
                        b = perceived (v[i + 1], cell_len (i + 1), &edge);
              double C = k ? f.ct : f.cc;
              double d = std::min (C, k ? f.vt * a.kt : f.vc * a.kc);
              double s = std::max (0., std::min (C, k ? f.wt () * (f.kjt - b.kt) : f.wc () * (f.kjc - b.kc)));
              double x = (k ? a.ft : a.fc) * std::min (d, s) * p.unit * p.scalar;
              if (!edge)
                MC_CHECK (cap_real (out, x, q0), "cell-flow",
                          "step %d: %d of %d %s moved from cell %d to the next; the flow is %.9g", now, out, q0,
                          k ? "trucks" : "cars", i, x);
              carry[k] = out;
            }
        for (int i = 0; i < n; ++i)
          {
            vol[i] = c1[i];
            if (i + 1 == n)
              {
                vol[i].first += f1.first;
                vol[i].second += f1.second;
              }
          }
      }
    else if (model == LQ)
      {
        double C = std::max (p.cap * p.lanes, 1 / (p.unit * p.scalar));
        double kc = C / p.ffs;
        lvol = { c0[0].first + f0.first, 0 };
        double k = lvol.first / p.scalar / p.len;
        double D = (k < kc ? p.ffs * k : C) * p.unit * p.scalar;
        bool near = std::fabs (D - std::nearbyint (D)) < 1e-9;
        if (near)
          D = std::nearbyint (D);
        double got = f1.first;
        if (D < f0.first || (near && D == f0.first))
          MC_CHECK (got == std::floor (D) || (near && got == D - 1), "sending", "step %d: %g vehicles may leave the link; its demand is %g (had %d)",
                    now, got, D, f0.first);
        else
          MC_CHECK (cap_real (got, D, lvol.first), "sending",
                    "step %d: %g vehicles may leave the link; its demand is %g of %d", now, got, D, lvol.first);
        MC_CHECK (c1[0].first + f1.first == lvol.first, "lost", "step %d: %d vehicles became %d", now, lvol.first,
                  c1[0].first + f1.first);
        MC_CHECK (lvol.first / p.scalar <= p.hold * p.lanes * p.len + 1e-9, "storage",
                  "step %d: %g vehicles on a link for %g", now, lvol.first / p.scalar, p.hold * p.lanes * p.len);
      }
    else if (model == MLQ)
      {
        FD2 f = fd2 ();
        lvol = { c0[0].first + f0.first, c0[0].second + f0.second };
        bool edge = false;
        Perceived q = perceived (lvol, p.len, &edge);
        double dc = q.fc * std::min (f.cc, f.vc * q.kc) * p.unit, dt = q.ft * std::min (f.ct, f.vt * q.kt) * p.unit;
        double d = dc + p.conv * dt;
        double mv = d * p.scalar - (f0.first + f0.second);
        double xc = d > 0 ? mv * dc / d : 0, xt = d > 0 ? mv * dt / d : 0;
        int oc = f1.first - f0.first, ot = f1.second - f0.second;
        if (!edge)
          {
            MC_CHECK (cap_real (oc, xc, c0[0].first), "sending", "step %d: %d of %d cars reach the end; the demand is %.9g",
                      now, oc, c0[0].first, xc);
            MC_CHECK (cap_real (ot, xt, c0[0].second), "sending",
                      "step %d: %d of %d trucks reach the end; the demand is %.9g", now, ot, c0[0].second, xt);
          }
        MC_CHECK (c1[0].first + f1.first == lvol.first && c1[0].second + f1.second == lvol.second, "lost",
                  "step %d: vehicles lost on the link", now);
      }
    else
      {
        // exactly the vehicles whose free-flow time is over, in order
        std::vector<int> due;
        std::deque<std::pair<int, int>> keep;
        for (auto &q : pq)
          {
            if (--q.second <= 0)
              due.push_back (q.first);
            else
              keep.push_back (q);
          }
        pq = keep;
        size_t had = f0.first + f0.second;
        MC_CHECK (link->m_finished_array.size () == had + due.size (), "point-queue",
                  "step %d: %zu vehicles have reached the end of the link, expected %zu", now,
                  link->m_finished_array.size () - had, due.size ());
        for (size_t i = 0; i < due.size (); ++i)
          MC_CHECK (id (link->m_finished_array[had + i]) == due[i], "point-queue",
                    "step %d: vehicle %d instead of %d reached the end of the link", now,
                    id (link->m_finished_array[had + i]), due[i]);
      }
    // finished vehicles are in entry order, class by class
    int last[2] = { -1, -1 };
    for (auto *v : link->m_finished_array)
      {
        int c = cls[id (v)];
        MC_CHECK (id (v) > last[c], "fifo", "step %d: vehicle %d queues behind %d at the end of the link", now, id (v),
                  last[c]);
        last[c] = id (v);
      }
  }
  void flow_check ()
  {
    // the number of vehicles the link reports
    int tot = (int) (order[0].size () + order[1].size () - link->m_incoming_array.size ());
    if (two ())
      {
        auto *m = (MNM_Dlink_Multiclass *) link.get ();
        auto i = count (link->m_incoming_array);
        double a = ((int) order[0].size () - i.first) / p.scalar, b = ((int) order[1].size () - i.second) / p.scalar;
        MC_CHECK (std::fabs (m->get_link_flow_car () - a) < 1e-9 && std::fabs (m->get_link_flow_truck () - b) < 1e-9,
                  "occupancy", "step %d: the link reports %g cars and %g trucks, it holds %g and %g", now,
                  (double) m->get_link_flow_car (), (double) m->get_link_flow_truck (), a, b);
      }
    else
      MC_CHECK (std::fabs (link->get_link_flow () - tot / p.scalar) < 1e-9, "occupancy",
                "step %d: the link reports %g vehicles, it holds %g", now, (double) link->get_link_flow (),
                tot / p.scalar);
  }
  void hash ()
  {
    mc::Hash h;
    h.add ((uint64_t) model);
    h.add (p.len + p.cap * 1000 + p.hold * 1e6 + p.scalar);
    for (auto &c : cells ())
      {
        h.add ((uint64_t) c.first);
        h.add ((uint64_t) c.second);
      }
    for (auto &q : pq)
      h.add ((uint64_t) q.second);
    auto f = fin ();
    h.add ((uint64_t) f.first);
    h.add ((uint64_t) f.second);
    mc::g_stats.states.insert (h.h);
  }
  size_t inside () const { return order[0].size () + order[1].size (); }
};

struct LinkCase
{
  int model, lp, pre;
  std::vector<std::pair<int, int>> ops;
};
static LinkCase
link_case (int model, int depth, uint64_t i)
{
  LinkCase c;
  c.model = model;
  int na = model >= MCTM ? 6 : 3;
  for (int k = 0; k < depth; ++k)
    {
      int o = i % (na * 3);
      i /= na * 3;
      c.ops.push_back ({ o / 3, o % 3 });
    }
  c.pre = i % 4;
  i /= 4;
  c.lp = (int) i;
  return c;
}
static std::string
link_str (const LinkCase &c)
{
  const LP &p = LPS[c.lp];
  std::string s = fmt ("%s lanes=%d length=%g ffs=%g/%g hold=%g/%g cap=%g/%g step=%g scalar=%g conv=%g preload=%d ops",
                       MN[c.model], p.lanes, p.len, p.ffs, p.ffs_t, p.hold, p.hold_t, p.cap, p.cap_t, p.unit, p.scalar,
                       p.conv, c.pre);
  for (auto &o : c.ops)
    s += fmt (" %d/%d", o.first, o.second);
  return s;
}
static void
run_link (const LinkCase &c)
{
  mc::g_rand.interior = true;
  if (!lp_ok (c.model, LPS[c.lp]))
    {
      mc::count ("parameters outside the model");
      return;
    }
  Sut s (c.model, LPS[c.lp]);
  int full = c.model >= MCTM ? 5 : 2;
  // preload: nothing, a few steps of full inflow, a jam, a jam that discharges
  static const int PRE[] = { 0, 3, 10, 10 };
  for (int i = 0; i < PRE[c.pre]; ++i)
    s.step (full, 0);
  if (c.pre == 3)
    for (int i = 0; i < 2; ++i)
      s.step (0, 2);
  for (auto &o : c.ops)
    s.step (o.first, o.second);
  size_t peak = s.inside ();
  // liveness: with the exit open the link empties
  int n = 0;
  while (s.inside () && n < 2000)
    {
      s.step (0, 2);
      ++n;
    }
  MC_CHECK (s.inside () == 0, "stuck", "%zu vehicles are still on the link after %d steps with an open exit", s.inside (),
            n);
  mc::g_stats.nontrivial += peak > 0;
  mc::Hash h;
  h.add ((uint64_t) c.model);
  h.add ((uint64_t) c.lp);
  h.add ((uint64_t) peak);
  h.add ((uint64_t) n);
  mc::g_stats.outcomes.insert (h.h);
}
// a lone vehicle crosses in exactly the free-flow time
static void
run_lone (int model, int lp)
{
  mc::g_rand.interior = true;
  const LP &p = LPS[lp];
  if (!lp_ok (model, p))
    return;
  Sut s (model, p);
  double S = s.link->get_link_supply () * p.scalar;
  if (S < 1)
    {
      mc::count ("no room for a single vehicle");
      return;
    }
  s.step (1, 0);
  int n = 1;
  while (s.inside () && n < 200)
    {
      s.step (0, 2);
      if (s.inside ())
        ++n;
    }
  if (model != LQ && model != MLQ)
    MC_CHECK (n == s.ncell (), "free-flow", "a lone vehicle took %d steps over a link of %d", n, s.ncell ());
  mc::g_stats.nontrivial++;
}
// P22: attributes change while the link is in use
static const int NCH = 8;
static LP
changed_lp (int model, const LP &p, int k)
{
  LP q = p;
  switch (k)
    {
    case 0:
      break; // the same attributes again
    case 1:
      q.cap *= 0.5;
      q.cap_t *= 0.5;
      break;
    case 2:
      q.cap *= 1.3;
      q.cap_t *= 1.2;
      q.hold *= 1.5;
      q.hold_t *= 1.5;
      break;
    case 3:
      q.lanes += 1;
      break;
    case 4:
      q.ffs_t *= 0.8;
      q.cap_t *= 0.7;
      break;
    case 5:
      q.cap *= 0.2;
      q.cap_t *= 0.2;
      break;
    case 6:
      q.lanes += 2;
      q.hold_t *= 1.25;
      break;
    case 7:
      q.hold *= 1.25;
      if (model == MLQ)
        {
          q.len *= 1.5;
          q.ffs *= 1.1;
        }
      break;
    }
  return q;
}
static void
run_change (const LinkCase &c, int k, int at)
{
  mc::g_rand.interior = true;
  const LP &p = LPS[c.lp];
  LP q = changed_lp (c.model, p, k);
  if (!lp_ok (c.model, p) || !lp_ok (c.model, q))
    {
      mc::count ("parameters outside the model");
      return;
    }
  Sut s (c.model, p);
  static const int PRE[] = { 0, 3, 10, 10 };
  for (int i = 0; i < PRE[c.pre]; ++i)
    s.step (5, 0);
  if (c.pre == 3)
    for (int i = 0; i < 2; ++i)
      s.step (0, 2);
  int n = 0;
  for (auto &o : c.ops)
    {
      if (n++ == at)
        s.change (q);
      s.step (o.first, o.second);
    }
  if (at >= n)
    s.change (q);
  size_t peak = s.inside ();
  for (n = 0; s.inside () && n < 2000; ++n)
    {
      // and back again while it empties
      if (n == 2)
        s.change (p.lanes <= q.lanes && k % 2 ? p : q);
      s.step (0, 2);
    }
  MC_CHECK (s.inside () == 0, "stuck", "%zu vehicles are still on the link after %d steps with an open exit", s.inside (),
            n);
  mc::g_stats.nontrivial += peak > 0;
  mc::Hash h;
  h.add ((uint64_t) (c.model * 100 + c.lp));
  h.add ((uint64_t) (peak * 1000 + n));
  mc::g_stats.outcomes.insert (h.h);
}
static mc::Family
mk (const std::string &name, uint64_t q, uint64_t t, std::function<std::string (const mc::Tier &, uint64_t)> d,
    std::function<void (const mc::Tier &, uint64_t)> run)
{
  mc::Family f;
  f.name = name;
  f.size = [q, t] (const mc::Tier &x) { return x.thorough ? t : q; };
  f.describe = d;
  f.run = run;
  f.policies_quick = 3;
  f.policies_thorough = 5;
  f.dev_quick = f.dev_thorough = 0;
  return f;
}
static std::vector<mc::Family>
fam_p06 ()
{
  std::vector<mc::Family> r;
  for (int m = 0; m < 6; ++m)
    {
      int na = m >= MCTM ? 18 : 9;
      int dq = m >= MCTM ? 3 : 4, dt = m >= MCTM ? 4 : 5;
      r.push_back (mk (fmt ("link-%s", MN[m]), ipow (na, dq) * 4 * NLP, ipow (na, dt) * 4 * NLP,
                       [m, dq, dt] (const mc::Tier &t, uint64_t i) { return link_str (link_case (m, t.thorough ? dt : dq, i)); },
                       [m, dq, dt] (const mc::Tier &t, uint64_t i) { run_link (link_case (m, t.thorough ? dt : dq, i)); }));
      // every rounding decision of the first draws
      auto f = mk (fmt ("rounding-%s", MN[m]), 4 * NLP * na, 4 * NLP * na,
                   [m] (const mc::Tier &, uint64_t i) { return link_str (link_case (m, 1, i)); },
                   [m] (const mc::Tier &, uint64_t i) { run_link (link_case (m, 1, i)); });
      f.policies_quick = f.policies_thorough = 1;
      f.prefix_quick = 2;
      f.prefix_thorough = 5;
      f.dev_quick = 1;
      f.dev_thorough = 1;
      f.pos_cap_quick = 30;
      f.pos_cap_thorough = 150;
      r.push_back (f);
      r.push_back (mk (fmt ("lone-%s", MN[m]), NLP, NLP,
                       [m] (const mc::Tier &, uint64_t i) { return fmt ("one vehicle, %s", link_str (link_case (m, 0, i * 4)).c_str ()); },
                       [m] (const mc::Tier &, uint64_t i) { run_lone (m, (int) i); }));
    }
  return r;
}

static std::vector<mc::Family>
fam_p22 ()
{
  std::vector<mc::Family> r;
  for (int m : { MCTM, MLQ })
    for (int at = 0; at < 3; ++at)
      {
        auto n = [] (bool t) { return ipow (18, t ? 3 : 2) * 4 * NLP * NCH; };
        r.push_back (mk (
          fmt ("change-%s-at%d", MN[m], at), n (false), n (true),
          [m] (const mc::Tier &t, uint64_t i) {
            return fmt ("change %d; ", (int) (i % NCH)) + link_str (link_case (m, t.thorough ? 3 : 2, i / NCH));
          },
          [m, at] (const mc::Tier &t, uint64_t i) {
            run_change (link_case (m, t.thorough ? 3 : 2, i / NCH), (int) (i % NCH), at);
          }));
        r.back ().policies_quick = 1;
        r.back ().policies_thorough = 3;
      }
  return r;
}

// ================================================================ P07
struct SLink : MNM_Dlink
{
  double s;
  SLink (int id, double sup) : MNM_Dlink (id, 1, 100., 10.), s (sup) {}
  TFlt get_link_supply () override { return s; }
};
struct MLink : MNM_Dlink_Pq_Multiclass
{
  double s;
  MLink (int id, double sup, double conv, double scalar)
      : MNM_Dlink_Pq_Multiclass (id, 1, 100., 1., 1., 1., 1., 10., 8., 5., conv, scalar), s (sup)
  {
  }
  TFlt get_link_supply () override { return s; }
};
enum NodeKind
{
  FWJ,
  GRJ,
  FWJ2,
  ORG,
  ORG2,
  DST,
  DST2
};
static const char *NK[] = { "FWJ", "GRJ", "FWJ2", "origin", "origin2", "destination", "destination2" };
struct QV
{
  int out, cls;
};
struct NodeCase
{
  int kind, nin, nout;
  double scalar, conv;
  std::vector<std::vector<QV>> q; // per in-link
  std::vector<double> cap;        // of the in-links
  std::vector<double> sup;        // of the out-links
};
static const double SUP[] = { 0, 0.4, 1, 1.7, 3, 0.99 };
static const double SCAL[] = { 1, 2, 3 };
static const double CONV[] = { 2, 1.5 };
// queue number k over an alphabet of `opts` turns: all words of length 0,1,2,...
static uint64_t
words (int opts, int len)
{
  uint64_t n = 0;
  for (int l = 0; l <= len; ++l)
    n += ipow (opts, l);
  return n;
}
static std::vector<QV>
word (uint64_t k, int nout, int ncls)
{
  int opts = nout * ncls, l = 0;
  while (k >= ipow (opts, l))
    k -= ipow (opts, l++);
  std::vector<QV> q;
  for (int i = 0; i < l; ++i)
    {
      int o = k % opts;
      k /= opts;
      q.push_back ({ o % nout, o / nout });
    }
  return q;
}
struct NodeSpace
{
  int kind, nin, nout, len, nsup;
  int ncls () const { return kind == FWJ2 || kind == ORG2 || kind == DST2 ? 2 : 1; }
  uint64_t size () const
  {
    return ipow (words (nout * ncls (), len), nin) * ipow (nsup, nout) * 3 * (ncls () == 2 || kind == GRJ ? 2 : 1);
  }
  NodeCase at (uint64_t i) const
  {
    NodeCase c;
    c.kind = kind;
    c.nin = nin;
    c.nout = nout;
    c.scalar = SCAL[i % 3];
    i /= 3;
    int alt = 0;
    if (ncls () == 2 || kind == GRJ)
      {
        alt = i % 2;
        i /= 2;
      }
    c.conv = CONV[alt];
    for (int j = 0; j < nout; ++j)
      {
        c.sup.push_back (SUP[i % nsup]);
        i /= nsup;
      }
    uint64_t w = words (nout * ncls (), len);
    for (int k = 0; k < nin; ++k)
      {
        c.q.push_back (word (i % w, nout, ncls ()));
        i /= w;
        c.cap.push_back (alt ? 0.5 + k : 2. - 0.7 * k);
      }
    return c;
  }
};
static std::string
node_str (const NodeCase &c)
{
  std::string s = fmt ("%s junction, flow scalar %g, truck factor %g;", NK[c.kind], c.scalar, c.conv);
  for (size_t i = 0; i < c.q.size (); ++i)
    {
      s += fmt (" in%zu(cap %g):", i, c.cap[i]);
      for (auto &v : c.q[i])
        s += fmt (" %s>%d", v.cls ? "T" : "C", v.out);
    }
  s += "; supplies";
  for (double x : c.sup)
    s += fmt (" %g", x);
  return s;
}
static void
run_node (const NodeCase &c)
{
  mc::g_rand.interior = true;
  bool two = c.kind == FWJ2 || c.kind == ORG2 || c.kind == DST2;
  std::vector<std::unique_ptr<MNM_Dlink>> in, out;
  for (int i = 0; i < c.nin; ++i)
    in.emplace_back (two ? (MNM_Dlink *) new MLink (10 + i, c.cap[i], c.conv, c.scalar) : new SLink (10 + i, c.cap[i]));
  for (int j = 0; j < c.nout; ++j)
    {
      out.emplace_back (two ? (MNM_Dlink *) new MLink (20 + j, c.sup[j], c.conv, c.scalar) : new SLink (20 + j, c.sup[j]));
    }
  std::unique_ptr<MNM_Dnode> node;
  switch (c.kind)
    {
    case FWJ:
      node.reset (new MNM_Dnode_FWJ (5, c.scalar));
      break;
    case GRJ:
      node.reset (new MNM_Dnode_GRJ (5, c.scalar));
      break;
    case FWJ2:
      node.reset (new MNM_Dnode_FWJ_Multiclass (5, c.scalar, c.conv));
      break;
    case ORG:
      node.reset (new MNM_DMOND (5, c.scalar));
      break;
    case ORG2:
      node.reset (new MNM_DMOND_Multiclass (5, c.scalar, c.conv));
      break;
    case DST:
      node.reset (new MNM_DMDND (5, c.scalar));
      break;
    case DST2:
      node.reset (new MNM_DMDND_Multiclass (5, c.scalar, c.conv));
      break;
    }
  bool org = c.kind == ORG || c.kind == ORG2, dst = c.kind == DST || c.kind == DST2;
  if (!org)
    for (auto &l : in)
      node->add_in_link (l.get ());
  if (!dst)
    for (auto &l : out)
      node->add_out_link (l.get ());
  node->prepare_loading ();
  std::vector<std::unique_ptr<MNM_Veh>> vehs;
  struct Info
  {
    int in, out, cls;
  };
  std::vector<Info> inf;
  std::vector<std::vector<int>> q (c.nin);
  auto run = [&] () {
    mc::g_stats.transitions++;
    std::vector<std::vector<int>> had (c.nin), left (c.nin), got (c.nout);
    auto ids = [] (const std::deque<MNM_Veh *> &d) {
      std::vector<int> r;
      for (auto *v : d)
        r.push_back ((int) v->m_veh_ID);
      return r;
    };
    auto &wait = org ? ((MNM_DMOND *) node.get ())->m_in_veh_queue : in[0]->m_finished_array;
    for (int i = 0; i < c.nin; ++i)
      had[i] = ids (org ? wait : in[i]->m_finished_array);
    for (int j = 0; j < c.nout; ++j)
      out[j]->m_incoming_array.clear ();
    size_t arrived0 = dst ? ((MNM_DMDND *) node.get ())->m_out_veh_queue.size () : 0;
    node->evolve (7);
    mc::g_stats.checks++;
    for (int i = 0; i < c.nin; ++i)
      left[i] = ids (org ? wait : in[i]->m_finished_array);
    if (dst)
      {
        auto a = ids (((MNM_DMDND *) node.get ())->m_out_veh_queue);
        std::vector<int> e (a.begin (), a.begin () + arrived0), n (a.begin () + arrived0, a.end ());
        std::vector<int> want;
        for (int i = 0; i < c.nin; ++i)
          {
            MC_CHECK (left[i].empty (), "destination", "%zu vehicles were not received", left[i].size ());
            want.insert (want.end (), had[i].begin (), had[i].end ());
          }
        auto x = n, y = want;
        std::sort (x.begin (), x.end ());
        std::sort (y.begin (), y.end ());
        MC_CHECK (x == y, "destination", "the destination received %zu vehicles instead of %zu", x.size (), y.size ());
        for (int i = 0; i < c.nin; ++i)
          {
            std::vector<int> m;
            for (int v : n)
              if (inf[v].in == i)
                m.push_back (v);
            MC_CHECK (m == had[i], "fifo", "vehicles of link %d were received out of order", i);
          }
        return;
      }
    for (int j = 0; j < c.nout; ++j)
      got[j] = ids (out[j]->m_incoming_array);
    // where did every vehicle go?
    std::vector<std::vector<std::vector<int>>> mv (c.nin, std::vector<std::vector<int>> (c.nout));
    for (int j = 0; j < c.nout; ++j)
      for (int v : got[j])
        {
          MC_CHECK (inf[v].out == j, "turn", "vehicle %d heading for link %d was sent into link %d", v, inf[v].out, j);
          MC_CHECK (vehs[v]->get_current_link () == out[j].get (), "current-link",
                    "vehicle %d was sent into a link but is said to be elsewhere", v);
          mv[inf[v].in][j].push_back (v);
        }
    for (int i = 0; i < c.nin; ++i)
      {
        // the vehicles for j that leave are the first ones for j; the rest
        // keeps its order
        std::vector<int> rest;
        std::vector<size_t> k (c.nout, 0);
        for (int v : had[i])
          {
            int j = inf[v].out;
            if (k[j] < mv[i][j].size ())
              {
                MC_CHECK (mv[i][j][k[j]] == v, "fifo", "vehicle %d was overtaken by vehicle %d at the junction", v,
                          mv[i][j][k[j]]);
                ++k[j];
              }
            else
              rest.push_back (v);
          }
        for (int j = 0; j < c.nout; ++j)
          MC_CHECK (k[j] == mv[i][j].size (), "created", "a vehicle passed the junction twice");
        MC_CHECK (rest == left[i], "order", "the vehicles held back on link %d are not those that should be", i);
      }
    // how many?
    std::vector<std::vector<double>> D (c.nin, std::vector<double> (c.nout, 0)), f = D;
    for (int i = 0; i < c.nin; ++i)
      for (int v : had[i])
        D[i][inf[v].out] += inf[v].cls && c.kind == FWJ2 ? c.conv : 1;
    std::vector<double> tot (c.nout, 0), room (c.nout);
    for (int j = 0; j < c.nout; ++j)
      {
        for (int i = 0; i < c.nin; ++i)
          tot[j] += D[i][j];
        room[j] = c.sup[j] * c.scalar;
      }
    if (c.kind == GRJ)
      {
        // the largest theta not above max d/C for which no out-link receives
        // more than its supply, where link i sends min(d_i, theta C_i)
        double th = 0;
        std::vector<double> d (c.nin, 0), C (c.nin);
        for (int i = 0; i < c.nin; ++i)
          {
            for (int j = 0; j < c.nout; ++j)
              d[i] += D[i][j];
            C[i] = std::max (d[i], c.cap[i] * c.scalar);
            if (C[i] > 0)
              th = std::max (th, d[i] / C[i]);
          }
        for (int j = 0; j < c.nout; ++j)
          {
            auto flow = [&] (double t) {
              double x = 0;
              for (int i = 0; i < c.nin; ++i)
                if (d[i] > 0)
                  x += std::min (d[i], t * C[i]) * D[i][j] / d[i];
              return x;
            };
            if (flow (th) <= room[j] + 1e-12)
              continue;
            double lo = 0, hi = th;
            for (int k = 0; k < 200; ++k)
              {
                double m = (lo + hi) / 2;
                (flow (m) <= room[j] ? lo : hi) = m;
              }
            th = std::min (th, lo);
          }
        for (int i = 0; i < c.nin; ++i)
          for (int j = 0; j < c.nout; ++j)
            f[i][j] = d[i] > 0 ? std::min (d[i], th * C[i]) * D[i][j] / d[i] : 0;
      }
    else
      for (int i = 0; i < c.nin; ++i)
        for (int j = 0; j < c.nout; ++j)
          f[i][j] = tot[j] > 0 ? std::min (D[i][j], D[i][j] / tot[j] * room[j]) : 0;
    for (int j = 0; j < c.nout; ++j)
      {
        double all = 0;
        for (int i = 0; i < c.nin; ++i)
          all += (double) mv[i][j].size ();
        if (c.kind == FWJ || c.kind == GRJ)
          {
            MC_CHECK (all <= room[j] + 1e-9, "capacity", "%g vehicles were sent into link %d, which takes %g", all, j,
                      room[j]);
            bool cut = all == std::floor (room[j] + 1e-9);
            for (int i = 0; i < c.nin; ++i)
              {
                double n = (double) mv[i][j].size ();
                bool ok = realises (n, f[i][j]) || (std::fabs (f[i][j] - std::nearbyint (f[i][j])) < 1e-6 && std::fabs (n - f[i][j]) < 1e-6);
                double hi = std::fabs (f[i][j] - std::nearbyint (f[i][j])) < 1e-6 ? std::nearbyint (f[i][j]) : std::ceil (f[i][j]);
                MC_CHECK (ok || (cut && n < hi), "share",
                          "%g vehicles from link %d to link %d; its share of the flow is %.9g of %g, the link takes %g", n, i,
                          j, f[i][j], D[i][j], room[j]);
              }
            if (c.kind == FWJ && tot[j] <= room[j] + 1e-12)
              MC_CHECK (all == tot[j], "held", "%g of %g vehicles moved although link %d takes %g", all, tot[j], j, room[j]);
          }
        else if (c.kind == FWJ2)
          {
            for (int i = 0; i < c.nin; ++i)
              {
                double e = 0, last = 0;
                for (int v : mv[i][j])
                  {
                    last = inf[v].cls ? c.conv : 1;
                    e += last;
                  }
                // the last vehicle may go as soon as any of the flow is left
                MC_CHECK (e >= f[i][j] - 0.0011, "share",
                          "%g car equivalents moved from link %d to link %d; the flow is %.9g", e, i, j, f[i][j]);
                MC_CHECK (e - last <= f[i][j] + 1e-9, "share",
                          "%g car equivalents moved from link %d to link %d; the flow is only %.9g", e, i, j, f[i][j]);
              }
          }
        else if (c.kind == ORG)
          {
            double most = std::min (tot[j], std::floor (room[j] + 1e-12));
            MC_CHECK (all == most, "origin", "%g of %g waiting vehicles entered link %d, which takes %g", all, tot[j], j,
                      room[j]);
          }
        else if (c.kind == ORG2)
          {
            bool ok = tot[j] <= room[j] ? all == tot[j] : realises (all, room[j]) || all == tot[j];
            MC_CHECK (ok && all <= std::ceil (room[j]), "origin", "%g of %g waiting vehicles entered link %d, which takes %g", all, tot[j], j,
                      room[j]);
          }
        if (all < tot[j])
          mc::count ("turns held back");
      }
  };
  // two steps in a row (leftovers of the first meet new arrivals)
  for (int round = 0; round < 2; ++round)
    {
      for (int i = 0; i < c.nin; ++i)
        for (auto &w : c.q[i])
          {
            int id = (int) vehs.size ();
            vehs.emplace_back (two ? (MNM_Veh *) new MNM_Veh_Multiclass (id, w.cls, 0) : new MNM_Veh (id, 0));
            inf.push_back ({ i, w.out, w.cls });
            MNM_Veh *v = vehs.back ().get ();
            v->set_next_link (dst ? nullptr : out[w.out].get ());
            if (org)
              ((MNM_DMOND *) node.get ())->m_in_veh_queue.push_back (v);
            else
              {
                v->set_current_link (in[i].get ());
                in[i]->m_finished_array.push_back (v);
              }
          }
      run ();
      mc::Hash h;
      for (int i = 0; i < c.nin; ++i)
        h.add ((uint64_t) in[i]->m_finished_array.size ());
      for (int j = 0; j < c.nout; ++j)
        {
          h.add ((uint64_t) out[j]->m_incoming_array.size ());
          h.add (c.sup[j]);
        }
      h.add ((uint64_t) c.kind);
      mc::g_stats.states.insert (h.h);
    }
  mc::g_stats.nontrivial += vehs.size () > 1;
}
static std::vector<mc::Family>
fam_p07 ()
{
  std::vector<mc::Family> r;
  auto add = [&] (const char *nm, NodeSpace q, NodeSpace t, int pq, int pt, int kq, int kt) {
    auto f = mk (fmt ("%s-%s", NK[q.kind], nm), q.size (), t.size (),
                 [q, t] (const mc::Tier &x, uint64_t i) { return node_str ((x.thorough ? t : q).at (i)); },
                 [q, t] (const mc::Tier &x, uint64_t i) { run_node ((x.thorough ? t : q).at (i)); });
    f.policies_quick = pq;
    f.policies_thorough = pt;
    f.prefix_quick = kq;
    f.prefix_thorough = kt;
    r.push_back (f);
  };
  for (int k : { FWJ, GRJ })
    {
      add ("2x2", { k, 2, 2, 2, 5 }, { k, 2, 2, 3, 5 }, 3, 5, 0, 3);
      add ("3x1", { k, 3, 1, 3, 6 }, { k, 3, 1, 4, 6 }, 3, 5, 3, 5);
      add ("1x3", { k, 1, 3, 3, 5 }, { k, 1, 3, 5, 5 }, 3, 5, 0, 3);
      add ("1x1", { k, 1, 1, 6, 6 }, { k, 1, 1, 9, 6 }, 5, 5, 3, 5);
    }
  add ("2x2", { FWJ2, 2, 2, 2, 5 }, { FWJ2, 2, 2, 3, 5 }, 2, 4, 0, 0);
  add ("2x1", { FWJ2, 2, 1, 4, 6 }, { FWJ2, 2, 1, 5, 6 }, 3, 5, 0, 3);
  add ("1x2", { FWJ2, 1, 2, 4, 5 }, { FWJ2, 1, 2, 6, 5 }, 3, 5, 0, 2);
  for (int k : { ORG, ORG2 })
    add ("1x2", { k, 1, 2, k == ORG2 ? 4 : 6, 6 }, { k, 1, 2, k == ORG2 ? 6 : 9, 6 }, 3, 5, k == ORG2 ? 1 : 0, 2);
  for (int k : { DST, DST2 })
    add ("2x1", { k, 2, 1, 3, 1 }, { k, 2, 1, 4, 1 }, 1, 1, 0, 0);
  return r;
}

static std::vector<mc::Family>
get (const std::string &p)
{
  if (p == "P06")
    return fam_p06 ();
  if (p == "P22")
    return fam_p22 ();
  if (p == "P07")
    return fam_p07 ();
  if (p == "P24")
    {
      std::vector<mc::Family> r;
      mc::append (r, mc::crash_only (fam_p06 (), 8000, 1000000));
      mc::append (r, mc::crash_only (fam_p22 (), 8000, 1000000));
      mc::append (r, mc::crash_only (fam_p07 (), 8000, 1000000));
      return r;
    }
  return {};
}
int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "comp", get);
}
