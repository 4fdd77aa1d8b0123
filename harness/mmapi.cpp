// mmapi.cpp -- the multimodal measurements of the Python interface (P28): every
// loading is run twice with the same random answers, once observed step by
// step (mm.h) and once through the interface, whose answers must be what the
// observed trips give.
#include "mm.h"
#include "pyapi.h"
#include <algorithm>

static Curve
curve_of (VI steps, double fs)
{
  Curve c;
  c.build (steps, fs);
  return c;
}
static double
last_valid (const Curve &in, const Curve &out, int T)
{
  double ti = in.total (), to = out.total ();
  if (std::fabs (ti - to) < 1e-9)
    return T;
  if (to == 0)
    return 0;
  double lv = in.time (to);
  for (int i = 1; i <= T; ++i)
    if (in.at (lv + i) > to + 1e-9)
      return lv + i - 1;
  return lv;
}
static double
travel_time (const Curve &in, const Curve &out, int T, double ff, double tau)
{
  double lv = last_valid (in, out, T);
  if (lv <= 0)
    return ff;
  tau = std::min (tau, lv);
  double m = in.at (tau);
  if (m <= 1e-12)
    return ff;
  double e = out.time (m);
  if (e < 0)
    return ff;
  return std::max (e - tau, ff);
}

struct Ask
{
  const Mm &s;
  const MmRef &r;
  py::object d;
  VI dl, wl, bl, bdl; // registered links
  int k, pnr;         // transit paths, id of the park-and-ride path
  std::map<int, int> bus_path;
  std::map<int, Curve> vin[2], vout[2]; // class -> link
  std::map<int, Curve> pin, pout, arr, dep;

  Ask (const Mm &s_, const MmRef &r_) : s (s_), r (r_) {}
  int T () const { return r.T; }
  double fs () const { return s.fs; }

  void curves ()
  {
    for (int c = 0; c < 2; ++c)
      {
        std::map<int, VI> a, b;
        for (auto &v : r.veh)
          if (v.kind != 2 && (v.kind == 1) == (c == 1))
            {
              a[v.link].push_back (v.step);
              if (v.out >= 0)
                b[v.link].push_back (v.out);
            }
        for (auto &l : s.links)
          {
            vin[c][l.id] = curve_of (a[l.id], s.fs);
            vout[c][l.id] = curve_of (b[l.id], s.fs);
          }
      }
    auto get = [] (const std::map<int, VI> &m, int k) {
      auto it = m.find (k);
      return it == m.end () ? VI () : it->second;
    };
    for (auto &w : s.walks)
      {
        pin[w.id] = curve_of (get (r.in, w.id), s.fs);
        pout[w.id] = curve_of (get (r.out, w.id), s.fs);
      }
    for (auto &w : s.buses)
      {
        pin[w.id] = curve_of (get (r.in, w.id), s.fs);
        pout[w.id] = curve_of (get (r.out, w.id), s.fs);
      }
    for (auto &v : s.vstops)
      {
        VI a, b;
        auto it = r.at.find (v[0]);
        if (it != r.at.end ())
          for (auto &x : it->second)
            {
              a.push_back (x.arrive);
              if (x.leave < r.T)
                b.push_back (x.leave);
            }
        arr[v[0]] = curve_of (a, s.fs);
        dep[v[0]] = curve_of (b, s.fs);
      }
  }
  void same_curve (const char *fn, int id, const Curve &c)
  {
    Mat m = mat (d.attr (fn) (id));
    MC_CHECK (m.shape.size () == 2 && m.shape[1] == 2 && m.shape[0] >= 1,
              "shape", "%s(%d)", fn, id);
    double last = -1;
    for (int i = 0; i < m.shape[0]; ++i)
      {
        MC_CHECK (m.at (i, 0) >= last && (i || m.at (0, 1) == 0),
                  "curve-order", "%s(%d): row %d is out of order", fn, id, i);
        last = m.at (i, 0);
      }
    for (int t = 0; t <= T (); ++t)
      {
        double v = 0;
        for (int i = 0; i < m.shape[0]; ++i)
          if (m.at (i, 0) <= t + 1e-9)
            v = m.at (i, 1);
        MC_CHECK (close (v, c.at (t)), "curve",
                  "%s(%d): %g passed by time %d, %g did", fn, id, v, t,
                  c.at (t));
      }
  }
  void number (const char *fn, int id, const Curve &c)
  {
    for (int t : { 0, 1, T () / 2, T () - 1, T () })
      {
        double v = d.attr (fn) (id, (double) t).cast<double> ();
        MC_CHECK (close (v, c.at (t)), "number",
                  "%s(%d, %d) = %g, there were %g", fn, id, t, v, c.at (t));
      }
  }
  // windows asked for
  void windows (VI &a, VI &b) const
  {
    a = { 0, 0, T () / 3, T () - 1, s.assign_frq };
    b = { T (), s.assign_frq, T () / 3 + 7, T (), T () };
    for (size_t i = 0; i < a.size (); ++i)
      b[i] = std::min (b[i], T ());
  }
  void inflow (const char *fn, const VI &ids,
               std::function<const Curve &(int)> c)
  {
    VI a, b;
    windows (a, b);
    Mat m = mat (d.attr (fn) (iarr (a), iarr (b)));
    shape_is (m, { (py::ssize_t) ids.size (), (py::ssize_t) a.size () }, fn);
    for (size_t i = 0; i < ids.size (); ++i)
      for (size_t j = 0; j < a.size (); ++j)
        {
          double want = c (ids[i]).at (b[j]) - c (ids[i]).at (a[j]);
          MC_CHECK (close (m.at (i, j), want), "inflow",
                    "%s: link %d between %d and %d: %g, there were %g", fn,
                    ids[i], a[j], b[j], m.at (i, j), want);
        }
  }
  // one row per (path, interval, link, window) with a flow
  typedef std::map<std::array<int, 4>, double> Dar;
  void dar (const char *fn, const VI &a, const VI &b, const Dar &want)
  {
    Mat m = mat (d.attr (fn) (iarr (a), iarr (b)));
    Dar got;
    if (m.v.size ())
      {
        MC_CHECK (m.shape.size () == 2 && m.shape[1] == 5, "shape", "%s", fn);
        for (int i = 0; i < m.shape[0]; ++i)
          {
            std::array<int, 4> key;
            for (int q = 0; q < 4; ++q)
              key[q] = (int) std::lround (m.at (i, q));
            MC_CHECK (!got.count (key), "dar-repeated",
                      "%s: path %d, interval %d, link %d, window %d is listed "
                      "twice",
                      fn, key[0], key[1], key[2], key[3]);
            got[key] = m.at (i, 4);
          }
      }
    for (auto &kv : want)
      {
        auto it = got.find (kv.first);
        MC_CHECK (it != got.end () && close (it->second, kv.second), "dar",
                  "%s: path %d, interval %d, link %d, window from %d: %g, there "
                  "were %g",
                  fn, kv.first[0], kv.first[1], kv.first[2], kv.first[3],
                  it == got.end () ? 0. : it->second, kv.second);
        mc::g_stats.nontrivial++;
      }
    for (auto &kv : got)
      MC_CHECK (want.count (kv.first), "dar",
                "%s: path %d, interval %d, link %d, window from %d: %g, there "
                "were none",
                fn, kv.first[0], kv.first[1], kv.first[2], kv.first[3],
                kv.second);
  }
  void dars ()
  {
    // consecutive windows
    VI a, b;
    for (int t = 0; t < T (); t += s.assign_frq)
      {
        a.push_back (t);
        b.push_back (std::min (T (), t + s.assign_frq));
      }
    auto win = [&] (int step) { return step / s.assign_frq * s.assign_frq; };
    auto has = [] (const VI &v, int x) {
      return std::find (v.begin (), v.end (), x) != v.end ();
    };
    Dar car, truck, pnrc, bus, carb, truckb, busd, pb, pp, pbb, ppb;
    for (auto &v : r.veh)
      if (v.from_node)
        {
          double f = 1. / s.fs;
          int w = win (v.step);
          if (has (dl, v.link))
            {
              if (v.kind == 0)
                car[{ 0, v.assign, v.link, w }] += f;
              if (v.kind == 1)
                truck[{ 0, v.assign, v.link, w }] += f;
              if (v.kind == 3)
                pnrc[{ pnr, v.assign, v.link, w }] += f;
              if (v.kind == 2)
                bus[{ bus_path[v.route], v.assign, v.link, w }] += f;
            }
          if (has (bdl, v.link))
            {
              if (v.kind == 0)
                carb[{ 0, v.assign, v.link, w }] += f;
              if (v.kind == 1)
                truckb[{ 0, v.assign, v.link, w }] += f;
            }
        }
    for (auto &x : s.buses)
      if (has (bl, x.id))
        {
          auto it = r.at.find (x.from);
          if (it == r.at.end ())
            continue;
          for (auto &v : it->second)
            if (v.leave < T ())
              busd[{ bus_path[x.route], r.bus_assign.at (v.bus), x.id,
                     win (v.leave) }]
                += 1. / s.fs;
        }
    for (auto &p : r.pin)
      {
        bool onbus = s.bus (p.link) != nullptr;
        if (!has (onbus ? bl : wl, p.link))
          continue;
        Dar &all = p.path < 0 ? pp : pb, &only = p.path < 0 ? ppb : pbb;
        std::array<int, 4> key{ p.path < 0 ? pnr : 1 + p.path, p.assign, p.link,
                                win (p.step) };
        all[key] += 1. / s.fs;
        if (onbus)
          only[key] += 1. / s.fs;
      }
    dar ("get_car_dar_matrix_driving", a, b, car);
    dar ("get_truck_dar_matrix_driving", a, b, truck);
    dar ("get_car_dar_matrix_pnr", a, b, pnrc);
    dar ("get_bus_dar_matrix_driving_link", a, b, bus);
    dar ("get_bus_dar_matrix_bustransit_link", a, b, busd);
    dar ("get_car_dar_matrix_bus_driving_link", a, b, carb);
    dar ("get_truck_dar_matrix_bus_driving_link", a, b, truckb);
    dar ("get_passenger_dar_matrix_bustransit", a, b, pb);
    dar ("get_passenger_dar_matrix_pnr", a, b, pp);
    dar ("get_passenger_dar_matrix_bustransit_bus_link", a, b, pbb);
    dar ("get_passenger_dar_matrix_pnr_bus_link", a, b, ppb);
  }

  // ------------------------------------------------------------ travel times
  double ff_s (int l) const // seconds at free flow
  {
    auto &x = s.link (l);
    return x.len / x.ffs * 3600;
  }
  double tt (int c, int l, double tau) const
  {
    double steps = ff_s (l) / s.unit;
    return travel_time (vin[c].at (l), vout[c].at (l), T (),
                        std::max (1, (int) (steps + 1e-6)), tau);
  }
  double capped (int l, double steps, bool inf) const
  {
    double lim = 20 * ff_s (l);
    if (steps * s.unit > lim)
      return inf ? INFINITY : lim;
    return steps * s.unit;
  }
  void tts (const char *fn, const char *fr, int c, const VI &ids)
  {
    VD at{ 0, 2, 9, T () / 3. - 0.5, (double) T () - 1 };
    for (bool inf : { false, true })
      {
        Mat m = mat (d.attr (fn) (darr (at), inf));
        shape_is (m, { (py::ssize_t) ids.size (), (py::ssize_t) at.size () },
                  fn);
        for (size_t i = 0; i < ids.size (); ++i)
          for (size_t j = 0; j < at.size (); ++j)
            {
              double want = capped (ids[i], tt (c, ids[i], at[j] + 1), inf);
              MC_CHECK (close (m.at (i, j), want), "travel-time",
                        "%s: link %d at %g: %g s, the trips give %g", fn,
                        ids[i], at[j], m.at (i, j), want);
            }
        VD a{ 0, 4 }, b{ 6, (double) T () - 1 };
        for (int n : { 3, 10 })
          {
            Mat q = mat (d.attr (fr) (darr (a), darr (b), n, inf));
            shape_is (q, { (py::ssize_t) ids.size (), 2 }, fr);
            for (size_t i = 0; i < ids.size (); ++i)
              for (int j = 0; j < 2; ++j)
                {
                  int k = std::min (n, (int) (b[j] - a[j]));
                  double sum = 0, step = (b[j] - a[j]) / k;
                  for (int x = 0; x < k; ++x)
                    sum += tt (c, ids[i], a[j] + 1 + x * step);
                  double want = capped (ids[i], sum / k, inf);
                  MC_CHECK (close (q.at (i, j), want), "travel-time",
                            "%s: link %d from %g to %g, %d trials: %g s, the "
                            "trips give %g",
                            fr, ids[i], a[j], b[j], n, q.at (i, j), want);
                }
          }
      }
  }
  void walking_tt ()
  {
    VD at{ 0, 2, 9, T () / 3. - 0.5, (double) T () - 1 };
    auto one = [&] (int id, double tau) {
      return travel_time (pin.at (id), pout.at (id), T (),
                          s.walk (id)->time / s.unit, tau);
    };
    Mat m = mat (d.attr ("get_passenger_walking_link_tt") (darr (at)));
    shape_is (m, { (py::ssize_t) wl.size (), (py::ssize_t) at.size () },
              "walking times");
    for (size_t i = 0; i < wl.size (); ++i)
      for (size_t j = 0; j < at.size (); ++j)
        {
          double want = one (wl[i], at[j] + 1) * s.unit;
          MC_CHECK (close (m.at (i, j), want), "walking-time",
                    "walking link %d at %g: %g s, the trips give %g", wl[i],
                    at[j], m.at (i, j), want);
        }
    VD a{ 0, 4 }, b{ 6, (double) T () - 1 };
    Mat q = mat (d.attr ("get_passenger_walking_link_tt_robust") (darr (a),
                                                                  darr (b), 5));
    for (size_t i = 0; i < wl.size (); ++i)
      for (int j = 0; j < 2; ++j)
        {
          double sum = 0, step = (b[j] - a[j]) / 5;
          for (int x = 0; x < 5; ++x)
            sum += one (wl[i], a[j] + 1 + x * step);
          double want = sum / 5 * s.unit;
          MC_CHECK (close (q.at (i, j), want), "walking-time",
                    "walking link %d from %g to %g: %g s, the trips give %g",
                    wl[i], a[j], b[j], q.at (i, j), want);
        }
  }
  // waiting for the next bus and riding it to the next stop
  void bus_tt ()
  {
    if (s.fs != 1)
      return; // only some of the buses are examined then
    VD at;
    for (int t = 0; t < T (); ++t)
      at.push_back (t);
    Mat m[2][2];
    for (int inf = 0; inf < 2; ++inf)
      for (int ride = 0; ride < 2; ++ride)
        {
          m[inf][ride] = mat (
            d.attr ("get_bus_link_tt") (darr (at), inf == 1, ride == 1));
          shape_is (m[inf][ride],
                    { (py::ssize_t) bl.size (), (py::ssize_t) at.size () },
                    "bus link times");
        }
    for (size_t i = 0; i < bl.size (); ++i)
      {
        const MBus &b = *s.bus (bl[i]);
        // buses in the order in which they reach the first stop
        VI in, out, nxt;
        auto fill = [&] (int stop, VI &x, bool leave) {
          auto it = r.at.find (stop);
          if (it == r.at.end ())
            return;
          for (auto &v : it->second)
            if (!leave)
              x.push_back (v.arrive + 1);
            else if (v.leave < T ())
              x.push_back (v.leave + 1);
          std::sort (x.begin (), x.end ());
        };
        fill (b.from, in, false);
        fill (b.from, out, true);
        fill (b.to, nxt, false);
        for (int t = 0; t < T (); ++t)
          {
            int tau = t + 1;
            auto by = [&] (const VI &v, int x) {
              return (int) (std::upper_bound (v.begin (), v.end (), x)
                            - v.begin ());
            };
            // the last bus that leaves the stop, or reaches the next one (those
            // that come together count only together)
            auto last = [&] (const VI &done) {
              int n = done.size (), x = 0;
              for (size_t q = 0; q < in.size (); ++q)
                if (by (in, in[q]) <= n)
                  x = in[q];
              return x;
            };
            int last_out = last (out), last_nxt = last (nxt);
            double want_wait = -1;
            if (tau + 1 <= last_out)
              {
                if (by (in, tau) > by (out, tau))
                  want_wait = 0;
                else
                  for (int q : in)
                    if (q > tau && want_wait < 0)
                      want_wait = q - tau;
              }
            bool none = want_wait < 0 || tau + want_wait > last_nxt;
            if (want_wait < 0 && tau <= (out.empty () ? 0 : in[out.size () - 1]) + 1)
              continue; // the last bus is just there
            double got[2][2];
            for (int inf = 0; inf < 2; ++inf)
              for (int ride = 0; ride < 2; ++ride)
                got[inf][ride] = m[inf][ride].at (i, t);
            if (none)
              {
                MC_CHECK (std::isinf (got[1][0]) && std::isinf (got[1][1])
                            && close (got[0][0], 2. * T () * s.unit),
                          "bus-time",
                          "bus link %d at %d: %g s (%g without infinity), but "
                          "no bus comes",
                          bl[i], t, got[1][0], got[0][0]);
                continue;
              }
            int n = by (in, tau + want_wait); // the n-th bus
            double ride = nxt[n - 1] - (tau + want_wait);
            MC_CHECK (close (got[0][0], (want_wait + ride) * s.unit)
                        && close (got[1][0], got[0][0]),
                      "bus-time",
                      "bus link %d at %d: %g s (%g), the buses give a wait of %g "
                      "and a ride of %g steps",
                      bl[i], t, got[0][0], got[1][0], want_wait, ride);
            MC_CHECK (close (got[0][1],
                             want_wait > 0 ? -s.unit : ride * s.unit),
                      "bus-time", "bus link %d at %d: ride of %g s, not %g steps",
                      bl[i], t, got[0][1], ride);
            mc::g_stats.nontrivial++;
            mc::count ("bus_times");
          }
      }
    // averages over every step of a window
    int w = std::min (T (), 20);
    VD a{ 0 }, e{ (double) w - 1 };
    Mat q = mat (
      d.attr ("get_bus_link_tt_robust") (darr (a), darr (e), 1000, false, false));
    for (size_t i = 0; i < bl.size (); ++i)
      {
        double sum = 0;
        for (int t = 0; t < w - 1; ++t)
          sum += m[0][0].at (i, t);
        MC_CHECK (close (q.at (i, 0), sum / (w - 1)), "bus-time",
                  "bus link %d: average %g s, the values average to %g", bl[i],
                  q.at (i, 0), sum / (w - 1));
      }
  }
  void stats ()
  {
    Mat m = mat (d.attr ("get_travel_stats") ());
    shape_is (m, { 9 }, "get_travel_stats");
    static const char *N[9]
      = { "cars",      "park-and-ride cars", "trucks",     "buses",   "passengers",
          "car hours", "truck hours",        "bus hours", "passenger hours" };
    for (int i = 0; i < 9; ++i)
      {
        double want = i < 5 ? r.count[i] : r.time[i - 5];
        MC_CHECK (close (m.v[i], want), "travel-stats",
                  "%g %s reported, the trips give %g", m.v[i], N[i], want);
      }
    Mat v = mat (d.attr ("get_enroute_and_queue_veh_stats_agg") ());
    Mat p = mat (d.attr ("get_enroute_and_queue_passenger_stats_agg") ());
    shape_is (v, { T (), 3 }, "vehicles under way");
    shape_is (p, { T (), 3 }, "passengers under way");
    for (int t = 0; t < T (); ++t)
      {
        double q = 0, qp = 0;
        for (auto &l : s.links)
          {
            q += r.queued.at (l.id)[t];
            if (l.type == "PQ")
              qp += r.queued.at (l.id)[t];
          }
        double e = r.enroute[t];
        MC_CHECK (close (v.at (t, 0), e / fs ())
                    && (close (v.at (t, 1), q / fs ())
                        || close (v.at (t, 1), (q - qp) / fs ()))
                    && close (v.at (t, 2), v.at (t, 0) - v.at (t, 1)),
                  "under-way",
                  "step %d: %g under way, %g queued, %g running reported; %g and "
                  "%g there",
                  t, v.at (t, 0), v.at (t, 1), v.at (t, 2), e / fs (),
                  q / fs ());
        double w = 0;
        for (auto &x : s.walks)
          w += r.waiting.at (x.id).at (t);
        MC_CHECK (close (p.at (t, 0), r.penroute[t] / fs ())
                    && close (p.at (t, 1), w / fs ())
                    && close (p.at (t, 2), p.at (t, 0) - p.at (t, 1)),
                  "under-way",
                  "step %d: %g passengers under way, %g waiting, %g moving "
                  "reported; %g and %g there",
                  t, p.at (t, 0), p.at (t, 1), p.at (t, 2),
                  r.penroute[t] / fs (), w / fs ());
      }
    VI when, links, walks;
    for (int t = 0; t < T (); ++t)
      when.push_back (t);
    for (auto &l : s.links)
      links.push_back (l.id);
    for (auto &w : s.walks)
      walks.push_back (w.id);
    Mat a = mat (d.attr ("get_queue_veh_each_link") (iarr (links), iarr (when)));
    Mat b = mat (
      d.attr ("get_queue_passenger_each_link") (iarr (walks), iarr (when)));
    shape_is (a, { (py::ssize_t) links.size (), T () }, "queues of vehicles");
    shape_is (b, { (py::ssize_t) walks.size (), T () }, "queues of passengers");
    for (int t = 0; t < T (); ++t)
      {
        for (size_t i = 0; i < links.size (); ++i)
          MC_CHECK (close (a.at (i, t), r.queued.at (links[i])[t] / fs ()),
                    "queue", "step %d: %g vehicles queue on link %d, not %g", t,
                    a.at (i, t), links[i], r.queued.at (links[i])[t] / fs ());
        for (size_t i = 0; i < walks.size (); ++i)
          MC_CHECK (
            close (b.at (i, t), r.waiting.at (walks[i]).at (t) / fs ()), "queue",
            "step %d: %g passengers wait on link %d, not %g", t, b.at (i, t),
            walks[i], r.waiting.at (walks[i]).at (t) / fs ());
      }
  }
  void static_facts ()
  {
    VI all;
    for (auto &l : s.links)
      all.push_back (l.id);
    Mat c = mat (d.attr ("get_car_link_fftt") (iarr (all)));
    Mat t = mat (d.attr ("get_truck_link_fftt") (iarr (all)));
    for (size_t i = 0; i < all.size (); ++i)
      {
        double want = std::max (1, (int) (ff_s (all[i]) / s.unit + 1e-6)) * s.unit;
        MC_CHECK (close (c.v[i], want) && close (t.v[i], want), "free-flow",
                  "link %d: %g s and %g s at free flow, not %g", all[i], c.v[i],
                  t.v[i], want);
      }
    VI w;
    for (auto &x : s.walks)
      w.push_back (x.id);
    Mat m = mat (d.attr ("get_walking_link_fftt") (iarr (w)));
    for (size_t i = 0; i < w.size (); ++i)
      MC_CHECK (close (m.v[i], s.walks[i].time), "free-flow",
                "walking link %d takes %g s, not %g", w[i], m.v[i],
                s.walks[i].time);
    // links that buses use
    py::object o = d.attr ("get_links_overlapped_bus_driving") ();
    Mat ov = mat (o);
    std::map<std::pair<int, int>, double> got, want;
    MC_CHECK (ov.shape.size () == 2 && ov.shape[1] == 3, "shape",
              "links under bus links");
    for (int q = 0; q < ov.shape[0]; ++q)
      got[{ (int) ov.at (q, 0), (int) ov.at (q, 1) }] = ov.at (q, 2);
    for (auto &b : s.buses)
      {
        const MStop *p[2] = { nullptr, nullptr };
        for (int q = 0; q < 2; ++q)
          for (auto &v : s.vstops)
            if (v[0] == (q ? b.to : b.from))
              for (auto &x : s.stops)
                if (x.id == v[1])
                  p[q] = &x;
        double a = p[0]->loc / s.link (p[0]->link).len,
               e = p[1]->loc / s.link (p[1]->link).len;
        if (p[0]->link == p[1]->link)
          want[{ b.id, p[0]->link }] = e - a;
        else
          {
            want[{ b.id, p[0]->link }] = 1 - a;
            want[{ b.id, p[1]->link }] = e;
          }
      }
    MC_CHECK (got.size () == want.size (), "overlap",
              "%d parts of driving links under the bus links, not %d",
              (int) got.size (), (int) want.size ());
    for (auto &kv : want)
      MC_CHECK (got.count (kv.first) && close (got[kv.first], kv.second),
                "overlap", "bus link %d runs over %g of driving link %d, not %g",
                kv.first.first, got.count (kv.first) ? got[kv.first] : 0.,
                kv.first.second, kv.second);
    // distances
    auto len = [&] (const VI &l) {
      double x = 0;
      for (int i : l)
        x += s.link (i).len;
      return x;
    };
    Mat dd = mat (d.attr ("get_registered_path_distance_driving") ());
    MC_CHECK (dd.v.size () == 1
                && close (dd.v[0], len (s.path_links (s.driving_paths[0]))),
              "distance", "the driving path is %g miles long", dd.v[0]);
  }
  void path_tts ()
  {
    VI links = s.path_links (s.driving_paths[0]);
    VD at{ 0, 3, 11 };
    for (int c = 0; c < 2; ++c)
      {
        const char *fn = c ? "get_path_tt_truck" : "get_path_tt_car";
        Mat m = mat (d.attr (fn) (iarr (links), darr (at)));
        shape_is (m, { (py::ssize_t) links.size () }, fn);
        for (size_t i = 0; i < links.size (); ++i)
          {
            double sum = 0;
            for (double t : at)
              sum += capped (links[i], tt (c, links[i], t + 1), false);
            MC_CHECK (close (m.v[i], sum / at.size ()), "travel-time",
                      "%s: link %d takes %g s on average, the trips give %g", fn,
                      links[i], m.v[i], sum / at.size ());
          }
      }
  }
  void more ()
  {
    // speeds
    VD at{ 0, 2, 9, T () / 3. - 0.5, (double) T () - 1 };
    py::ssize_t n = at.size ();
    for (int c = 0; c < 2; ++c)
      {
        const char *fn = c ? "get_truck_link_speed" : "get_car_link_speed";
        Mat m = mat (d.attr (fn) (darr (at)));
        shape_is (m, { (py::ssize_t) dl.size (), n }, fn);
        for (size_t i = 0; i < dl.size (); ++i)
          for (int j = 0; j < n; ++j)
            {
              double v = s.link (dl[i]).len
                         / (tt (c, dl[i], at[j] + 1) * s.unit / 3600);
              MC_CHECK (close (m.at (i, j), v), "speed",
                        "%s: link %d at %g: %g mph, the trips give %g", fn,
                        dl[i], at[j], m.at (i, j), v);
            }
      }
    VD whole;
    for (double x : at)
      whole.push_back (std::round (x));
    for (bool inf : { false, true })
      for (bool ride : { false, true })
        {
          Mat m = mat (d.attr ("get_bus_link_speed") (darr (at), inf, ride)),
              t = mat (d.attr ("get_bus_link_tt") (darr (at), inf, ride)),
              t2 = mat (d.attr ("get_bus_link_tt") (darr (whole), inf, ride));
          for (size_t i = 0; i < t.v.size (); ++i)
            MC_CHECK (t.v[i] == t2.v[i], "bus-time",
                      "value %zu: %g s, %g at the whole interval", i, t.v[i],
                      t2.v[i]);
          shape_is (m, { (py::ssize_t) bl.size (), n }, "bus speeds");
          for (size_t i = 0; i < bl.size (); ++i)
            for (int j = 0; j < n; ++j)
              {
                double v = std::isinf (t.at (i, j))
                             ? 0
                             : s.bus_length (*s.bus (bl[i])) * 3600
                                 / t.at (i, j);
                MC_CHECK (std::fabs (m.at (i, j) - v)
                            < 1e-5 * (1 + std::fabs (v)),
                          "speed", "bus link %d at %g: %g mph, not %g", bl[i],
                          at[j], m.at (i, j), v);
              }
        }
    Mat f = mat (d.attr ("get_bus_link_fftt") (iarr (bl)));
    for (size_t i = 0; i < bl.size (); ++i)
      MC_CHECK (std::fabs (f.v[i] - s.bus_length (*s.bus (bl[i])) / 30 * 3600)
                  < 1e-3,
                "free-flow", "bus link %d takes %g s at free flow", bl[i],
                f.v[i]);
    // waiting at the end of each link
    Mat w[3] = { mat (d.attr ("get_waiting_time_at_intersections_car") ()),
                 mat (d.attr ("get_waiting_time_at_intersections_truck") ()),
                 mat (d.attr ("get_waiting_time_at_intersections") ()) };
    Mat sp = mat (py::array_t<double> (d.attr ("get_link_spillback") ()));
    for (int c = 0; c < 3; ++c)
      shape_is (w[c], { (py::ssize_t) dl.size () }, "waiting times");
    shape_is (sp, { (py::ssize_t) dl.size () }, "spill-back");
    for (size_t i = 0; i < dl.size (); ++i)
      {
        double h[3] = { 0, 0, 0 }, in[3] = { 0, 0, 0 };
        for (int c = 0; c < 2; ++c)
          {
            auto it = r.held[c].find (dl[i]);
            if (it != r.held[c].end ())
              h[c] = it->second / fs () * s.unit;
            in[c] = vin[c].at (dl[i]).total ();
            h[2] += h[c];
            in[2] += in[c];
          }
        for (int c = 0; c < 3; ++c)
          MC_CHECK (close (w[c].v[i], h[c] / (in[c] + 1e-6)), "waiting",
                    "link %d, class %d: %g s of waiting, not %g", dl[i], c,
                    w[c].v[i], h[c] / (in[c] + 1e-6));
        const SLink &l = s.link (dl[i]);
        auto it = r.most.find (dl[i]);
        double x = (it == r.most.end () ? 0 : it->second) / fs () / l.len,
               jam = l.rhoj * l.lanes;
        if (std::fabs (x - jam) > 1e-6 * jam)
          MC_CHECK (sp.v[i] == (l.type == "CTM" && x > jam), "spill-back",
                    "link %d: spill-back %g, at most %g of %g vehicles per mile",
                    dl[i], sp.v[i], x, jam);
        mc::count ("spill_back", sp.v[i] > 0);
      }
    // links on registered paths
    std::set<int> on, ton;
    for (int l : s.path_links (s.driving_paths[0]))
      on.insert (l);
    for (auto &p : s.tpaths)
      ton.insert (p.links.begin (), p.links.end ());
    ton.insert (s.pnr_links.begin (), s.pnr_links.end ());
    auto covered = [&] (const char *fn, const VI &ids, const std::set<int> &o) {
      py::array_t<bool> a = d.attr (fn) ();
      MC_CHECK (a.ndim () == 1 && a.shape (0) == (py::ssize_t) ids.size (),
                "shape", "%s", fn);
      for (size_t i = 0; i < ids.size (); ++i)
        MC_CHECK (a.at (i) == (o.count (ids[i]) > 0), "coverage",
                  "%s: link %d reported %s", fn, ids[i],
                  a.at (i) ? "covered" : "not covered");
    };
    covered ("are_registered_links_in_registered_paths_driving", dl, on);
    covered ("are_registered_links_in_registered_paths_bus", bl, ton);
    covered ("are_registered_links_in_registered_paths_walking", wl, ton);
    // links and nodes of paths
    auto turn = [&] (const char *fn, const VI &from, const VI &to) {
      Mat m = mat (py::array_t<double> (d.attr (fn) (iarr (from))));
      shape_is (m, { (py::ssize_t) to.size () }, fn);
      for (size_t i = 0; i < to.size (); ++i)
        MC_CHECK (m.v[i] == to[i], "conversion", "%s: %g instead of %d", fn,
                  m.v[i], to[i]);
    };
    auto nodes = [&] (const VI &links) {
      VI x;
      for (int l : links)
        {
          int a = s.bus (l) ? s.bus (l)->from : s.walk (l)->from,
              b = s.bus (l) ? s.bus (l)->to : s.walk (l)->to;
          if (x.empty ())
            x.push_back (a);
          x.push_back (b);
        }
      return x;
    };
    auto both = [&] (const std::string &kind, const VI &links, const VI &nd) {
      turn (("link_seq_to_node_seq_" + kind).c_str (), links, nd);
      turn (("node_seq_to_link_seq_" + kind).c_str (), nd, links);
      VI bad = nd;
      std::swap (bad.front (), bad.back ());
      bool refused = false;
      try
        {
          d.attr (("node_seq_to_link_seq_" + kind).c_str ()) (iarr (bad));
        }
      catch (py::error_already_set &)
        {
          refused = true;
        }
      MC_CHECK (refused, "conversion", "%s: nodes without a link are accepted",
                kind.c_str ());
    };
    both ("driving", s.path_links (s.driving_paths[0]), s.driving_paths[0]);
    both ("driving", s.path_links (s.pnr_nodes), s.pnr_nodes);
    for (auto &p : s.tpaths)
      both ("bustransit", p.links, nodes (p.links));
    // the same paths, given by their links
    auto rows = [&] (const Mat &m, std::vector<Mat> want, int row,
                     const char *what) {
      shape_is (m, { (py::ssize_t) want.size (), n }, what);
      for (size_t i = 0; i < want.size (); ++i)
        for (int j = 0; j < n; ++j)
          MC_CHECK (close (m.at (i, j), want[i].at (row, j)), "given-path",
                    "%s at %g: %g, but %g for the registered path", what, at[j],
                    m.at (i, j), want[i].at (row, j));
    };
    auto reg = [&] (const char *fn) { return mat (d.attr (fn) (darr (at))); };
    rows (mat (d.attr ("get_passenger_path_cost_driving") (
            iarr (s.path_links (s.driving_paths[0])), darr (at))),
          { reg ("get_registered_path_tt_driving"),
            reg ("get_registered_path_tt_truck"),
            reg ("get_registered_path_cost_driving") },
          0, "driving");
    Mat bt = reg ("get_registered_path_tt_bustransit"),
        bc = reg ("get_registered_path_cost_bustransit");
    for (int i = 0; i < k; ++i)
      rows (mat (d.attr ("get_passenger_path_cost_bus") (
              iarr (s.tpaths[i].links), darr (at))),
            { bt, bc }, i, "transit");
    rows (mat (d.attr ("get_passenger_path_cost_pnr") (
            iarr (s.path_links (s.pnr_nodes)), iarr (s.pnr_links), darr (at))),
          { reg ("get_registered_path_tt_pnr"),
            reg ("get_registered_path_cost_pnr") },
          0, "park and ride");
    // averages at fractions of intervals
    {
      VD a{ 3 }, e{ 3 + 0.75 * 13 }, sel;
      for (int i = 0; i < 6; ++i)
        sel.push_back (3 + i * 0.75 * 13 / 6);
      if (sel.back () + 2 < T ())
        {
          Mat q = mat (d.attr ("get_bus_link_tt_robust") (darr (a), darr (e), 6,
                                                          false, false)),
              one = mat (d.attr ("get_bus_link_tt") (darr (sel), false, false));
          for (size_t i = 0; i < bl.size (); ++i)
            {
              double sum = 0;
              for (int j = 0; j < 6; ++j)
                sum += one.at (i, j);
              MC_CHECK (close (q.at (i, 0), sum / 6), "bus-time",
                        "bus link %d: %g s on average, not %g", bl[i],
                        q.at (i, 0), sum / 6);
            }
        }
    }
    // average rides
    int w2 = std::min (T (), 30);
    VD all;
    for (int t = 0; t < w2 - 1; ++t)
      all.push_back (t);
    VD a{ 0 }, e{ (double) w2 - 1 };
    Mat q = mat (
          d.attr ("get_bus_link_tt_robust") (darr (a), darr (e), 10, false, true)),
        one = mat (d.attr ("get_bus_link_tt") (darr (all), true, true));
    for (size_t i = 0; i < bl.size (); ++i)
      {
        double sum = 0;
        int c = 0;
        for (size_t t = 0; t < all.size (); ++t)
          if (!std::isinf (one.at (i, t)) && one.at (i, t) > 0)
            sum += one.at (i, t), ++c;
        MC_CHECK (c ? close (q.at (i, 0), sum / c) : std::isinf (q.at (i, 0)),
                  "bus-time", "bus link %d: rides of %g s on average, not %g",
                  bl[i], q.at (i, 0), c ? sum / c : INFINITY);
      }
  }
  // times, costs and lengths of whole trips by car, bus, or both
  static int up (double x)
  {
    return x < 1 ? 1 : (int) std::ceil (x - 1e-3);
  }
  void trips ()
  {
    d.attr ("build_link_cost_map") (false);
    VD all;
    for (int t = 0; t < T (); ++t)
      all.push_back (t);
    Mat bus = mat (d.attr ("get_bus_link_tt") (darr (all), false, false));
    auto drive = [&] (int c, const VI &links, int at) {
      for (int l : links)
        at += up (tt (c, l, std::min (at, T () - 1) + 1));
      return at;
    };
    // -1: no bus comes
    auto ride = [&] (const VI &links, int at) {
      for (int l : links)
        {
          int t = std::min (at, T () - 1);
          double x;
          if (s.bus (l))
            x = bus.at (std::find (bl.begin (), bl.end (), l) - bl.begin (), t)
                / s.unit;
          else
            x = travel_time (pin.at (l), pout.at (l), T (),
                             s.walk (l)->time / s.unit, t + 1);
          if (x > T () + 1e-9)
            return -1;
          at += up (x);
        }
      return at;
    };
    VD at{ 0, 2.5, 7, T () / 2. + 0.25, (double) T () - 1 };
    py::ssize_t n = at.size ();
    double hour = s.unit / 3600.;
    auto late = [&] (double arr) {
      double target = 5 * 60. / s.unit;
      return std::max (30 * hour * (arr - target), 10 * hour * (target - arr));
    };
    auto ask = [&] (const char *what, const char *mode, size_t rows) {
      std::string f = std::string ("get_registered_path_") + what + "_" + mode;
      Mat m = mat (d.attr (f.c_str ()) (darr (at)));
      shape_is (m, { (py::ssize_t) rows, n }, f.c_str ());
      return m;
    };
    auto same = [&] (const Mat &m, int i, int j, double want, const char *what) {
      MC_CHECK (close (m.at (i, j), want), "trip",
                "%s %d starting at %g: %g, the trips give %g", what, i, at[j],
                m.at (i, j), want);
      mc::count ("trip_values");
    };
    VI car = s.path_links (s.driving_paths[0]), pdrive = s.path_links (s.pnr_nodes);
    Mat ct = ask ("tt", "driving", 1), cc = ask ("cost", "driving", 1),
        tt_ = ask ("tt", "truck", 1), bt = ask ("tt", "bustransit", k),
        bc = ask ("cost", "bustransit", k), pt = ask ("tt", "pnr", 1),
        pc = ask ("cost", "pnr", 1);
    double toll = 0;
    for (int l : car)
      if (s.toll.count (l))
        toll += s.toll.at (l).first;
    for (int j = 0; j < n; ++j)
      {
        int t0 = (int) std::round (at[j]);
        double x = drive (0, car, t0) + std::ceil (60. / s.unit) - at[j];
        same (ct, 0, j, x * s.unit, "driving time");
        same (cc, 0, j, 20 * hour * x + late (at[j] + x) + 8 + toll,
              "driving cost");
        same (tt_, 0, j, (drive (1, car, t0) - at[j]) * s.unit, "truck time");
        for (int i = 0; i < k; ++i)
          {
            int e = ride (s.tpaths[i].links, t0);
            x = e < 0 ? 2 * T () : e - at[j];
            same (bt, i, j, x * s.unit, "transit time");
            same (bc, i, j,
                  (x > T () ? 1e3 : 1)
                    * (20 * hour * x + late (at[j] + x) + 2 + 0.25),
                  "transit cost");
          }
        int m = drive (0, pdrive, t0), e = ride (s.pnr_links, m);
        x = e < 0 ? m - at[j] + 2 * T () : e - at[j];
        same (pt, 0, j, x * s.unit, "park-and-ride time");
        same (pc, 0, j,
              (x > T () ? 1e3 : 1)
                * (20 * hour * x + late (at[j] + x) + 2 + 0.5),
              "park-and-ride cost");
      }
    auto length = [&] (const VI &links) {
      double x = 0;
      for (int l : links)
        if (s.bus (l))
          x += s.bus_length (*s.bus (l));
        else if (std::string (s.walk (l)->type) == "normal")
          x += s.walk (l)->time * 1.5 / 1600;
      return x;
    };
    Mat db = mat (d.attr ("get_registered_path_distance_bustransit") ()),
        dp = mat (d.attr ("get_registered_path_distance_pnr") ());
    shape_is (db, { k, 1 }, "transit distances");
    shape_is (dp, { 1, 1 }, "park-and-ride distances");
    for (int i = 0; i < k; ++i)
      MC_CHECK (std::fabs (db.v[i] - length (s.tpaths[i].links)) < 1e-6,
                "distance", "transit path %d is %g miles long, not %g", i,
                db.v[i], length (s.tpaths[i].links));
    double w = length (s.pnr_links);
    for (int l : pdrive)
      w += s.link (l).len;
    MC_CHECK (std::fabs (dp.v[0] - w) < 1e-6, "distance",
              "the park-and-ride path is %g miles long, not %g", dp.v[0], w);
  }
  void go (uint64_t pol, const std::vector<mc::Dev> &devs)
  {
    curves ();
    py::object &mod = macposts_module ();
    d = mod.attr ("Mmdta").attr ("from_files") (mm_write (s));
    k = s.tpaths.size ();
    pnr = k + 1;
    int n = k + 2;
    for (auto &kv : s.routes)
      bus_path[kv.first] = n++;
    // not all links, not in their order
    dl = { 5, 2, 1, 3, 4 };
    bdl = { 3, 2 };
    for (auto &w : s.walks)
      if (w.id != 108)
        wl.insert (wl.begin (), w.id);
    bl = { 303, 301, 302 };
    d.attr ("register_links_driving") (iarr (dl));
    d.attr ("register_links_walking") (iarr (wl));
    d.attr ("register_links_bus") (iarr (bl));
    d.attr ("register_links_bus_driving") (iarr (bdl));
    VI all, tr, bus;
    for (int i = 0; i < n; ++i)
      all.push_back (i);
    for (int i = 1; i <= k; ++i)
      tr.push_back (i);
    for (int i = k + 2; i < n; ++i)
      bus.push_back (i);
    d.attr ("register_paths") (iarr (all));
    d.attr ("register_paths_driving") (iarr ({ 0 }));
    d.attr ("register_paths_bustransit") (iarr (tr));
    d.attr ("register_paths_pnr") (iarr ({ pnr }));
    d.attr ("register_paths_bus") (iarr (bus));
    d.attr ("install_cc") ();
    d.attr ("install_cc_tree") ();
    mc::rand_begin (pol, devs);
    d.attr ("run_whole") (false);
    int len = d.attr ("get_cur_loading_interval") ().cast<int> ();
    MC_CHECK (len == T (), "length", "the loading took %d steps, not %d", len,
              T ());
    for (auto &l : s.links)
      {
        same_curve ("get_car_link_in_cc", l.id, vin[0][l.id]);
        same_curve ("get_car_link_out_cc", l.id, vout[0][l.id]);
        same_curve ("get_truck_link_in_cc", l.id, vin[1][l.id]);
        same_curve ("get_truck_link_out_cc", l.id, vout[1][l.id]);
        number ("get_car_link_out_num", l.id, vout[0][l.id]);
        number ("get_truck_link_out_num", l.id, vout[1][l.id]);
      }
    for (auto &w : s.walks)
      {
        same_curve ("get_walking_link_in_cc", w.id, pin[w.id]);
        same_curve ("get_walking_link_out_cc", w.id, pout[w.id]);
        number ("get_passenger_link_out_num", w.id, pout[w.id]);
      }
    for (auto &b : s.buses)
      {
        same_curve ("get_bus_link_in_passenger_cc", b.id, pin[b.id]);
        same_curve ("get_bus_link_out_passenger_cc", b.id, pout[b.id]);
        number ("get_passenger_link_out_num", b.id, pout[b.id]);
        same_curve ("get_bus_link_from_busstop_in_cc", b.id, arr[b.from]);
        same_curve ("get_bus_link_from_busstop_out_cc", b.id, dep[b.from]);
        same_curve ("get_bus_link_to_busstop_in_cc", b.id, arr[b.to]);
        same_curve ("get_bus_link_to_busstop_out_cc", b.id, dep[b.to]);
      }
    for (auto &v : s.vstops)
      {
        number ("get_bus_stop_arrival_num", v[0], arr[v[0]]);
        number ("get_bus_stop_departure_num", v[0], dep[v[0]]);
      }
    inflow ("get_link_car_inflow", dl,
            [&] (int l) -> const Curve & { return vin[0].at (l); });
    inflow ("get_link_truck_inflow", dl,
            [&] (int l) -> const Curve & { return vin[1].at (l); });
    inflow ("get_link_walking_passenger_inflow", wl,
            [&] (int l) -> const Curve & { return pin.at (l); });
    inflow ("get_link_bus_passenger_inflow", bl,
            [&] (int l) -> const Curve & { return pin.at (l); });
    inflow ("get_link_bus_inflow", bl, [&] (int l) -> const Curve & {
      return dep.at (s.bus (l)->from);
    });
    inflow ("get_busstop_bus_inflow", bl, [&] (int l) -> const Curve & {
      return arr.at (s.bus (l)->to);
    });
    stats ();
    dars ();
    static_facts ();
    tts ("get_car_link_tt", "get_car_link_tt_robust", 0, dl);
    tts ("get_truck_link_tt", "get_truck_link_tt_robust", 1, dl);
    tts ("get_bus_driving_link_tt_car", "get_bus_driving_link_tt_car_robust", 0,
         bdl);
    tts ("get_bus_driving_link_tt_truck", "get_bus_driving_link_tt_truck_robust",
         1, bdl);
    walking_tt ();
    bus_tt ();
    path_tts ();
    trips ();
    more ();
  }
};

static void
mm_ask (const Mm &s)
{
  uint64_t pol = mc::g_rand.policy;
  std::vector<mc::Dev> devs = mc::g_rand.devs;
  MmRef r;
  mm_run (s, nullptr, nullptr, &r);
  Ask a (s, r);
  try
    {
      a.go (pol, devs);
    }
  catch (py::error_already_set &e)
    {
      std::string w = e.what ();
      throw Fail ("exception", w.substr (0, w.find ('\n')));
    }
}
static uint64_t
nth (uint64_t c)
{
  return c * 40009 % mm_size ();
}
static void
set_up (uint64_t c, Mm &s)
{
  mm_case (nth (c / 3), s);
  // the interface needs a fixed number of intervals
  if (s.total < 0)
    s.total = 120;
  s.toll[2] = { 1.5, 3 };
  s.toll[3] = { 0.25, 0.75 };
  if (c % 3 == 2)
    { // it ends with trips under way
      s.total = s.n * s.assign_frq + 3;
      s.truck = { 4, 12 };
    }
  if (c % 3 == 1)
    s.car = { 14, 6 };
  if (c % 3)
    // crowded roads
    for (auto &l : s.links)
      if (l.id == 3)
        l.cap = l.cap_t = 720;
}

static std::vector<mc::Family>
get (const std::string &p)
{
  std::vector<mc::Family> r;
  if (p != "P28" && p != "P24")
    return r;
  mc::Family f;
  f.name = "measurements";
  f.size = [] (const mc::Tier &t) {
    return t.thorough ? 3 * mm_size () : mm_size () / 8;
  };
  f.describe = [] (const mc::Tier &, uint64_t c) {
    return mm_text (nth (c / 3))
           + (c % 3 == 1 ? " crowded" : c % 3 == 2 ? " cut short" : "");
  };
  f.run = [] (const mc::Tier &, uint64_t c) {
    Mm s;
    set_up (c, s);
    mm_ask (s);
  };
  f.policies_quick = 1;
  f.policies_thorough = 2;
  f.dev_quick = 0;
  f.dev_thorough = 0;
  r.push_back (f);
  if (p == "P24")
    return mc::crash_only (r, 1200, 12000);
  return r;
}

int
main (int argc, char **argv)
{
  return mc::mc_main (argc, argv, "mmapi", get);
}
