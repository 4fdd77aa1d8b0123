// scenario.h -- tiny road networks, written out as macposts input folders.
// The harness keeps the Scenario itself as the source of truth for the oracles;
// nothing the code parsed is used as an expected value.
#pragma once
#include "mc.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

struct SNode
{
  int id;
  std::string type; // FWJ GRJ DMOND DMDND
};
struct SLink
{
  int id;
  std::string type; // CTM PQ LQ LTM
  double len, ffs, cap, rhoj;
  int lanes;
  int from, to;
  double ffs_t = 0, cap_t = 0, rhoj_t = 0, conv = 2;
};
struct SPath
{
  std::vector<int> nodes;
  std::vector<double> buf; // portions per interval (car), then truck
};
struct Scenario
{
  std::string name;
  bool mc = false; // multiclass
  int unit_time = 5, assign_frq = 12, max_interval = 2, total_interval = 40;
  int start_assign = 0, flow_scalar = 1, split = 0;
  std::string routing = "Adaptive";
  double ad_ratio = 0.5, ad_ratio_car = 0.5, ad_ratio_truck = 0.5;
  int ad_frq = 6, fix_frq = 12, buffer_len = -1;
  std::string choice = "Buffer";
  double node_conv = 2;
  std::vector<SNode> nodes;
  std::vector<SLink> links;
  std::vector<std::pair<int, int>> origins, dests; // (od id, node id)
  // demand[(o,d)] = per interval
  std::map<std::pair<int, int>, std::vector<double>> car, truck;
  // adaptive shares per pair (car, then truck), label shares per origin
  std::map<std::pair<int, int>, std::vector<double>> td_share;
  std::map<int, std::vector<double>> labels, labels_t;
  std::vector<SPath> paths;
  std::map<std::string, std::string> extra; // further files (name -> content)
  std::string extra_conf;                   // appended to [DTA]
  std::string extra_sections;               // appended at the end
  std::string extra_stat;
  std::string extra_adaptive;
  int rec_para = 5, load_rec = 0, record_rec = 0;

  const SLink &link (int id) const
  {
    for (auto &l : links)
      if (l.id == id)
        return l;
    throw std::runtime_error ("scenario: no link");
  }
  const SNode &node (int id) const
  {
    for (auto &n : nodes)
      if (n.id == id)
        return n;
    throw std::runtime_error ("scenario: no node");
  }
  int link_between (int a, int b) const
  {
    for (auto &l : links)
      if (l.from == a && l.to == b)
        return l.id;
    return -1;
  }
};

inline void
put (const std::string &p, const std::string &c)
{
  FILE *f = fopen (p.c_str (), "w");
  if (!f)
    throw std::runtime_error ("cannot write " + p);
  fwrite (c.data (), 1, c.size (), f);
  fclose (f);
}
inline std::string
num (double d)
{
  return mc::fmt ("%.10g", d);
}

inline std::map<std::string, std::string>
scenario_files (const Scenario &s)
{
  std::map<std::string, std::string> out;
  std::string c;
  int bl = s.buffer_len >= 0 ? s.buffer_len
                             : (s.mc ? 2 * s.max_interval : s.max_interval);
  c += "[DTA]\nnetwork_name = Snap_graph\n";
  c += mc::fmt ("unit_time = %d\ntotal_interval = %d\nassign_frq = %d\n"
                "start_assign_interval = %d\nmax_interval = %d\nflow_scalar = %d\n"
                "num_of_link = %d\nnum_of_node = %d\nnum_of_O = %d\nnum_of_D = %d\n"
                "OD_pair = %d\nrouting_type = %s\ninit_demand_split = %d\n",
                s.unit_time, s.total_interval, s.assign_frq, s.start_assign,
                s.max_interval, s.flow_scalar, (int) s.links.size (),
                (int) s.nodes.size (), (int) s.origins.size (),
                (int) s.dests.size (), (int) s.car.size (), s.routing.c_str (),
                s.split);
  c += "adaptive_ratio = " + num (s.ad_ratio) + "\n";
  c += "adaptive_ratio_car = " + num (s.ad_ratio_car) + "\n";
  c += "adaptive_ratio_truck = " + num (s.ad_ratio_truck) + "\n";
  c += s.extra_conf;
  c += mc::fmt ("\n[STAT]\nrec_mode = LRn\nrec_mode_para = %d\n"
                "rec_folder = record\nrec_volume = 1\n"
                "volume_load_automatic_rec = %d\n"
                "volume_record_automatic_rec = %d\nrec_tt = 1\n"
                "tt_load_automatic_rec = %d\ntt_record_automatic_rec = %d\n",
                s.rec_para, s.load_rec, s.record_rec, s.load_rec, s.record_rec);
  c += s.extra_stat;
  c += mc::fmt ("\n[FIXED]\npath_file_name = path_table\nnum_path = %d\n"
                "choice_portion = %s\nbuffer_length = %d\nroute_frq = %d\n",
                (int) s.paths.size (), s.choice.c_str (), bl, s.fix_frq);
  c += mc::fmt ("\n[ADAPTIVE]\nroute_frq = %d\n", s.ad_frq);
  c += s.extra_adaptive;
  c += s.extra_sections;
  out["config.conf"] = c;
  std::string g = "# ID from to\n", n, l, o, d;
  for (auto &x : s.links)
    g += mc::fmt ("%d %d %d\n", x.id, x.from, x.to);
  out["Snap_graph"] = g;
  for (auto &x : s.nodes)
    n += s.mc ? mc::fmt ("%d %s %s\n", x.id, x.type.c_str (),
                         num (s.node_conv).c_str ())
              : mc::fmt ("%d %s\n", x.id, x.type.c_str ());
  out["MNM_input_node"] = n;
  for (auto &x : s.links)
    {
      l += mc::fmt ("%d %s %s %s %s %s %d", x.id, x.type.c_str (),
                    num (x.len).c_str (), num (x.ffs).c_str (),
                    num (x.cap).c_str (), num (x.rhoj).c_str (), x.lanes);
      if (s.mc)
        l += mc::fmt (" %s %s %s %s", num (x.ffs_t).c_str (),
                      num (x.cap_t).c_str (), num (x.rhoj_t).c_str (),
                      num (x.conv).c_str ());
      l += "\n";
    }
  out["MNM_input_link"] = l;
  o = "# origins\n";
  for (auto &x : s.origins)
    o += mc::fmt ("%d %d\n", x.first, x.second);
  o += "# destinations\n";
  for (auto &x : s.dests)
    o += mc::fmt ("%d %d\n", x.first, x.second);
  out["MNM_input_od"] = o;
  for (auto &x : s.car)
    {
      d += mc::fmt ("%d %d", x.first.first, x.first.second);
      for (double v : x.second)
        d += " " + num (v);
      if (s.mc)
        {
          auto it = s.truck.find (x.first);
          for (int k = 0; k < s.max_interval; ++k)
            d += " " + num (it == s.truck.end () ? 0. : it->second[k]);
        }
      d += "\n";
    }
  out["MNM_input_demand"] = d;
  if (!s.paths.empty ())
    {
      std::string p, b;
      for (auto &x : s.paths)
        {
          for (size_t i = 0; i < x.nodes.size (); ++i)
            p += mc::fmt (i ? " %d" : "%d", x.nodes[i]);
          p += "\n";
          for (int i = 0; i < bl; ++i)
            b += (i ? " " : "")
                 + num (i < (int) x.buf.size () ? x.buf[i] : 0.);
          b += "\n";
        }
      out["path_table"] = p;
      out["path_table_buffer"] = b;
    }
  for (auto &x : s.extra)
    out[x.first] = x.second;
  return out;
}

inline void
write_scenario (const Scenario &s, const std::string &dir)
{
  mkdir (dir.c_str (), 0755);
  mkdir ((dir + "/record").c_str (), 0755);
  for (auto &f : scenario_files (s))
    put (dir + "/" + f.first, f.second);
}
inline void
clear_dir (const std::string &dir)
{
  // only ever called on the harness's own scratch directory
  if (dir.find ("mcscratch") == std::string::npos)
    abort ();
  for (const char *sub : { "/record", "" })
    {
      std::string p = dir + sub;
      DIR *d = opendir (p.c_str ());
      if (!d)
        continue;
      while (struct dirent *e = readdir (d))
        {
          std::string n = e->d_name;
          if (n != "." && n != ".." && n != "record")
            unlink ((p + "/" + n).c_str ());
        }
      closedir (d);
    }
}
// per-process scratch directory
inline const std::string &
scratch ()
{
  static std::string dir;
  static pid_t owner = 0;
  if (owner != getpid ())
    {
      const char *t = getenv ("MC_SCRATCH");
      dir = mc::fmt ("%s/mcscratch.%d", t ? t : "/tmp", (int) getpid ());
      owner = getpid ();
      mkdir (dir.c_str (), 0755);
    }
  return dir;
}
