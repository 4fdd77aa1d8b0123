// pyapi.h -- the Python interpreter with the macposts package, and numpy
// helpers, for the harnesses that drive the Python-facing API.
#pragma once
#include "mc.h"
#include <cmath>
#include <fcntl.h>
#include <pybind11/embed.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include <unistd.h>

namespace py = pybind11;
using mc::Fail;
using mc::fmt;

extern "C" PyObject *PyInit__macposts_ext ();

typedef py::array_t<double, py::array::c_style | py::array::forcecast> DArr;
typedef std::vector<int> VI;
typedef std::vector<double> VD;

// ---------------------------------------------------------------- interpreter
static py::object &
macposts_module ()
{
  static py::object *m = nullptr;
  static pid_t owner = 0;
  if (!m || owner != getpid ())
    {
      setenv ("PYTHONDONTWRITEBYTECODE", "1", 1);
      setenv ("OPENBLAS_NUM_THREADS", "1", 1);
      setenv ("OMP_NUM_THREADS", "1", 1);
      PyImport_AppendInittab ("_macposts_ext", PyInit__macposts_ext);
      py::initialize_interpreter (false);
      int n = open ("/dev/null", O_WRONLY);
      if (n >= 0)
        {
          fflush (stdout);
          dup2 (n, 1);
        }
      const char *r = getenv ("VERIF_REPO");
      const char *sp = getenv ("MC_SITE");
      py::list path = py::module_::import ("sys").attr ("path");
      path.insert (0, std::string (r ? r : "/repo"));
      path.append (std::string (
        sp ? sp : "/opt/macposts-venv/lib/python3.12/site-packages"));
      m = new py::object (py::module_::import ("macposts"));
      owner = getpid ();
    }
  return *m;
}
static py::array_t<int>
iarr (const VI &v)
{
  return py::array_t<int> (v.size (), v.data ());
}
static py::array_t<double>
darr (const VD &v)
{
  return py::array_t<double> (v.size (), v.data ());
}
struct Mat
{
  std::vector<py::ssize_t> shape;
  VD v;
  double at (size_t i, size_t j) const { return v.at (i * shape.at (1) + j); }
};
static Mat
mat (const py::object &o)
{
  DArr a = o.cast<DArr> ();
  Mat m;
  for (int i = 0; i < a.ndim (); ++i)
    m.shape.push_back (a.shape (i));
  m.v.assign (a.data (), a.data () + a.size ());
  return m;
}
static void
shape_is (const Mat &m, std::vector<py::ssize_t> s, const char *what)
{
  MC_CHECK (m.shape == s, "shape", "%s: unexpected shape of the result", what);
}
static bool
close (double a, double b)
{
  if (std::isinf (a) || std::isinf (b))
    return a == b;
  return std::fabs (a - b) <= 1e-7 * std::max (1., std::max (std::fabs (a), std::fabs (b)));
}
// counted passages
struct Curve // (time, cumulative) at the times something passed, (0,0) first
{
  std::vector<std::pair<double, double>> r{ { 0, 0 } };
  void build (std::vector<int> steps, double scalar)
  {
    std::sort (steps.begin (), steps.end ());
    for (size_t i = 0; i < steps.size (); ++i)
      {
        double t = steps[i] + 1;
        if (r.back ().first == t)
          r.back ().second = (i + 1) / scalar;
        else
          r.push_back ({ t, (i + 1) / scalar });
      }
  }
  double total () const { return r.back ().second; }
  double at (double t) const
  {
    double v = 0;
    for (auto &p : r)
      if (p.first <= t + 1e-9)
        v = p.second;
    return v;
  }
  // time at which the count m > 0 is reached, else of the last record before
  double time (double m) const
  {
    for (size_t i = 1; i < r.size (); ++i)
      if (r[i].second >= m - 1e-9)
        {
          if (std::fabs (r[i].second - m) < 1e-9)
            return r[i].first;
          return r[i - 1].first;
        }
    return -1;
  }
};
