// The NDT scan matcher on a node whose parameters the harness sets.
#ifndef MATCHER_COMMON_H_
#define MATCHER_COMMON_H_
#include <vsym_common.h>
#include <ndt_2d/scan_matcher_ndt.hpp>
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::ScanPtr;

struct Window { double ndt, ang_res, ang_size, lin_res, lin_size; int64_t beams; } par;
static bool ends(const std::string & s, const char * e)
{
  const std::string t(e);
  return s.size() > t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
}
bool vs_ok() { return true; }
int64_t vs_now() { return 0; }
bool vs_param_double(const std::string & n, double & v)
{
  if (ends(n, ".ndt_resolution")) v = par.ndt;
  else if (ends(n, ".search_angular_resolution")) v = par.ang_res;
  else if (ends(n, ".search_angular_size")) v = par.ang_size;
  else if (ends(n, ".search_linear_resolution")) v = par.lin_res;
  else if (ends(n, ".search_linear_size")) v = par.lin_size;
  else return false;
  return true;
}
bool vs_param_int(const std::string & n, int64_t & v) { if (!ends(n, ".laser_max_beams")) return false; v = par.beams; return true; }
bool vs_param_bool(const std::string &, bool &) { return false; }
bool vs_param_string(const std::string &, std::string &) { return false; }

static ScanPtr make_scan(int id, const Pose2d & pose, const std::vector<Point> & points)
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(pose);
  s->setPoints(points);
  return s;
}

static void add(ndt_2d::ScanMatcherNDT & m, const std::vector<ScanPtr> & scans)
{
  std::vector<ScanPtr>::const_iterator b = scans.begin(), e = scans.end();
  m.addScans(b, e);
}
#endif
