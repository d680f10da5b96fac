// property: C25
// sources: src/scan_matcher_ndt.cpp src/ndt_model.cpp src/scan.cpp
// cases: 7
// branch_timeout: 0.1
// bounds: a scan at any pose within 1 km, in any quadrant, with any heading, and a cluster of points at any place within a sensor range of 2.25 m (cells of 1.5 m); two scans, one at any position within 1 km in a given quadrant, the other up to 3 m from it; every sequence of up to three additions (one of two scans, both, none) and resets
// outside: more scans; rounding at the very edge of the map (1e-4)
#include "matcher_common.h"
static const double R = 2.25;

static ScanPtr cluster(int id, const Pose2d & at, double x, double y)
{
  return make_scan(id, at, std::vector<Point>(6, Point(x, y)));
}

static void covered(ndt_2d::ScanMatcherNDT & m, const ScanPtr & s)
{
  const double v = m.scoreScan(s);
  vs_check(std::isfinite(v), "finite score");
  vs_check_close(v, -1, 1e-6, "every point within range is in the map");
}

int main()
{
  const int c = vs_case();
  rclcpp::Node node("ndt");
  par = {1.5, 0.1, 0.1, 0.1, 0.1, 100};
  ndt_2d::ScanMatcherNDT m;
  m.initialize("m", &node, R);
  if (c == 0)
  {
    Pose2d at(vs_real("px", -1000, 1000), vs_real("py", -1000, 1000), vs_angle("pt"));
    const double x = vs_real("x", -R, R), y = vs_real("y", -R, R);
    vs_assume(x * x + y * y < (R - 1e-4) * (R - 1e-4));
    ScanPtr s = cluster(0, at, x, y);
    add(m, {s});
    covered(m, s);
    vs_check(s->getPose().x == at.x && s->getPose().y == at.y && s->getPoints().size() == 6, "the scan is left as it is");
  }
  else if (c < 5)
  {
    // headings that turn the cluster to the edges of the map
    const double sx = c & 1 ? 1 : -1, sy = c & 2 ? 1 : -1;
    Pose2d a(sx * vs_real("px", 3, 1000), sy * vs_real("py", 3, 1000), 0);
    Pose2d b(a.x + vs_real("dx", -3, 3), a.y + 1.25, M_PI / 2);
    ScanPtr s = cluster(0, a, vs_bool("left") ? -2.249 : 2.249, 0), t = cluster(1, b, vs_bool("up") ? 2.249 : -2.249, 0);
    // the clusters are in different cells
    add(m, {s, t});
    covered(m, s);
    covered(m, t);
  }
  else
  {
    // far apart: what is in the map of one is not in that of the other
    const double d = c == 5 ? 400 : 40;
    ScanPtr s = cluster(0, Pose2d(-d, -2 * d, 1), 1, 0.5), t = cluster(1, Pose2d(-d + vs_real("dx", 8, 10), -2 * d, 2), -1, 0.75);
    bool has_s = false, has_t = false;
    for (int i = 0; i < 3; ++i)
    {
      const int op = vs_int("op", 0, 4);
      if (op == 0) add(m, {s});
      else if (op == 1) add(m, {t});
      else if (op == 2) add(m, {s, t});
      else if (op == 3) { add(m, {}); vs_reach("no scans"); }
      else m.reset();
      has_s = op == 0 || op == 2;
      has_t = op == 1 || op == 2;
      if (has_s) covered(m, s); else vs_check(m.scoreScan(s) == 0, "nothing of what was there before");
      if (has_t) covered(m, t); else vs_check(m.scoreScan(t) == 0, "nothing of what was there before");
      Pose2d corr;
      Eigen::Matrix3d cov;
      if (!has_s && !has_t) vs_check(m.matchScan(s, corr, cov) == 0, "nothing matches an empty map");
    }
  }
  return 0;
}
