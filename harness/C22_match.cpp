// property: C22
// sources: src/scan_matcher_ndt.cpp src/ndt_model.cpp src/scan.cpp
// cases: 9
// branch_timeout: 0.1
// bounds: windows of 2x2x2, 2x2x1, 3x3x1 and 1x1x3 offsets on a map of one cell: scans of one or two points (with a beam limit of 1: the second is not used) at any position within 5 m and some headings, scans of a point anywhere within 5 m at some positions and (1x1x3) any heading; scans of two points near the borders of a map of several cells; scans off the map, without points, and without a map
// outside: larger windows, more points, rounding of the window's last step
#include "matcher_common.h"

static std::vector<double> offsets(double size, double res)
{
  std::vector<double> o;
  for (double v = -size; v < size; v += res) o.push_back(v);
  return o;
}

int main()
{
  const int c = vs_case();
  rclcpp::Node node("ndt");
  par = {400, 0.25, 0.25, 0.125, 0.125, 100};            // 2 x 2 x 2
  if (c == 2) par = {400, 0.5, 0.25, 0.125, 0.1875, 100};  // 3 x 3 x 1
  if (c == 3) par = {400, 0.25, 0.375, 0.5, 0.25, 100};    // 1 x 1 x 3
  if (c == 1) par.ang_res = 0.5;                         // 2 x 2 x 1
  if (c == 4) par.beams = 1;
  if (c == 5 || c == 6) par.ndt = 2;
  ndt_2d::ScanMatcherNDT m;
  m.initialize("m", &node, c == 5 || c == 6 ? 4 : 100);
  std::vector<Point> cross = {Point(1, 1), Point(3, 1), Point(-1, 1), Point(1, 2), Point(1, 0)};
  if (c == 5 || c == 6)
  {
    // two cells of the grid that starts at -4: [0, 2) x [0, 2) and [-2, 0) x [0, 2)
    cross = {Point(1, 1), Point(1.5, 1), Point(0.5, 1), Point(1, 1.25), Point(1, 0.75),
             Point(-1, 1), Point(-1.25, 1), Point(-0.75, 1), Point(-1, 1.5), Point(-1, 0.5)};
  }
  if (c != 8) add(m, {make_scan(0, Pose2d(0, 0, 0), cross)});

  Pose2d at;
  std::vector<Point> p;
  if (c == 5 || c == 6)
  {
    at = Pose2d(vs_real("px", -0.05, 0.05), c == 5 ? 0 : vs_real("py", 1.9, 2.05), 0);
    p = {Point(0.07, 1), Point(c == 5 ? 1.25 : 0.5, c == 5 ? 0.75 : 0)};
  }
  else
  {
    static const double T[9] = {2.5, 0.5, -1, 0, -2.25, 0, 0, 0.75, 0};
    const bool any_pose = c != 2 && c != 3, any_point = c >= 2;
    at = Pose2d(any_pose ? vs_real("px", -5, 5) : 1.5, any_pose ? vs_real("py", -5, 5) : -0.75, c == 3 ? vs_angle("pt") : T[c]);
    const int n = c == 1 || c == 4 ? 2 : c == 7 ? (vs_bool("empty") ? 0 : 1) : 1;
    for (int i = 0; i < n; ++i)
    {
      if (c == 7) p.push_back(Point(vs_real("x", 900, 1000), vs_real("y", -5, 5)));
      else if (any_point) p.push_back(Point(vs_real("x", -5, 5), vs_real("y", -5, 5)));
      else p.push_back(Point(1.25 - 3 * i, 0.5 + i));
    }
  }
  ScanPtr scan = make_scan(1, at, p);
  const double before = m.scoreScan(scan);
  Pose2d corr(7, 8, 9);
  Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
  const double score = m.matchScan(scan, corr, cov);
  vs_out("score", score);
  if (c != 1) vs_check(score <= 0 && score >= -1, "score between -1 and 0");
  // neither the scan nor the map change
  vs_check(scan->getPose().x == at.x && scan->getPose().y == at.y && scan->getPose().theta == at.theta, "the scan keeps its pose");
  vs_check(scan->getPoints().size() == p.size(), "the scan keeps its points");
  for (size_t i = 0; i < p.size(); ++i) vs_check(scan->getPoints()[i].x == p[i].x && scan->getPoints()[i].y == p[i].y, "the scan keeps its points");
  vs_check(m.scoreScan(scan) == before, "the map is as it was");
  if (c >= 7)
  {
    vs_check(score == 0, "no overlap scores 0");
    vs_check(corr.x == 7 && corr.y == 8 && corr.theta == 9, "no overlap leaves the correction");
    return 0;
  }
  const std::vector<double> lin = offsets(par.lin_size, par.lin_res), ang = offsets(par.ang_size, par.ang_res);
  bool inside = false;
  for (double t : ang) for (double x : lin) for (double y : lin)
  {
    const double s = m.scorePoints(p, Pose2d(at.x + x, at.y + y, at.theta + t));
    vs_check(s >= score - 1e-9, "no offset of the window scores better");
    if (corr.x == x && corr.y == y && corr.theta == t)
    {
      inside = true;
      vs_check_close(s, score, 1e-9, "the score is that at the corrected pose");
    }
  }
  if (score == 0 && corr.x == 7 && corr.y == 8 && corr.theta == 9) return 0;
  vs_check(inside, "the correction is an offset of the window");
  return 0;
}
