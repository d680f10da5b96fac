// property: C24
// sources: src/scan_matcher_ndt.cpp src/ndt_model.cpp src/scan.cpp
// cases: 6
// branch_timeout: 0.1
// bounds: every number of points and every beam limit from 0 to 7 (thorough: 14), each point in turn being the one on the map; two points anywhere within 20 m at any pose within 20 m with a beam limit of 1, 2 or 3, on a map of five points around any place within 20 m
// outside: more points
#include "matcher_common.h"
#ifdef VS_THOROUGH
static const int N = 14;
#else
static const int N = 7;
#endif
// thorough_defines: VS_THOROUGH

int main()
{
  const int c = vs_case();
  par = {400, 0.1, 0.1, 0.1, 0.1, 3};
  rclcpp::Node node("ndt");
  if (c == 0)
  {
    // which points are used
    par.ndt = 1;
    const int beams = vs_int("beams", 0, N), n = vs_int("n", 0, N);
    par.beams = beams;
    ndt_2d::ScanMatcherNDT m;
    m.initialize("m", &node, 10);
    std::vector<Point> at(6, Point(0.5, 0.25));
    add(m, {make_scan(0, Pose2d(3, 4, 0), at)});
    const int used = beams < n ? beams : n;
    int last = -1, found = 0, gap_min = 1000, gap_max = 0;
    for (int i = 0; i < n; ++i)
    {
      std::vector<Point> p(n, Point(-7, 5));
      p[i] = at[0];
      const double s = m.scorePoints(p, Pose2d(3, 4, 0));
      if (s == 0) continue;
      vs_check_close(s * used, -1, 1e-9, "mean over the points used");
      ++found;
      if (last >= 0) { const int g = i - last; gap_min = g < gap_min ? g : gap_min; gap_max = g > gap_max ? g : gap_max; }
      last = i;
    }
    vs_check(found == used, "as many points as the beam limit allows");
    if (found > 1)
    {
      vs_check(gap_max - gap_min <= 1, "evenly");
      vs_check(last + gap_max >= n - 1 && (found - 1) * gap_max >= n - 1 - gap_max, "over the whole scan");
    }
    if (n == 0)
    {
      vs_check(m.scorePoints({}, Pose2d(3, 4, 0)) == 0, "no points score 0");
      vs_check(m.scoreScan(make_scan(1, Pose2d(3, 4, 0), {})) == 0, "an empty scan scores 0");
    }
    if (beams == 0) vs_check(m.scorePoints({at[0]}, Pose2d(3, 4, 0)) == 0, "no beams score 0");
    return 0;
  }
  par.beams = c < 4 ? c : 2;
  ndt_2d::ScanMatcherNDT m;
  m.initialize("m", &node, 100);
  Pose2d pose(vs_real("px", -20, 20), vs_real("py", -20, 20), vs_angle("pt"));
  std::vector<Point> p;
  for (int i = 0; i < 2; ++i) p.push_back(Point(vs_real("x", -20, 20), vs_real("y", -20, 20)));
  if (c == 5)
  {
    vs_check(m.scorePoints(p, pose) == 0, "without a map: 0");
    vs_check(m.scoreScan(make_scan(1, pose, p)) == 0, "without a map: 0");
    return 0;
  }
  const double bx = vs_real("bx", -20, 20), by = vs_real("by", -20, 20);
  ScanPtr map = make_scan(0, Pose2d(0, 0, 0), {Point(bx, by), Point(bx + 2, by), Point(bx - 2, by), Point(bx, by + 1), Point(bx, by - 1)});
  add(m, {map});
  double want = 0;
  const double cs = std::cos(pose.theta), sn = std::sin(pose.theta);
  for (int i = 0; i < (par.beams == 1 ? 1 : 2); ++i)
  {
    // a cross: variances 2 and 0.5
    const double u = pose.x + p[i].x * cs - p[i].y * sn - bx, v = pose.y + p[i].x * sn + p[i].y * cs - by;
    want -= std::exp(-0.5 * (u * u * 0.5 + v * v * 2));
  }
  if (par.beams > 1) want /= 2;
  if (c == 4)
  {
    ScanPtr s = make_scan(1, pose, p);
    vs_check_close(m.scoreScan(s), want, 1e-9, "a scan is scored at its pose");
    vs_check(s->getPoints().size() == 2 && s->getPose().x == pose.x, "scoring leaves the scan as it is");
    return 0;
  }
  const double got = m.scorePoints(p, pose);
  vs_check_close(got, want, 1e-9, "minus the mean likelihood of the points moved by the pose");
  vs_check(got <= 0 && got >= -1, "between -1 and 0");
  vs_out("score", got);
  return 0;
}
