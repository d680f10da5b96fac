// property: C05
// sources: src/scan.cpp
// cases: 3
// bounds: histories of 5 operations, each one of set pose, set points (0 to 3 of them), read barycenter; all poses and points within 100 m, any heading; three cases of starting operations
// outside: longer histories (the object keeps only its last pose and points), more points
#include <vsym_common.h>
#include <ndt_2d/scan.hpp>
using ndt_2d::Point;
using ndt_2d::Pose2d;

int main()
{
  ndt_2d::Scan scan(41);
  Pose2d pose(0, 0, 0);
  std::vector<Point> pts;
  bool has_pose = false;
  const int steps = 4;
  for (int k = 0; k <= steps; ++k)
  {
    int op = k == 0 ? vs_case() : k == steps ? 2 : vs_int("op", 0, 2);
    if (op == 0)
    {
      pose = Pose2d(vs_real("px", -100, 100), vs_real("py", -100, 100), vs_angle("pt"));
      scan.setPose(pose);
      has_pose = true;
    }
    else if (op == 1)
    {
      pts.clear();
      int n = vs_int("n", 0, 3);
      for (int i = 0; i < n; ++i) pts.push_back(Point(vs_real("x", -100, 100), vs_real("y", -100, 100)));
      scan.setPoints(pts);
    }
    else
    {
      Pose2d b = scan.getBarycenterPose();
      double mx = 0, my = 0;
      for (auto & p : pts) { mx += p.x / pts.size(); my += p.y / pts.size(); }
      vs_check_close(b.x, pose.x + mx * std::cos(pose.theta) - my * std::sin(pose.theta), 1e-8, "barycenter x");
      vs_check_close(b.y, pose.y + mx * std::sin(pose.theta) + my * std::cos(pose.theta), 1e-8, "barycenter y");
      vs_check_same(b.theta, pose.theta, "barycenter heading");
      vs_out("bx", b.x);
    }
    if (k == steps)
    {
      Pose2d q = scan.getPose();
      vs_check_same(q.x, pose.x, "pose x");
      vs_check_same(q.y, pose.y, "pose y");
      vs_check_same(q.theta, pose.theta, "pose theta");
      std::vector<Point> r = scan.getPoints();
      vs_check(r.size() == pts.size(), "number of points");
      for (size_t i = 0; i < pts.size(); ++i)
      {
        vs_check_same(r[i].x, pts[i].x, "point x");
        vs_check_same(r[i].y, pts[i].y, "point y");
      }
      vs_check(scan.getId() == 41, "id");
    }
  }
  return 0;
}
