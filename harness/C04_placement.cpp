// property: C04
// sources: src/ndt_model.cpp src/scan.cpp
// cases: 2
// branch_timeout: 0.05
// bounds: map scan of five points in a cross (half axes 0.3 and 0.1 m) anywhere within 20 m of its sensor, at any pose within 20 m with any heading; scored: one point at any place, a scan / list of two points anywhere, at any pose
// outside: cell borders between the points (C03), more points (sums of the same terms)
#include <vsym_common.h>
#include <ndt_2d/ndt_model.hpp>
using ndt_2d::Point;
using ndt_2d::Pose2d;

static Point place(const Pose2d & p, double x, double y)
{
  return Point(p.x + x * std::cos(p.theta) - y * std::sin(p.theta), p.y + x * std::sin(p.theta) + y * std::cos(p.theta));
}

int main()
{
  ndt_2d::NDT ndt(400, 700, 350, -200, -200);
  double bx = vs_real("bx", -20, 20), by = vs_real("by", -20, 20);
  Pose2d pose(vs_real("px", -20, 20), vs_real("py", -20, 20), vs_angle("pt"));
  auto scan = std::make_shared<ndt_2d::Scan>(3);
  scan->setPose(pose);
  scan->setPoints({Point(bx, by), Point(bx + 0.3, by), Point(bx - 0.3, by), Point(bx, by + 0.1), Point(bx, by - 0.1)});
  ndt.addScan(scan);
  // another scan, in another cell, must not disturb
  auto other = std::make_shared<ndt_2d::Scan>(4);
  other->setPose(Pose2d(400, 0, vs_angle("ot")));
  other->setPoints({Point(1, 2), Point(1.5, 2), Point(0.5, 2), Point(1, 2.2), Point(1, 1.8)});
  ndt.addScan(other);
  ndt.compute();
  vs_check(scan->getPose().x == pose.x && scan->getPoints().size() == 5, "adding leaves the scan as it is");
  if (vs_case() == 0)
  {
    // (u, v): offset from the centre in the scan's frame
    double u = vs_real("u", -2, 2), v = vs_real("v", -1, 1);
    Point q = place(pose, bx + u, by + v);
    double s = ndt.likelihood(Eigen::Vector2d(q.x, q.y));
    vs_check_close(s, std::exp(-0.5 * (u * u / 0.045 + v * v / 0.005)), 1e-9, "placed by the pose");
    vs_check_same(ndt.likelihood(Eigen::Vector3d(q.x, q.y, vs_real("z", -5, 5))), s, "3D query");
    vs_out("s", s);
  }
  else
  {
    Pose2d sp(vs_real("sx", -20, 20), vs_real("sy", -20, 20), vs_angle("st"));
    std::vector<Point> in, out;
    double sum = 0, sum_list = 0;
    for (int i = 0; i < 2; ++i)
    {
      in.push_back(Point(vs_real("x", -20, 20), vs_real("y", -20, 20)));
      out.push_back(place(sp, in[i].x, in[i].y));
      sum += ndt.likelihood(Eigen::Vector2d(out[i].x, out[i].y));
      sum_list += ndt.likelihood(Eigen::Vector2d(in[i].x, in[i].y));
    }
    auto query = std::make_shared<ndt_2d::Scan>(7);
    query->setPose(sp);
    query->setPoints(in);
    double s = ndt.likelihood(query);
    vs_check_close(s, sum, 1e-9, "scan: sum over its placed points");
    vs_check_close(ndt.likelihood(in), sum_list, 1e-9, "list: sum over its points");
    vs_check_close(ndt.likelihood(out), sum, 1e-9, "list of placed points");
    query->setPoints({});
    vs_check(ndt.likelihood(query) == 0 && ndt.likelihood(std::vector<Point>()) == 0, "nothing scores 0");
    vs_out("s", s);
  }
  return 0;
}
