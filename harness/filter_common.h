// A particle filter with a scan matcher whose scores the harness chooses.
#ifndef FILTER_COMMON_H_
#define FILTER_COMMON_H_
#include <vsym_common.h>
#include <vector>
#include <ndt_2d/particle_filter.hpp>
using ndt_2d::Point;
using ndt_2d::Pose2d;

struct P { double x, y, z, w; };   // position and quaternion of a particle

static std::vector<double> scores;
static std::vector<Pose2d> scored;

class Matcher : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ndt_2d::ScanPtr>::const_iterator &, const std::vector<ndt_2d::ScanPtr>::const_iterator &) override {}
  double matchScan(const ndt_2d::ScanPtr &, Pose2d &, Eigen::Matrix3d &) const override { return 0; }
  double scoreScan(const ndt_2d::ScanPtr &) const override { return 0; }
  double scorePoints(const std::vector<Point> & points, const Pose2d & pose) const override
  {
    vs_check(points.size() == 2 && points[0].x == 0.5 && points[1].y == -1.5, "the scan's points are scored");
    scored.push_back(pose);
    vs_check(scored.size() <= scores.size(), "one score per particle");
    return -scores[scored.size() - 1];
  }
  void reset() override {}
};

static std::vector<P> particles(ndt_2d::ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray msg;
  f.getMsg(msg);
  std::vector<P> out;
  for (auto & p : msg.poses)
  {
    vs_check(p.position.z == 0 && p.orientation.x == 0 && p.orientation.y == 0, "poses in the plane");
    out.push_back({p.position.x, p.position.y, p.orientation.z, p.orientation.w});
  }
  return out;
}

static void measure(ndt_2d::ParticleFilter & f)
{
  auto before = particles(f);
  auto scan = std::make_shared<ndt_2d::Scan>(3);
  std::vector<Point> pts = {Point(0.5, 1), Point(2, -1.5)};
  scan->setPoints(pts);
  scan->setPose(Pose2d(77, 78, 1));
  ndt_2d::ScanMatcherPtr m = std::make_shared<Matcher>();
  scored.clear();
  f.measure(m, scan);
  vs_check(scored.size() == before.size(), "one score per particle");
  for (size_t i = 0; i < scored.size(); ++i)
  {
    vs_check_close(scored[i].x, before[i].x, 1e-9, "scored at the particle's x");
    vs_check_close(scored[i].y, before[i].y, 1e-9, "scored at the particle's y");
    vs_check_close(std::sin(scored[i].theta), 2 * before[i].z * before[i].w, 1e-9, "scored at the particle's heading");
    vs_check_close(std::cos(scored[i].theta), before[i].w * before[i].w - before[i].z * before[i].z, 1e-9, "scored at the particle's heading");
  }
}

// The moments must be those of the particles with these weights (of any sum)
static void check_moments(ndt_2d::ParticleFilter & f, const std::vector<double> & w, bool heading, bool spread = true)
{
  auto p = particles(f);
  vs_check(p.size() == w.size(), "number of particles");
  double s = 0, mx = 0, my = 0, sn = 0, cs = 0;
  for (size_t i = 0; i < p.size(); ++i) s += w[i];
  for (size_t i = 0; i < p.size(); ++i)
  {
    const double v = w[i] / s;
    mx += v * p[i].x; my += v * p[i].y; sn += v * 2 * p[i].z * p[i].w; cs += v * (p[i].w * p[i].w - p[i].z * p[i].z);
  }
  const Eigen::Vector3d m = f.getMean();
  const Eigen::Matrix3d c = f.getCovariance();
  vs_check_close(m(0), mx, 1e-6, "mean x");
  vs_check_close(m(1), my, 1e-6, "mean y");
  double xx = 0, xy = 0, yy = 0;
  for (size_t i = 0; i < p.size(); ++i)
  {
    const double v = w[i] / s;
    xx += v * (p[i].x - mx) * (p[i].x - mx); xy += v * (p[i].x - mx) * (p[i].y - my); yy += v * (p[i].y - my) * (p[i].y - my);
  }
  vs_check_close(c(0, 0), xx, 1e-5, "covariance xx");
  vs_check_close(c(0, 1), xy, 1e-5, "covariance xy");
  vs_check_close(c(1, 0), xy, 1e-5, "covariance yx");
  vs_check_close(c(1, 1), yy, 1e-5, "covariance yy");
  vs_check(c(0, 2) == 0 && c(1, 2) == 0 && c(2, 0) == 0 && c(2, 1) == 0, "no covariance with the heading");
  if (!heading) return;
  // circular mean: the direction of the resultant
  const double r = std::sqrt(sn * sn + cs * cs);
  vs_check_close(r * std::cos(m(2)), cs, 1e-6, "mean heading");
  vs_check_close(r * std::sin(m(2)), sn, 1e-6, "mean heading");
  if (!spread) return;
  double tt = 0;
  for (size_t i = 0; i < p.size(); ++i)
  {
    double d = 2 * std::atan2(p[i].z, p[i].w) - m(2);
    while (d > M_PI) d -= 2 * M_PI;
    while (d < -M_PI) d += 2 * M_PI;
    tt += w[i] / s * d * d;
  }
  vs_check_close(c(2, 2), tt, 1e-6, "variance of the heading, the short way round");
}
#endif
