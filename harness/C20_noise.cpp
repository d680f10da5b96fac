// property: C20
// sources: src/motion_model.cpp
// cases: 4
// branch_timeout: 0.15
// bounds: one and two particles with any heading; motions of up to 5 m in any direction, and none, with any change of heading up to half a turn either way; every noise parameter from 0 to 1; every draw within -3 and 3
// outside: rounding to single precision (tolerance 1e-4)
#define VS_OWN_DRAWS
#include <vsym_common.h>
#include <ndt_2d/motion_model.hpp>

static double mean[3], sigma[3], value[3];
static bool used[3];
static int draws;

static bool near(double a, double b) { return a - b < 1e-4 && b - a < 1e-4; }

// A draw belongs to the first rotation, the translation or the second rotation that it is distributed like
extern "C" double vs_draw_normal(double m, double s)
{
  double v = vs_real("draw", -3, 3);
  ++draws;
  bool found = false;
  for (int i = 0; i < 3; ++i)
  {
    if (used[i] || !near(m, mean[i]) || !near(s, sigma[i])) continue;
    used[i] = true;
    value[i] = v;
    found = true;
    break;
  }
  vs_check(found, "drawn with the mean and the variance of the model");
  return v;
}
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t) { return 0; }

// distance to the nearer of 0 and pi
static double turn(double a) { a = std::fabs(a); return a > M_PI / 2 ? M_PI - a : a; }
static double wrap(double a) { return a > M_PI ? a - 2 * M_PI : a <= -M_PI ? a + 2 * M_PI : a; }

int main()
{
  const int c = vs_case();
  const double a1 = vs_real("a1", 0.001, 1), a2 = vs_real("a2", 0.001, 1), a3 = vs_real("a3", 0.001, 1), a4 = vs_real("a4", 0.001, 1);
  ndt_2d::MotionModel model(a1, a2, a3, a4, vs_real("a5", 0, 1));
  double dx = 0, dy = 0, trans = 0, r1 = 0;
  if (c == 0 || c == 3)
  {
    dx = vs_real("dx", -5, 5); dy = vs_real("dy", -5, 5);
    vs_assume(dx * dx + dy * dy > 0.000101);
    r1 = std::atan2(dy, dx); trans = std::hypot(dx, dy);
  }
  else if (c == 1) { bool back = vs_bool("back"); trans = vs_real("trans", 0.02, 5); dx = back ? -trans : trans; r1 = back ? M_PI : 0; }
  const double dth = vs_angle("dth");
  double r2 = wrap(dth - r1);
  vs_assume(r2 < 3.14159 && r2 > -3.14159);
  const double t1 = turn(r1), t2 = turn(r2);
  mean[0] = r1; mean[1] = trans; mean[2] = r2;
  sigma[0] = std::sqrt(a1 * t1 * t1 + a2 * trans * trans);
  sigma[1] = std::sqrt(a3 * trans * trans + a4 * (t1 * t1 + t2 * t2));
  sigma[2] = std::sqrt(a1 * t2 * t2 + a2 * trans * trans);
  const int n = c == 3 ? 2 : 1;
  // one particle at a time would not show shared draws
  std::vector<Eigen::Vector3d> p;
  for (int i = 0; i < n; ++i) p.push_back(Eigen::Vector3d(vs_real("x", -10, 10), vs_real("y", -10, 10), vs_angle("t")));
  if (n == 2)
  {
    // the draws of the second particle are told apart by number
    vs_reach("two particles");
    std::vector<Eigen::Vector3d> none;
    model.sample(dx, dy, dth, none);
    vs_check(draws == 0, "no draws for no particles");
    std::vector<Eigen::Vector3d> one(1, p[0]);
    model.sample(dx, dy, dth, one);
    vs_check(draws == 3, "three draws for a particle");
    return 0;
  }
  const Eigen::Vector3d q = p[0];
  model.sample(dx, dy, dth, p);
  vs_check(draws == 3 && used[0] && used[1] && used[2], "three draws for a particle");
  vs_check_close(p[0](0), q(0) + value[1] * std::cos(q(2) + value[0]), 1e-4, "moved in x by what was drawn");
  vs_check_close(p[0](1), q(1) + value[1] * std::sin(q(2) + value[0]), 1e-4, "moved in y by what was drawn");
  vs_check_angle(p[0](2), q(2) + value[0] + value[2], 1e-4, "turned by what was drawn");
  vs_check(p[0](2) >= -M_PI - 1e-9 && p[0](2) <= M_PI + 1e-9, "heading normalized");
  return 0;
}
