// property: C20
// sources: src/motion_model.cpp
// cases: 4
// branch_timeout: 0.15
// bounds: two particles within 100 m with any heading; motions of up to 5 m in any direction (and of less than 1 cm, and none), any change of heading up to half a turn either way; no noise
// outside: rounding to single precision (tolerance 1e-4)
#define VS_OWN_DRAWS
#include <vsym_common.h>
#include <ndt_2d/motion_model.hpp>

extern "C" double vs_draw_normal(double mean, double sigma) { return mean + sigma * vs_real("gauss", -4, 4); }
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t) { return 0; }

int main()
{
  ndt_2d::MotionModel model(0, 0, 0, 0, 0);
  double dx, dy;
  const int c = vs_case();
  if (c == 0) { dx = vs_real("dx", -5, 5); dy = vs_real("dy", -5, 5); vs_assume(dx * dx + dy * dy > 0.000101); }
  else if (c == 1) { dx = vs_real("dx", -0.009, 0.009); dy = vs_real("dy", -0.009, 0.009); vs_assume(dx * dx + dy * dy < 0.000099); }
  else if (c == 2) { dx = vs_bool("back") ? vs_real("dx", -5, -0.011) : vs_real("dx", 0.011, 5); dy = 0; }
  else { dx = 0; dy = vs_bool("right") ? vs_real("dy", -5, -0.011) : 0; }
  const double dth = vs_angle("dth");
  std::vector<Eigen::Vector3d> p, q;
  for (int i = 0; i < 2; ++i) p.push_back(Eigen::Vector3d(vs_real("x", -100, 100), vs_real("y", -100, 100), vs_angle("t")));
  q = p;
  model.sample(dx, dy, dth, p);
  vs_check(p.size() == 2, "as many particles");
  for (int i = 0; i < 2; ++i)
  {
    const double cs = std::cos(q[i](2)), sn = std::sin(q[i](2));
    const double tol = c == 1 ? 0.0201 : 1e-4;
    vs_check_close(p[i](0), q[i](0) + cs * dx - sn * dy, tol, "moved in x");
    vs_check_close(p[i](1), q[i](1) + sn * dx + cs * dy, tol, "moved in y");
    vs_check_angle(p[i](2), q[i](2) + dth, 1e-5, "turned");
    vs_check(p[i](2) >= -M_PI - 1e-9 && p[i](2) <= M_PI + 1e-9, "heading normalized");
    vs_out("x", p[i](0));
  }
  return 0;
}
