// property: C21
// sources: src/particle_filter.cpp src/motion_model.cpp src/scan.cpp
// cases: 5
// branch_timeout: 0.15
// optional: drawn around the pose with the deviations given
// bounds: filters of one to three particles, as constructed, or after an earlier init, measurement, motion and resampling; every pose within 50 m with any heading, every deviation from 0.01 to 5, every draw of positions, and of the first heading, up to one and a half turns
// outside: more particles; rounding to single precision (tolerance 1e-4)
#define VS_OWN_DRAWS
#include "filter_common.h"
static double mean[3], sigma[3];
static std::vector<double> drawn[3];
static bool before;
static bool near(double a, double b) { return a - b < 1e-4 && b - a < 1e-4; }
extern "C" double vs_draw_normal(double m, double s)
{
  if (before) return m + s * (static_cast<int>(drawn[0].size()) % 2) + 1;
  for (int i = 0; i < 3; ++i)
  {
    if (!near(m, mean[i]) || !near(s, sigma[i])) continue;
    const double v = i < 2 ? vs_real("draw", -60, 60) : !drawn[2].empty() ? 0.3 - 4.5 * drawn[2].size() : vs_angle("heading") + 2 * M_PI * vs_int("turns", -1, 1);
    drawn[i].push_back(v);
    return v;
  }
  vs_check(false, "drawn around the pose with the deviations given");
  return 0;
}
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t n) { return n - 1; }

int main()
{
  const int c = vs_case();
  const size_t lo = c == 0 ? 1 : 2, hi = c < 3 ? 2 : 3;
  auto model = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(lo, hi, model);
  if (c >= 2)
  {
    before = true;
    f.init(5, 6, 0.25, 1, 2, 0.3);
    f.update(0.5, 0, 0.125);
    scores.assign(lo, c == 2 ? 0 : 3);
    scores[0] = 1;
    measure(f);
    if (c >= 3) f.resample(0.5, 0.1);
    before = false;
  }
  const size_t n = particles(f).size();
  vs_check(n >= lo && n <= hi, "number of particles");
  mean[0] = vs_real("x", -50, 50); mean[1] = vs_real("y", -50, 50); mean[2] = vs_angle("theta");
  vs_assume(std::fabs(mean[0] - mean[1]) > 0.01 && std::fabs(mean[0] - mean[2]) > 0.01 && std::fabs(mean[1] - mean[2]) > 0.01);
  for (int i = 0; i < 3; ++i) sigma[i] = vs_real("sigma", 0.01, 5);
  f.init(mean[0], mean[1], mean[2], sigma[0], sigma[1], sigma[2]);
  auto p = particles(f);
  vs_check(p.size() == n, "as many particles as before");
  vs_check(drawn[0].size() == n && drawn[1].size() == n && drawn[2].size() == n, "every coordinate of every particle is drawn");
  for (size_t i = 0; i < n; ++i)
  {
    vs_check_close(p[i].x, drawn[0][i], 1e-4, "at the x drawn");
    vs_check_close(p[i].y, drawn[1][i], 1e-4, "at the y drawn");
    vs_check_close(p[i].z * p[i].z + p[i].w * p[i].w, 1, 1e-6, "unit quaternion");
    vs_check_close(2 * p[i].z * p[i].w, std::sin(drawn[2][i]), 1e-4, "with the heading drawn");
    vs_check_close(p[i].w * p[i].w - p[i].z * p[i].z, std::cos(drawn[2][i]), 1e-4, "with the heading drawn");
  }
  check_moments(f, std::vector<double>(n, 1), false);
  scores.assign(n, 1);
  measure(f);
  for (auto & s : scored) vs_check(s.theta >= -M_PI - 1e-6 && s.theta <= M_PI + 1e-6, "heading normalized");
  return 0;
}
