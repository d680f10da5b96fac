// property: C16
// sources: src/particle_filter.cpp src/motion_model.cpp src/scan.cpp
// cases: 4
// branch_timeout: 0.1
// bounds: mean heading of two particles of any headings (not opposite to each other); mean and variance of three particles, one of any heading, the others at nine angles to it; equal weights and weights of 3:1:1
// outside: more particles
#define VS_OWN_DRAWS
#include "filter_common.h"
static int ndraw;
static double first;
extern "C" double vs_draw_normal(double mean, double)
{
  if (mean != 0.5) return mean;
  const int i = ndraw++;
  if (vs_case() < 2) return vs_angle("t");
  if (i == 0) first = vs_angle("t");
  return i == 0 ? first : first - 2.6 + 0.65 * vs_int("k", 0, 8);
}
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t) { return 0; }

int main()
{
  const int n = vs_case() < 2 ? 2 : 3;
  auto model = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(n, n, model);
  f.init(1, 2, 0.5, 0, 0, 0.1);
  std::vector<double> w(n, 1);
  if (vs_case() & 1)
  {
    w[0] = 3;
    scores = w;
    measure(f);
  }
  auto p = particles(f);
  double sn = 0, cs = 0;
  for (int i = 0; i < n; ++i) { sn += w[i] * 2 * p[i].z * p[i].w; cs += w[i] * (p[i].w * p[i].w - p[i].z * p[i].z); }
  vs_assume(sn * sn + cs * cs > 1e-4);
  check_moments(f, w, true, vs_case() >= 2);
  return 0;
}
