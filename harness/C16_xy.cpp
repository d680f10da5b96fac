// property: C16
// sources: src/particle_filter.cpp src/motion_model.cpp src/scan.cpp
// cases: 2
// branch_timeout: 0.1
// bounds: two and three particles anywhere within 50 m with fixed headings; any scores from 0 to 10 of which one at least is 1e-3; then a second measurement with other scores
// outside: more particles
#define VS_OWN_DRAWS
#include "filter_common.h"
static int ndraw;
extern "C" double vs_draw_normal(double mean, double)
{
  // the heading is drawn around 0.5
  return mean == 0.5 ? 0.5 + 0.25 * (ndraw++) : vs_real("draw", -50, 50);
}
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t) { return 0; }

int main()
{
  const int n = vs_case() + 2;
  auto model = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(n, n, model);
  f.init(1, 2, 0.5, 3, 3, 0.1);
  check_moments(f, std::vector<double>(n, 1), false);
  for (int k = 0; k < 2; ++k)
  {
    scores.clear();
    for (int i = 0; i < n; ++i) scores.push_back(i == k ? vs_real("sure", 1e-3, 10) : vs_real("score", 0, 10));
    measure(f);
    check_moments(f, scores, false);
  }
  vs_out("mx", f.getMean()(0));
  return 0;
}
