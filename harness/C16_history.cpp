// property: C16
// sources: src/particle_filter.cpp src/motion_model.cpp src/scan.cpp
// cases: 6
// branch_timeout: 0.1
// bounds: every sequence of three operations (init, motion, measurement with scores, measurement that matches nowhere, resampling) of a filter of two to three particles, from construction and from init; one particle anywhere within 50 m in x, the others fixed; one free choice per resampling; scores of 4:1:2
// outside: longer sequences; symbolic scores and headings (other parts of this check)
#define VS_OWN_DRAWS
#include "filter_common.h"
static int ndraw;
static int ndiscrete;
extern "C" double vs_draw_normal(double mean, double sigma)
{
  if (sigma == 0) return mean;
  if (mean == 0.5) return 0.5 + 0.25 * (ndraw++ % 3);
  if (mean == 2) return 3 - 4 * (ndraw % 3);
  return ndraw == 0 ? 7 : ndraw == 1 ? vs_real("draw", -50, 6) : -60 - ndraw;
}
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double * w, size_t n)
{
  double s = 0;
  for (size_t i = 0; i < n; ++i)
  {
    vs_check(std::isfinite(w[i]) && w[i] >= 0, "weights are not negative");
    s += w[i];
  }
  vs_check(s > 0, "some weight is left");
  const size_t k = ndiscrete++ % 3 == 0 ? vs_int("discrete", 0, static_cast<int>(n) - 1) : n - 1;
  vs_check(w[k] > 0, "every particle has some weight");
  return k;
}

static void check_some_moments(ndt_2d::ParticleFilter & f)
{
  const Eigen::Vector3d m = f.getMean();
  const Eigen::Matrix3d c = f.getCovariance();
  for (int i = 0; i < 3; ++i)
  {
    vs_check(std::isfinite(m(i)), "finite mean");
    for (int j = 0; j < 3; ++j) vs_check(std::isfinite(c(i, j)), "finite covariance");
  }
  bool lo[2] = {false, false}, hi[2] = {false, false};
  for (auto & p : particles(f))
  {
    lo[0] |= p.x <= m(0) + 1e-6; hi[0] |= p.x >= m(0) - 1e-6;
    lo[1] |= p.y <= m(1) + 1e-6; hi[1] |= p.y >= m(1) - 1e-6;
  }
  vs_check(lo[0] && hi[0] && lo[1] && hi[1], "mean among the particles");
}

int main()
{
  auto model = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(2, 3, model);
  std::vector<double> w(2, 1);
  check_moments(f, w, true);
  if (vs_case() == 5)
  {
    f.init(1, 2, 0.5, 3, 3, 0.1);
    check_moments(f, w, true);
  }
  for (int step = 0; step < 3; ++step)
  {
    const int op = step == 0 && vs_case() < 5 ? vs_case() : vs_int("op", 0, 4);
    const size_t n = particles(f).size();
    if (op == 0) { f.init(1, 2, 0.5, 3, 3, 0.1); w.assign(n, 1); }
    else if (op == 1) f.update(0.5, 0.25, 0.125);
    else if (op == 2)
    {
      scores = {4, 1};
      if (n == 3) scores.push_back(2);
      measure(f);
      w = scores;
    }
    else if (op == 3) { scores.assign(n, 0); measure(f); w.clear(); }
    else { f.resample(0.5, 0.1); w.assign(particles(f).size(), 1); }
    if (w.empty()) { vs_reach("nothing matched"); check_some_moments(f); }
    else check_moments(f, w, true);
  }
  return 0;
}
