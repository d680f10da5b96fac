// property: C17
// sources: src/particle_filter.cpp src/motion_model.cpp src/scan.cpp
// cases: 8
// thorough_cases: 12
// branch_timeout: 0.1
// optional: drawn in proportion to the scores, drawn with equal chances, drawn among the particles, ends
// bounds: filters of (minimum, maximum) 1..2, 2..3, 3..3, 2..4 (thorough: 3..5, 1..6) particles in one to three bins; any scores from 0 to 10 with a sum of at least 0.01; every outcome of every draw among the particles with non-zero weight, over two resamplings; error from 0.1 to 1, quantile 0.5
// outside: more particles
#define VS_OWN_DRAWS
#include "filter_common.h"
static int nx, ny, nt, draws;
static std::vector<double> want;   // empty: equal
static size_t limit;
static const double X[3] = {0.6, 1.1, 0.7}, Y[3] = {0.1, 0.2, -1.7}, T[3] = {0.05, 1, 0.1};
extern "C" double vs_draw_normal(double mean, double)
{
  return mean == 10 ? X[nx++ % 3] : mean == 20 ? Y[ny++ % 3] : mean == 0.5 ? T[nt++ % 3] : mean;
}
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double * w, size_t n)
{
  vs_check(static_cast<size_t>(++draws) <= limit, "ends");
  double s = 0, sw = 0;
  vs_check(want.empty() || want.size() == n, "drawn among the particles");
  for (size_t i = 0; i < n; ++i) { sw += w[i]; if (!want.empty()) s += want[i]; }
  for (size_t i = 0; i < n; ++i)
  {
    if (want.empty()) vs_check_close(w[i] * n, sw, 1e-9 * n, "drawn with equal chances");
    else vs_check_close(w[i] * s, want[i] * sw, 1e-7, "drawn in proportion to the scores");
  }
  size_t k = vs_int("discrete", 0, static_cast<int>(n) - 1);
  vs_assume(w[k] > 0);
  return k;
}

static bool close(double a, double b) { return a - b < 1e-6 && b - a < 1e-6; }

static void resample(ndt_2d::ParticleFilter & f, size_t lo, size_t hi)
{
  auto before = particles(f);
  draws = 0;
  limit = hi;
  f.resample(vs_real("err", 0.1, 1), 0.5);
  auto after = particles(f);
  vs_check(after.size() >= lo, "at least the minimum");
  vs_check(after.size() <= hi, "at most the maximum");
  for (auto & a : after)
  {
    bool known = false;
    for (size_t i = 0; i < before.size(); ++i)
    {
      auto & b = before[i];
      if (close(a.x, b.x) && close(a.y, b.y) && close(a.z, b.z) && close(a.w, b.w) && (want.empty() || want[i] > 0)) { known = true; break; }
    }
    vs_check(known, "each is a copy of one that had some weight");
  }
  check_moments(f, std::vector<double>(after.size(), 1), true);
}

int main()
{
  static const size_t L[6] = {1, 2, 3, 2, 3, 1}, H[6] = {2, 3, 3, 4, 5, 6};
  const size_t lo = L[vs_case() / 2], hi = H[vs_case() / 2];
  auto model = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(lo, hi, model);
  f.init(10, 20, 0.5, 1, 1, 1);
  if (vs_case() & 1)
  {
    double s = 0;
    for (size_t i = 0; i < lo; ++i) { scores.push_back(vs_real("score", 0, 10)); s += scores[i]; }
    vs_assume(s >= 0.01);
    for (size_t i = 0; i < lo; ++i) vs_assume(scores[i] == 0 || scores[i] > 1e-3);
    measure(f);
    want = scores;
    vs_reach("measured");
  }
  resample(f, lo, hi);
  if ((vs_case() & 1) == 0 || lo + hi > 5) return 0;
  // what was measured no longer counts
  want.clear();
  vs_reach("resampled again");
  resample(f, lo, hi);
  return 0;
}
