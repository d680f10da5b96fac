// property: C18
// sources: src/particle_filter.cpp src/motion_model.cpp src/scan.cpp
// cases: 6
// thorough_cases: 8
// branch_timeout: 0.2
// optional: known particle
// bounds: two and three particles (thorough: four) sharing a bin or apart in x, y or heading, at most 6 to 8 samples; every order of repeated and new bins; every error from 0.1 to 1 with quantiles 0.1, 0.99 and 2.3; resampling twice; bounds not within 1e-6 of an integer
// outside: more particles and bins, bounds at an exact integer
#define VS_OWN_DRAWS
#include "filter_common.h"
static int nx, ny, nt;
static std::vector<int> layout;
static std::vector<P> held;
static double err, z;
static size_t lo, hi;
static std::vector<int> bins;      // occupied so far
static size_t n;                   // drawn so far
static bool only_last;
static const double X[5] = {0.6, 0.9, 1.1, 0.6, 0.6}, Y[5] = {0.1, 0.4, 0.1, -1.7, 0.1}, T[5] = {0.05, 0.2, 0.05, 0.05, 1};
static const int BIN[5] = {0, 0, 1, 2, 3};
extern "C" double vs_draw_normal(double mean, double)
{
  return mean == 10 ? X[layout[nx++]] : mean == 20 ? Y[layout[ny++]] : T[layout[nt++]];
}
extern "C" double vs_draw_uniform(double a, double) { return a; }

static int bin(const P & p)
{
  for (int i = 0; i < 5; ++i)
    if (std::fabs(p.x - X[i]) < 1e-6 && std::fabs(p.y - Y[i]) < 1e-6 && std::fabs(2 * p.z * p.w - std::sin(T[i])) < 1e-6) return BIN[i];
  vs_check(false, "known particle");
  return -1;
}

static bool enough()
{
  if (n >= hi) return true;
  if (n < lo || bins.size() < 2) return false;
  const double k = bins.size() - 1, b = 2 / (9 * k), c = 1 - b + std::sqrt(b) * z;
  const double bound = k / (2 * err) * (c * c * c);
  vs_assume(std::fabs(bound - (n + 1)) > 1e-6);
  return bound < n + 1;
}

extern "C" size_t vs_draw_discrete(const double * w, size_t count)
{
  vs_check(!enough(), "stops as soon as the bound is reached");
  vs_check(count == held.size(), "drawn among the particles");
  (void)w;
  // a bin drawn already (the last such particle), or the next new one
  size_t old = 0, fresh = count;
  for (size_t i = 0; i < count; ++i)
  {
    bool seen = false;
    for (int b : bins) seen |= b == bin(held[i]);
    if (seen) old = i; else if (fresh == count) fresh = i;
  }
  size_t k = bins.empty() ? 0 : old;
  if (!bins.empty() && fresh < count && !only_last && vs_bool("fresh")) k = fresh;
  bool seen = false;
  for (int b : bins) seen |= b == bin(held[k]);
  if (!seen) bins.push_back(bin(held[k]));
  ++n;
  return k;
}

int main()
{
  static const int LAYOUTS[8][4] = {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 2, 3}, {0, 1, 4}, {0, 2, 3, 4}, {0, 1, 2, 4}};
  const int c = vs_case();
  lo = c < 4 ? 2 : c < 6 ? 3 : 4;
  hi = c == 0 ? 6 : c < 6 ? 8 : 9;
  for (size_t i = 0; i < lo; ++i) layout.push_back(LAYOUTS[c][i]);
  auto model = std::make_shared<ndt_2d::MotionModel>(0, 0, 0, 0, 0);
  ndt_2d::ParticleFilter f(lo, hi, model);
  f.init(10, 20, 0.5, 1, 1, 1);
  err = vs_real("err", 0.1, 1);
  static const double Z[3] = {0.1, 0.99, 2.3};
  z = Z[vs_int("z", 0, 2)];
  if (c & 1)
  {
    // the weights do not matter for the bound
    scores = {9, 0.2, 3, 0.1};
    scores.resize(lo);
    measure(f);
  }
  held = particles(f);
  f.resample(err, z);
  vs_check(particles(f).size() == n, "every sample is kept");
  vs_check(enough(), "goes on while the bound is not reached");
  // from scratch
  held = particles(f);
  bins.clear();
  n = 0;
  only_last = true;
  vs_reach("again");
  f.resample(err, z);
  vs_check(particles(f).size() == hi, "the maximum for a single bin");
  return 0;
}
