// Default hooks of the stand-ins; a harness replaces those it drives (vs_weak: overridable).
#ifndef VSYM_COMMON_H_
#define VSYM_COMMON_H_
#include <vsym.h>
#include <cmath>
#include <string>
// Random draws are inputs by default.
#ifndef VS_OWN_DRAWS
extern "C" double vs_draw_normal(double mean, double sigma) { return mean + sigma * vs_real("gauss", -4, 4); }
extern "C" double vs_draw_uniform(double a, double b)
{ double u = vs_real("uniform", 0, 1); vs_assume(u < 1); return a + (b - a) * u; }
extern "C" size_t vs_draw_discrete(const double * w, size_t n)
{
  size_t k = vs_int("discrete", 0, static_cast<int>(n) - 1);
  vs_assume(w[k] > 0);
  return k;
}
#endif
#endif
