// property: C01
// sources: src/ndt_model.cpp src/scan.cpp
// cases: 3
// branch_timeout: 0.15
// bounds: up to 8 points; the first three form a right angle (legs a, b in [0.1, 9], anywhere), the others are free on a line; computed after any subset of the additions
// outside: more than 8 points, floating-point rounding
#include <vsym_common.h>
#include <ndt_2d/ndt_model.hpp>

int main()
{
  const int k = vs_case();
  const int n = k == 0 ? 4 : k == 1 ? 5 : 8;
  ndt_2d::Cell c;
  double ox = vs_real("ox", -20, 20), oy = vs_real("oy", -20, 20), a = vs_real("a", 0.1, 9), b = vs_real("b", 0.1, 9);
  double x[8], y[8];
  for (int i = 0; i < n; ++i)
  {
    x[i] = ox + (i % 3 == 1 ? a : 0) + (i > 2 ? 0.25 * i : 0);
    y[i] = oy + (i % 3 == 2 ? b : 0) - (i > 2 ? 0.125 * i : 0);
    c.addPoint(Eigen::Vector2d(x[i], y[i]));
    bool last = i == n - 1;
    // computing in between must not matter
    if (!last && (k == 2 ? i == 4 : vs_bool("compute"))) c.compute();
  }
  c.compute();
  double mx = 0, my = 0, sxx = 0, sxy = 0, syy = 0;
  for (int i = 0; i < n; ++i) { mx += x[i] / n; my += y[i] / n; }
  for (int i = 0; i < n; ++i)
  {
    sxx += (x[i] - mx) * (x[i] - mx) / (n - 1);
    sxy += (x[i] - mx) * (y[i] - my) / (n - 1);
    syy += (y[i] - my) * (y[i] - my) / (n - 1);
  }
  vs_check(c.n == n, "count");
  vs_check_close(c.mean(0), mx, 1e-7, "mean x");
  vs_check_close(c.mean(1), my, 1e-7, "mean y");
  vs_check_close(c.covariance(0, 0), sxx, 1e-7, "covariance xx");
  vs_check_close(c.covariance(0, 1), sxy, 1e-7, "covariance xy");
  vs_check_close(c.covariance(1, 0), sxy, 1e-7, "covariance yx");
  vs_check_close(c.covariance(1, 1), syy, 1e-7, "covariance yy");
  vs_out("syy", c.covariance(1, 1));
  return 0;
}
