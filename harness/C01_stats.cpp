// property: C01
// sources: src/ndt_model.cpp src/scan.cpp
// cases: 4
// branch_timeout: 0.1
// bounds: 3 to 6 points (case number + 3), every coordinate in [-50, 50] m, computed once at the end and once more
// outside: more than 6 points (the update is the same step for every point), floating-point rounding (exact real arithmetic, tolerance 1e-7)
#include <vsym_common.h>
#include <ndt_2d/ndt_model.hpp>

int main()
{
  const int n = 3 + vs_case();
  ndt_2d::Cell c;
  double x[6], y[6], mx = 0, my = 0;
  for (int i = 0; i < n; ++i)
  {
    x[i] = vs_real("x", -50, 50);
    y[i] = vs_real("y", -50, 50);
    c.addPoint(Eigen::Vector2d(x[i], y[i]));
    mx += x[i] / n;
    my += y[i] / n;
  }
  c.compute();
  c.compute();
  vs_check(c.n == n, "count");
  vs_check_close(c.mean(0), mx, 1e-7, "mean x");
  vs_check_close(c.mean(1), my, 1e-7, "mean y");
  double sxx = 0, sxy = 0, syy = 0;
  for (int i = 0; i < n; ++i)
  {
    sxx += (x[i] - mx) * (x[i] - mx) / (n - 1);
    sxy += (x[i] - mx) * (y[i] - my) / (n - 1);
    syy += (y[i] - my) * (y[i] - my) / (n - 1);
  }
  vs_check_close(c.covariance(0, 0), sxx, 1e-7, "covariance xx");
  vs_check_close(c.covariance(0, 1), sxy, 1e-7, "covariance xy");
  vs_check_close(c.covariance(1, 0), sxy, 1e-7, "covariance yx");
  vs_check_close(c.covariance(1, 1), syy, 1e-7, "covariance yy");
  vs_out("mx", c.mean(0));
  vs_out("sxx", c.covariance(0, 0));
  vs_out("sxy", c.covariance(0, 1));
  return 0;
}
