// property: C06
// sources: src/constraint.cpp src/scan.cpp
// cases: 2
// bounds: any two poses within 100 m with any headings; covariance with any correlations (case 0: diagonal and xy, case 1: all six entries), variances in [0.01, 10], determinant at least 1e-6
// outside: poses beyond 100 m, covariances that are nearly singular
#include <vsym_common.h>
#include <ndt_2d/constraint.hpp>
using ndt_2d::Pose2d;

int main()
{
  auto from = std::make_shared<ndt_2d::Scan>(static_cast<size_t>(vs_symint("from_id", 0, 1000000)));
  auto to = std::make_shared<ndt_2d::Scan>(static_cast<size_t>(vs_symint("to_id", 0, 1000000)));
  Pose2d a(vs_real("ax", -100, 100), vs_real("ay", -100, 100), vs_angle("at"));
  Pose2d b(vs_real("bx", -100, 100), vs_real("by", -100, 100), vs_angle("bt"));
  from->setPose(a);
  to->setPose(b);
  from->setPoints({ndt_2d::Point(1, 2)});
  Eigen::Matrix3d cov = Eigen::Matrix3d::Zero();
  for (int i = 0; i < 3; ++i) cov(i, i) = vs_real("var", 0.01, 10);
  cov(0, 1) = cov(1, 0) = vs_real("cxy", -10, 10);
  if (vs_case() == 1)
  {
    cov(0, 2) = cov(2, 0) = vs_real("cxt", -10, 10);
    cov(1, 2) = cov(2, 1) = vs_real("cyt", -10, 10);
  }
  double det = cov(0, 0) * (cov(1, 1) * cov(2, 2) - cov(1, 2) * cov(2, 1)) - cov(0, 1) * (cov(1, 0) * cov(2, 2) - cov(1, 2) * cov(2, 0)) +
    cov(0, 2) * (cov(1, 0) * cov(2, 1) - cov(1, 1) * cov(2, 0));
  vs_assume(det > 1e-6);
  Eigen::Matrix3d given = cov;
  ndt_2d::ConstraintPtr c = ndt_2d::makeConstraint(from, to, cov);
  vs_check(c->begin == from->getId(), "begin");
  vs_check(c->end == to->getId(), "end");
  vs_check(!c->switchable, "not switchable");
  double dx = b.x - a.x, dy = b.y - a.y, cs = std::cos(a.theta), sn = std::sin(a.theta);
  vs_check_close(c->transform(0), cs * dx + sn * dy, 1e-8, "x seen from the first scan");
  vs_check_close(c->transform(1), -sn * dx + cs * dy, 1e-8, "y seen from the first scan");
  vs_check_angle(c->transform(2), b.theta - a.theta, 1e-8, "rotation");
  vs_check_close(a.x + cs * c->transform(0) - sn * c->transform(1), b.x, 1e-8, "composes to the second pose, x");
  vs_check_close(a.y + sn * c->transform(0) + cs * c->transform(1), b.y, 1e-8, "composes to the second pose, y");
  // information * covariance = 1, entry by entry
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
    {
      double s = 0;
      for (int k = 0; k < 3; ++k) s += c->information(i, k) * given(k, j);
      vs_check_close(s, i == j ? 1 : 0, 1e-5, "information is the inverse");
      vs_check_same(cov(i, j), given(i, j), "covariance unchanged");
    }
  vs_check_same(from->getPose().x, a.x, "first scan unchanged");
  vs_check_same(to->getPose().theta, b.theta, "second scan unchanged");
  vs_out("x", c->transform(0));
  vs_out("i00", c->information(0, 0));
  return 0;
}
