// property: C07
// sources: src/ceres_solver.cpp src/constraint.cpp src/scan.cpp
// cases: 3
// bounds: two scans at any poses within 50 m, headings any angle plus 0, 1 or -1 full turns; measurement within 50 m and any rotation; information any symmetric positive definite matrix with Cholesky factors in [0.1, 30] (diagonal) and [-30, 30] (off-diagonal); cases: general, made from the poses themselves, same headings with one measurement
// outside: yaw errors within 1e-6 of half a turn; the derivatives that Ceres computes from the same code
// optional: ceres used as it demands
#include "ceres_hooks.h"
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/constraint.hpp>
using ndt_2d::Pose2d;

int main()
{
  const int k = vs_case();
  double at = vs_angle("at"), bt = vs_angle("bt");
  if (k != 1) { at += 2 * M_PI * vs_int("aturns", -1, 1); bt += 2 * M_PI * vs_int("bturns", -1, 1); }
  Pose2d a(vs_real("ax", -50, 50), vs_real("ay", -50, 50), at), b(vs_real("bx", -50, 50), vs_real("by", -50, 50), bt);
  std::vector<ndt_2d::ScanPtr> scans = {std::make_shared<ndt_2d::Scan>(0), std::make_shared<ndt_2d::Scan>(1)};
  scans[0]->setPose(a);
  scans[1]->setPose(b);
  ndt_2d::ConstraintPtr c;
  double l[6];
  Eigen::Matrix3d w = Eigen::Matrix3d::Identity();
  if (k != 1)
  {
    for (int i = 0; i < 6; ++i) l[i] = i < 3 ? vs_real("diag", 0.1, 30) : k == 2 ? 0.0 : vs_real("off", -30, 30);
    Eigen::Matrix3d m;
    m << l[0], 0, 0, l[3], l[1], 0, l[4], l[5], l[2];
    w = m * m.transpose();
  }
  bool flip = vs_bool("flip");
  if (k == 1)
  {
    Eigen::Matrix3d cov = Eigen::Matrix3d::Identity() * 0.25;
    c = ndt_2d::makeConstraint(scans[flip], scans[!flip], cov);
  }
  else
  {
    c = std::make_shared<ndt_2d::Constraint>();
    c->begin = flip;
    c->end = !flip;
    c->transform = Eigen::Vector3d(vs_real("tx", -50, 50), vs_real("ty", -50, 50), vs_angle("tt"));
    c->information = w;
    c->switchable = false;
  }
  Pose2d p = flip ? b : a, q = flip ? a : b;
  bool solved = false;
  on_solve = [&](ceres::Problem * problem, ceres::Solver::Summary * s)
  {
    solved = true;
    s->usable = true;
    vs_check(problem->blocks.size() == 1, "one term");
    auto & blk = *problem->blocks[0];
    vs_check(blk.loss == nullptr, "plain squared cost");
    double r[3] = {0, 0, 0};
    vs_check(blk.cost->Evaluate(blk.params.data(), r, nullptr), "residual available");
    double cost = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
    if (k == 1)
    {
      vs_check_close(cost, 0, 1e-9, "a fresh constraint costs nothing");
      return;
    }
    double cs = std::cos(p.theta), sn = std::sin(p.theta);
    Eigen::Vector3d e(cs * (q.x - p.x) + sn * (q.y - p.y) - c->transform(0), -sn * (q.x - p.x) + cs * (q.y - p.y) - c->transform(1), 0);
    double d = q.theta - p.theta - c->transform(2);
    while (d >= M_PI) d -= 2 * M_PI;
    while (d < -M_PI) d += 2 * M_PI;
    vs_assume(d < M_PI - 1e-6 && d > -M_PI + 1e-6);
    e(2) = d;
    double want = e.transpose() * w * e;
    vs_check_close(cost, want, 1e-4, "squared Mahalanobis distance");
    vs_out("cost", cost);
  };
  ndt_2d::CeresSolver solver;
  solver.optimize({c}, scans);
  vs_check(solved, "the problem is solved");
  return 0;
}
