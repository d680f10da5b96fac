// property: C09
// sources: src/ceres_solver.cpp src/scan.cpp
// cases: 2
// bounds: three optimizations of a graph growing from 2-3 to up to 6 scans and 8 constraints (chain and up to two loop closures, also a second constraint between the same scans), any poses, measurements told apart by value
// outside: larger graphs
// optional: ceres used as it demands
#include "ceres_hooks.h"
#include <ndt_2d/ceres_solver.hpp>
using ndt_2d::Pose2d;

static std::vector<ndt_2d::ScanPtr> scans;
static std::vector<ndt_2d::ConstraintPtr> cons;

static void constraint(size_t a, size_t b)
{
  auto c = std::make_shared<ndt_2d::Constraint>();
  c->begin = a; c->end = b; c->switchable = a + 1 != b;
  c->transform = Eigen::Vector3d(100.0 * cons.size() + vs_real("tx", 1, 2), vs_real("ty", -5, 5), 0.1);
  c->information = Eigen::Matrix3d::Identity();
  cons.push_back(c);
}

static void grow()
{
  size_t k = scans.size();
  scans.push_back(std::make_shared<ndt_2d::Scan>(k));
  double o = 10000.0 * (k + 1);
  scans[k]->setPose(Pose2d(o + vs_real("x", 0, 100), o + 200 + vs_real("y", 0, 100), 0.0625 * k));
  if (k) constraint(k - 1, k);
}

int main()
{
  grow();
  grow();
  if (vs_case()) grow();
  ndt_2d::CeresSolver solver;
  bool usable = true;
  on_solve = [&](ceres::Problem * p, ceres::Solver::Summary * s)
  {
    s->usable = usable;
    vs_check(p->blocks.size() == cons.size(), "as many terms as constraints");
    for (auto & c : cons)
    {
      Pose2d a = scans[c->begin]->getPose(), b = scans[c->end]->getPose();
      const double want[6] = {a.x, a.y, a.theta, b.x, b.y, b.theta};
      int found = 0;
      for (auto & blk : p->blocks)
      {
        bool same = blk->params.size() == 6;
        for (int i = 0; same && i < 6; ++i) same = *blk->params[i] == want[i];
        if (!same) continue;
        double r[3];
        blk->cost->Evaluate(blk->params.data(), r, nullptr);
        double rx = std::cos(a.theta) * (b.x - a.x) + std::sin(a.theta) * (b.y - a.y) - c->transform(0);
        double ry = -std::sin(a.theta) * (b.x - a.x) + std::cos(a.theta) * (b.y - a.y) - c->transform(1);
        if (std::fabs(r[0] - rx) < 1e-3 && std::fabs(r[1] - ry) < 1e-3) ++found;
      }
      vs_check(found == 1, "each constraint once, on its own scans");
    }
  };
  for (int round = 0; round < 3; ++round)
  {
    if (round)
    {
      if (vs_bool("grow")) grow();
      if (vs_bool("loop")) constraint(scans.size() - 1, 0);
      if (round == 2 && vs_bool("again")) constraint(0, 1);
    }
    usable = round == 1 ? vs_bool("usable") : true;
    solver.optimize(cons, scans);
  }
  return 0;
}
