// property: C08
// sources: src/ceres_solver.cpp src/scan.cpp
// cases: 4
// bounds: a graph of 2 or 3 scans (chain plus one loop, or no constraint at all), grown to 3 or 4, optimized twice with poses changed in between; poses free, what the solver computes free, each run usable or not
// outside: larger graphs, the numerics of Ceres itself
// optional: ceres used as it demands
#include "ceres_hooks.h"
#include <ndt_2d/ceres_solver.hpp>
using ndt_2d::Pose2d;

static std::vector<ndt_2d::ScanPtr> scans;
static std::vector<ndt_2d::ConstraintPtr> cons;

static Pose2d pose(size_t i)
{
  // values of different scans and components never mix
  double o = 1000.0 * (3 * i + 1);
  return Pose2d(o + vs_real("x", 0, 100), o + 1000 + vs_real("y", 0, 100), o + 2000 + vs_real("t", 0, 3));
}
static void constraint(size_t a, size_t b)
{
  auto c = std::make_shared<ndt_2d::Constraint>();
  c->begin = a; c->end = b; c->switchable = false;
  c->transform = Eigen::Vector3d(1, 2, 0.5);
  c->information = Eigen::Matrix3d::Identity();
  cons.push_back(c);
}
static double comp(const Pose2d & p, int c) { return c == 0 ? p.x : c == 1 ? p.y : p.theta; }

int main()
{
  const bool linked = vs_case() < 3;
  const size_t n = vs_case() == 1 ? 3 : vs_case() == 3 ? 1 : 2;
  ndt_2d::CeresSolver solver;
  {
    std::vector<ndt_2d::ScanPtr> none;
    on_solve = [](ceres::Problem *, ceres::Solver::Summary * s) { s->usable = true; };
    if (vs_case() == 0) vs_check(!solver.optimize({}, none), "empty graph refused");
  }
  for (size_t i = 0; i < n; ++i)
  {
    scans.push_back(std::make_shared<ndt_2d::Scan>(i));
    scans[i]->setPose(pose(i));
    if (i && linked) constraint(i - 1, i);
  }
  std::vector<double> result;
  bool usable = false, solved = false;
  on_solve = [&](ceres::Problem * p, ceres::Solver::Summary * s)
  {
    solved = true;
    usable = s->usable = vs_bool("usable");
    for (double * v : p->params)
    {
      // whose parameter is it?
      for (size_t i = 0; i < scans.size(); ++i)
        for (int c = 0; c < 3; ++c)
          if (result[3 * i + c] < 0 && *v == comp(scans[i]->getPose(), c))
          {
            if (!p->IsParameterBlockConstant(v)) *v = vs_real("new", 0, 1);
            result[3 * i + c] = *v;
            goto next;
          }
      vs_check(false, "starts from the current poses");
      next:;
    }
    vs_reach("starts from the current poses");
  };
  for (int round = 0; round < 2; ++round)
  {
    std::vector<Pose2d> before;
    for (auto & s : scans) before.push_back(s->getPose());
    result.assign(3 * scans.size(), -1.0);
    solved = false;
    bool ok = solver.optimize(cons, scans);
    vs_check(solved, "problem solved");
    vs_check(ok == usable, "reports success or failure");
    for (size_t i = 0; i < scans.size(); ++i)
    {
      Pose2d now = scans[i]->getPose();
      vs_check(scans[i]->getId() == i, "ids stay");
      for (int c = 0; c < 3; ++c)
      {
        if (i == 0) vs_check_same(comp(now, c), comp(before[i], c), "first scan fixed");
        else if (!ok) vs_check_same(comp(now, c), comp(before[i], c), "failure changes nothing");
        else if (linked) vs_check_same(comp(now, c), result[3 * i + c], "each scan gets its own result");
      }
    }
    // move some poses, grow the graph
    if (linked)
    {
      size_t k = scans.size();
      for (size_t i = 1; i < k; ++i) scans[i]->setPose(pose(i));
      if (vs_bool("grow"))
      {
        scans.push_back(std::make_shared<ndt_2d::Scan>(k));
        scans[k]->setPose(pose(k));
        constraint(k - 1, k);
        constraint(k, 0);
      }
      if (vs_case() == 2) scans[0]->setPose(pose(0));
    }
  }
  return 0;
}
