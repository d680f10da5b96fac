// What the stand-in for Ceres asks for, with a "solver" given by the harness as a function.
#ifndef CERES_HOOKS_H_
#define CERES_HOOKS_H_
#include <vsym_common.h>
#include <functional>
#include <ceres/ceres.h>
static std::function<void(ceres::Problem *, ceres::Solver::Summary *)> on_solve;
void vs_ceres_solve(ceres::Problem * p, ceres::Solver::Summary * s) { on_solve(p, s); }
void vs_ceres_fatal(const char *) { vs_check(false, "ceres used as it demands"); }
#endif
