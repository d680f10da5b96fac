// Stand-in for Ceres: records the problem; what solving gives is supplied by the harness through vs_ceres_solve().
#ifndef VS_CERES_H_
#define VS_CERES_H_
#include <Eigen/Core>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
namespace ceres
{
using std::cos; using std::sin; using std::floor; using std::ceil; using std::sqrt; using std::abs; using std::atan2; using std::fmod;
using std::pow; using std::exp; using std::log; using std::hypot;
enum LinearSolverType { DENSE_NORMAL_CHOLESKY, DENSE_QR, SPARSE_NORMAL_CHOLESKY, DENSE_SCHUR, SPARSE_SCHUR, ITERATIVE_SCHUR, CGNR };
enum Ownership { DO_NOT_TAKE_OWNERSHIP, TAKE_OWNERSHIP };
enum TerminationType { CONVERGENCE, NO_CONVERGENCE, FAILURE, USER_SUCCESS, USER_FAILURE };
class LossFunction { public: virtual ~LossFunction() {} };
class TrivialLoss : public LossFunction {};
class HuberLoss : public LossFunction { public: explicit HuberLoss(double) {} };
class CauchyLoss : public LossFunction { public: explicit CauchyLoss(double) {} };
class CostFunction { public: virtual ~CostFunction() {} virtual bool Evaluate(double const * const * p, double * r, double ** j) const = 0; };
template <class F, int NR, int... Ns> class AutoDiffCostFunction : public CostFunction
{
public:
  explicit AutoDiffCostFunction(F * f) : f_(f) {}
  bool Evaluate(double const * const * p, double * r, double **) const override { return eval(p, r, std::make_index_sequence<sizeof...(Ns)>()); }
private:
  template <size_t... I> bool eval(double const * const * p, double * r, std::index_sequence<I...>) const { return (*f_)(p[I]..., r); }
  std::unique_ptr<F> f_;
};
struct VsBlock { CostFunction * cost; LossFunction * loss; std::vector<double *> params; };
using ResidualBlockId = VsBlock *;
// Ceres terminates the process on misuse of the problem; a harness sees this as vs_ceres_fatal()
}
extern void vs_ceres_fatal(const char * what);
namespace ceres
{
class Problem
{
public:
  struct Options { Ownership cost_function_ownership = TAKE_OWNERSHIP, loss_function_ownership = TAKE_OWNERSHIP; bool enable_fast_removal = false; };
  Problem() {}
  explicit Problem(const Options &) {}
  void AddParameterBlock(double * p, int) { add(p); }
  bool HasParameterBlock(const double * p) const { for (auto q : params) if (q == p) return true; return false; }
  template <class... D> ResidualBlockId AddResidualBlock(CostFunction * c, LossFunction * l, double * p0, D... ps)
  { return AddResidualBlock(c, l, std::vector<double *>{p0, ps...}); }
  ResidualBlockId AddResidualBlock(CostFunction * c, LossFunction * l, const std::vector<double *> & ps)
  {
    auto b = std::make_shared<VsBlock>(); b->cost = c; b->loss = l; b->params = ps;
    for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < i; ++j) if (ps[i] == ps[j]) vs_ceres_fatal("duplicate parameter block");
    for (auto p : ps) add(p);
    blocks.push_back(b);
    return b.get();
  }
  void RemoveResidualBlock(ResidualBlockId id)
  { for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i].get() == id) { blocks.erase(blocks.begin() + i); return; } vs_ceres_fatal("residual block not found"); }
  void SetParameterBlockConstant(const double * p)
  { if (!HasParameterBlock(p)) vs_ceres_fatal("parameter block not found"); if (!IsParameterBlockConstant(p)) constant.push_back(p); }
  void SetParameterBlockVariable(double * p)
  { if (!HasParameterBlock(p)) vs_ceres_fatal("parameter block not found");
    for (size_t i = 0; i < constant.size(); ++i) if (constant[i] == p) { constant.erase(constant.begin() + i); return; } }
  bool IsParameterBlockConstant(const double * p) const { for (auto q : constant) if (q == p) return true; return false; }
  int NumResidualBlocks() const { return blocks.size(); }
  int NumParameterBlocks() const { return params.size(); }
  std::vector<std::shared_ptr<VsBlock>> blocks;
  std::vector<double *> params;
  std::vector<const double *> constant;
private:
  void add(double * p) { if (!HasParameterBlock(p)) params.push_back(p); }
};
class Solver
{
public:
  struct Options { int max_num_iterations = 50; LinearSolverType linear_solver_type = SPARSE_NORMAL_CHOLESKY; bool minimizer_progress_to_stdout = false;
    int num_threads = 1; double function_tolerance = 1e-6, gradient_tolerance = 1e-10, parameter_tolerance = 1e-8; double max_solver_time_in_seconds = 1e9; };
  struct Summary { bool usable = false; TerminationType termination_type = FAILURE; double initial_cost = -1, final_cost = -1;
    bool IsSolutionUsable() const { return usable; } std::string FullReport() const { return ""; } std::string BriefReport() const { return ""; } };
};
}
// Supplied by the harness: may write the non-constant parameters and must set summary->usable
extern void vs_ceres_solve(ceres::Problem * problem, ceres::Solver::Summary * summary);
namespace ceres
{
inline void Solve(const Solver::Options &, Problem * p, Solver::Summary * s) { vs_ceres_solve(p, s); }
}
#endif
