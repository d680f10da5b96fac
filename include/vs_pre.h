// Included before every file of /repo (and every harness) in the symbolic build and in the replay build.
// Random draws are inputs: a distribution returns mean + sigma * (an arbitrary value), an index of non-zero weight, ...
#ifndef VS_PRE_H_
#define VS_PRE_H_
#include <random>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <vsym.h>
// Supplied by the harness if it cares (weak default in vsym_common.h)
extern "C" double vs_draw_normal(double mean, double sigma);
extern "C" double vs_draw_uniform(double a, double b);
extern "C" size_t vs_draw_discrete(const double * w, size_t n);
namespace std
{
template <class T = double> class vs_normal_distribution { public: using result_type = T;
  explicit vs_normal_distribution(T m = 0, T s = 1) : m_(m), s_(s) {}
  struct param_type { param_type(T m = 0, T s = 1) : m_(m), s_(s) {} T m_, s_; };
  explicit vs_normal_distribution(const param_type & p) : m_(p.m_), s_(p.s_) {}
  T mean() const { return m_; } T stddev() const { return s_; } void reset() {}
  template <class G> T operator()(G &) { return static_cast<T>(vs_draw_normal(m_, s_)); }
  template <class G> T operator()(G &, const param_type & p) { return static_cast<T>(vs_draw_normal(p.m_, p.s_)); }
private: T m_, s_; };
template <class T = double> class vs_uniform_real_distribution { public: using result_type = T;
  explicit vs_uniform_real_distribution(T a = 0, T b = 1) : a_(a), b_(b) {} void reset() {}
  T a() const { return a_; } T b() const { return b_; }
  template <class G> T operator()(G &) { return static_cast<T>(vs_draw_uniform(a_, b_)); }
private: T a_, b_; };
template <class T = int> class vs_discrete_distribution { public: using result_type = T;
  vs_discrete_distribution() : w_(1, 1.0) {}
  template <class I> vs_discrete_distribution(I b, I e) : w_(b, e) {}
  vs_discrete_distribution(initializer_list<double> l) : w_(l.begin(), l.end()) {}
  void reset() {} T min() const { return 0; } T max() const { return static_cast<T>(w_.size() - 1); }
  template <class G> T operator()(G &) { return static_cast<T>(vs_draw_discrete(w_.data(), w_.size())); }
private: vector<double> w_; };
}
#define normal_distribution vs_normal_distribution
#define uniform_real_distribution vs_uniform_real_distribution
#define discrete_distribution vs_discrete_distribution
#ifdef VSYM
extern "C" double vs_name(double);   // the same value; the encoding may give it a name of its own
// Eigenvalues of a real 2x2 matrix in closed form, in the order Eigen's real Schur form gives them
// (first the larger one if a(0,0) >= a(1,1), else the smaller one);
// the replay build uses Eigen itself.
namespace Eigen
{
template <> class EigenSolver<Matrix2d>
{
public:
  using EigenvalueType = Matrix<std::complex<double>, 2, 1>;
  EigenSolver() {}
  template <class D> explicit EigenSolver(const EigenBase<D> & m, bool = true) { compute(m); }
  template <class D> EigenSolver & compute(const EigenBase<D> & m, bool = true)
  {
    Matrix2d a(m.derived());
    for (int i = 0; i < 4; ++i) a(i) = vs_name(a(i));
    double t = 0.5 * (a(0, 0) + a(1, 1)), p = 0.5 * (a(0, 0) - a(1, 1)), q = p * p + a(0, 1) * a(1, 0);
    if (a(0, 1) == a(1, 0)) q = p * p + a(1, 0) * a(1, 0);
    if (q >= 0) { double z = std::sqrt(q); v_(0) = p >= 0 ? t + z : t - z; v_(1) = p >= 0 ? t - z : t + z; }
    else { double z = std::sqrt(-q); v_(0) = std::complex<double>(t, z); v_(1) = std::complex<double>(t, -z); }
    return *this;
  }
  const EigenvalueType & eigenvalues() const { return v_; }
  ComputationInfo info() const { return Success; }
private: EigenvalueType v_;
};
template <> class SelfAdjointEigenSolver<Matrix2d>
{
public:
  SelfAdjointEigenSolver() {}
  template <class D> explicit SelfAdjointEigenSolver(const EigenBase<D> & m, int = ComputeEigenvectors) { compute(m); }
  template <class D> SelfAdjointEigenSolver & compute(const EigenBase<D> & m, int = ComputeEigenvectors)
  {
    Matrix2d a(m.derived());   // only the lower triangle is used
    for (int i = 0; i < 4; ++i) a(i) = vs_name(a(i));
    double t = 0.5 * (a(0, 0) + a(1, 1)), p = 0.5 * (a(0, 0) - a(1, 1)), b = a(1, 0), z = std::sqrt(p * p + b * b);
    v_(0) = t - z; v_(1) = t + z;
    // eigenvector of the larger one: (p + z, b) or (b, z - p)
    double x = p >= 0 ? p + z : b, y = p >= 0 ? b : z - p, n = std::sqrt(x * x + y * y);
    if (n > 0) { x /= n; y /= n; } else { x = 1; y = 0; }
    e_ << -y, x, x, y;
    return *this;
  }
  template <class D> SelfAdjointEigenSolver & computeDirect(const EigenBase<D> & m, int o = ComputeEigenvectors) { return compute(m, o); }
  const Vector2d & eigenvalues() const { return v_; }
  const Matrix2d & eigenvectors() const { return e_; }
  ComputationInfo info() const { return Success; }
private: Vector2d v_; Matrix2d e_;
};
}
#endif
#endif
