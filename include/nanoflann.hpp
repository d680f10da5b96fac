// Stand-in for nanoflann's documented contract: radiusSearch() with an L2 metric takes the SQUARED radius and
// returns every point with a squared distance below it, with that squared distance, sorted if asked (the default).
#ifndef VS_NANOFLANN_H_
#define VS_NANOFLANN_H_
#include <cstddef>
#include <utility>
#include <vector>
namespace nanoflann
{
struct SearchParams { SearchParams(int checks = 32, float eps = 0, bool s = true) : sorted(s) { (void)checks; (void)eps; } bool sorted; };
struct SearchParameters { SearchParameters(float eps = 0, bool s = true) : sorted(s) { (void)eps; } bool sorted; };
struct KDTreeSingleIndexAdaptorParams { KDTreeSingleIndexAdaptorParams(size_t n = 10) { (void)n; } };
template <class I = size_t, class D = double> struct ResultItem { I first; D second; };
template <class T, class A, class D = T> struct L2_Simple_Adaptor { using Elem = T; using Dist = D; using Source = A; };
template <class T, class A, class D = T> struct L2_Adaptor { using Elem = T; using Dist = D; using Source = A; };
template <class Metric, class Source, int DIM = -1, class Index = unsigned int>
class KDTreeSingleIndexAdaptor
{
public:
  KDTreeSingleIndexAdaptor(int, const Source & s, const KDTreeSingleIndexAdaptorParams & = KDTreeSingleIndexAdaptorParams()) : src_(s) {}
  void buildIndex()
  {
    n_ = src_.kdtree_get_point_count();
    pts_.clear();
    for (size_t i = 0; i < n_; ++i) for (int d = 0; d < DIM; ++d) pts_.push_back(src_.kdtree_get_pt(i, d));
    built_ = true;
  }
  template <class Match, class Par> size_t radiusSearch(const double * q, const double & radius, std::vector<Match> & out, const Par & par) const
  {
    out.clear();
    if (!built_) return 0;
    for (size_t i = 0; i < n_; ++i)
    {
      double d2 = 0;
      for (int d = 0; d < DIM; ++d) { double e = q[d] - pts_[i * DIM + d]; d2 += e * e; }
      if (d2 < radius)
      {
        Match m; m.first = i; m.second = d2;
        size_t at = out.size();
        if (par.sorted) while (at > 0 && d2 < out[at - 1].second) --at;
        out.insert(out.begin() + at, m);
      }
    }
    return out.size();
  }
  template <class Match> size_t radiusSearch(const double * q, const double & radius, std::vector<Match> & out) const
  { return radiusSearch(q, radius, out, SearchParams()); }
private:
  const Source & src_; size_t n_ = 0; bool built_ = false; std::vector<double> pts_;
};
}
#endif
