// property: C19
// sources:
// cases: 8
// thorough_cases: 14
// branch_timeout: 0.1
// bounds: any 3 poses spanning 3 bins in each coordinate; any 4 poses spanning 6 bins in one coordinate or 3 in one and 2 in another (thorough: 5 poses); each also into a tree that was cleared; bins of 0.5 m, 0.4 m and 0.2671 rad, in two places (thorough: three) up to 2^20 bins away; poses not within 1e-6 bins of a border
// outside: longer sequences, bins beyond 2^30
#include <vsym_common.h>
#include <Eigen/Core>
#include <memory>
#include <vector>
#include <ndt_2d/kd_tree.hpp>

static const double cell[3] = {0.5, 0.4, 0.2671};
static std::vector<int> keys;
static int count;

// a coordinate in one of the bins from..from+bins-1
static double coord(int axis, int from, int bins)
{
  double v = vs_real("v", from > 0 ? from : from - 1, from + bins > 0 ? from + bins : from + bins - 1);
  int k = from > 0 ? from : from - 1;
  while (v >= k + 1) ++k;
  vs_assume(v > k + 1e-6 && v < k + 1 - 1e-6);
  keys.push_back(k < 0 ? k + 1 : k);
  return v * cell[axis];
}

static void insert(ndt_2d::KDTree<double> & tree, const Eigen::Vector3d & at)
{
  Eigen::Vector3d p = at;
  double w = 0.5;
  tree.insert(p, w);
  bool seen = false;
  const size_t n = keys.size() - 3;
  for (size_t j = 0; j < n; j += 3)
    if (keys[j] == keys[n] && keys[j + 1] == keys[n + 1] && keys[j + 2] == keys[n + 2]) seen = true;
  if (!seen) ++count;
  vs_check(tree.getLeafCount() == static_cast<size_t>(count), "one leaf per occupied bin");
}

int main()
{
  const int c = vs_case();
  ndt_2d::KDTree<double> tree(cell[0], cell[1], cell[2], 2);
  vs_check(tree.getLeafCount() == 0, "empty");
  if (c & 1)
  {
    Eigen::Vector3d a(0.1, 0.1, 0.1), b(-3, 7, 0.1);
    double w = 1;
    tree.insert(a, w); tree.insert(b, w);
    vs_check(tree.getLeafCount() == 2, "two bins");
    tree.clear();
    vs_check(tree.getLeafCount() == 0, "cleared");
  }
  if (c < 2 || c == 8)
  {
    const int from = c == 0 ? -1 : c == 1 ? -1048570 : 3;
    for (int i = 0; i < 3; ++i)
    {
      Eigen::Vector3d p;
      for (int k = 0; k < 3; ++k) p(k) = coord(k, from, 3);
      insert(tree, p);
    }
  }
  else
  {
    const int axis = c % 3, other = (axis + 1) % 3, n = c >= 9 ? 5 : 4;
    const bool two = c >= 9 || c < 5;
    for (int i = 0; i < n; ++i)
    {
      Eigen::Vector3d p;
      for (int k = 0; k < 3; ++k)
      {
        if (k == axis) p(k) = coord(k, two ? -1 : -2, two ? 3 : 6);
        else if (k == other && two) p(k) = coord(k, 5, 2);
        else { p(k) = 0; keys.push_back(0); }
      }
      insert(tree, p);
    }
  }
  vs_out("n", count);
  return 0;
}
