// property: C31
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 7
// branch_timeout: 0.1
// defines: STEPS=5
// thorough_defines: STEPS=6
// bounds: maps growing to five (thorough: six) scans, with the loop closing thread having a turn at various moments; rolling windows of 1 and 2, candidate limits of 1, 2 and 3, search distances that leave out some scans; for every candidate any score (in four of the cases every double: NaN, infinities, any size; otherwise from -2 to 1); scores of ordinary matches that are all the same, any between -0.75 and -0.25, NaN or infinite now and then; scans without points as candidates and as the scans that are examined
// outside: longer maps; distances within rounding of the search distance; which neighbours of a candidate are matched along with it
#include "mapper_common.h"
#include <algorithm>

struct Event { size_t scan, begin; double score; bool had; std::vector<size_t> map; Pose2d at; };
static std::vector<Event> events;
static Pose2d correction(0.0625, -0.03125, 0.015625);
static double local_score = -0.5;

int main()
{
  const int c = vs_case();
  set.rolling = c == 1 ? 2 : 1;
  set.limit = c == 2 ? 1 : c == 3 ? 2 : 3;
  set.search = c == 3 ? 1.75 : 10;
  double lo = -0.5, hi = -0.5;
  on_match = [&](const Recorder & m, const ScanPtr & s, Pose2d & p, Eigen::Matrix3d & cov)
  {
    cov << 2, 0.5, 0, 0.5, 1, 0, 0, 0, 4;
    if (m.name == "local_scan_matcher") return local_score;
    Event e;
    e.scan = s->getId();
    e.score = c == 0 || c == 4 || c == 6 ? vs_real("score", -2, 1) : vs_any("score");
    e.at = s->getPose();
    for (auto & k : m.map) e.map.push_back(k->getId());
    events.push_back(e);
    p = correction;
    return e.score;
  };
  auto node = start_node();
  // the model
  std::vector<Pose2d> poses;
  std::vector<char> empty;
  struct Link { size_t begin, end; Pose2d rel; };
  std::vector<Link> loops;
  size_t next = set.rolling + 1;
  Pose2d robot;
  auto feed = [&](int i)
  {
    if (c == 5) local_score = i == 2 ? std::numeric_limits<double>::quiet_NaN() : i == 3 ? -std::numeric_limits<double>::infinity() : -0.5;
    if (c == 4 && (i == 1 || i == STEPS - 1))
    {
      local_score = vs_real("local", -0.75, -0.25);
      lo = -0.75;
      hi = -0.25;
    }
    const bool none = (c == 3 && i == 1) || (c == 5 && i == 1) || (c == 6 && (i == 1 || i == 3));
    give_scan(half(0.75 * i, 0, 0), none ? 0 : 1);
    poses.push_back(Pose2d(0.75 * i, 0, 0));
    empty.push_back(none);
  };
  auto verify = [&]()
  {
    size_t n = 0;
    for (; next < poses.size(); ++next)
    {
      std::vector<std::pair<double, size_t>> candidates;
      for (size_t k = 0; k < next - set.rolling; ++k)
      {
        const double dx = poses[k].x - poses[next].x, dy = poses[k].y - poses[next].y, d2 = dx * dx + dy * dy;
        if (d2 < set.search * set.search) candidates.push_back({d2, k});
      }
      std::sort(candidates.begin(), candidates.end());
      int limit = set.limit;
      for (auto & k : candidates)
      {
        if (empty[k.second]) { vs_reach("without points"); continue; }
        if (limit-- == 0) { vs_reach("limit"); break; }
        vs_check(n < events.size(), "every scan is examined");
        const Event & e = events[n++];
        vs_check(e.scan == next, "every scan is examined, in order");
        bool there = false, old = true;
        for (size_t m : e.map) { if (m == k.second) there = true; if (m > k.second + 1 || m + 1 < k.second) old = false; }
        vs_check(there, "the nearest candidates are tried, nearest first");
        vs_check(old, "matched against the candidate and its neighbours only");
        same_pose(e.at, poses[next], "examined at its current pose");
        const bool finite = std::isfinite(e.score);
        if (c == 4) vs_assume(!finite || e.score < lo - 1e-6 || e.score > hi + 1e-6);
        else vs_assume(!finite || e.score < lo - 1e-6 || e.score > lo + 1e-6);
        if (finite && e.score < lo)
        {
          vs_reach("accepted");
          Pose2d & p = poses[next];
          p = Pose2d(p.x + correction.x, p.y + correction.y, p.theta + correction.theta);
          const Pose2d & b = poses[k.second];
          const double cb = std::cos(b.theta), sb = std::sin(b.theta);
          loops.push_back({k.second, next, Pose2d(cb * (p.x - b.x) + sb * (p.y - b.y), -sb * (p.x - b.x) + cb * (p.y - b.y), p.theta - b.theta)});
        }
        else vs_reach("rejected");
      }
    }
    vs_check(n == events.size(), "no scan is examined again, no other candidate tried");
    events.clear();
  };
  feed(0);
  int i = 1, turn = 0;
  run_loop_thread([&]()
  {
    verify();
    // a second turn without anything new now and then
    if (++turn % 2) return true;
    if (i == STEPS) return false;
    feed(i++);
    // no turn of the thread after some scans
    if (c != 5 && i % 2 && i < STEPS) feed(i++);
    return true;
  });
  auto g = graph_now();
  vs_check(g->scans.size() == poses.size(), "scans as before");
  for (size_t i = 0; i < poses.size(); ++i) same_pose(g->scans[i]->getPose(), poses[i], "only accepted corrections move a scan");
  std::vector<ConstraintPtr> got;
  size_t odometry = 0;
  for (auto & l : g->constraints)
  {
    if (l->switchable) got.push_back(l);
    else ++odometry;
  }
  vs_check(odometry == poses.size() - 1, "odometry constraints are not touched");
  vs_check(got.size() == loops.size(), "one switchable constraint per accepted match");
  for (size_t i = 0; i < got.size(); ++i)
  {
    vs_check(got[i]->begin == loops[i].begin && got[i]->end == loops[i].end, "between the candidate and the scan");
    same_pose(Pose2d(got[i]->transform(0), got[i]->transform(1), got[i]->transform(2)), loops[i].rel, "holds the corrected relative pose");
    const Eigen::Matrix3d & w = got[i]->information;
    vs_check_close(w(0, 0), 1 / 1.75, 1e-9, "holds the covariance of the match");
    vs_check_close(w(0, 1), -0.5 / 1.75, 1e-9, "holds the covariance of the match");
    vs_check_close(w(1, 1), 2 / 1.75, 1e-9, "holds the covariance of the match");
    vs_check_close(w(2, 2), 0.25, 1e-9, "holds the covariance of the match");
  }
  return 0;
}
