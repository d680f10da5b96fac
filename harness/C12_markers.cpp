// property: C12
// mode: fp
// sources: src/graph.cpp src/scan.cpp
// cases: 4
// bounds: graphs of 0 to 3 scans (poses arbitrary doubles, ids any distinct numbers up to 2^31 - 1), 0 to 3 constraints between any of them (all combinations of ends and kinds), poses changed between two publications, either position mode
// outside: larger graphs, ids that do not fit the message (32 bits)
#include <vsym_common.h>
#include <ndt_2d/graph.hpp>
using namespace ndt_2d;
using visualization_msgs::msg::Marker;

static void check(Graph & g)
{
  visualization_msgs::msg::MarkerArray msg;
  rclcpp::Time t(static_cast<int64_t>(123456789012));
  g.getMsg(msg, t);
  std::vector<Marker> nodes, edges;
  for (auto & m : msg.markers)
  {
    vs_check(m.action == Marker::ADD, "markers are added");
    vs_check(m.header.frame_id == "map", "in the map frame");
    vs_check(m.color.a > 0, "visible");
    for (auto & o : msg.markers) vs_check(&o == &m || o.ns != m.ns || o.id != m.id, "no two markers share namespace and id");
    if (m.type == Marker::LINE_STRIP || m.type == Marker::LINE_LIST) edges.push_back(m);
    else nodes.push_back(m);
  }
  vs_check(nodes.size() == g.scans.size(), "one node per scan");
  for (auto & s : g.scans)
  {
    Pose2d p = s->getPose();
    int found = 0;
    for (auto & m : nodes)
    {
      if (static_cast<size_t>(m.id) != s->getId()) continue;
      ++found;
      vs_check_same(m.pose.position.x, p.x, "node x");
      vs_check_same(m.pose.position.y, p.y, "node y");
    }
    vs_check(found == 1, "the node carries the scan's id");
  }
  vs_check(edges.size() == g.constraints.size(), "one line per constraint");
  for (size_t i = 0; i < edges.size(); ++i)
  {
    auto & m = edges[i];
    auto & c = *g.constraints[i];
    Pose2d a = g.scans[c.begin]->getPose(), b = g.scans[c.end]->getPose();
    vs_check(m.points.size() == 2, "two points per line");
    vs_check_same(m.points[0].x, a.x, "line begin x");
    vs_check_same(m.points[0].y, a.y, "line begin y");
    vs_check_same(m.points[1].x, b.x, "line end x");
    vs_check_same(m.points[1].y, b.y, "line end y");
    vs_check(m.pose.position.x == 0 && m.pose.position.y == 0, "lines are in map coordinates");
    for (size_t j = 0; j < i; ++j)
    {
      auto & o = edges[j];
      bool same = m.color.r == o.color.r && m.color.g == o.color.g && m.color.b == o.color.b;
      vs_check(same == (c.switchable == g.constraints[j]->switchable), "switchable ones differ in colour, others do not");
    }
  }
  vs_out("markers", msg.markers.size());
}

int main()
{
  Graph g(vs_case() & 1);
  int n = vs_int("scans", 0, 3), m = n ? vs_int("constraints", 0, vs_case() & 2 ? 3 : 2) : 0;
  for (int i = 0; i < n; ++i)
  {
    size_t id = vs_case() & 2 ? i : vs_symint("id", 0, 2147483647);
    for (auto & s : g.scans) vs_assume(s->getId() != id);
    g.scans.push_back(std::make_shared<Scan>(id));
    std::vector<Point> pts = {Point(1, 2)};
    g.scans[i]->setPoints(pts);
    g.scans[i]->setPose(Pose2d(vs_any("x"), vs_any("y"), 0.5));
  }
  const int links = vs_case() & 2 ? 2 : n * n;
  for (int i = 0; i < m; ++i)
  {
    auto c = std::make_shared<Constraint>();
    int k = vs_int("ends", 0, links - 1);
    c->begin = vs_case() & 2 ? k * (n - 1) : k / n; c->end = vs_case() & 2 ? i % n : k % n;
    c->switchable = vs_bool("switchable");
    g.constraints.push_back(c);
  }
  check(g);
  if (n)
  {
    g.scans[n - 1]->setPose(Pose2d(vs_any("newx"), vs_any("newy"), 0));
    check(g);
  }
  return 0;
}
