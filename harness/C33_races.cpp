// property: C33
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp src/occupancy_grid.cpp
// cases: 5
// logging: yes
// bounds: five plans of up to 13 turns of the callbacks, the loop closing and the publishing thread (mapping with either position mode, saving and loading maps, localizing for a while, particle filter), each loop closing candidate accepted or not; for each resulting access log every schedule of the three threads that is consistent with program order, locks, thread start and end, shared pointer counts and the values read
// outside: longer plans; schedules in which a thread reads other values than in the log (other plans cover some); races inside ROS, tf2, ceres and the standard library
#define REAL_GRID
#define OWN_MATCHER
#define OWN_THREADS
#define VS_OWN_DRAWS
#include <cstddef>
extern "C" double vs_draw_normal(double mean, double) { return mean; }
extern "C" double vs_draw_uniform(double a, double) { return a; }
extern "C" size_t vs_draw_discrete(const double *, size_t) { return 0; }
#include "mapper_common.h"

// A scan matcher keeps what it was given, as every matcher does
class Matcher : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & n, rclcpp::Node *, double r) override { local = n[0] == 'l'; range = r; }
  void addScans(const std::vector<ScanPtr>::const_iterator & b, const std::vector<ScanPtr>::const_iterator & e) override
  { for (auto i = b; i != e; ++i) use(*i); }
  double matchScan(const ScanPtr & s, Pose2d & pose, Eigen::Matrix3d & cov) const override
  {
    Matcher m(*this);
    m.use(s);
    pose = Pose2d(0.0625, 0, 0);
    cov = Eigen::Vector3d(0.25, 0.25, 0.5).asDiagonal();
    return local ? -0.5 : loop_score();
  }
  double scoreScan(const ScanPtr & s) const override { Matcher m(*this); m.use(s); return -0.5; }
  double scorePoints(const std::vector<Point> & points, const Pose2d & pose) const override { return pose.x * points.size() * known - 0.5; }
  void reset() override { known = 0; }
private:
  void use(const ScanPtr & s) { for (auto & p : s->getPoints()) known += p.x; known += s->getPose().x; }
  static double loop_score() { return vs_bool("closes") ? -1 : 0; }
  bool local = false;
  double known = 0, range = 0;
};
template <> std::shared_ptr<ndt_2d::ScanMatcher> vs_create_plugin<ndt_2d::ScanMatcher>(const std::string &) { return std::make_shared<Matcher>(); }

// ---- turns of the threads: the callbacks are in thread 0, the other two are numbered in the order of their start
enum Who { CALL, PUBLISH, LOOP };
struct Turn { Who who; std::function<void()> act; };
static std::vector<Turn> plan;
static int loop_id = 2;
#ifdef VS_SCHEDULED
#define HIDDEN __attribute__((no_sanitize("thread"), noinline))
static thread_local int turns = 0;
HIDDEN bool vs_ok() { if (turns > 0) return true; const bool r = ok; ok = false; return r; }
HIDDEN void vs_sleep() { --turns; }
static int count(Who w) { int n = 0; for (auto & t : plan) n += t.who == w; return n; }
static int counts[4];
void vs_body(int id)
{
  turns = counts[id];
  VsThreads::bodies[id - 1]();
}
#else
bool vs_ok() { const bool r = ok || keep_on; ok = false; return r; }
void vs_sleep() { if (on_sleep) on_sleep(); }
#endif
static void once(int id, int k)
{
  const auto body = VsThreads::bodies[id - 1];
  const std::function<void()> outer = on_sleep;
  on_sleep = nullptr;
  keep_on = false;
  ok = true;
  vs_thread(k);
  body();
  vs_thread(-1);
  ok = false;
  on_sleep = outer;
}
// Which of the threads publishes
static void identify()
{
  auto node = start_node();
  give_scan(half(0, 0, 0), 1);
  sent.clear();
  once(1, -1);
  loop_id = sent.empty() ? 1 : 2;
  node.reset();
  VsThreads::bodies.clear();
}
static void run_plan(const std::function<void()> & begin, const std::function<void()> & end)
{
#ifdef VS_SCHEDULED
  if (vs_scheduled())
  {
    counts[loop_id] = count(LOOP);
    counts[3 - loop_id] = count(PUBLISH);
    vs_thread(0);
    begin();
    for (auto & t : plan) if (t.who == CALL) { vs_mark("call"); t.act(); }
    end();
    vs_thread(-1);
    return;
  }
#endif
  vs_thread(0);
  begin();
  vs_thread(-1);
  size_t k = 0;
  // until the loop closing thread has a turn
  auto others = [&]()
  {
    for (; k < plan.size(); ++k)
    {
      if (plan[k].who == LOOP) { ++k; return true; }
      if (plan[k].who == PUBLISH) once(3 - loop_id, 3 - loop_id);
      else { vs_thread(0); vs_mark("call"); plan[k].act(); vs_thread(-1); }
    }
    return false;
  };
  if (others())
  {
    const auto loop = VsThreads::bodies[loop_id - 1];
    bool first = true;
    on_sleep = [&]()
    {
      if (!first && !others()) throw Stop();
      first = false;
      keep_on = true;
    };
    keep_on = true;
    vs_thread(loop_id);
    try { loop(); } catch (const Stop &) {}
    vs_thread(-1);
    keep_on = false;
    on_sleep = nullptr;
  }
  vs_thread(0);
  end();
  vs_thread(-1);
}

int main()
{
  const int c = vs_case();
  set.rolling = 1;
  set.limit = 1;
  set.search = 10;
  set.node_limit = 1;
  set.barycenter = c == 1;
  on_solve = [](ceres::Problem *, ceres::Solver::Summary *) {};
  set.min_particles = set.max_particles = 1;
  identify();
  {
    ndt_2d::Graph g(false);
    for (int i = 0; i < 3; ++i)
    {
      auto s = std::make_shared<ndt_2d::Scan>(i);
      s->setPose(Pose2d(0.25 * i, 0, 0));
      s->setPoints({Point(1, 1)});
      g.scans.push_back(s);
    }
    g.save("map");
  }
  int i = 0;
  auto scan = [&]() { give_scan(half(0.75 * i++, 0, 0), 1); };
  auto pose = [&]() { give_pose(half(0, 0, 0)); };
  auto publish = [&]() { plan.push_back({PUBLISH, nullptr}); };
  auto loop = [&]() { plan.push_back({LOOP, nullptr}); };
  auto call = [&](std::function<void()> f) { plan.push_back({CALL, f}); };
  auto service = [&](int a, const char * file = "map") { call([a, file]() { configure(a, file); }); };
  switch (c)
  {
    case 0:
    case 1:
      call(scan); loop(); call(scan); publish(); call(scan); loop(); call(scan); publish(); loop(); call(scan); loop(); publish();
      break;
    case 2:     // another map
      call(scan); call(scan); call(scan); service(Config::Request::SAVE_TO_FILE, "first"); loop(); publish();
      service(Config::Request::LOAD_FROM_FILE); loop(); publish(); call(pose); call(scan); loop(); publish();
      service(Config::Request::SAVE_TO_FILE, "second"); break;
    case 3:     // localize for a while
      call(scan); call(scan); call(scan); loop(); publish(); service(Config::Request::DISABLE_MAPPING); call(pose); call(scan);
      loop(); publish(); service(Config::Request::ENABLE_MAPPING); call(scan); loop(); publish();
      break;
    default:    // particle filter
      set.filter = true;
      set.map_file = "map";
      call(scan); loop(); call(pose); publish(); call(scan); loop(); publish(); service(Config::Request::LOAD_FROM_FILE); call(pose); call(scan); loop(); publish();
  }
  std::unique_ptr<ndt_2d::Mapper> node;
  run_plan([&]() { node = std::make_unique<ndt_2d::Mapper>(rclcpp::NodeOptions()); }, [&]() { node.reset(); });
  vs_reach("end");
  return 0;
}
