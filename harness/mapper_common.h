// The mapper node with everything around it in the harness's hands: parameters, transforms, the scan matcher,
// the optimizer and the occupancy grid. It is driven through its callbacks and its thread functions, and observed
// through what it publishes, what it saves and what it asks of the scan matcher.
#ifndef MAPPER_COMMON_H_
#define MAPPER_COMMON_H_
#include <vsym_common.h>
#include "ceres_hooks.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <thread>
#include <ndt_2d/ndt_mapper.hpp>
#include <tf2_ros/buffer.h>
using ndt_2d::ConstraintPtr;
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::ScanPtr;
using Config = ndt_2d::srv::Configure;
using InitialPose = geometry_msgs::msg::PoseWithCovarianceStamped;
using Laser = sensor_msgs::msg::LaserScan;

// Parameters of the node
struct Settings
{
  double travel = 0.5, turn = 0.5, range = -1, search = 1;
  int64_t rolling = 2, limit = 3, node_limit = 25, min_particles = 2, max_particles = 2;
  bool mapping = true, filter = false, barycenter = false;
  const char * map_file = "";
} set;
static bool ok = false;
static int64_t now = 5000000000;
static bool keep_on = false;
#ifndef OWN_THREADS
bool vs_ok() { const bool r = ok || keep_on; ok = false; return r; }   // a thread function does one round, unless kept on
#endif
int64_t vs_now() { return now; }
bool vs_param_double(const std::string & n, double & v)
{
  if (n == "minimum_travel_distance") v = set.travel;
  else if (n == "minimum_travel_rotation") v = set.turn;
  else if (n == "max_range") v = set.range;
  else if (n == "global_search_size") v = set.search;
  else if (n == "kld_err") v = 0.5;
  else if (n == "kld_z") v = 1;
  else if (n.compare(0, 10, "odom_alpha") == 0) v = 0;
  else return false;
  return true;
}
bool vs_param_int(const std::string & n, int64_t & v)
{
  if (n == "rolling_depth") v = set.rolling;
  else if (n == "global_search_limit") v = set.limit;
  else if (n == "optimization_node_limit") v = set.node_limit;
  else if (n == "min_particles") v = set.min_particles;
  else if (n == "max_particles") v = set.max_particles;
  else return false;
  return true;
}
bool vs_param_bool(const std::string & n, bool & v)
{
  if (n == "use_particle_filter") v = set.filter;
  else if (n == "enable_mapping") v = set.mapping;
  else if (n == "use_barycenter") v = set.barycenter;
  else return false;
  return true;
}
bool vs_param_string(const std::string & n, std::string & v)
{
  if (n == "robot_frame") v = "robot";
  else if (n == "odom_frame") v = "wheels";
  else if (n == "map_file") v = set.map_file;
  else return false;
  return true;
}

// Headings are given by half angles, as in a quaternion
struct HalfPose { double x, y, half; };
static Pose2d whole(const HalfPose & p) { return Pose2d(p.x, p.y, 2 * p.half); }
static HalfPose half(double x, double y, double h) { return {x, y, h}; }

struct Tf : VsTf
{
  HalfPose odom = {0, 0, 0};                          // of the robot, unless odom_at is set
  std::function<HalfPose(int64_t)> odom_at;
  HalfPose mount = {0, 0, 0};                         // of the laser, on the robot
  bool upside_down = false, has_odom = true, has_mount = true;
  geometry_msgs::msg::TransformStamped get(const std::string & target, const std::string & source, int64_t ns) override
  {
    geometry_msgs::msg::TransformStamped t;
    t.header.frame_id = target;
    t.child_frame_id = source;
    HalfPose p;
    if (target == "robot" && source == "laser")
    {
      if (!has_mount) throw tf2::LookupException("no laser");
      p = mount;
    }
    else
    {
      vs_check(target == "wheels" && source == "robot", "asks for the transforms it needs");
      if (!has_odom) throw tf2::ExtrapolationException("no odometry");
      p = odom_at ? odom_at(ns) : odom;
      // the robot keeps moving while a message is recorded
      if (!odom_at && ns > 100000000000) { p.x += 0.25; p.y -= 0.125; }
    }
    t.transform.translation.x = p.x;
    t.transform.translation.y = p.y;
    const double s = std::sin(p.half), c = std::cos(p.half);
    if (source == "laser" && upside_down)
    {
      // half a turn about the laser's x axis, then its heading
      t.transform.rotation.x = c;
      t.transform.rotation.y = s;
      t.transform.rotation.z = 0;
      t.transform.rotation.w = 0;
    }
    else
    {
      t.transform.rotation.z = s;
      t.transform.rotation.w = c;
    }
    return t;
  }
};
static Tf tf;
VsTf * vs_tf = &tf;
static std::vector<geometry_msgs::msg::TransformStamped> sent;
void vs_on_transform(const geometry_msgs::msg::TransformStamped & t) { sent.push_back(t); }

struct Stop {};
static std::function<void()> on_sleep;
#ifndef OWN_THREADS
void vs_sleep() { if (on_sleep) on_sleep(); }
#endif

#ifndef OWN_MATCHER
// A scan matcher that records what it is asked and answers what the harness tells it to
struct Asked { char kind; ScanPtr scan; Pose2d at; std::vector<Point> points; };   // kind: m match, s score, p points
class Recorder : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & n, rclcpp::Node *, double r) override { name = n; range = r; }
  void addScans(const std::vector<ScanPtr>::const_iterator & b, const std::vector<ScanPtr>::const_iterator & e) override
  { map.clear(); at.clear(); for (auto i = b; i != e; ++i) { map.push_back(*i); at.push_back((*i)->getPose()); } ++builds; }
  double matchScan(const ScanPtr & s, Pose2d & pose, Eigen::Matrix3d & cov) const override
  { asked.push_back({'m', s, s->getPose(), s->getPoints()}); return answer(*this, s, pose, cov); }
  double scoreScan(const ScanPtr & s) const override { asked.push_back({'s', s, s->getPose(), s->getPoints()}); return -0.25; }
  double scorePoints(const std::vector<Point> & points, const Pose2d & pose) const override
  { asked.push_back({'p', nullptr, pose, points}); return points_score(*this, pose); }
  void reset() override { map.clear(); at.clear(); }
  std::string name;
  double range = 0;
  std::vector<ScanPtr> map;
  std::vector<Pose2d> at;
  int builds = 0;
  mutable std::vector<Asked> asked;
  std::function<double(const Recorder &, const ScanPtr &, Pose2d &, Eigen::Matrix3d &)> answer;
  std::function<double(const Recorder &, const Pose2d &)> points_score;
};
static std::vector<std::shared_ptr<Recorder>> matchers;
static std::function<double(const Recorder &, const ScanPtr &, Pose2d &, Eigen::Matrix3d &)> on_match;
static std::function<double(const Recorder &, const Pose2d &)> on_points;
static double no_correction(const Recorder &, const ScanPtr &, Pose2d &, Eigen::Matrix3d & cov)
{ cov = Eigen::Vector3d(0.25, 0.25, 0.5).asDiagonal(); return -0.5; }
template <> std::shared_ptr<ndt_2d::ScanMatcher> vs_create_plugin<ndt_2d::ScanMatcher>(const std::string &)
{
  auto m = std::make_shared<Recorder>();
  m->answer = [](const Recorder & r, const ScanPtr & s, Pose2d & p, Eigen::Matrix3d & c)
    { return on_match ? on_match(r, s, p, c) : no_correction(r, s, p, c); };
  m->points_score = [](const Recorder & r, const Pose2d & p) { return on_points ? on_points(r, p) : -0.5; };
  matchers.push_back(m);
  return m;
}
static Recorder * matcher(const char * name)
{
  for (auto & m : matchers) if (m->name == name) return m.get();
  return nullptr;
}
#endif

// The occupancy grid only shows that it was asked
static std::vector<std::vector<ScanPtr>> drawn;
#ifndef REAL_GRID
namespace ndt_2d
{
OccupancyGrid::OccupancyGrid(const double, const double) {}
void OccupancyGrid::getMsg(std::vector<ScanPtr> & scans, nav_msgs::msg::OccupancyGrid &) { drawn.push_back(scans); }
}
#endif

// What the harness does with the node
static std::shared_ptr<ndt_2d::Mapper> start_node()
{
  if (!on_solve) on_solve = [](ceres::Problem *, ceres::Solver::Summary *) {};
  return std::make_shared<ndt_2d::Mapper>(rclcpp::NodeOptions());
}
static void configure(int action, const char * file = "")
{
  auto rq = std::make_shared<Config::Request>();
  rq->action = action;
  rq->filename = file;
  rclcpp::VsService<Config>::callback(rq, std::make_shared<Config::Response>());
}
// The graph, as saved by the node
static std::shared_ptr<ndt_2d::Graph> graph_now()
{
  static int n = 0;
  static const char * names[] = {"g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15", "g16"};
  configure(Config::Request::SAVE_TO_FILE, names[n]);
  return std::make_shared<ndt_2d::Graph>(false, names[n++]);
}
static void give_pose(const HalfPose & p, double var = 0.25, const char * frame = "map")
{
  auto m = std::make_shared<InitialPose>();
  m->header.frame_id = frame;
  m->pose.pose.position.x = p.x;
  m->pose.pose.position.y = p.y;
  m->pose.pose.orientation.z = std::sin(p.half);
  m->pose.pose.orientation.w = std::cos(p.half);
  m->pose.covariance[0] = m->pose.covariance[7] = var;
  m->pose.covariance[35] = var;
  rclcpp::VsTopic<InitialPose>::callback(m);
}
static std::shared_ptr<Laser> laser(int n)
{
  auto m = std::make_shared<Laser>();
  m->header.frame_id = "laser";
  m->header.stamp.sec = 100;
  m->header.stamp.nanosec = 0;
  m->angle_min = 0;
  m->angle_increment = 0.5f;
  m->time_increment = 0.0625f;
  m->range_max = 10;
  m->ranges.assign(n, 2.0f);
  return m;
}
static void give_scan(const std::shared_ptr<Laser> & m) { rclcpp::VsTopic<Laser>::callback(m); }
static void give_scan(const HalfPose & odom, int n = 2) { tf.odom = odom; give_scan(laser(n)); }
// One round of each of the node's threads
static void one_round()
{
  for (size_t i = 0; i < VsThreads::bodies.size(); ++i)
  {
    ok = true;
    VsThreads::bodies[i]();
  }
}

// Runs the loop closing thread, with the given function in its place while it sleeps, until that returns false.
// The node must have a map by now: it is the publishing thread that publishes a transform then.
static void run_loop_thread(const std::function<bool()> & script)
{
  sent.clear();
  ok = true;
  VsThreads::bodies[0]();
  const size_t loop = sent.empty() ? 0 : 1;
  keep_on = true;
  on_sleep = [&]() { if (!script()) throw Stop(); };
  try { VsThreads::bodies[loop](); } catch (const Stop &) {}
  keep_on = false;
  on_sleep = nullptr;
}

static void same_pose(const Pose2d & a, const Pose2d & b, const char * id, double tol = 1e-6)
{
  vs_check_close(a.x, b.x, tol, id);
  vs_check_close(a.y, b.y, tol, id);
  vs_check_angle(a.theta, b.theta, tol, id);
}
static Pose2d compose(const Pose2d & a, const Pose2d & b)
{
  return Pose2d(a.x + std::cos(a.theta) * b.x - std::sin(a.theta) * b.y,
                a.y + std::sin(a.theta) * b.x + std::cos(a.theta) * b.y, a.theta + b.theta);
}
#endif
