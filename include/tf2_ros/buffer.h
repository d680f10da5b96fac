// Stand-in for tf2_ros: the transform tree is supplied by the harness through vs_tf.
#ifndef VS_TF2_ROS_H_
#define VS_TF2_ROS_H_
#include <memory>
#include <tf2/utils.h>
#include <rclcpp/rclcpp.hpp>
struct VsTf
{
  virtual ~VsTf() {}
  // Pose of source in target at the given time (ns; 0: latest); throws a tf2::TransformException if there is none
  virtual geometry_msgs::msg::TransformStamped get(const std::string & target, const std::string & source, int64_t ns) = 0;
};
extern VsTf * vs_tf;
namespace tf2
{
inline void doTransform(const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out,
                        const geometry_msgs::msg::TransformStamped & t)
{
  const auto & q = t.transform.rotation; const auto p = in.pose.position; const auto r = in.pose.orientation;
  geometry_msgs::msg::PoseStamped o;
  o.header = t.header;
  o.pose.position.x = t.transform.translation.x + (1 - 2 * (q.y * q.y + q.z * q.z)) * p.x + 2 * (q.x * q.y - q.z * q.w) * p.y + 2 * (q.x * q.z + q.y * q.w) * p.z;
  o.pose.position.y = t.transform.translation.y + 2 * (q.x * q.y + q.z * q.w) * p.x + (1 - 2 * (q.x * q.x + q.z * q.z)) * p.y + 2 * (q.y * q.z - q.x * q.w) * p.z;
  o.pose.position.z = t.transform.translation.z + 2 * (q.x * q.z - q.y * q.w) * p.x + 2 * (q.y * q.z + q.x * q.w) * p.y + (1 - 2 * (q.x * q.x + q.y * q.y)) * p.z;
  o.pose.orientation.w = q.w * r.w - q.x * r.x - q.y * r.y - q.z * r.z;
  o.pose.orientation.x = q.w * r.x + q.x * r.w + q.y * r.z - q.z * r.y;
  o.pose.orientation.y = q.w * r.y - q.x * r.z + q.y * r.w + q.z * r.x;
  o.pose.orientation.z = q.w * r.z + q.x * r.y - q.y * r.x + q.z * r.w;
  out = o;
}
}
namespace tf2_ros
{
using namespace tf2;
class Buffer
{
public:
  template <class C> explicit Buffer(C) {}
  Buffer() {}
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t,
                                                       tf2::Duration = tf2::Duration(0)) const
  { return vs_tf->get(target, source, t.time_since_epoch().count()); }
  geometry_msgs::msg::TransformStamped lookupTransform(const std::string & target, const std::string & source, const rclcpp::Time & t,
                                                       const rclcpp::Duration & = rclcpp::Duration(0, 0)) const
  { return vs_tf->get(target, source, t.nanoseconds()); }
  bool canTransform(const std::string & target, const std::string & source, const tf2::TimePoint & t, tf2::Duration = tf2::Duration(0),
                    std::string * = nullptr) const
  { try { vs_tf->get(target, source, t.time_since_epoch().count()); return true; } catch (const tf2::TransformException &) { return false; } }
  template <class T> T & transform(const T & in, T & out, const std::string & target, tf2::Duration = tf2::Duration(0)) const
  {
    int64_t ns = static_cast<int64_t>(in.header.stamp.sec) * 1000000000 + in.header.stamp.nanosec;
    geometry_msgs::msg::TransformStamped t = vs_tf->get(target, in.header.frame_id, ns);
    t.header.stamp = in.header.stamp; t.header.frame_id = target;
    tf2::doTransform(in, out, t);
    return out;
  }
  template <class T> T transform(const T & in, const std::string & target, tf2::Duration d = tf2::Duration(0)) const
  { T out; transform(in, out, target, d); return out; }
};
}
#endif
