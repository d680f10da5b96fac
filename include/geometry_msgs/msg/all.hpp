// Stand-ins for the generated geometry_msgs types (fields as in common_interfaces).
#ifndef VS_GEOMETRY_MSGS_H_
#define VS_GEOMETRY_MSGS_H_
#include <array>
#include <memory>
#include <vector>
#include <std_msgs/msg/header.hpp>
namespace geometry_msgs { namespace msg {
#define VS_PTRS(T) using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>;
struct Point { double x = 0, y = 0, z = 0; VS_PTRS(Point) };
struct Point32 { float x = 0, y = 0, z = 0; VS_PTRS(Point32) };
struct Vector3 { double x = 0, y = 0, z = 0; VS_PTRS(Vector3) };
struct Quaternion { double x = 0, y = 0, z = 0, w = 1; VS_PTRS(Quaternion) };
struct Pose { Point position; Quaternion orientation; VS_PTRS(Pose) };
struct Pose2D { double x = 0, y = 0, theta = 0; VS_PTRS(Pose2D) };
struct PoseStamped { std_msgs::msg::Header header; Pose pose; VS_PTRS(PoseStamped) };
struct PoseArray { std_msgs::msg::Header header; std::vector<Pose> poses; VS_PTRS(PoseArray) };
struct PoseWithCovariance { Pose pose; std::array<double, 36> covariance{}; VS_PTRS(PoseWithCovariance) };
struct PoseWithCovarianceStamped { std_msgs::msg::Header header; PoseWithCovariance pose; VS_PTRS(PoseWithCovarianceStamped) };
struct Transform { Vector3 translation; Quaternion rotation; VS_PTRS(Transform) };
struct TransformStamped { std_msgs::msg::Header header; std::string child_frame_id; Transform transform; VS_PTRS(TransformStamped) };
struct PointStamped { std_msgs::msg::Header header; Point point; VS_PTRS(PointStamped) };
} }
#endif
