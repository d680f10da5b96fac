#ifndef VS_TF2_EIGEN_H_
#define VS_TF2_EIGEN_H_
#include <Eigen/Geometry>
#include <tf2/utils.h>
namespace tf2 {
// As in tf2_eigen, except that the rotation of the planar transforms used here is written by the half angle of its yaw
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x(); t.transform.translation.y = T.translation().y(); t.transform.translation.z = T.translation().z();
#ifdef VSYM
  double yaw = atan2(T.linear()(1, 0), T.linear()(0, 0));
  t.transform.rotation.x = 0; t.transform.rotation.y = 0; t.transform.rotation.z = sin(yaw / 2); t.transform.rotation.w = cos(yaw / 2);
#else
  Eigen::Quaterniond q(T.linear());
  t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y(); t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
#endif
  return t;
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::Transform & t)
{
  return Eigen::Isometry3d(Eigen::Translation3d(t.translation.x, t.translation.y, t.translation.z) *
                           Eigen::Quaterniond(t.rotation.w, t.rotation.x, t.rotation.y, t.rotation.z));
}
inline Eigen::Isometry3d transformToEigen(const geometry_msgs::msg::TransformStamped & t) { return transformToEigen(t.transform); }
}
#endif
