#ifndef VS_TF2_BROADCASTER_H_
#define VS_TF2_BROADCASTER_H_
#include <vector>
#include <tf2_ros/buffer.h>
extern void vs_on_transform(const geometry_msgs::msg::TransformStamped &);
namespace tf2_ros {
class TransformBroadcaster { public: template <class N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { vs_on_transform(t); }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) { for (auto & t : v) vs_on_transform(t); } };
}
#endif
