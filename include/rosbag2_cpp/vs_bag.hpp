// Stand-in for rosbag2: bags are kept in memory, by file name, in the order written
// (all messages of a map carry the same time stamp, for which the storage keeps insertion order).
#ifndef VS_BAG_H_
#define VS_BAG_H_
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <rclcpp/rclcpp.hpp>
#include <rclcpp/serialized_message.hpp>
namespace rosbag2_storage {
struct SerializedBagMessage { std::shared_ptr<rcutils_uint8_array_t> serialized_data; int64_t time_stamp = 0; std::string topic_name; };
using SerializedBagMessageSharedPtr = std::shared_ptr<SerializedBagMessage>;
}
struct VsBag { std::string name; std::vector<rosbag2_storage::SerializedBagMessageSharedPtr> msgs; };
struct VsBags { static inline std::vector<std::shared_ptr<VsBag>> bags;
  static std::shared_ptr<VsBag> find(const std::string & n) { for (auto & b : bags) if (b->name == n) return b; return nullptr; } };
#endif
