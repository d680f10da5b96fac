#ifndef VS_BAG_WRITER_H_
#define VS_BAG_WRITER_H_
#include <rosbag2_cpp/vs_bag.hpp>
namespace rosbag2_cpp {
class Writer { public:
  void open(const std::string & n)
  {
    // rosbag2 refuses to write into an existing bag directory
    if (VsBags::find(n)) throw std::runtime_error("Database directory already exists");
    bag_ = std::make_shared<VsBag>(); bag_->name = n; VsBags::bags.push_back(bag_);
  }
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic, const std::string &, const rclcpp::Time & t)
  {
    auto b = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    b->serialized_data = std::make_shared<rcutils_uint8_array_t>(m->blob); b->topic_name = topic; b->time_stamp = t.nanoseconds();
    bag_->msgs.push_back(b);
  }
  void close() {}
private: std::shared_ptr<VsBag> bag_; };
}
#endif
