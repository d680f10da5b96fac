#ifndef VS_BAG_READER_H_
#define VS_BAG_READER_H_
#include <rosbag2_cpp/vs_bag.hpp>
namespace rosbag2_cpp {
class Reader { public:
  void open(const std::string & n) { bag_ = VsBags::find(n); if (!bag_) throw std::runtime_error("no such bag"); next_ = 0; }
  bool has_next() { return next_ < bag_->msgs.size(); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next() { return bag_->msgs[next_++]; }
  void close() {}
private: std::shared_ptr<VsBag> bag_; size_t next_ = 0; };
}
#endif
