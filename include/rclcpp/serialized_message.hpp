#ifndef VS_RCLCPP_SER_H_
#define VS_RCLCPP_SER_H_
#include <memory>
#include <string>
#include <vector>
struct VsBlob { std::shared_ptr<void> data; const void * type = nullptr; };   // stands for the CDR bytes of a message
using rcutils_uint8_array_t = VsBlob;
namespace rclcpp {
class SerializedMessage { public:
  SerializedMessage() {}
  explicit SerializedMessage(const rcutils_uint8_array_t & b) : blob(b) {}
  VsBlob blob;
};
}
#endif
