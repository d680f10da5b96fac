#ifndef VS_SENSOR_MSGS_H_
#define VS_SENSOR_MSGS_H_
#include <geometry_msgs/msg/all.hpp>
namespace sensor_msgs { namespace msg {
struct LaserScan { std_msgs::msg::Header header; float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0,
  scan_time = 0, range_min = 0, range_max = 0; std::vector<float> ranges, intensities; VS_PTRS(LaserScan) };
} }
#endif
