#ifndef VS_NAV_MSGS_H_
#define VS_NAV_MSGS_H_
#include <geometry_msgs/msg/all.hpp>
namespace nav_msgs { namespace msg {
struct MapMetaData { builtin_interfaces::msg::Time map_load_time; float resolution = 0; uint32_t width = 0, height = 0;
  geometry_msgs::msg::Pose origin; VS_PTRS(MapMetaData) };
struct OccupancyGrid { std_msgs::msg::Header header; MapMetaData info; std::vector<int8_t> data; VS_PTRS(OccupancyGrid) };
} }
#endif
