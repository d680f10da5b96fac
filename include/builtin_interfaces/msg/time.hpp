#ifndef VS_BI_TIME_H_
#define VS_BI_TIME_H_
#include <cstdint>
#include <memory>
namespace builtin_interfaces { namespace msg {
struct Time { int32_t sec = 0; uint32_t nanosec = 0; using SharedPtr = std::shared_ptr<Time>; };
struct Duration { int32_t sec = 0; uint32_t nanosec = 0; };
inline bool operator==(const Time & a, const Time & b) { return a.sec == b.sec && a.nanosec == b.nanosec; }
inline bool operator!=(const Time & a, const Time & b) { return !(a == b); }
} }
#endif
