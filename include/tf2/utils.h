// Stand-in for tf2: getYaw as in tf2/impl/utils.h, exceptions, time.
#ifndef VS_TF2_UTILS_H_
#define VS_TF2_UTILS_H_
#include <chrono>
#include <cmath>
#include <stdexcept>
#include <string>
#include <geometry_msgs/msg/all.hpp>
namespace tf2
{
inline double getYaw(const geometry_msgs::msg::Quaternion & q)
{
  double sqw = q.w * q.w, sqx = q.x * q.x, sqy = q.y * q.y, sqz = q.z * q.z;
  double sarg = -2 * (q.x * q.z - q.w * q.y) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) return -2 * atan2(q.y, q.x);
  else if (sarg >= 0.99999) return 2 * atan2(q.y, q.x);
  return atan2(2 * (q.x * q.y + q.w * q.z), sqw + sqx - sqy - sqz);
}
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
using IDuration = std::chrono::duration<int, std::nano>;
static const TimePoint TimePointZero = TimePoint(IDuration::zero());
inline Duration durationFromSec(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
struct TransformException : public std::runtime_error { explicit TransformException(const std::string & s) : std::runtime_error(s) {} };
struct LookupException : public TransformException { explicit LookupException(const std::string & s) : TransformException(s) {} };
struct ConnectivityException : public TransformException { explicit ConnectivityException(const std::string & s) : TransformException(s) {} };
struct ExtrapolationException : public TransformException { explicit ExtrapolationException(const std::string & s) : TransformException(s) {} };
struct TimeoutException : public TransformException { explicit TimeoutException(const std::string & s) : TransformException(s) {} };
}
#endif
