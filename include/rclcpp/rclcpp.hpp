// Stand-in for rclcpp: a node whose parameters, topics, services and clock are in the harness's hands.
#ifndef VS_RCLCPP_H_
#define VS_RCLCPP_H_
#include <chrono>
#include <cstdio>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <vsym.h>
#include <builtin_interfaces/msg/time.hpp>

// Supplied by the harness
bool vs_ok();                                   // rclcpp::ok()
int64_t vs_now();                               // clock, ns
bool vs_param_double(const std::string & name, double & v);   // true: overridden
bool vs_param_int(const std::string & name, int64_t & v);
bool vs_param_bool(const std::string & name, bool & v);
bool vs_param_string(const std::string & name, std::string & v);

namespace rclcpp
{
inline bool ok() { VsQuiet q; return vs_ok(); }
inline void shutdown() {}

class Duration
{
public:
  Duration(int32_t s, uint32_t ns) : ns_(static_cast<int64_t>(s) * 1000000000 + ns) {}
  explicit Duration(int64_t ns) : ns_(ns) {}
  Duration(std::chrono::nanoseconds ns) : ns_(ns.count()) {}
  static Duration from_seconds(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
  static Duration from_nanoseconds(int64_t ns) { return Duration(ns); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
  Duration operator+(const Duration & o) const { return Duration(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return Duration(ns_ - o.ns_); }
  Duration operator*(double f) const { return Duration(static_cast<int64_t>(ns_ * f)); }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
private:
  int64_t ns_;
};

class Time
{
public:
  Time(int64_t ns = 0) : ns_(ns) {}
  Time(int32_t s, uint32_t ns) : ns_(static_cast<int64_t>(s) * 1000000000 + ns) {}
  Time(const builtin_interfaces::msg::Time & t) : ns_(static_cast<int64_t>(t.sec) * 1000000000 + t.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  { builtin_interfaces::msg::Time t; t.sec = static_cast<int32_t>(ns_ / 1000000000); t.nanosec = static_cast<uint32_t>(ns_ % 1000000000); return t; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds()); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds()); }
  Duration operator-(const Time & o) const { return Duration(ns_ - o.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { return ns_ >= o.ns_; }
  bool operator==(const Time & o) const { return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return ns_ != o.ns_; }
private:
  int64_t ns_;
};

class Clock { public: using SharedPtr = std::shared_ptr<Clock>; Time now() { VsQuiet q; return Time(vs_now()); } };
class Logger { public: Logger get_child(const std::string &) const { return *this; } };
inline Logger get_logger(const std::string &) { return Logger(); }
template <class... A> inline void vs_log(const Logger &, A &&...) {}

class QoS { public: template <class T> QoS(T) {}
  QoS & transient_local() { return *this; } QoS & reliable() { return *this; } QoS & best_effort() { return *this; }
  QoS & durability_volatile() { return *this; } QoS & keep_last(size_t) { return *this; } };
struct KeepLast { explicit KeepLast(size_t) {} };
struct KeepAll {};
class SystemDefaultsQoS : public QoS { public: SystemDefaultsQoS() : QoS(0) {} };
class SensorDataQoS : public QoS { public: SensorDataQoS() : QoS(0) {} };
class NodeOptions {};

// What was published, and the callbacks that were registered, per type
template <class T> struct VsTopic {
  static inline std::vector<T> msgs; static inline std::vector<std::string> topics;
  static inline std::function<void(std::shared_ptr<const T>)> callback; static inline std::string callback_topic; };
template <class S> struct VsService {
  static inline std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)> callback;
  static inline std::string name; };

template <class T> class Publisher { public: using SharedPtr = std::shared_ptr<Publisher<T>>;
  explicit Publisher(const std::string & t) : topic_(t) {}
  void publish(const T & m) { VsTopic<T>::msgs.push_back(m); VsTopic<T>::topics.push_back(topic_); }
  void publish(std::unique_ptr<T> m) { publish(*m); }
  size_t get_subscription_count() const { return 1; }
private: std::string topic_; };
template <class T> class Subscription { public: using SharedPtr = std::shared_ptr<Subscription<T>>; };
template <class S> class Service { public: using SharedPtr = std::shared_ptr<Service<S>>; };

template <class T> struct VsParam;
template <> struct VsParam<double> { static double get(const std::string & n, double d) { double v; return vs_param_double(n, v) ? v : d; } };
template <> struct VsParam<float> { static float get(const std::string & n, float d) { double v; return vs_param_double(n, v) ? v : d; } };
template <> struct VsParam<int> { static int get(const std::string & n, int d) { int64_t v; return vs_param_int(n, v) ? static_cast<int>(v) : d; } };
template <> struct VsParam<int64_t> { static int64_t get(const std::string & n, int64_t d) { int64_t v; return vs_param_int(n, v) ? v : d; } };
template <> struct VsParam<bool> { static bool get(const std::string & n, bool d) { bool v; return vs_param_bool(n, v) ? v : d; } };
template <> struct VsParam<std::string> { static std::string get(const std::string & n, const std::string & d) { std::string v; return vs_param_string(n, v) ? v : d; } };

class Node
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string &) {}
  Node(const std::string &, const NodeOptions &) {}
  virtual ~Node() {}
  // A parameter may only be declared once, as in rclcpp
  template <class T> T declare_parameter(const std::string & name, const T & def)
  {
    for (auto & n : declared_) if (n == name) throw std::runtime_error("parameter already declared");
    declared_.push_back(name);
    return VsParam<T>::get(name, def);
  }
  bool has_parameter(const std::string & name) const { for (auto & n : declared_) if (n == name) return true; return false; }
  template <class T> bool get_parameter(const std::string & name, T & v) const { v = VsParam<T>::get(name, v); return has_parameter(name); }
  template <class T> typename Publisher<T>::SharedPtr create_publisher(const std::string & topic, const QoS &)
  { return std::make_shared<Publisher<T>>(topic); }
  template <class T, class F> typename Subscription<T>::SharedPtr create_subscription(const std::string & topic, const QoS &, F && f)
  { VsTopic<T>::callback = std::forward<F>(f); VsTopic<T>::callback_topic = topic; return std::make_shared<Subscription<T>>(); }
  template <class S, class F> typename Service<S>::SharedPtr create_service(const std::string & name, F && f)
  { VsService<S>::callback = std::forward<F>(f); VsService<S>::name = name; return std::make_shared<Service<S>>(); }
  Clock::SharedPtr get_clock() { return std::make_shared<Clock>(); }
  Time now() const { VsQuiet q; return Time(vs_now()); }
  Logger get_logger() const { return Logger(); }
private:
  std::vector<std::string> declared_;
};
}  // namespace rclcpp

#define RCLCPP_DEBUG(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_INFO(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_WARN(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_ERROR(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_FATAL(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(L, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(L, C, D, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(L, C, D, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(L, C, D, ...) rclcpp::vs_log(L, __VA_ARGS__)
#define RCLCPP_INFO_STREAM(L, S) do {} while (0)
#define RCLCPP_WARN_STREAM(L, S) do {} while (0)
#define RCLCPP_ERROR_STREAM(L, S) do {} while (0)
#endif
