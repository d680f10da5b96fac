#ifndef VS_PLUGINLIB_LOADER_H_
#define VS_PLUGINLIB_LOADER_H_
#include <memory>
#include <string>
// Supplied by the harness: creates the plugin of the given class name
template <class T> std::shared_ptr<T> vs_create_plugin(const std::string & name);
namespace pluginlib {
template <class T> class ClassLoader { public:
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<T> createSharedInstance(const std::string & n) { return vs_create_plugin<T>(n); }
};
}
#endif
