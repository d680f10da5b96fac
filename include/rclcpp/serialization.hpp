// Stand-in for CDR serialization: a typed deep copy (CDR carries every field without loss).
#ifndef VS_RCLCPP_SERIALIZATION_H_
#define VS_RCLCPP_SERIALIZATION_H_
#include <stdexcept>
#include <rclcpp/serialized_message.hpp>
template <class T> struct VsTypeTag { static inline char tag = 0; };
namespace rclcpp {
template <class T> class Serialization { public:
  void serialize_message(const void * m, SerializedMessage * s) const
  { s->blob.data = std::make_shared<T>(*static_cast<const T *>(m)); s->blob.type = &VsTypeTag<T>::tag; }
  void deserialize_message(const SerializedMessage * s, void * m) const
  {
    if (s->blob.type != &VsTypeTag<T>::tag) throw std::runtime_error("wrong message type");
    *static_cast<T *>(m) = *static_cast<const T *>(s->blob.data.get());
  }
};
}
#endif
