#include <builtin_interfaces/msg/time.hpp>
