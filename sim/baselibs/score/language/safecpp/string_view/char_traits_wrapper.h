#pragma once
#include <string>
namespace score::safecpp { template <typename C> struct char_traits_wrapper { using traits_type = std::char_traits<C>; }; }
