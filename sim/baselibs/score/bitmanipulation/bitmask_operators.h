#pragma once
#include <type_traits>
namespace score { template <typename T> struct enable_bitmask_operators; }
