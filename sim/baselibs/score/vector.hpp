#pragma once
#include "score/memory_resource.hpp"
#include <vector>
namespace score::cpp::pmr { template <typename T> using vector = std::vector<T, polymorphic_allocator<T>>; }
