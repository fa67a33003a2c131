#pragma once
#include <memory_resource>
#include <cstddef>
namespace score::cpp::pmr {
template <typename T = std::byte> using polymorphic_allocator = std::pmr::polymorphic_allocator<T>;
using std::pmr::memory_resource;  using std::pmr::get_default_resource; using std::pmr::new_delete_resource; using std::pmr::set_default_resource; using std::pmr::null_memory_resource; using std::pmr::monotonic_buffer_resource;
}
