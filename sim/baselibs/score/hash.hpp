#pragma once
#include <cstddef>
#include <cstdint>
#include <string_view>
namespace score::cpp {
inline std::uint64_t hash_bytes(const void* p, std::size_t n) noexcept {
    std::uint64_t h = 0xcbf29ce484222325ULL; const auto* b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
    return h;
}
}
