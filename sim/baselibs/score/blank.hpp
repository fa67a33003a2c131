#pragma once
#include <functional>
namespace score::cpp {
struct blank {};
constexpr bool operator==(const blank&, const blank&) noexcept { return true; }
constexpr bool operator!=(const blank&, const blank&) noexcept { return false; }
constexpr bool operator<(const blank&, const blank&) noexcept { return false; }
}
namespace std { template <> struct hash<score::cpp::blank> { size_t operator()(const score::cpp::blank&) const noexcept { return 0xBABEU; } }; }
