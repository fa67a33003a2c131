#pragma once
#include <tuple>
#include <type_traits>
#include <utility>
namespace score::cpp {
struct ignore_t {
    template <typename T> constexpr const ignore_t& operator=(T&&) const noexcept { return *this; }
};
inline constexpr ignore_t ignore{};
template <typename E> constexpr std::underlying_type_t<E> to_underlying(E e) noexcept { return static_cast<std::underlying_type_t<E>>(e); }
}
