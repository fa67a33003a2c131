#pragma once
#include "kernel_api.h"
#include "score/memory.hpp"
#include "score/os/errno.h"
#include <memory>
namespace score::os {
namespace skd {
template <typename R = void> score::cpp::expected<R, Error> ret(long r) { if (r < 0) return score::cpp::make_unexpected(Error::createFromErrno(static_cast<int>(-r))); return static_cast<R>(r); }
inline score::cpp::expected_blank<Error> blank(long r) { if (r < 0) return score::cpp::make_unexpected(Error::createFromErrno(static_cast<int>(-r))); return {}; }
}
#define SK_FLAG_OPS(E) \
    constexpr E operator|(E a, E b) noexcept { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) | static_cast<std::underlying_type_t<E>>(b)); } \
    constexpr E operator&(E a, E b) noexcept { return static_cast<E>(static_cast<std::underlying_type_t<E>>(a) & static_cast<std::underlying_type_t<E>>(b)); } \
    constexpr E operator~(E a) noexcept { return static_cast<E>(~static_cast<std::underlying_type_t<E>>(a)); } \
    inline E& operator|=(E& a, E b) noexcept { a = a | b; return a; }
template <typename T> class SkSingleton {
  public:
    static T& instance() noexcept { static T t; return t; }
    static std::unique_ptr<T> Default() noexcept { return std::make_unique<T>(); }
    static score::cpp::pmr::unique_ptr<T> Default(score::cpp::pmr::memory_resource* r) noexcept { return score::cpp::pmr::make_unique<T>(r); }
};
}
