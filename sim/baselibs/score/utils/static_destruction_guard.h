#pragma once
#include <atomic>
#include <new>
#include <type_traits>
namespace score::utils {
template <typename T> class StaticDestructionGuard { public:
    StaticDestructionGuard() noexcept { if (Counter()++ == 0) new (&Mem()) T(); }
    ~StaticDestructionGuard() noexcept { if (--Counter() == 0) GetStorage().~T(); }
    StaticDestructionGuard(const StaticDestructionGuard&) = delete;
    static T& GetStorage() noexcept { return reinterpret_cast<T&>(Mem()); }
  private: using S = std::aligned_storage_t<sizeof(T), alignof(T)>; static S& Mem() { return mem_; } static int& Counter() { return c_; } inline static S mem_; inline static int c_ = 0; };
}
