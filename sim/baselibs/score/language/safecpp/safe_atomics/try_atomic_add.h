#pragma once
#include "score/language/safecpp/safe_math/safe_math.h"
#include <atomic>
namespace score::safe_atomics {
template <typename T> Result<T> TryAtomicAdd(std::atomic<T>& a, const T v, const std::size_t max_retries = 10U) {
    for (std::size_t i = 0; i < max_retries; ++i) { T cur = a.load(); auto s = safe_math::Add(cur, v); if (!s.has_value()) return s; if (a.compare_exchange_weak(cur, s.value())) return cur; }
    return MakeUnexpected<T>(safe_math::ErrorCode::kUnexpectedError);
}
}
