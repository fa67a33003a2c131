#pragma once
#include "score/result/result.h"
#include <cstdint>
#include <limits>
#include <type_traits>
namespace score::safe_math {
enum class ErrorCode : score::result::ErrorCode { kExceedsNumericLimits = 1, kDivideByZero, kUnexpectedError };
class SafeMathDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "safe_math"; } };
inline score::result::Error MakeError(const ErrorCode c, const std::string_view m = "") { static SafeMathDomain d{}; return {static_cast<score::result::ErrorCode>(c), d, m}; }
enum class ReturnMode : std::uint8_t { kReturnResult, kAbortOnError };
namespace detail {
template <typename R> Result<R> fail(bool bad, R v, ErrorCode c = ErrorCode::kExceedsNumericLimits) { if (bad) return MakeUnexpected<R>(c); return v; }
template <typename A, typename B> using common = std::conditional_t<std::is_same<A, B>::value, A, std::common_type_t<A, B>>;
}
template <typename R> struct CastResult {
    R v{}; bool ok{false};
    constexpr bool has_value() const noexcept { return ok; } constexpr explicit operator bool() const noexcept { return ok; }
    constexpr R value() const { return ok ? v : (SIM_CONTRACT("safe_math cast", false), v); } constexpr R operator*() const { return v; }
    result::Error error() const { return MakeError(ErrorCode::kExceedsNumericLimits); }
    constexpr R value_or(R o) const { return ok ? v : o; }
    operator Result<R>() const { if (ok) return v; return MakeUnexpected<R>(ErrorCode::kExceedsNumericLimits); }
};
template <typename R, typename A> constexpr CastResult<R> Cast(A a) {
    if constexpr (std::is_floating_point<A>::value) { return CastResult<R>{static_cast<R>(a), true}; }
    else { R r{}; const bool bad = __builtin_add_overflow(a, A{0}, &r); return CastResult<R>{r, !bad}; }
}
template <typename R, typename A, typename B> Result<R> AddTo(A a, B b) { R r{}; bool bad = __builtin_add_overflow(a, b, &r); return detail::fail<R>(bad, r); }
template <typename A, typename B> Result<detail::common<A, B>> Add(A a, B b) { return AddTo<detail::common<A, B>>(a, b); }
template <typename A, typename B> Result<detail::common<A, B>> Subtract(A a, B b) { detail::common<A, B> r{}; bool bad = __builtin_sub_overflow(a, b, &r); return detail::fail(bad, r); }
template <typename A, typename B> Result<detail::common<A, B>> Multiply(A a, B b) { detail::common<A, B> r{}; bool bad = __builtin_mul_overflow(a, b, &r); return detail::fail(bad, r); }
template <ReturnMode M, typename A, typename B, std::enable_if_t<M == ReturnMode::kAbortOnError, int> = 0> detail::common<A, B> Multiply(A a, B b) { auto r = Multiply(a, b); SIM_CONTRACT("safe_math", r.has_value()); return r.value(); }
template <ReturnMode M, typename A, typename B, std::enable_if_t<M == ReturnMode::kAbortOnError, int> = 0> detail::common<A, B> Add(A a, B b) { auto r = Add(a, b); SIM_CONTRACT("safe_math", r.has_value()); return r.value(); }
template <typename A> std::enable_if_t<std::is_signed<A>::value, std::make_unsigned_t<A>> Abs(A a) { return a < 0 ? static_cast<std::make_unsigned_t<A>>(0) - static_cast<std::make_unsigned_t<A>>(a) : static_cast<std::make_unsigned_t<A>>(a); }
template <typename A> std::enable_if_t<std::is_unsigned<A>::value, A> Abs(A a) { return a; }
template <typename R, typename A, typename B> Result<R> Divide(A a, B b) { if (b == 0) return MakeUnexpected<R>(ErrorCode::kDivideByZero); __int128 q = static_cast<__int128>(a) / static_cast<__int128>(b); R r = static_cast<R>(q); return detail::fail<R>(static_cast<__int128>(r) != q, r); }
}
