#pragma once
#include "score/result/error.h"
#include "score/expected.hpp"
#include "score/blank.hpp"
#include <optional>
namespace score {
template <typename T> using Result = cpp::expected<T, result::Error>;
using ResultBlank = Result<void>;
using Blank = cpp::blank;
using cpp::unexpect; using cpp::unexpect_t;
template <typename V, typename E> using Unexpected_ = cpp::expected<V, E>;
namespace result_detail {
template <typename E> result::Error ToError(const E& e, std::string_view m) { if constexpr (std::is_enum<E>::value) { return MakeError(e, m); } else { return e; } }
}
template <typename E, std::enable_if_t<std::is_enum<E>::value, int> = 0> cpp::unexpected<result::Error> MakeUnexpected(const E code, const std::string_view m = "") { return cpp::unexpected<result::Error>{MakeError(code, m)}; }
template <typename V, typename E, std::enable_if_t<std::is_enum<E>::value, int> = 0> Result<V> MakeUnexpected(const E code, const std::string_view m = "") { return Result<V>{unexpect, MakeError(code, m)}; }
template <typename V> Result<V> MakeUnexpected(const result::Error& e) { return Result<V>{unexpect, e}; }
inline cpp::unexpected<result::Error> MakeUnexpected(const result::Error& e) { return cpp::unexpected<result::Error>{e}; }
using cpp::unexpected;
struct Unexpected : public cpp::unexpected<result::Error> { template <typename E> explicit Unexpected(E&& e) : cpp::unexpected<result::Error>{result_detail::ToError(e, "")} {} };
template <typename T, typename E> using details_expected = cpp::expected<T, E>;
template <typename T, typename F> std::optional<T> ResultToOptionalOrElse(Result<T> r, F f) { if (r.has_value()) return std::optional<T>{std::move(r).value()}; f(r.error()); return std::nullopt; }
template <typename T> std::optional<T> ResultToOptional(Result<T> r) { if (r.has_value()) return std::optional<T>{std::move(r).value()}; return std::nullopt; }
}
