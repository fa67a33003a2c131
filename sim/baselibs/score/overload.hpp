#pragma once
#include <utility>
#include <variant>
namespace score::cpp {
template <typename... F> struct overload_set : F... { using F::operator()...; };
template <typename... F> overload_set(F...) -> overload_set<F...>;
template <typename... F> constexpr auto overload(F&&... f) { return overload_set<std::decay_t<F>...>{std::forward<F>(f)...}; }
template <typename V, typename... F> constexpr decltype(auto) visit(V&& v, F&&... f) { return std::visit(overload(std::forward<F>(f)...), std::forward<V>(v)); }
}
