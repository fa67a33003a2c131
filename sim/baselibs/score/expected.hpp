#pragma once
#include "score/assert.hpp"
#include "score/blank.hpp"
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
#include <variant>
namespace score::cpp {
struct unexpect_t { explicit unexpect_t() = default; };
inline constexpr unexpect_t unexpect{};
template <typename E> class unexpected {
  public:
    constexpr explicit unexpected(const E& e) : e_(e) {}
    constexpr explicit unexpected(E&& e) : e_(std::move(e)) {}
    template <typename... A, typename = std::enable_if_t<std::is_constructible<E, A...>::value>> constexpr explicit unexpected(std::in_place_t, A&&... a) : e_(std::forward<A>(a)...) {}
    constexpr const E& error() const& noexcept { return e_; } constexpr E& error() & noexcept { return e_; } constexpr E&& error() && noexcept { return std::move(e_); }
  private: E e_;
};
template <typename E> unexpected(E) -> unexpected<E>;
template <typename E> constexpr unexpected<std::decay_t<E>> make_unexpected(E&& e) { return unexpected<std::decay_t<E>>(std::forward<E>(e)); }
template <typename T, typename E> class expected;
template <typename T> struct is_expected : std::false_type {};
template <typename T, typename E> struct is_expected<expected<T, E>> : std::true_type {};
template <typename T> struct is_unexpected : std::false_type {};
template <typename E> struct is_unexpected<unexpected<E>> : std::true_type {};
template <typename T, typename E> class [[nodiscard]] expected {
  public:
    using value_type = T; using error_type = E;
    template <typename U = T, std::enable_if_t<std::is_default_constructible<U>::value, int> = 0> expected() : v_(std::in_place_index<0>) {}
    template <typename U = T, std::enable_if_t<(!is_expected<std::decay_t<U>>::value || std::is_same<std::decay_t<U>, T>::value) && !is_unexpected<std::decay_t<U>>::value && !std::is_same<std::decay_t<U>, std::in_place_t>::value && !std::is_same<std::decay_t<U>, unexpect_t>::value && std::is_constructible<T, U&&>::value && std::is_convertible<U&&, T>::value, int> = 0>
    expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u)) {}
    template <typename U = T, std::enable_if_t<(!is_expected<std::decay_t<U>>::value || std::is_same<std::decay_t<U>, T>::value) && !is_unexpected<std::decay_t<U>>::value && !std::is_same<std::decay_t<U>, std::in_place_t>::value && !std::is_same<std::decay_t<U>, unexpect_t>::value && std::is_constructible<T, U&&>::value && !std::is_convertible<U&&, T>::value, int> = 0>
    explicit expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u)) {}
    template <typename... A, std::enable_if_t<std::is_constructible<T, A...>::value, int> = 0> explicit expected(std::in_place_t, A&&... a) : v_(std::in_place_index<0>, std::forward<A>(a)...) {}
    template <typename G, std::enable_if_t<std::is_constructible<E, const G&>::value, int> = 0> expected(const unexpected<G>& u) : v_(std::in_place_index<1>, u.error()) {}
    template <typename G, std::enable_if_t<std::is_constructible<E, G>::value, int> = 0> expected(unexpected<G>&& u) : v_(std::in_place_index<1>, std::move(u).error()) {}
    template <typename... A, std::enable_if_t<std::is_constructible<E, A...>::value, int> = 0> explicit expected(unexpect_t, A&&... a) : v_(std::in_place_index<1>, std::forward<A>(a)...) {}
    template <typename U, typename G, std::enable_if_t<!std::is_same<expected<U, G>, expected>::value && std::is_constructible<T, U&&>::value && std::is_constructible<E, G&&>::value, int> = 0>
    expected(expected<U, G>&& o) : v_(o.has_value() ? std::variant<T, E>(std::in_place_index<0>, std::move(o).value()) : std::variant<T, E>(std::in_place_index<1>, std::move(o).error())) {}
    expected(const expected&) = default; expected(expected&&) = default; expected& operator=(const expected&) = default; expected& operator=(expected&&) = default;
    bool has_value() const noexcept { return v_.index() == 0; }
    explicit operator bool() const noexcept { return has_value(); }
    T& value() & { chk(); return *std::get_if<0>(&v_); } const T& value() const& { chk(); return *std::get_if<0>(&v_); }
    T&& value() && { chk(); return std::move(*std::get_if<0>(&v_)); } const T&& value() const&& { chk(); return std::move(*std::get_if<0>(&v_)); }
    T& operator*() & { return value(); } const T& operator*() const& { return value(); } T&& operator*() && { return std::move(*this).value(); }
    T* operator->() { chk(); return std::addressof(value()); } const T* operator->() const { chk(); return std::addressof(value()); }
    E& error() & { chke(); return *std::get_if<1>(&v_); } const E& error() const& { chke(); return *std::get_if<1>(&v_); } E&& error() && { chke(); return std::move(*std::get_if<1>(&v_)); }
    template <typename U> T value_or(U&& u) const& { return has_value() ? value() : static_cast<T>(std::forward<U>(u)); }
    template <typename U> T value_or(U&& u) && { return has_value() ? std::move(*this).value() : static_cast<T>(std::forward<U>(u)); }
    template <typename G> E error_or(G&& g) const { return has_value() ? static_cast<E>(std::forward<G>(g)) : error(); }
    template <typename... A> T& emplace(A&&... a) { return v_.template emplace<0>(std::forward<A>(a)...); }
    template <typename F> auto and_then(F&& f) & -> std::invoke_result_t<F, T&> { if (has_value()) return std::forward<F>(f)(value()); return std::invoke_result_t<F, T&>(unexpect, error()); }
    template <typename F> auto and_then(F&& f) && -> std::invoke_result_t<F, T&&> { if (has_value()) return std::forward<F>(f)(std::move(*this).value()); return std::invoke_result_t<F, T&&>(unexpect, std::move(*this).error()); }
    template <typename F> auto and_then(F&& f) const& -> std::invoke_result_t<F, const T&> { if (has_value()) return std::forward<F>(f)(value()); return std::invoke_result_t<F, const T&>(unexpect, error()); }
    template <typename F> auto transform(F&& f) && -> expected<std::invoke_result_t<F, T&&>, E> { if (has_value()) return expected<std::invoke_result_t<F, T&&>, E>(std::forward<F>(f)(std::move(*this).value())); return expected<std::invoke_result_t<F, T&&>, E>(unexpect, std::move(*this).error()); }
    template <typename F> auto transform_error(F&& f) && -> expected<T, std::invoke_result_t<F, E&&>> { if (has_value()) return expected<T, std::invoke_result_t<F, E&&>>(std::move(*this).value()); return expected<T, std::invoke_result_t<F, E&&>>(unexpect, std::forward<F>(f)(std::move(*this).error())); }
    template <typename F> expected or_else(F&& f) && { if (has_value()) return std::move(*this); return std::forward<F>(f)(std::move(*this).error()); }
    friend bool operator==(const expected& a, const expected& b) { return a.v_ == b.v_; }
    friend bool operator!=(const expected& a, const expected& b) { return !(a.v_ == b.v_); }
    template <typename G> friend bool operator==(const expected& a, const unexpected<G>& u) { return !a.has_value() && a.error() == u.error(); }
    template <typename U, std::enable_if_t<!is_expected<std::decay_t<U>>::value && !is_unexpected<std::decay_t<U>>::value, int> = 0> friend bool operator==(const expected& a, const U& u) { return a.has_value() && a.value() == u; }
  private:
    void chk() const { SIM_CONTRACT("expected has no value", v_.index() == 0); }
    void chke() const { SIM_CONTRACT("expected has no error", v_.index() == 1); }
    std::variant<T, E> v_;
};
template <typename T, typename E> class [[nodiscard]] expected<T&, E>;
template <typename E> class [[nodiscard]] expected<void, E> {
  public:
    using value_type = void; using error_type = E;
    expected() noexcept = default;
    expected(blank) noexcept {}
    explicit expected(std::in_place_t) noexcept {}
    template <typename G, std::enable_if_t<std::is_constructible<E, const G&>::value, int> = 0> expected(const unexpected<G>& u) : e_(std::in_place, u.error()) {}
    template <typename G, std::enable_if_t<std::is_constructible<E, G>::value, int> = 0> expected(unexpected<G>&& u) : e_(std::in_place, std::move(u).error()) {}
    template <typename... A, std::enable_if_t<std::is_constructible<E, A...>::value, int> = 0> explicit expected(unexpect_t, A&&... a) : e_(std::in_place, std::forward<A>(a)...) {}
    template <typename G, std::enable_if_t<!std::is_same<G, E>::value && std::is_constructible<E, G&&>::value, int> = 0> expected(expected<void, G>&& o) { if (!o.has_value()) e_.emplace(std::move(o).error()); }
    bool has_value() const noexcept { return !e_.has_value(); }
    explicit operator bool() const noexcept { return has_value(); }
    void value() const { SIM_CONTRACT("expected has no value", has_value()); } void operator*() const { value(); }
    E& error() & { chke(); return *e_; } const E& error() const& { chke(); return *e_; } E&& error() && { chke(); return std::move(*e_); }
    template <typename G> E error_or(G&& g) const { return has_value() ? static_cast<E>(std::forward<G>(g)) : error(); }
    void emplace() noexcept { e_.reset(); }
    template <typename F> auto and_then(F&& f) const -> std::invoke_result_t<F> { if (has_value()) return std::forward<F>(f)(); return std::invoke_result_t<F>(unexpect, error()); }
    friend bool operator==(const expected& a, const expected& b) { return a.e_ == b.e_; }
    friend bool operator!=(const expected& a, const expected& b) { return !(a.e_ == b.e_); }
  private:
    void chke() const { SIM_CONTRACT("expected has no error", e_.has_value()); }
    std::optional<E> e_;
};
template <typename E> using expected_blank = expected<void, E>;
}
