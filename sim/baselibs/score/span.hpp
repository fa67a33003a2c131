#pragma once
#include "score/assert.hpp"
#include <array>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <vector>
namespace score::cpp {
inline constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);
template <typename C> constexpr decltype(auto) at(C& c, std::ptrdiff_t i) { SIM_CONTRACT("assert", i >= 0 && static_cast<std::size_t>(i) < c.size()); return c[static_cast<std::size_t>(i)]; }
template <typename T, std::size_t E = dynamic_extent> class span {
  public:
    using element_type = T; using value_type = std::remove_cv_t<T>; using size_type = std::size_t; using difference_type = std::ptrdiff_t;
    using pointer = T*; using const_pointer = const T*; using reference = T&; using const_reference = const T&;
    using iterator = T*; using const_iterator = const T*; using reverse_iterator = std::reverse_iterator<iterator>;
    constexpr span() noexcept = default;
    template <typename I, std::enable_if_t<std::is_integral<I>::value, int> = 0>
    constexpr span(pointer p, I n) noexcept : p_{p}, n_{static_cast<std::size_t>(n)} {}
    constexpr span(pointer f, pointer l) noexcept : p_{f}, n_{static_cast<std::size_t>(l - f)} {}
    template <std::size_t N> constexpr span(T (&a)[N]) noexcept : p_{a}, n_{N} {}
    template <typename U, std::size_t N, std::enable_if_t<std::is_convertible<U (*)[], T (*)[]>::value, int> = 0> constexpr span(std::array<U, N>& a) noexcept : p_{a.data()}, n_{N} {}
    template <typename U, std::size_t N, std::enable_if_t<std::is_convertible<const U (*)[], T (*)[]>::value, int> = 0> constexpr span(const std::array<U, N>& a) noexcept : p_{a.data()}, n_{N} {}
    template <typename C, typename = std::enable_if_t<!std::is_array<C>::value && std::is_convertible<std::remove_pointer_t<decltype(std::declval<C&>().data())> (*)[], T (*)[]>::value && std::is_convertible<decltype(std::declval<C&>().size()), std::size_t>::value>>
    constexpr span(C& c) noexcept : p_{c.data()}, n_{static_cast<std::size_t>(c.size())} {}
    template <typename C, typename = std::enable_if_t<!std::is_array<C>::value && std::is_convertible<std::remove_pointer_t<decltype(std::declval<const C&>().data())> (*)[], T (*)[]>::value && std::is_convertible<decltype(std::declval<const C&>().size()), std::size_t>::value>>
    constexpr span(const C& c) noexcept : p_{c.data()}, n_{static_cast<std::size_t>(c.size())} {}
    template <typename U, std::size_t N, std::enable_if_t<std::is_convertible<U (*)[], T (*)[]>::value, int> = 0> constexpr span(const span<U, N>& o) noexcept : p_{o.data()}, n_{o.size()} {}
    constexpr iterator begin() const noexcept { return p_; }
    constexpr iterator end() const noexcept { return p_ + n_; }
    constexpr const_iterator cbegin() const noexcept { return p_; }
    constexpr const_iterator cend() const noexcept { return p_ + n_; }
    constexpr reverse_iterator rbegin() const noexcept { return reverse_iterator{end()}; }
    constexpr reverse_iterator rend() const noexcept { return reverse_iterator{begin()}; }
    constexpr T* data() const noexcept { return p_; }
    constexpr std::size_t size() const noexcept { return n_; }
    constexpr std::size_t size_bytes() const noexcept { return n_ * sizeof(T); }
    constexpr bool empty() const noexcept { return n_ == 0; }
    template <typename I> constexpr T& operator[](I i) const { SIM_CONTRACT("span bounds", static_cast<std::size_t>(i) < n_); return p_[static_cast<std::size_t>(i)]; }
    constexpr T& front() const { SIM_CONTRACT("span bounds", n_ > 0); return p_[0]; }
    constexpr T& back() const { SIM_CONTRACT("span bounds", n_ > 0); return p_[n_ - 1]; }
    template <typename I> constexpr span first(I c) const { SIM_CONTRACT("span bounds", static_cast<std::size_t>(c) <= n_); return {p_, static_cast<std::size_t>(c)}; }
    template <typename I> constexpr span last(I c) const { SIM_CONTRACT("span bounds", static_cast<std::size_t>(c) <= n_); return {p_ + (n_ - static_cast<std::size_t>(c)), static_cast<std::size_t>(c)}; }
    template <typename I> constexpr span subspan(I o) const { SIM_CONTRACT("span bounds", static_cast<std::size_t>(o) <= n_); return {p_ + static_cast<std::size_t>(o), n_ - static_cast<std::size_t>(o)}; }
    template <typename I, typename J> constexpr span subspan(I o, J c) const { SIM_CONTRACT("span bounds", static_cast<std::size_t>(o) + static_cast<std::size_t>(c) <= n_); return {p_ + static_cast<std::size_t>(o), static_cast<std::size_t>(c)}; }
  private:
    T* p_{nullptr}; std::size_t n_{0};
};
template <typename T, std::size_t N> span(T (&)[N]) -> span<T>;
template <typename C> span(C&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <typename T, typename I> span(T*, I) -> span<T>;
template <typename T> constexpr span<const std::byte> as_bytes(span<T> s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size_bytes()}; }
}
