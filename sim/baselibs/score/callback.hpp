#pragma once
#include "score/assert.hpp"
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace score::cpp {
// Move-only type-erased callable. The real one stores in place (no heap); capacity checks are not modelled.
template <typename Sig, std::size_t C = 32U, std::size_t A = alignof(std::max_align_t)> class callback;
template <typename T> struct is_callback : std::false_type {};
template <typename S, std::size_t C, std::size_t A> struct is_callback<callback<S, C, A>> : std::true_type {};
template <typename R, typename... Args, std::size_t C, std::size_t A> class callback<R(Args...), C, A> {
    struct base { virtual ~base() = default; virtual R call(Args...) = 0; };
    template <typename F> struct impl final : base {
        F f; template <typename G> explicit impl(G&& g) : f(std::forward<G>(g)) {}
        R call(Args... a) override { if constexpr (std::is_void<R>::value) { std::invoke(f, std::forward<Args>(a)...); } else { return std::invoke(f, std::forward<Args>(a)...); } }
    };
  public:
    using alignment_t = std::integral_constant<std::size_t, A>; using capacity_t = std::integral_constant<std::size_t, C>;
    callback() noexcept = default;
    callback(std::nullptr_t) noexcept {}
    template <typename F, typename D = std::decay_t<F>, std::enable_if_t<!is_callback<D>::value && !std::is_same<D, std::nullptr_t>::value && std::is_invocable<D&, Args...>::value, int> = 0>
    callback(F&& f) : p_{std::make_unique<impl<D>>(std::forward<F>(f))} {}
    template <std::size_t C2, std::size_t A2, std::enable_if_t<C2 != C || A2 != A, int> = 0>
    callback(callback<R(Args...), C2, A2>&& o) { if (!o.empty()) p_ = std::make_unique<impl<callback<R(Args...), C2, A2>>>(std::move(o)); }
    callback(callback&&) noexcept = default;
    callback& operator=(callback&&) noexcept = default;
    callback& operator=(std::nullptr_t) noexcept { p_.reset(); return *this; }
    callback(const callback&) = delete; callback& operator=(const callback&) = delete;
    bool empty() const noexcept { return p_ == nullptr; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    R operator()(Args... a) const { SIM_CONTRACT("empty callback invoked", p_ != nullptr); return p_->call(std::forward<Args>(a)...); }
  private:
    std::unique_ptr<base> p_;
};
template <typename S, std::size_t C, std::size_t A> bool operator==(const callback<S, C, A>& c, std::nullptr_t) noexcept { return c.empty(); }
template <typename S, std::size_t C, std::size_t A> bool operator!=(const callback<S, C, A>& c, std::nullptr_t) noexcept { return !c.empty(); }
template <typename Sig, std::size_t C = 32U, std::size_t A = alignof(std::max_align_t)> using move_only_function = callback<Sig, C, A>;
}
