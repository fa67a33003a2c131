#pragma once
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
namespace score::safecpp {
template <typename R, typename... Args> class CopyableScopedFunction<R(Args...)> {
  public:
    using result_t = typename scoped_result<R>::type;
    CopyableScopedFunction() = default;
    template <typename S, typename F, std::enable_if_t<std::is_invocable<std::decay_t<F>&, Args...>::value, int> = 0>
    CopyableScopedFunction(const Scope<S>& s, F&& f) : s_{s.State()}, f_{std::forward<F>(f)} {}
    result_t operator()(Args... a) const {
        if (!s_ || !f_ || !s_->Enter()) return result_t{};
        detail::ScopeGuard g{s_};
        if constexpr (std::is_void<R>::value) { f_(std::forward<Args>(a)...); return result_t{true}; } else { return result_t{f_(std::forward<Args>(a)...)}; }
    }
    explicit operator bool() const { return static_cast<bool>(f_); }
  private:
    std::shared_ptr<detail::ScopeState> s_; std::function<R(Args...)> f_;
};
}
