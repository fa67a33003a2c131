#pragma once
#include "score/callback.hpp"
#include "score/language/safecpp/scoped_function/scope.h"
#include <functional>
#include <memory>
namespace score::safecpp {
template <typename Sig> class CopyableScopedFunction;
template <typename Sig> class MoveOnlyScopedFunction;
template <typename R, typename... Args> class MoveOnlyScopedFunction<R(Args...)> {
  public:
    using result_t = typename scoped_result<R>::type;
    MoveOnlyScopedFunction() = default;
    template <typename S, typename F, std::enable_if_t<std::is_invocable<std::decay_t<F>&, Args...>::value, int> = 0>
    MoveOnlyScopedFunction(const Scope<S>& s, F&& f) : s_{s.State()}, f_{std::make_unique<score::cpp::callback<R(Args...)>>(std::forward<F>(f))} {}
    template <typename S, typename... CArgs> explicit MoveOnlyScopedFunction(S&&, std::in_place_t, CArgs&&...) = delete;
    MoveOnlyScopedFunction(MoveOnlyScopedFunction&&) noexcept = default;
    MoveOnlyScopedFunction& operator=(MoveOnlyScopedFunction&&) noexcept = default;
    result_t operator()(Args... a) const {
        if (!s_ || !f_ || !s_->Enter()) return result_t{};
        detail::ScopeGuard g{s_};
        if constexpr (std::is_void<R>::value) { (*f_)(std::forward<Args>(a)...); return result_t{true}; } else { return result_t{(*f_)(std::forward<Args>(a)...)}; }
    }
  private:
    std::shared_ptr<detail::ScopeState> s_; std::unique_ptr<score::cpp::callback<R(Args...)>> f_;
};
}
