#pragma once
#include "score/callback.hpp"
#include <optional>
#include <utility>
namespace score::utils {
template <typename H = score::cpp::callback<void()>> class ScopeExit { public:
    template <typename F, typename = std::enable_if_t<!std::is_same<std::decay_t<F>, ScopeExit>::value>> explicit ScopeExit(F&& f) : h_{H{std::forward<F>(f)}} {}
    ScopeExit(ScopeExit&& o) noexcept : h_{std::move(o.h_)} { o.h_.reset(); }
    ScopeExit& operator=(ScopeExit&& o) noexcept { if (this != &o) { run(); h_.reset(); if (o.h_) h_.emplace(std::move(*o.h_)); o.h_.reset(); } return *this; }
    ScopeExit(const ScopeExit&) = delete; ~ScopeExit() { run(); }
    void Release() noexcept { h_.reset(); }
  private: void run() { if (h_) { (void)(*h_)(); } } std::optional<H> h_; };
template <typename F> ScopeExit(F) -> ScopeExit<F>;
template <typename H = score::cpp::callback<void()>> using MovableScopedOperation = ScopeExit<H>;
}
