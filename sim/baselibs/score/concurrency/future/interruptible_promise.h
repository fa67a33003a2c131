#pragma once
#include "score/concurrency/executor.h"
#include <variant>
namespace score::concurrency {
template <typename T> struct InterruptibleState { std::mutex m; std::condition_variable cv; std::optional<T> v; std::optional<score::result::Error> e; bool broken{false}; bool ready() const { return v.has_value() || e.has_value() || broken; } };
template <typename T> class InterruptibleFuture { public:
    InterruptibleFuture() = default; explicit InterruptibleFuture(std::shared_ptr<InterruptibleState<T>> s) : s_{std::move(s)} {} InterruptibleFuture(InterruptibleFuture&&) noexcept = default; InterruptibleFuture& operator=(InterruptibleFuture&&) noexcept = default;
    bool Valid() const noexcept { return static_cast<bool>(s_); }
    Result<void> Wait(const score::cpp::stop_token& t) { if (!s_) return MakeUnexpected<void>(Error::kNoState); score::cpp::stop_callback c{t, [this] { std::lock_guard<std::mutex> l(s_->m); s_->cv.notify_all(); }}; std::unique_lock<std::mutex> l(s_->m); s_->cv.wait(l, [&] { return s_->ready() || t.stop_requested(); }); if (!s_->ready()) return MakeUnexpected<void>(Error::kStopRequested); return {}; }
    Result<T> Get(const score::cpp::stop_token& t) { auto w = Wait(t); if (!w.has_value()) return Result<T>{unexpect, w.error()}; auto s = std::move(s_); std::lock_guard<std::mutex> l(s->m); if (s->e) return Result<T>{unexpect, *s->e}; if (!s->v) return MakeUnexpected<T>(Error::kUnknown); return Result<T>{std::move(*s->v)}; }
  private: std::shared_ptr<InterruptibleState<T>> s_; };
template <typename T> class InterruptiblePromise { public:
    InterruptiblePromise() : s_{std::make_shared<InterruptibleState<T>>()} {} InterruptiblePromise(InterruptiblePromise&&) noexcept = default; InterruptiblePromise& operator=(InterruptiblePromise&& o) noexcept { if (this != &o) { brk(); s_ = std::move(o.s_); } return *this; } ~InterruptiblePromise() { brk(); }
    Result<InterruptibleFuture<T>> GetInterruptibleFuture() { return Result<InterruptibleFuture<T>>{InterruptibleFuture<T>{s_}}; }
    Result<void> SetValue(T&& v) { { std::lock_guard<std::mutex> l(s_->m); if (s_->ready()) return MakeUnexpected<void>(Error::kUnknown); s_->v.emplace(std::move(v)); } s_->cv.notify_all(); return {}; } Result<void> SetValue(const T& v) { return SetValue(T(v)); }
    template <typename E> Result<void> SetError(E e) { { std::lock_guard<std::mutex> l(s_->m); if constexpr (std::is_enum<E>::value) s_->e.emplace(MakeError(e, "")); else s_->e.emplace(e); } s_->cv.notify_all(); return {}; }
  private: void brk() { if (s_) { { std::lock_guard<std::mutex> l(s_->m); if (!s_->ready()) s_->broken = true; } s_->cv.notify_all(); } } std::shared_ptr<InterruptibleState<T>> s_; };
}
