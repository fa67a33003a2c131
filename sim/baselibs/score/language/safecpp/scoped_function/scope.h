#pragma once
#include <condition_variable>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <optional>
#include <utility>
namespace score::safecpp {
// Same contract as score_baselibs: a scoped function runs only while its Scope is alive; Expire()/~Scope block until
// running calls have returned. Recursive calls are counted.
namespace detail {
struct ScopeState {
    std::mutex m; std::condition_variable cv; bool expired{false}; unsigned running{0};
    bool Enter() { std::lock_guard<std::mutex> l(m); if (expired) return false; ++running; return true; }
    void Leave() { std::lock_guard<std::mutex> l(m); if (--running == 0) cv.notify_all(); }
    void Expire() { std::unique_lock<std::mutex> l(m); expired = true; cv.wait(l, [this] { return running == 0; }); }
    bool HasExpired() { std::lock_guard<std::mutex> l(m); return expired; }
};
struct ScopeGuard { std::shared_ptr<ScopeState> s; explicit ScopeGuard(std::shared_ptr<ScopeState> p) : s(std::move(p)) {} ~ScopeGuard() { s->Leave(); } ScopeGuard(const ScopeGuard&) = delete; };
}
template <typename = void> class Scope {
  public:
    Scope() : s_{std::make_shared<detail::ScopeState>()} {}
    Scope(const Scope&) = delete; Scope& operator=(const Scope&) = delete;
    Scope(Scope&& o) noexcept : s_{std::move(o.s_)} {}
    Scope& operator=(Scope&& o) noexcept { if (this != &o) { Expire(); s_ = std::move(o.s_); } return *this; }
    ~Scope() { Expire(); }
    void Expire() noexcept { if (s_) s_->Expire(); }
    bool HasExpired() const noexcept { return !s_ || s_->HasExpired(); }
    const std::shared_ptr<detail::ScopeState>& State() const { return s_; }
  private:
    std::shared_ptr<detail::ScopeState> s_;
};
template <typename R> struct scoped_result { using type = std::optional<R>; };
template <> struct scoped_result<void> { class type { public: constexpr type(bool b = false) : b_{b} {} constexpr bool has_value() const { return b_; } constexpr explicit operator bool() const { return b_; } private: bool b_; }; };
}
