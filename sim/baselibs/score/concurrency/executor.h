#pragma once
#include "score/callback.hpp"
#include "score/memory.hpp"
#include "score/result/result.h"
#include "score/stop_token.hpp"
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>
namespace score::concurrency {
class Task { public: virtual ~Task() = default; virtual void operator()(const score::cpp::stop_token) = 0; virtual score::cpp::stop_source GetStopSource() const { return score::cpp::stop_source{score::cpp::nostopstate}; } };
enum class Error : score::result::ErrorCode { kStopRequested = 1, kNoState, kUnknown };
class ErrDomain final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "concurrency"; } };
inline score::result::Error MakeError(const Error c, const std::string_view m = "") { static ErrDomain d{}; return {static_cast<score::result::ErrorCode>(c), d, m}; }
template <typename R> class TaskResult { public:
    struct State { std::mutex m; std::condition_variable cv; bool done{false}, broken{false}; };
    // a task that is dropped without having run breaks its promise
    struct Promise { std::shared_ptr<State> s; explicit Promise(std::shared_ptr<State> x) : s{std::move(x)} {} ~Promise() { std::lock_guard<std::mutex> l(s->m); if (!s->done) { s->done = s->broken = true; s->cv.notify_all(); } } };
    TaskResult() = default; explicit TaskResult(std::shared_ptr<State> s, score::cpp::stop_source src) : s_{std::move(s)}, src_{std::move(src)} {}
    TaskResult(TaskResult&&) noexcept = default; TaskResult& operator=(TaskResult&&) noexcept = default;
    void Abort() { src_.request_stop(); } bool Valid() const { return static_cast<bool>(s_); }
    Result<void> Wait() { if (!s_) return MakeUnexpected<void>(Error::kNoState); std::unique_lock<std::mutex> l(s_->m); s_->cv.wait(l, [this] { return s_->done; }); if (s_->broken) return MakeUnexpected<void>(Error::kUnknown); return {}; }
    template <typename C, typename D> bool WaitFor(const std::chrono::duration<C, D>& d) { std::unique_lock<std::mutex> l(s_->m); return s_->cv.wait_for(l, d, [this] { return s_->done; }); }
    Result<void> Get() { return Wait(); }
  private: std::shared_ptr<State> s_; score::cpp::stop_source src_{score::cpp::nostopstate}; };
struct SimpleTaskImpl : Task { std::function<void(score::cpp::stop_token)> f; score::cpp::stop_source src; std::shared_ptr<void> keep; void operator()(const score::cpp::stop_token t) override { f(t); } score::cpp::stop_source GetStopSource() const override { return src; } };
namespace exec_detail { template <typename F> std::function<void(score::cpp::stop_token)> wrap(F&& f) { auto p = std::make_shared<std::decay_t<F>>(std::forward<F>(f)); return [p](score::cpp::stop_token t) { (*p)(t); }; } }
class Executor { public: virtual ~Executor() = default;
    virtual void Enqueue(score::cpp::pmr::unique_ptr<Task> t) = 0; virtual void Shutdown() noexcept = 0; virtual bool ShutdownRequested() const noexcept = 0; virtual std::size_t MaxConcurrencyLevel() const noexcept = 0;
    template <typename F> void Post(F&& f) { auto t = score::cpp::pmr::make_unique<SimpleTaskImpl>(score::cpp::pmr::get_default_resource()); t->f = exec_detail::wrap(std::forward<F>(f)); Enqueue(std::move(t)); }
    template <typename F, typename A, typename... As> void Post(F&& f, A&& a, As&&... as) {
        auto fp = std::make_shared<std::decay_t<F>>(std::forward<F>(f)); auto tp = std::make_shared<std::tuple<std::decay_t<A>, std::decay_t<As>...>>(std::forward<A>(a), std::forward<As>(as)...);
        Post([fp, tp](const score::cpp::stop_token st) { std::apply([&](auto&... x) { (*fp)(st, x...); }, *tp); }); }
    template <typename F> TaskResult<void> Submit(F&& f) { auto st = std::make_shared<typename TaskResult<void>::State>(); auto t = score::cpp::pmr::make_unique<SimpleTaskImpl>(score::cpp::pmr::get_default_resource()); auto w = exec_detail::wrap(std::forward<F>(f)); auto pr = std::make_shared<typename TaskResult<void>::Promise>(st); t->f = [st, w, pr](score::cpp::stop_token tok) { w(tok); std::lock_guard<std::mutex> l(st->m); st->done = true; st->cv.notify_all(); }; auto src = t->src; Enqueue(std::move(t)); return TaskResult<void>{st, src}; } };
}
