#pragma once
#include <atomic>
#include <condition_variable>
#include <functional>
#include <list>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include <utility>
namespace score::cpp {
namespace stop_detail {
struct cb_base { std::function<void()> f; bool done{false}; };
struct state {
    std::mutex m; std::condition_variable cv; bool stopped{false}; std::list<cb_base*> cbs; cb_base* running{nullptr}; std::thread::id runner{}; bool* destroyed_in_cb{nullptr};
    std::atomic<int> sources{0};
    bool request_stop() {
        std::unique_lock<std::mutex> l(m);
        if (stopped) return false;
        stopped = true; runner = std::this_thread::get_id();
        while (!cbs.empty()) {
            cb_base* c = cbs.front(); cbs.pop_front(); running = c; bool destroyed = false; destroyed_in_cb = &destroyed;
            l.unlock(); c->f(); l.lock();
            destroyed_in_cb = nullptr; if (!destroyed) { c->done = true; } running = nullptr; cv.notify_all();
        }
        return true;
    }
};
}
class stop_token {
  public:
    stop_token() noexcept = default;
    explicit stop_token(std::shared_ptr<stop_detail::state> s) : s_(std::move(s)) {}
    bool stop_requested() const noexcept { if (!s_) return false; std::lock_guard<std::mutex> l(s_->m); return s_->stopped; }
    bool stop_possible() const noexcept { return s_ && (stop_requested() || s_->sources.load() > 0); }
    std::shared_ptr<stop_detail::state> s_;
};
struct nostopstate_t { explicit nostopstate_t() = default; };
inline constexpr nostopstate_t nostopstate{};
class stop_source {
  public:
    stop_source() : s_(std::make_shared<stop_detail::state>()) { s_->sources++; }
    explicit stop_source(nostopstate_t) noexcept {}
    stop_source(const stop_source& o) : s_(o.s_) { if (s_) s_->sources++; }
    stop_source(stop_source&& o) noexcept : s_(std::move(o.s_)) {}
    stop_source& operator=(const stop_source& o) { stop_source t(o); std::swap(s_, t.s_); return *this; }
    stop_source& operator=(stop_source&& o) noexcept { if (this != &o) { rel(); s_ = std::move(o.s_); } return *this; }
    ~stop_source() { rel(); }
    bool request_stop() noexcept { auto s = s_; return s && s->request_stop(); }
    bool stop_requested() const noexcept { return get_token().stop_requested(); }
    bool stop_possible() const noexcept { return static_cast<bool>(s_); }
    stop_token get_token() const noexcept { return stop_token{s_}; }
  private:
    void rel() { if (s_) { s_->sources--; s_.reset(); } }
    std::shared_ptr<stop_detail::state> s_;
};
// type-erased like futurecpp's stop_callback
class stop_callback : private stop_detail::cb_base {
  public:
    template <typename F> stop_callback(const stop_token& t, F&& fn) : s_(t.s_) {
        f = std::forward<F>(fn);
        if (!s_) return;
        std::unique_lock<std::mutex> l(s_->m);
        if (s_->stopped) { l.unlock(); f(); done = true; return; }
        s_->cbs.push_back(this);
    }
    stop_callback(const stop_callback&) = delete; stop_callback& operator=(const stop_callback&) = delete;
    ~stop_callback() {
        if (!s_) return;
        std::unique_lock<std::mutex> l(s_->m);
        s_->cbs.remove(this);
        if (s_->running == this) {
            if (s_->runner == std::this_thread::get_id()) { if (s_->destroyed_in_cb) *s_->destroyed_in_cb = true; }
            else s_->cv.wait(l, [this] { return s_->running != this; });
        }
    }
  private:
    std::shared_ptr<stop_detail::state> s_;
};
}
