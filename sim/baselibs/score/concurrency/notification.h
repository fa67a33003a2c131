#pragma once
#include "score/stop_token.hpp"
#include <chrono>
#include <condition_variable>
#include <mutex>
namespace score::concurrency {
class Notification { public:
    void notify() noexcept { { std::lock_guard<std::mutex> l(m_); n_ = true; } cv_.notify_all(); }
    void reset() noexcept { std::lock_guard<std::mutex> l(m_); n_ = false; } bool notified() const noexcept { std::lock_guard<std::mutex> l(m_); return n_; }
    bool waitWithAbort(const score::cpp::stop_token& t) noexcept { score::cpp::stop_callback c{t, [this] { std::lock_guard<std::mutex> l(m_); cv_.notify_all(); }}; std::unique_lock<std::mutex> l(m_); cv_.wait(l, [&] { return n_ || t.stop_requested(); }); return n_; }
    template <typename R, typename P> bool waitForWithAbort(const std::chrono::duration<R, P>& d, const score::cpp::stop_token& t) noexcept { score::cpp::stop_callback c{t, [this] { std::lock_guard<std::mutex> l(m_); cv_.notify_all(); }}; std::unique_lock<std::mutex> l(m_); cv_.wait_for(l, d, [&] { return n_ || t.stop_requested(); }); return n_; }
    void wait() noexcept { std::unique_lock<std::mutex> l(m_); cv_.wait(l, [this] { return n_; }); }
  private: mutable std::mutex m_; std::condition_variable cv_; bool n_{false}; };
}
