#pragma once
#include "score/concurrency/executor.h"
namespace score::concurrency {
class ThreadPool final : public Executor { public:
    explicit ThreadPool(std::size_t n, std::string = "") : n_{n} { for (std::size_t i = 0; i < n; ++i) t_.emplace_back([this] { Run(); }); }
    ~ThreadPool() override { Shutdown(); for (auto& t : t_) t.join(); }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override { { std::lock_guard<std::mutex> l(m_); if (sd_) return; q_.push_back(std::shared_ptr<Task>{std::move(t)}); } cv_.notify_one(); }
    void Shutdown() noexcept override { std::vector<score::cpp::stop_source> s; { std::lock_guard<std::mutex> l(m_); sd_ = true; s = cur_; for (auto& t : q_) s.push_back(t->GetStopSource()); } for (auto& x : s) x.request_stop(); cv_.notify_all(); }
    bool ShutdownRequested() const noexcept override { std::lock_guard<std::mutex> l(m_); return sd_; } std::size_t MaxConcurrencyLevel() const noexcept override { return n_; }
  private:
    void Run() { for (;;) { std::shared_ptr<Task> t; score::cpp::stop_source src{score::cpp::nostopstate}; { std::unique_lock<std::mutex> l(m_); cv_.wait(l, [this] { return sd_ || !q_.empty(); }); if (sd_) return; t = std::move(q_.front()); q_.pop_front(); src = t->GetStopSource(); cur_.push_back(src); } (*t)(src.get_token()); t.reset(); } }
    std::size_t n_; mutable std::mutex m_; std::condition_variable cv_; bool sd_{false}; std::deque<std::shared_ptr<Task>> q_; std::vector<score::cpp::stop_source> cur_; std::vector<std::thread> t_; };
}
