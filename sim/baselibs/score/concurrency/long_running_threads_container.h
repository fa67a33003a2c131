#pragma once
#include "score/concurrency/executor.h"
#include "score/concurrency/simple_task.h"
namespace score::concurrency {
class LongRunningThreadsContainer final : public Executor { public:
    LongRunningThreadsContainer() = default; ~LongRunningThreadsContainer() override { Shutdown(); std::vector<std::unique_ptr<Rec>> v; { std::lock_guard<std::mutex> l(m_); v.swap(r_); } for (auto& r : v) if (r->t.joinable()) r->t.join(); }
    void Enqueue(score::cpp::pmr::unique_ptr<Task> t) override { std::lock_guard<std::mutex> l(m_); if (sd_) return; auto r = std::make_unique<Rec>(); r->src = t->GetStopSource(); std::shared_ptr<Task> sp{std::move(t)}; auto tok = r->src.get_token(); r->t = std::thread([sp, tok] { (*sp)(tok); }); r_.push_back(std::move(r)); }
    void Shutdown() noexcept override { std::vector<score::cpp::stop_source> s; { std::lock_guard<std::mutex> l(m_); sd_ = true; for (auto& r : r_) s.push_back(r->src); } for (auto& x : s) x.request_stop(); }
    bool ShutdownRequested() const noexcept override { std::lock_guard<std::mutex> l(m_); return sd_; } std::size_t MaxConcurrencyLevel() const noexcept override { return 64; }
  private: struct Rec { std::thread t; score::cpp::stop_source src; }; mutable std::mutex m_; bool sd_{false}; std::vector<std::unique_ptr<Rec>> r_; };
}
