#pragma once
#include "score/stop_token.hpp"
#include <thread>
namespace score::cpp {
class jthread {
  public:
    jthread() noexcept = default;
    template <typename F, typename... A, typename = std::enable_if_t<!std::is_same<std::decay_t<F>, jthread>::value>> explicit jthread(F&& f, A&&... a) {
        if constexpr (std::is_invocable<std::decay_t<F>, stop_token, std::decay_t<A>...>::value) { t_ = std::thread(std::forward<F>(f), src_.get_token(), std::forward<A>(a)...); }
        else { t_ = std::thread(std::forward<F>(f), std::forward<A>(a)...); }
    }
    jthread(jthread&&) noexcept = default;
    jthread& operator=(jthread&& o) noexcept { if (this != &o) { end(); src_ = std::move(o.src_); t_ = std::move(o.t_); } return *this; }
    ~jthread() { end(); }
    bool joinable() const noexcept { return t_.joinable(); } void join() { t_.join(); } void detach() { t_.detach(); }
    std::thread::id get_id() const noexcept { return t_.get_id(); }
    stop_source get_stop_source() { return src_; } stop_token get_stop_token() const { return src_.get_token(); } bool request_stop() { return src_.request_stop(); }
  private:
    void end() { if (t_.joinable()) { src_.request_stop(); t_.join(); } }
    stop_source src_; std::thread t_;
};
}
