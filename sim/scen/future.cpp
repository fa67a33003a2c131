// Non allocating future: waiter and setter threads; the waiter destroys everything as soon as it has been woken.
#include "sim_api.h"
#include "score/message_passing/non_allocating_future/non_allocating_future.h"
#include <condition_variable>
#include <cstring>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace mp = score::message_passing::detail;
namespace {
struct Value { std::uint64_t a = 0; std::uint64_t w[8] = {}; std::string s; };
struct Bundle { std::mutex m; std::condition_variable cv; Value v; mp::NonAllocatingFuture<std::mutex, std::condition_variable, Value> f{m, cv, v}; };
struct VoidBundle { std::mutex m; std::condition_variable cv; mp::NonAllocatingFuture<std::mutex, std::condition_variable, void> f{m, cv}; };
struct Round { bool set_started = false; int woken = 0; };
void fill(Value& v, std::uint64_t k) { for (int i = 0; i < 8; ++i) v.w[i] = k * 31 + static_cast<std::uint64_t>(i); v.s.assign(40 + k % 7, static_cast<char>('a' + k % 26)); v.a = k; }
void check(const Value& v, std::uint64_t k) {
    if (v.a != k) sim_violation("the waiter sees value %llu instead of %llu", (unsigned long long)v.a, (unsigned long long)k);
    for (int i = 0; i < 8; ++i) if (v.w[i] != k * 31 + static_cast<std::uint64_t>(i)) sim_violation("the waiter sees an incomplete value");
    if (v.s != std::string(40 + k % 7, static_cast<char>('a' + k % 26))) sim_violation("the waiter sees an incomplete value");
}
}
extern "C" void sim_process_main(int, int, void*) {
    const int rounds = 1 + static_cast<int>(sim_below(4));
    for (int k = 1; k <= rounds; ++k) {
        const int how = static_cast<int>(sim_below(4)), waiters = 1 + static_cast<int>(sim_below(sim_chance(300) ? 3 : 1)); const bool setter_first = sim_chance(300);
        Round rd; bool started = false; int ready = 0; (void)started;
        sim_cover(static_cast<std::uint64_t>(how * 16 + waiters * 4 + setter_first)); sim_count("futures", 1);
        if (how == 3) {
            VoidBundle* b = new VoidBundle; bool set = false; int woken = 0;
            std::thread t{[&, b] { if (sim_chance(300)) sim_sleep_ns(sim_below(50000)); { SimAtomic a; set = true; } b->f.MarkReady(); }};
            std::vector<std::thread> w; for (int i = 1; i < waiters; ++i) w.emplace_back([&, b] { b->f.Wait(); if (!set) sim_violation("a waiter returned before the value was set"); });
            for (auto& x : w) x.join();
            b->f.Wait(); { SimAtomic a; if (!set) sim_violation("a waiter returned before the value was set"); }
            (void)woken; delete b;       // directly after waking; the setter may still be inside MarkReady()
            t.join(); continue;
        }
        Bundle* b = new Bundle; const std::uint64_t key = static_cast<std::uint64_t>(k) * 1000 + sim_below(1000);
        std::thread t{[&, b] {
            if (sim_chance(300)) sim_sleep_ns(sim_below(50000));
            Value v; fill(v, key); { SimAtomic a; rd.set_started = true; }
            if (how == 0) { b->f.UpdateValueMarkReady(v); if (v.s.empty()) sim_violation("setting by copy emptied the source"); } else if (how == 1) b->f.UpdateValueMarkReady(std::move(v)); else { fill(b->f.GetValueForUpdate(), key); b->f.MarkReady(); }
            sim_event("setter returned");
        }};
        auto waited = [&, b] { b->f.Wait(); { SimAtomic a; if (!rd.set_started) sim_violation("a waiter returned before the value was set"); } check(b->f.GetValue(), key); if (&b->f.GetValue() != &b->v) sim_violation("the value is not the one given"); };
        std::vector<std::thread> w; for (int i = 1; i < waiters; ++i) w.emplace_back(waited);
        if (setter_first) { sim_sleep_ns(100000); }
        waited(); sim_event("waiter returned"); waited();    // waiting again returns at once
        for (auto& x : w) x.join();
        Value got = b->f.GetValue(); (void)ready;
        delete b;                        // directly after waking; the setter may still be inside MarkReady()
        check(got, key);
        t.join();
    }
}
extern "C" void sim_control() {
    sim_allow_fault(SF_COND_SPURIOUS, 200); sim_allow_fault(SF_STALL, 4); sim_budget_ok(0); sim_max_steps(20000); sim_race_check(1, 1);
    const int p = sim_spawn("app", 1, 0, 1000, 1, nullptr);
    if (!sim_wait_exit(p, 5000000000ULL)) sim_violation("a waiter was never woken although the value was set");
}
