// Sample quota trackers: threads of one consumer receive, keep and release; threads of one provider allocate and give back (C21).
#include "sim_api.h"
#include "score/mw/com/impl/sample_allocatee_tracker.h"
#include "score/mw/com/impl/sample_reference_tracker.h"
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <utility>
#include <vector>
namespace ci = score::mw::com::impl;
namespace {
constexpr int kMaxThreads = 6;
struct Quota {
    std::size_t max = 0;
    std::size_t sure = 0;       // reserved for certain: allocation returned, release not begun
    std::size_t maybe = 0;      // upper bound of what is reserved, including calls under way
    struct Op { bool on = false; std::size_t hi = 0, mine = 0; } op[kMaxThreads];   // the largest upper bound seen during a call, without the call itself
    void rose() { for (auto& o : op) if (o.on && maybe - o.mine > o.hi) o.hi = maybe - o.mine; }
};
Quota Q; std::size_t Amin, Amax;      // provider allocations: certainly alive, possibly alive
using Guard = ci::SampleReferenceGuard;
void release_begin(std::size_t n) { SimAtomic a; Q.sure -= n; }
void release_end(std::size_t n) { SimAtomic a; Q.maybe -= n; sim_event("released %zu", n); }
void release(std::vector<std::unique_ptr<Guard>>& v) {
    if (v.empty()) return; const std::size_t i = sim_below(static_cast<unsigned>(v.size())); auto g = std::move(v[i]); v.erase(v.begin() + static_cast<long>(i));
    release_begin(1);
    switch (sim_below(4)) {
        case 0: g.reset(); break;
        case 1: { Guard moved{std::move(*g)}; if (sim_chance(500)) { g.reset(); sim_yield(); } break; }
        case 2: *g = Guard{}; release_end(1); if (sim_chance(500)) { Guard again{std::move(*g)}; } return;
        default: { std::optional<Guard> o; o.emplace(std::move(*g)); Guard& self = *o; *o = std::move(self); o.reset(); break; }
    }
    release_end(1);
}
void allocate(ci::SampleReferenceTracker& t, int me, std::vector<std::unique_ptr<Guard>>& kept) {
    const std::size_t n = sim_chance(100) ? 0 : 1 + sim_below(static_cast<unsigned>(Q.max + 2));
    { SimAtomic a; Q.op[me] = {true, Q.maybe, n}; Q.maybe += n; for (int i = 0; i < kMaxThreads; ++i) if (i != me) { auto& o = Q.op[i]; if (o.on && Q.maybe - o.mine > o.hi) o.hi = Q.maybe - o.mine; } }
    auto made = std::make_unique<ci::TrackerGuardFactory>(t.Allocate(n));
    auto f = sim_chance(300) ? std::make_unique<ci::TrackerGuardFactory>(std::move(*made)) : std::move(made);
    if (made && sim_chance(500)) made.reset();
    const std::size_t got = f->GetNumAvailableGuards();
    {
        SimAtomic a; Q.op[me].on = false; Q.maybe -= n - (got < n ? got : n); Q.sure += got;
        if (got > n) sim_violation("%zu samples were reserved although %zu were asked for", got, n);
        if (Q.sure > Q.max) sim_violation("the threads hold %zu samples although %zu were reserved by the subscription", Q.sure, Q.max);
        const std::size_t room = Q.op[me].hi >= Q.max ? 0 : Q.max - Q.op[me].hi, least = n < room ? n : room;
        if (got < least) sim_violation("only %zu of %zu samples were given although at least %zu of %zu were free", got, n, room, Q.max);
        sim_count("reservations", 1); if (got < n) sim_count("short_reservations", 1); sim_cover(Q.sure * 64 + Q.max * 8 + got); sim_event("thread %d reserved %zu of %zu", me, got, n);
    }
    std::size_t left = got; const std::size_t use = sim_chance(400) ? got + 1 : sim_below(static_cast<unsigned>(got + 1));
    std::vector<std::unique_ptr<Guard>> dropped;
    for (std::size_t i = 0; i < use; ++i) {
        auto g = f->TakeGuard();
        if (g.has_value() != (left > 0)) sim_violation("a guard was %s although %zu of %zu are left", g.has_value() ? "given" : "refused", left, got);
        if (!g) break; --left;
        if (f->GetNumAvailableGuards() != left) sim_violation("the factory reports %zu guards instead of %zu", f->GetNumAvailableGuards(), left);
        if (sim_chance(700)) { if (!kept.empty() && sim_chance(200)) { release_begin(1); *kept.back() = std::move(*g); release_end(1); } else kept.push_back(std::make_unique<Guard>(std::move(*g))); }
        else { release_begin(1); g.reset(); release_end(1); }
    }
    release_begin(left); f.reset(); if (left != 0) release_end(left); else release_begin(0);
    made.reset();
}
void consumer(ci::SampleReferenceTracker& t, int me, int rounds) {
    std::vector<std::unique_ptr<Guard>> kept;
    for (int i = 0; i < rounds; ++i) {
        switch (sim_below(5)) {
            case 0: case 1: case 2: allocate(t, me, kept); break;
            case 3: release(kept); break;
            default: { if (t.GetNumAvailableSamples() > Q.max) sim_violation("more samples are available than were reserved by the subscription"); bool sure; { SimAtomic a; sure = !kept.empty(); } if (sure && !t.IsUsed()) sim_violation("the tracker claims to be unused although samples are held"); break; }
        }
    }
    while (!kept.empty()) release(kept);
}
void provider(ci::SampleAllocateeTracker& t, int rounds) {
    using G = ci::SampleAllocateeGuard; std::vector<std::unique_ptr<G>> kept;
    auto drop = [&] { auto g = std::move(kept.back()); kept.pop_back(); { SimAtomic a; --Amin; } if (sim_chance(300)) { G m{std::move(*g)}; g.reset(); } else if (sim_chance(300)) *g = G{}; g.reset(); { SimAtomic a; --Amax; } };
    for (int i = 0; i < rounds; ++i) {
        if (sim_chance(600) || kept.empty()) { { SimAtomic a; ++Amax; } auto g = std::make_unique<G>(t.Allocate()); { SimAtomic a; ++Amin; }
            if (!kept.empty() && sim_chance(300)) { { SimAtomic a; --Amin; } *kept.back() = std::move(*g); g.reset(); { SimAtomic a; --Amax; } } else if (sim_chance(300)) { auto h = std::make_unique<G>(std::move(*g)); kept.push_back(std::move(h)); } else kept.push_back(std::move(g));
            if (sim_chance(200)) { G& self = *kept.back(); *kept.back() = std::move(self); } }
        else drop();
        std::size_t lo; { SimAtomic a; lo = kept.size(); } const std::size_t n = t.GetNumAllocated(); if (n < lo) sim_violation("%zu allocations are counted although this thread alone holds %zu", n, lo);
    }
    while (!kept.empty()) drop();
}
}  // namespace
extern "C" void sim_process_main(int role, int, void*) {
    if (role == 2) { auto t = std::make_unique<ci::SampleAllocateeTracker>(); auto g = t->Allocate(); t.reset(); sim_violation("a provider event was destroyed although an allocation was outstanding"); }
    const int cycles = 1 + static_cast<int>(sim_below(3)), threads = 1 + static_cast<int>(sim_below(4)), rounds = 1 + static_cast<int>(sim_below(8));
    ci::SampleReferenceTracker t; auto a = std::make_unique<ci::SampleAllocateeTracker>();
    for (int c = 0; c < cycles; ++c) {
        Q = Quota{}; Q.max = 1 + sim_below(5); t.Reset(Q.max); Amin = Amax = 0;
        if (t.IsUsed() || t.GetNumAvailableSamples() != Q.max) sim_violation("a fresh subscription does not have its %zu samples", Q.max);
        std::vector<std::thread> th; for (int i = 0; i < threads; ++i) th.emplace_back([&, i] { consumer(t, i, rounds); });
        if (sim_chance(400)) for (int i = 0; i < 2; ++i) th.emplace_back([&] { provider(*a, rounds); });
        for (auto& x : th) x.join();
        if (t.IsUsed() || t.GetNumAvailableSamples() != Q.max) sim_violation("after everything was released %zu of %zu samples can be received", t.GetNumAvailableSamples(), Q.max);
        { auto f = t.Allocate(Q.max + 1); if (f.GetNumAvailableGuards() != Q.max) sim_violation("after everything was released only %zu of %zu samples can be received", f.GetNumAvailableGuards(), Q.max); }
        if (a->GetNumAllocated() != 0) sim_violation("%zu allocations are counted although all were given back", a->GetNumAllocated());
    }
}
extern "C" void sim_control() {
    sim_allow_fault(SF_CAS_SPURIOUS, 200); sim_allow_fault(SF_STALL, 4); sim_allow_fault(SF_DELAY, 100); sim_budget_ok(0); sim_max_steps(30000); sim_race_check(1, 1);
    const int p = sim_spawn("app", 1, 0, 1000, 1, nullptr);
    int q = 0; if (sim_chance(100)) { SimAtomic a; q = sim_spawn("leak", 2, 0, 1000, 1, nullptr); sim_expect_abort(q, 1); }
    if (!sim_wait_exit(p, 5000000000ULL)) sim_violation("a call never returned");
    if (q) { if (!sim_wait_exit(q, 5000000000ULL) || sim_exit_kind(q) != 3) sim_violation("destroying a provider event with an outstanding allocation was not noticed"); }
}
