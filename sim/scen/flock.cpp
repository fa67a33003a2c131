// File based locks: threads of several processes lock, try, unlock, close, move and die (C19).
#include "sim_api.h"
#include "kernel_api.h"
#include "score/memory/shared/flock/exclusive_flock_mutex.h"
#include "score/memory/shared/flock/flock_mutex_and_lock.h"
#include "score/memory/shared/flock/shared_flock_mutex.h"
#include "score/memory/shared/lock_file.h"
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>
namespace shm = score::memory::shared;
extern "C" int sk_peek_exists(const char*);
extern "C" int sk_count_fds(int pid);
namespace {
struct H { int pid; bool ex; bool sure; };
struct Oracle { std::map<int, H> h[2]; std::uint64_t version = 0; int next = 0; int rounds = 0; long shared_together = 0; };
Oracle* O;
const char* kPath[2] = {"/tmp/marker0", "/tmp/marker1"};
bool conflict(int f, int me, bool ex, bool maybe_too) { for (auto& e : O->h[f]) if (e.first != me && sim_alive(e.second.pid) && (e.second.sure || maybe_too) && (ex || e.second.ex)) return true; return false; }
struct Want { int f, id; bool ex; bool clash; std::uint64_t v; };
Want begin(int f, bool ex) { SimAtomic a; Want w{f, ++O->next, ex, conflict(f, -1, ex, true), 0}; O->h[f][w.id] = {sim_self(), ex, false}; w.v = ++O->version; return w; }
void got(const Want& w, const char* how) {
    SimAtomic a; O->version++; O->h[w.f][w.id].sure = true;
    if (conflict(w.f, w.id, w.ex, false)) sim_violation("%s granted a%s lock although a conflicting lock is held", how, w.ex ? "n exclusive" : " shared");
    if (!w.ex && O->h[w.f].size() > 1) { for (auto& e : O->h[w.f]) if (e.first != w.id && e.second.sure) { sim_count("shared_together", 1); break; } }
    sim_count(w.ex ? "exclusive_locks" : "shared_locks", 1); sim_cover(O->h[w.f].size() * 2 + w.ex); sim_event("%s file %d ex %d", how, w.f, w.ex);
}
void refused(const Want& w) {
    SimAtomic a; const bool alone = !w.clash && w.v == O->version; O->h[w.f].erase(w.id); O->version++;
    if (alone) sim_violation("try-lock failed although no conflicting lock was held"); sim_count("try_refused", 1);
}
void releasing(const Want& w) { SimAtomic a; O->version++; O->h[w.f][w.id].sure = false; }
void released(const Want& w) { SimAtomic a; O->version++; O->h[w.f].erase(w.id); }
void hold() { const int k = static_cast<int>(sim_below(3)); for (int i = 0; i < k; ++i) sim_yield(); if (sim_chance(200)) sim_sleep_ns(sim_below(50000)); }
std::optional<shm::LockFile> file(int f) {
    auto l = sim_chance(500) && sk_peek_exists(kPath[f]) ? shm::LockFile::Open(kPath[f]) : shm::LockFile::CreateOrOpen(kPath[f], false);
    if (!l) sim_violation("the marker file cannot be opened");
    if (sim_chance(300)) { shm::LockFile moved{std::move(*l)}; std::optional<shm::LockFile> r{std::move(moved)}; return r; }
    if (sim_chance(200)) { auto other = shm::LockFile::CreateOrOpen(kPath[1 - f], false); if (!other) sim_violation("the marker file cannot be opened"); *other = std::move(*l); return other; }
    return l;
}
template <class M> void with_mutex(int f, bool ex) {
    auto l = file(f); M m{*l}; const int n = 1 + static_cast<int>(sim_below(4));
    for (int i = 0; i < n; ++i) {
        Want w = begin(f, ex);
        if (sim_chance(500)) { m.lock(); got(w, "lock"); } else { if (!m.try_lock()) { refused(w); hold(); continue; } got(w, "try_lock"); }
        hold();
        releasing(w);
        if (i == n - 1 && sim_chance(400)) { l.reset(); released(w); return; }   // closing the file gives the lock back
        m.unlock(); released(w);
        if (sim_chance(300)) hold();
    }
}
template <class M> void with_guard(int f, bool ex) {
    auto l = file(f);
    for (int t = 0; t < 3; ++t) {
        Want w = begin(f, ex);
        auto g = std::make_unique<shm::FlockMutexAndLock<M>>(*l);
        if (!g->TryLock()) { refused(w); hold(); continue; }
        got(w, "TryLock"); hold(); releasing(w); g.reset(); released(w); hold();
    }
}
void thread_main() {
    for (int i = 0; i < O->rounds; ++i) {
        const int f = static_cast<int>(sim_below(2)); const bool ex = sim_chance(450);
        switch (static_cast<int>(ex) * 2 + static_cast<int>(sim_below(2))) {
            case 0: with_mutex<shm::SharedFlockMutex>(f, false); break;
            case 1: with_guard<shm::SharedFlockMutex>(f, false); break;
            case 2: with_mutex<shm::ExclusiveFlockMutex>(f, true); break;
            default: with_guard<shm::ExclusiveFlockMutex>(f, true); break;
        }
    }
}
// lock files that own their file
void owner() {
    for (int i = 0; i < 2; ++i) {
        const char* p = "/tmp/owned"; auto l = shm::LockFile::Create(p);
        if (!l) { sim_count("create_refused", 1); sim_yield(); continue; }
        { SimAtomic a; for (auto& e : O->h[0]) (void)e; static int dummy; (void)dummy; }
        Want w; { SimAtomic a; w = Want{1, 1000000, true, false, 0}; if (O->h[1].count(w.id) && sim_alive(O->h[1][w.id].pid)) sim_violation("a lock file was created while it exists"); O->h[1][w.id] = {sim_self(), false, false}; }
        shm::LockFile m{std::move(*l)}; l.reset(); if (!sk_peek_exists(p)) sim_violation("moving a lock file removed it");
        hold(); { SimAtomic a; O->h[1].erase(1000000); }
    }
}
}  // namespace
extern "C" void sim_process_main(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg);
    { std::vector<std::thread> t; const int n = static_cast<int>(sim_below(3)); for (int i = 0; i < n; ++i) t.emplace_back(thread_main); if (role & 1) owner(); thread_main(); for (auto& x : t) x.join(); }
    if (sk_count_fds(sim_self()) != 0) sim_violation("%d file descriptors are left over after all lock files were closed", sk_count_fds(sim_self()));
}
extern "C" void sim_control() {
    O = new Oracle; O->rounds = 1 + static_cast<int>(sim_below(4)); sim_max_steps(60000); sim_budget_ok(0);
    sim_allow_fault(SF_STALL, 4); sim_allow_fault(SF_DELAY, 100);
    const int n = 1 + static_cast<int>(sim_below(4)); std::vector<int> pid;
    for (int i = 0; i < n; ++i) { SimAtomic a; pid.push_back(sim_spawn(("process" + std::to_string(i)).c_str(), static_cast<int>(sim_below(4)), 0, 1000, 1, O)); if (sim_chance(400)) sim_crash_after(pid.back(), 1 + sim_below(150)); }
    for (int p : pid) if (!sim_wait_exit(p, 20000000000ULL)) sim_violation("a process waits for a lock for ever");
    for (int f = 0; f < 2; ++f) {
        bool left = sk_peek_exists(kPath[f]); if (!left) continue;
        auto l = shm::LockFile::Open(kPath[f]); if (!l) sim_violation("the marker file cannot be opened at the end");
        shm::ExclusiveFlockMutex m{*l}; if (!m.try_lock()) sim_violation("a lock is still held after every process ended"); m.unlock();
    }
    bool dead = false; for (int p : pid) if (sim_exit_kind(p) == 2) dead = true;
    if (!dead && sk_peek_exists("/tmp/owned")) sim_violation("an owned lock file was left behind");
}
