// Timed command queue (C16): the queue on its own, and behind the engine with its thread, wake-up pipe and poll time-out.
#include "sim_api.h"
#include "kernel_api.h"
#include "score/message_passing/timed_command_queue.h"
#include "score/message_passing/unix_domain/unix_domain_engine.h"
#include <algorithm>
#include <chrono>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace mp = score::message_passing;
using Queue = mp::detail::TimedCommandQueue; using TP = Queue::TimePoint;
namespace {
struct Cmd { int id = 0; long due = 0; bool immediate = false; int owner = 0; std::uint64_t reg_begin = 0, reg_done = 0; int ran = 0, destroyed = 0; bool cleaned = false, cleaning = false; std::uint64_t ran_at = 0; };
struct Oracle {
    std::mutex m; std::vector<std::unique_ptr<Cmd>> cmd; std::uint64_t seq = 1, step = 0; long now = 0; bool processing = false, stop = false; int owners = 3; bool engine = false; int cleans[8] = {}; std::uint64_t slack = 0;
    std::vector<std::unique_ptr<mp::detail::TimedCommandQueueEntry>> spare;
};
Oracle* O;
int owner_tag[8];
const void* tag(int o) { return o == 0 ? nullptr : &owner_tag[o]; }
TP tp(long t) { return TP{std::chrono::nanoseconds{t}}; }
long ns(TP t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
Cmd* begin(int owner, long due, bool imm) {
    std::lock_guard<std::mutex> l{O->m}; auto c = std::make_unique<Cmd>(); c->id = static_cast<int>(O->cmd.size()); c->owner = owner; c->due = imm ? 0 : due; c->immediate = imm; c->reg_begin = O->seq++; c->cleaning = O->cleans[owner] > 0;
    O->cmd.push_back(std::move(c)); return O->cmd.back().get();
}
void done(Cmd* c) { sim_event("registered %d due %ld", c->id, c->due); std::lock_guard<std::mutex> l{O->m}; c->reg_done = O->seq++; }
// a command is called
void called(Cmd& c, TP now) {
    std::lock_guard<std::mutex> l{O->m};
    if (c.ran) sim_violation("command %d ran twice", c.id);
    if (c.cleaned) sim_violation("command %d ran although its owner was cleaned up", c.id);
    if (c.destroyed) sim_violation("command %d was destroyed before it ran", c.id);
    if (ns(now) < c.due) sim_violation("command %d due at %ld ran at %ld", c.id, c.due, ns(now));
    if (!O->engine && ns(now) != O->now) sim_violation("a command is given %ld as the time instead of %ld", ns(now), O->now);
    for (auto& y : O->cmd) if (y.get() != &c && !y->ran && !y->cleaned && !y->cleaning && y->reg_done && y->reg_done < O->step) {
        if (y->due < c.due) sim_violation("command %d due at %ld ran before command %d due at %ld, which waited", c.id, c.due, y->id, y->due);
        if (y->due == c.due && y->reg_done < c.reg_begin) sim_violation("commands %d and %d are due at the same time but ran in the wrong order", c.id, y->id);
    }
    sim_event("run %d due %ld", c.id, c.due); c.ran = 1; c.ran_at = sim_now_ns(); sim_count("commands_run", 1);
    // what was registered from here on may come after the next command
    O->step = O->seq++;
}
void add(int owner, int depth);
struct Token {   // the capture of a command
    Cmd* c; explicit Token(Cmd* x) : c{x} {} Token(Token&& o) noexcept : c{o.c} { o.c = nullptr; } Token(const Token&) = delete; Token& operator=(Token&&) = delete;
    ~Token() {   // what a command has captured may register further commands when it goes
        if (!c) return; bool again = false;
        { std::lock_guard<std::mutex> l{O->m}; if (++c->destroyed > 1) sim_violation("the callback of command %d was destroyed twice", c->id); if (!c->ran && !c->cleaning) sim_violation("command %d was dropped without being run and without clean-up", c->id); again = !c->ran && sim_chance(200); }
        if (again) { sim_count("registered_by_destructor", 1); add(0, 0); }
    }
};
struct Target { virtual ~Target() = default; virtual void put(mp::detail::TimedCommandQueueEntry& e, long due, bool imm, Queue::QueuedCallback cb, int owner) = 0; virtual void clean(int owner) = 0; virtual long now() = 0; };
struct Raw : Target {
    Queue q;
    void put(mp::detail::TimedCommandQueueEntry& e, long due, bool imm, Queue::QueuedCallback cb, int owner) override { if (imm) q.RegisterImmediateEntry(e, std::move(cb), tag(owner)); else q.RegisterTimedEntry(e, tp(due), std::move(cb), tag(owner)); }
    void clean(int owner) override { q.CleanUpOwner(tag(owner)); }
    long now() override { std::lock_guard<std::mutex> l{O->m}; return O->now; }
};
struct Eng : Target {
    mp::UnixDomainEngine e{score::cpp::pmr::get_default_resource(), [](auto...) {}};
    void put(mp::detail::TimedCommandQueueEntry& x, long due, bool imm, Queue::QueuedCallback cb, int owner) override { e.EnqueueCommand(x, imm ? TP{} : tp(due), std::move(cb), tag(owner)); }
    void clean(int owner) override { e.CleanUpOwner(tag(owner)); }
    long now() override { return ns(Queue::Clock::now()); }
};
Target* T;
long pick_due() { const long n = T->now(); switch (sim_below(5)) { case 0: return n; case 1: return n + 1 + static_cast<long>(sim_below(5)) * (O->engine ? 1000000 : 1); case 2: return n > 10 ? n - static_cast<long>(sim_below(10)) : n; default: return n + static_cast<long>(sim_below(O->engine ? 20000000 : 40)); } }
void add(int owner, int depth);
// owner is cleaned up in the processing thread (or through the engine): nothing of it that is registered now may run later
void clean(int owner) {
    std::vector<Cmd*> mine; { std::lock_guard<std::mutex> l{O->m}; if (owner) { ++O->cleans[owner]; for (auto& c : O->cmd) if (c->owner == owner && !c->ran && !c->destroyed) { c->cleaning = true; if (c->reg_done) mine.push_back(c.get()); } } }
    T->clean(owner); sim_count("cleanups", 1);
    std::lock_guard<std::mutex> l{O->m}; if (owner) --O->cleans[owner]; for (Cmd* c : mine) { if (c->ran) continue; c->cleaned = true; if (!c->destroyed) sim_violation("the callback of command %d still exists after its owner was cleaned up", c->id); }
}
void body(Cmd& c, TP now, mp::detail::TimedCommandQueueEntry* e, int depth) {
    called(c, now);
    const unsigned what = sim_below(10);
    if (what < 2 && depth > 0) {   // the same entry once more
        const int owner = c.owner; const bool imm = sim_chance(300); const long due = pick_due(); Cmd* n = begin(owner, due, imm); sim_count("requeued", 1);
        T->put(*e, due, imm, [t = Token{n}, e, depth](TP x) mutable { body(*t.c, x, e, depth - 1); }, owner); done(n); return;
    }
    if (what == 2 && depth > 0) add(static_cast<int>(sim_below(static_cast<unsigned>(O->owners))), depth - 1);
    if (what == 3) clean(static_cast<int>(sim_below(static_cast<unsigned>(O->owners))));
    delete e;   // from here on the entry must not be touched
}
void add(int owner, int depth) {
    auto* e = new mp::detail::TimedCommandQueueEntry; const bool imm = sim_chance(300); const long due = pick_due(); Cmd* c = begin(owner, due, imm);
    T->put(*e, due, imm, [t = Token{c}, e, depth](TP x) mutable { body(*t.c, x, e, depth); }, owner); done(c); sim_count("commands", 1);
}
void producer(int who) {
    const int n = 1 + static_cast<int>(sim_below(8));
    for (int i = 0; i < n; ++i) {
        add(sim_chance(200) ? 0 : who, 2); if (sim_chance(300)) sim_sleep_ns(sim_below(O->engine ? 8000000 : 30000));
        if (O->engine && sim_chance(150)) clean(who);
    }
}
void process_to(Raw& r, long t) {
    { std::lock_guard<std::mutex> l{O->m}; O->now = t; O->step = O->seq++; }
    const TP next = r.q.ProcessQueue(tp(t));
    if (next != TP{} && ns(next) <= t) sim_violation("the queue was processed up to %ld but the next command is due at %ld", t, ns(next));
    std::lock_guard<std::mutex> l{O->m}; long best = 0; bool any = false; std::uint64_t lim = O->step;
    for (auto& y : O->cmd) if (!y->ran && !y->cleaned && !y->cleaning && y->reg_done && y->reg_done < lim) { if (y->due <= t) sim_violation("command %d due at %ld did not run when the queue was processed up to %ld", y->id, y->due, t); if (!any || y->due < best) best = y->due; any = true; }
    if (any && (next == TP{} || ns(next) > best)) sim_violation("the next command is due at %ld but the queue says %ld", best, next == TP{} ? 0 : ns(next));
    if (next != TP{}) { bool ok = false; for (auto& y : O->cmd) if (y->due == ns(next)) ok = true; if (!ok) sim_violation("the queue says a command is due at %ld, but there is none", ns(next)); }
    O->step = O->seq++;
}
}  // namespace
extern "C" void sim_process_main(int, int, void*) {
    std::vector<std::thread> t; const int n = 1 + static_cast<int>(sim_below(3)); O->owners = n + 1;
    if (!O->engine) {
        Raw r; T = &r; O->now = 1000;
        for (int i = 0; i < n; ++i) t.emplace_back([i] { producer(i + 1); });
        long now = 1000; const int steps = 2 + static_cast<int>(sim_below(12));
        for (int i = 0; i < steps; ++i) { now += static_cast<long>(sim_below(12)); process_to(r, now); if (sim_chance(200)) clean(static_cast<int>(sim_below(static_cast<unsigned>(O->owners)))); if (sim_chance(400)) sim_sleep_ns(sim_below(40000)); }
        for (auto& x : t) x.join();
        for (int i = 0; i < 4; ++i) { now += 100000; process_to(r, now); }
        { std::lock_guard<std::mutex> l{O->m}; for (auto& c : O->cmd) if (!c->ran && !c->cleaned && !(c->cleaning && c->destroyed)) sim_violation("command %d never ran", c->id); }
        if (r.q.ProcessQueue(tp(now + 1)) != TP{}) sim_violation("an empty queue announces a command");
    } else {
        auto* e = new Eng; T = e;
        for (int i = 0; i < n; ++i) t.emplace_back([i] { producer(i + 1); });
        for (auto& x : t) x.join();
        // liveness: once nothing disturbs any more, everything runs within a bounded time
        sim_event("producers done"); sim_sleep_ns(60000000); sim_calm();
        std::uint64_t limit = sim_now_ns() + 300000000ULL;
        for (;;) {
            bool all = true; { std::lock_guard<std::mutex> l{O->m}; for (auto& c : O->cmd) if (!c->ran && !c->cleaned && !(c->cleaning && c->destroyed)) { all = false; if (sim_now_ns() > limit) sim_violation("command %d due at %ld never ran although %ld ns passed since then", c->id, c->due, T->now() - c->due); } }
            if (all) break; sim_sleep_ns(5000000);
        }
        delete e;
    }
    std::lock_guard<std::mutex> l{O->m}; for (auto& c : O->cmd) if (!c->destroyed) sim_violation("the callback of command %d was never destroyed", c->id);
    sim_cover(static_cast<std::uint64_t>(std::min<std::size_t>(O->cmd.size(), 40) * 2 + O->engine));
}
extern "C" void sim_control() {
    O = new Oracle; O->engine = sim_chance(450); sim_max_steps(120000); sim_budget_ok(0);
    sim_allow_fault(SF_STALL, 8); sim_allow_fault(SF_DELAY, 150); sim_allow_fault(SF_EINTR, 20); sim_race_check(1, 1);
    int p; { SimAtomic a; p = sim_spawn("process", 0, 0, 1000, 0, nullptr); }
    if (!sim_wait_exit(p, 60000000000ULL)) sim_violation("the process does not finish");
}
