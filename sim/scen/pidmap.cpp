// Table of process ids: applications register at the same time, die in the middle of it and come back (C25).
#include "sim_api.h"
#include "score/mw/com/impl/bindings/lola/application_id_pid_mapping.h"
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
namespace lola = score::mw::com::impl::lola;
namespace {
// the entries live in memory whose every access is a scheduling point, like shared memory
alignas(16) unsigned char g_arena[4096]; std::size_t g_used;
template <class T> struct Arena { using value_type = T; Arena() = default; template <class U> Arena(const Arena<U>&) {} T* allocate(std::size_t n) { T* p = reinterpret_cast<T*>(g_arena + g_used); g_used += (n * sizeof(T) + 15) / 16 * 16; return p; } void deallocate(T*, std::size_t) {} template <class U> bool operator==(const Arena<U>&) const { return true; } template <class U> bool operator!=(const Arena<U>&) const { return false; } };
using Map = lola::ApplicationIdPidMapping<Arena<lola::ApplicationIdPidMappingEntry>>;
struct App { std::uint32_t id = 0; bool entry = false, maybe = false, busy = false; std::set<pid_t> previous; pid_t now = 0; int calls = 1; };
struct Oracle { Map* map = nullptr; int capacity = 0; std::vector<App> app; int next_pid = 5000; };
Oracle* O;
int entries_at_most() { int n = 0; for (auto& a : O->app) if (a.entry || a.maybe) ++n; return n; }
int entries_at_least() { int n = 0; for (auto& a : O->app) if (a.entry) ++n; return n; }
void reg(App& a, pid_t pid) {
    std::set<pid_t> before; bool had;
    { SimAtomic x; before = a.previous; had = a.entry; a.maybe = true; a.busy = true; a.previous.insert(pid); }
    const std::optional<pid_t> r = O->map->RegisterPid(a.id, pid);
    SimAtomic x; a.busy = false; sim_count("registrations", 1);
    sim_event("application %u registered %d: %d", a.id, pid, r ? *r : -1);
    if (!r) {
        if (had) sim_violation("application %u could not register again although it has an entry", a.id);
        if (entries_at_most() - 1 < O->capacity) sim_violation("application %u could not register although at most %d of %d entries are taken", a.id, entries_at_most() - 1, O->capacity);
        a.previous = before; a.maybe = !before.empty(); if (before.empty()) a.maybe = false; sim_count("table_full", 1); return;
    }
    if (had) { if (!before.count(*r)) { if (!(before.size() > 1 && *r == pid)) sim_violation("application %u registered before as %d but got %d", a.id, *before.begin(), *r); } }
    else if (before.empty()) { if (*r != pid) sim_violation("application %u registered for the first time as %d but got %d", a.id, pid, *r); }
    else if (*r != pid && !before.count(*r)) sim_violation("application %u got process id %d which it never had", a.id, *r);
    a.entry = true; a.maybe = true; a.previous = {pid}; a.now = pid;
    if (entries_at_least() > O->capacity) sim_violation("%d applications are registered in a table of %d entries", entries_at_least(), O->capacity);
    sim_cover(static_cast<std::uint64_t>(entries_at_least() * 16 + O->capacity));
}
}  // namespace
extern "C" void sim_process_main(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg); App& a = O->app[static_cast<std::size_t>(role)]; pid_t pid; { SimAtomic x; pid = sim_chance(150) && a.now ? a.now : O->next_pid++; }
    if (sim_chance(300)) sim_sleep_ns(sim_below(20000));
    for (int i = 0; i < a.calls; ++i) { reg(a, pid); if (sim_chance(300)) sim_sleep_ns(sim_below(20000)); }
}
extern "C" void sim_control() {
    sim_track_region(g_arena, sizeof(g_arena)); O = new Oracle; sim_max_steps(60000); sim_budget_ok(0); sim_allow_fault(SF_CAS_SPURIOUS, 150); sim_allow_fault(SF_STALL, 4); sim_allow_fault(SF_DELAY, 100);
    O->capacity = 1 + static_cast<int>(sim_below(6)); const int n = 1 + static_cast<int>(sim_below(static_cast<unsigned>(O->capacity + (sim_chance(300) ? 2 : 0))));
    O->map = new Map(static_cast<std::uint16_t>(O->capacity), Arena<lola::ApplicationIdPidMappingEntry>{});
    for (int i = 0; i < n; ++i) { App a; a.id = sim_chance(200) ? static_cast<std::uint32_t>(sim_below(3) == 0 ? 0xFFFFFFFFu - static_cast<unsigned>(i) : static_cast<unsigned>(i)) : 1000 + static_cast<std::uint32_t>(i); a.calls = 1 + static_cast<int>(sim_below(3)); O->app.push_back(a); }
    { std::set<std::uint32_t> ids; for (auto& a : O->app) { while (!ids.insert(a.id).second) a.id += 77; } }
    std::vector<int> pid(O->app.size(), 0); std::vector<int> left(O->app.size()); bool crash = sim_chance(600);
    for (auto& l : left) l = 1 + static_cast<int>(sim_below(4));
    auto start = [&](std::size_t i) { SimAtomic a; pid[i] = sim_spawn(("application" + std::to_string(i)).c_str(), static_cast<int>(i), 0, 1000, 0, O); --left[i]; if (crash && sim_chance(500)) sim_crash_after(pid[i], 1 + sim_below(60)); };
    for (std::size_t i = 0; i < O->app.size(); ++i) start(i);
    for (;;) {
        bool any = false;
        for (std::size_t i = 0; i < O->app.size(); ++i) {
            if (sim_alive(pid[i])) { any = true; continue; }
            if (sim_exit_kind(pid[i]) == 2 && O->app[i].busy) { O->app[i].busy = false; sim_count("died_registering", 1); }
            if (left[i] > 0) { start(i); any = true; }
        }
        if (!any) break;
        sim_sleep_ns(1000 + sim_below(30000));
    }
    sim_calm();
    // every registered application has exactly one entry: the rest of the table is free
    int certain = 0, possible = 0; const std::size_t apps = O->app.size();
    for (std::size_t i = 0; i < apps; ++i) { App& a = O->app[i]; const bool had = a.entry; const auto before = a.previous; const auto r = O->map->RegisterPid(a.id, 9000 + static_cast<pid_t>(i));
        if (had && !r) sim_violation("the entry of application %u is lost", a.id);
        if (had && before.size() == 1 && *r != *before.begin()) sim_violation("application %u was registered as %d but the table says %d", a.id, *before.begin(), *r);
        if (had && !before.count(*r) && before.size() == 1) sim_violation("application %u got process id %d which it never had", a.id, *r);
        if (r) { ++certain; const auto again = O->map->RegisterPid(a.id, 9500); if (!again || *again != 9000 + static_cast<pid_t>(i)) sim_violation("application %u was registered as %d but the table says %d", a.id, 9000 + static_cast<int>(i), again ? *again : -1); } (void)possible; }
    int more = 0; for (std::uint32_t k = 0; k < 20; ++k) { const auto r = O->map->RegisterPid(500000 + k, 20000); if (!r) break; if (*r != 20000) sim_violation("a new application got process id %d", *r); ++more; }
    if (certain + more != O->capacity) sim_violation("%d applications fill %d of %d entries", certain, O->capacity - more, O->capacity);
}
