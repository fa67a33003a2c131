// Named shared memory: concurrent create, open, create-or-open, removal, crash of anybody, recovery (C18); concurrent allocation (C31).
#include "sim_api.h"
#include "kernel_api.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/memory/shared/shared_memory_resource.h"
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace shm = score::memory::shared;
extern "C" int sk_peek_exists(const char*);
extern "C" int sk_count_fds(int pid); extern "C" int sk_count_maps(int pid);
namespace {
const char* kPath = "/sim_object"; const char* kLock = "/tmp/sim_object_lock"; const char* kFile = "/dev/shm/sim_object";
struct Blob { std::uint64_t gen; std::uint64_t words; std::uint64_t w[1]; };
std::uint64_t word(std::uint64_t gen, std::uint64_t i) { return (gen * 0x9E3779B97F4A7C15ULL) ^ (i * 0xC2B2AE3D27D4EB4FULL) ^ 0x5bd1e995; }
enum Op { kCreate, kCreateOrOpen, kOpen, kOpenRw };
struct Gen { int pid; bool complete = false, removed = false; std::uint64_t words; std::size_t size; std::size_t allocated = 0; };
struct Block { std::size_t off, len; std::uint64_t tag; int pid; };
struct Oracle {
    std::string p; bool faults = false, crash = false;
    std::vector<Gen> gens; int current = -1; int init_by = 0;
    std::map<int, int> in_call, opened;       // per pid: calls running, successful openings
    int ok_create = 0, ok_open = 0, ok_coo = 0, coo_calls = 0, coo_fail = 0, removes = 0; bool recovering = false, stop = false;
    bool die_in_init = false;
    // C31
    std::vector<Block> blocks; std::size_t space = 0; std::size_t worst = 0; long calls = 0; bool ready = false; std::size_t base_off = 0;
};
Oracle* O;
// the initialisation callback of a creator
void initialise(const std::shared_ptr<shm::ISharedMemoryResource>& r, std::uint64_t words, bool recovery) {
    std::uint64_t g;
    { SimAtomic a;
      if (O->current >= 0 && !O->gens[static_cast<std::size_t>(O->current)].removed) {
          const Gen& c = O->gens[static_cast<std::size_t>(O->current)];
          if (sim_alive(c.pid) || c.complete) sim_violation("the shared memory is initialised a second time (first by process %d, which %s)", c.pid, c.complete ? "completed it" : "is still initialising it");
          if (!recovery) sim_violation("a process initialises the memory of a dead creator again although its remains were not removed"); }
      Gen n; n.pid = sim_self(); n.words = words; n.size = words * 8 + 64; O->gens.push_back(n); O->current = static_cast<int>(O->gens.size()) - 1; g = O->gens.size(); sim_event("generation %llu begins", (unsigned long long)g); }
    char* base = static_cast<char*>(r->getUsableBaseAddress());
    for (std::size_t i = 0; i < words * 8; i += 64) if (base[i] != 0) sim_violation("memory handed to the initialisation is not fresh");
    Blob* b = static_cast<Blob*>(r->allocate(16 + words * 8, 8));
    if (reinterpret_cast<char*>(b) != base) sim_violation("the first allocation is not at the usable base address");
    for (std::uint64_t i = 0; i < words; ++i) { b->w[i] = word(g, i); if (i % 3 == 0 && sim_chance(300)) sim_yield(); if (sim_chance(20)) sim_sleep_ns(sim_below(3000000)); }
    { bool die; { SimAtomic a; die = O->die_in_init && !recovery; if (die) O->die_in_init = false; } if (die) { if (sim_chance(500)) { b->words = words; b->gen = g; } sim_crash_after(sim_self(), 1 + sim_below(sim_chance(500) ? 2 : 12)); } }
    b->words = words; b->gen = g;
    { SimAtomic a; O->gens[g - 1].complete = true; O->gens[g - 1].allocated = r->GetUserAllocatedBytes(); sim_event("generation %llu complete", (unsigned long long)g); }
}
void look(const std::shared_ptr<shm::ISharedMemoryResource>& r, const char* how) {
    const Blob* b = static_cast<const Blob*>(r->getUsableBaseAddress());
    const std::uint64_t g = b->gen; std::uint64_t words; std::size_t alloc;
    { SimAtomic a; if (g == 0 || g > O->gens.size()) sim_violation("%s returned memory that is not initialised (generation %llu)", how, (unsigned long long)g);
      if (!O->gens[g - 1].complete) sim_violation("%s returned memory whose initialisation is not complete", how);
      words = O->gens[g - 1].words; alloc = O->gens[g - 1].allocated; }
    if (b->words != words) sim_violation("%s returned memory of generation %llu with %llu instead of %llu words", how, (unsigned long long)g, (unsigned long long)b->words, (unsigned long long)words);
    if (r->GetUserAllocatedBytes() != alloc) sim_violation("%s: %zu bytes reported as allocated instead of %zu", how, r->GetUserAllocatedBytes(), alloc);
    for (std::uint64_t i = 0; i < words; ++i) if (b->w[i] != word(g, i)) sim_violation("%s returned memory with wrong content in word %llu", how, (unsigned long long)i);
}
std::shared_ptr<shm::ISharedMemoryResource> create(std::uint64_t words, bool recovery) {
    return shm::SharedMemoryFactory::Create(kPath, [words, recovery](std::shared_ptr<shm::ISharedMemoryResource> r) { initialise(r, words, recovery); }, words * 8 + 16, shm::SharedMemoryFactory::UserPermissions{shm::permission::WorldWritable{}});
}
void member(int op) {
    const int me = sim_self(); const int rounds = 1 + static_cast<int>(sim_below(3));
    for (int k = 0; k < rounds; ++k) {
        if (sim_chance(500)) sim_sleep_ns(sim_below(4000000));
        const std::uint64_t words = 1 + sim_below(sim_chance(200) ? 2000 : 30);
        { SimAtomic a; O->in_call[me]++; }
        std::shared_ptr<shm::ISharedMemoryResource> r; bool mine = false;
        if (op == kCreate) {
            r = create(words, false);
            { SimAtomic a; if (r) { O->ok_create++; mine = true; sim_count("created", 1); } else sim_count("create_refused", 1); }
        } else if (op == kCreateOrOpen) {
            { SimAtomic a; O->coo_calls++; }
            r = shm::SharedMemoryFactory::CreateOrOpen(kPath, [words](std::shared_ptr<shm::ISharedMemoryResource> x) { initialise(x, words, false); }, words * 8 + 16, shm::SharedMemoryFactory::AccessControl{shm::SharedMemoryFactory::UserPermissions{shm::permission::WorldWritable{}}, std::nullopt});
            { SimAtomic a; if (r) { O->ok_coo++; sim_count("created_or_opened", 1); } else { O->coo_fail++; sim_count("create_or_open_failed", 1); } }
        } else {
            for (int t = 0; t < 40 && !r; ++t) { r = shm::SharedMemoryFactory::Open(kPath, op == kOpenRw); if (!r) { bool s; { SimAtomic a; s = O->stop; } if (s) break; sim_sleep_ns(1000000 + sim_below(20000000)); } }
            { SimAtomic a; if (r) { O->ok_open++; sim_count("opened", 1); } else sim_count("open_gave_up", 1); }
        }
        { SimAtomic a; O->in_call[me]--; if (r) O->opened[me]++; }
        if (!r) continue;
        look(r, op == kCreate ? "create" : op == kCreateOrOpen ? "create-or-open" : "open");
        // the same object in the same process: the same resource
        if (sim_chance(300)) { auto again = shm::SharedMemoryFactory::Open(kPath, op != kOpen); if (again && again.get() != r.get()) sim_violation("two resources for the same memory in one process"); if (!again) sim_violation("memory that is open in this process cannot be opened again"); }
        if (sim_chance(300)) { sim_sleep_ns(sim_below(2000000)); look(r, "a later look"); }
        if (mine && sim_chance(400)) {
            bool may; { SimAtomic a; may = !O->recovering; if (may) { O->gens[static_cast<std::size_t>(O->current)].removed = true; O->removes++; sim_event("removing generation"); } }
            if (may) shm::SharedMemoryFactory::Remove(kPath);
        }
        if (op == kOpen || op == kOpenRw) { r.reset(); }
    }
    { SimAtomic a; sim_count("members_finished", 1); }
}
void recover() {
    { SimAtomic a; O->recovering = true; sim_event("recovery begins"); if (O->current >= 0) O->gens[static_cast<std::size_t>(O->current)].removed = true; }
    shm::SharedMemoryFactory::RemoveStaleArtefacts(kPath);
    std::shared_ptr<shm::ISharedMemoryResource> r; const std::uint64_t words = 1 + sim_below(40);
    for (int t = 0; t < 60 && !r; ++t) { r = create(words, true); if (!r) sim_sleep_ns(1000000 + sim_below(9000000)); }     // openers that retry hold the lock for moments
    if (!r) { bool other; { SimAtomic a; const Gen& g = O->gens[static_cast<std::size_t>(O->current)]; other = !g.removed && g.complete; } if (other) r = shm::SharedMemoryFactory::Open(kPath, true); }    // another one created it
    { bool f; { SimAtomic a; f = O->faults; } if (!r && f) return; }
    if (!r) sim_violation("the memory cannot be created again after the remains of the dead process were removed");
    look(r, "recovery"); sim_count("recoveries", 1);
}
void late_opener() {
    auto r = shm::SharedMemoryFactory::Open(kPath, sim_chance(500)); if (!r) sim_violation("the memory cannot be opened after the recovery");
    look(r, "open after recovery");
    { SimAtomic a; if (O->gens[static_cast<std::size_t>(O->current)].words != static_cast<const Blob*>(r->getUsableBaseAddress())->words) sim_violation("the memory opened after the recovery is not the new one"); }
    r.reset(); if (sk_count_maps(sim_self()) != 0) sim_violation("a mapping is left over after the memory was closed"); if (sk_count_fds(sim_self()) != 0) sim_violation("a file descriptor is left over after the memory was closed");
}
// ------------------------------------------------------------------ C31
void allocator(int n) {
    std::shared_ptr<shm::ISharedMemoryResource> r;
    if (n == 0) {
        r = shm::SharedMemoryFactory::Create(kPath, [](std::shared_ptr<shm::ISharedMemoryResource>) {}, O->space, shm::SharedMemoryFactory::UserPermissions{shm::permission::WorldWritable{}});
        if (!r) sim_violation("creation failed"); SimAtomic a; O->base_off = static_cast<std::size_t>(static_cast<char*>(r->getUsableBaseAddress()) - static_cast<char*>(r->getBaseAddress())); O->ready = true;
    } else { for (;;) { bool rd; { SimAtomic a; rd = O->ready; } if (rd) break; sim_sleep_ns(100000); } r = shm::SharedMemoryFactory::Open(kPath, true); if (!r) sim_violation("opening failed"); }
    { SimAtomic a; O->ok_open++; }
    for (;;) { bool go; { SimAtomic a; go = O->stop; } if (go) break; sim_sleep_ns(20000); }
    char* base = static_cast<char*>(r->getBaseAddress());
    auto work = [&] {
        const int k = 1 + static_cast<int>(sim_below(12)); std::vector<Block> mine;
        for (int i = 0; i < k; ++i) {
            static const std::size_t al[] = {1, 2, 4, 8, 16, 64, 256, 4096}; const std::size_t align = al[sim_below(sim_chance(200) ? 8 : 6)], len = 1 + sim_below(sim_chance(200) ? 600 : 60);
            { SimAtomic a; O->calls++; O->in_call[sim_self()]++; O->worst += len + align - 1; }
            char* p = static_cast<char*>(r->allocate(len, align));
            SimAtomic a; O->in_call[sim_self()]--; sim_count("allocations", 1);
            const std::size_t off = static_cast<std::size_t>(p - base); const std::uint64_t tag = sim_rand64() | 1;
            sim_event("allocated %zu..%zu align %zu", off, off + len, align);
            if (reinterpret_cast<std::uintptr_t>(p) % align) sim_violation("allocation at %zu is not aligned to %zu", off, align);
            if (p < base + O->base_off || off + len > O->base_off + O->space) sim_violation("allocation %zu..%zu leaves the memory of %zu bytes", off, off + len, O->base_off + O->space);
            for (const auto& b : O->blocks) if (off < b.off + b.len && b.off < off + len) sim_violation("allocations overlap: %zu..%zu and %zu..%zu", off, off + len, b.off, b.off + b.len);
            Block b{off, len, tag, sim_self()}; O->blocks.push_back(b); mine.push_back(b); memset(p, static_cast<int>(tag & 0xff), len);
        }
        for (auto& b : mine) for (std::size_t i = 0; i < b.len; ++i) if (static_cast<unsigned char>(base[b.off + i]) != (b.tag & 0xff)) sim_violation("an allocated block was overwritten");
    };
    std::vector<std::thread> t; const int nt = static_cast<int>(sim_below(3)); for (int i = 0; i < nt; ++i) t.emplace_back(work);
    work(); for (auto& x : t) x.join();
    sim_cover(O->blocks.size());
}
void control_alloc() {
    sim_max_steps(60000); sim_allow_fault(SF_CAS_SPURIOUS, 30); sim_allow_fault(SF_STALL, 4); sim_race_check(1, 0);
    const bool tight = sim_chance(300); O->space = tight ? 200 + sim_below(1500) : 400000; O->crash = sim_chance(300);
    const int n = 1 + static_cast<int>(sim_below(4)); std::vector<int> pid;
    for (int i = 0; i < n; ++i) { SimAtomic at; pid.push_back(sim_spawn(("allocator" + std::to_string(i)).c_str(), 50 + i, 0, 1000, 1, O)); sim_expect_abort(pid.back(), 1); }
    auto all_open = [&] { SimAtomic a; return O->ok_open == n; };
    for (int i = 0; i < 400 && !all_open(); ++i) sim_sleep_ns(50000);
    if (!all_open()) for (int i = 0; i < 1000 && !all_open(); ++i) sim_sleep_ns(5000000);
    if (!all_open()) sim_violation("a process cannot open the memory");
    auto keep = shm::SharedMemoryFactory::Open(kPath, true); if (!keep) sim_violation("opening failed");
    { SimAtomic a; O->stop = true; }
    if (O->crash) { sim_crash_after(pid[sim_below(static_cast<std::uint32_t>(n))], 1 + sim_below(200)); }
    for (int i = 0; i < n; ++i) if (!sim_wait_exit(pid[static_cast<std::size_t>(i)], 20000000000ULL)) sim_violation("an allocating process does not finish");
    long aborted = 0; for (int p : pid) if (sim_exit_kind(p) == 3) { ++aborted; if (O->worst <= O->space && O->calls < 33) sim_violation("an allocation ended the process although there was room: %s", sim_exit_text(p)); }
    sim_count("exhausted", aborted);
    sim_calm(); sim_race_check(0, 0);
    auto& r = keep;
    std::size_t end = O->base_off; for (auto& b : O->blocks) if (b.off + b.len > end) end = b.off + b.len;
    bool dead = false; for (int p : pid) if (sim_exit_kind(p) == 2) dead = true;
    const std::size_t used = r->GetUserAllocatedBytes();
    if (!dead && used != end - O->base_off) sim_violation("%zu bytes reported as allocated although the last allocation ends at %zu", used, end - O->base_off);
    if (used < end - O->base_off || used > O->space) sim_violation("%zu of %zu bytes reported as allocated, the last allocation ends at %zu", used, O->space, end - O->base_off);
    const char* base = static_cast<const char*>(r->getBaseAddress());
    for (auto& b : O->blocks) if (sim_exit_kind(b.pid) == 1) for (std::size_t i = 0; i < b.len; ++i) if (static_cast<unsigned char>(base[b.off + i]) != (b.tag & 0xff)) sim_violation("an allocated block was overwritten by the end");
}
}  // namespace
extern "C" void sim_process_main(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg);
    if (role >= 50) allocator(role - 50); else if (role == 40) recover(); else if (role == 41) late_opener(); else member(role);
}
extern "C" void sim_control() {
    O = new Oracle; O->p = sim_param("p");
    if (O->p == "C31") { control_alloc(); return; }
    sim_max_steps(120000); sim_allow_fault(SF_DELAY, 200);
    O->crash = sim_chance(550); O->faults = sim_chance(400);
    if (O->faults) { sim_allow_fault(SF_ENOSPC, 60); sim_allow_fault(SF_EMFILE, 60); sim_allow_fault(SF_ENOMEM, 60); sim_allow_fault(SF_EIO, 60); }
    if (!*sim_param("norace")) sim_race_check(1, 0);
    const int n = 2 + static_cast<int>(sim_below(4)); std::vector<int> pid, op; const bool coo = sim_chance(300); const unsigned only = sim_chance(250) ? 1000 : 350;
    for (int i = 0; i < n; ++i) {
        const int o = coo ? (sim_chance(700) ? kCreateOrOpen : kOpen) : i == 0 ? kCreate : sim_chance(only) ? kCreate : sim_chance(500) ? kOpen : kOpenRw;
        SimAtomic at; op.push_back(o); pid.push_back(sim_spawn(("member" + std::to_string(i)).c_str(), o, 0, 1000, 1, O));
        if (O->crash || O->faults) sim_expect_abort(pid.back(), 1);
    }
    int victim = -1; bool stale = false, by_opener = false;
    if (O->crash) {
        bool found = false;
        if (sim_chance(400)) { { SimAtomic a; O->die_in_init = true; } for (int t = 0; t < 100 && !found; ++t) { sim_sleep_ns(100000); for (int i = 0; i < n; ++i) if (sim_exit_kind(pid[static_cast<std::size_t>(i)]) == 2) { victim = i; found = true; } } SimAtomic a; O->die_in_init = false; }
        if (!found) victim = static_cast<int>(sim_below(static_cast<std::uint32_t>(n))); if (!found && sim_chance(500)) victim = 0;
        if (!found && sim_chance(300)) sim_sleep_ns(sim_below(3000000));
        if (!found) sim_crash_after(pid[static_cast<std::size_t>(victim)], 1 + sim_below(sim_chance(500) ? 60 : 400));
        // recovery may begin while openers still wait for the lock of the dead creator
        if (sim_wait_exit(pid[static_cast<std::size_t>(victim)], 3000000000ULL) && sim_exit_kind(pid[static_cast<std::size_t>(victim)]) == 2) {
            SimAtomic a; stale = O->current >= 0 && !O->gens[static_cast<std::size_t>(O->current)].complete && O->gens[static_cast<std::size_t>(O->current)].pid == pid[static_cast<std::size_t>(victim)];
            by_opener = !stale && sk_peek_exists(kLock);
        }
    }
    bool recovered = false; int rec = -1;
    auto spawn_recovery = [&] { SimAtomic at; rec = sim_spawn("recovery", 40, 0, 1000, 1, O); if (O->faults) sim_expect_abort(rec, 1); recovered = true; };
    if (stale && sim_chance(900)) { sim_faults(1); if (sim_chance(500)) sim_sleep_ns(sim_below(60000000)); sim_count("recovery_beside_others", 1); spawn_recovery(); }
    if (rec < 0) { sim_sleep_ns(700000000); SimAtomic a; O->stop = true; }
    for (int i = 0; i < n; ++i) if (!sim_wait_exit(pid[static_cast<std::size_t>(i)], 30000000000ULL)) sim_violation("process %d (%s) neither finishes nor gives up", i, op[static_cast<std::size_t>(i)] == kCreate ? "create" : op[static_cast<std::size_t>(i)] == kCreateOrOpen ? "create-or-open" : "open");
    if (rec >= 0 && !sim_wait_exit(rec, 30000000000ULL)) sim_violation("the recovery does not finish");
    bool any_dead = false; for (int p : pid) if (sim_exit_kind(p) != 1) any_dead = true;
    if (!any_dead && rec < 0) {
        bool openers = false; for (int o : op) if (o != kCreate) openers = true;
        if (!O->faults && !openers && O->ok_create == 0) sim_violation("nobody could create the shared memory");
        if (coo && !O->faults && O->coo_calls && O->ok_coo == 0) sim_violation("[create-or-open-all-fail] every create-or-open call failed");
        if (sk_peek_exists(kLock)) sim_violation("the lock file is left over after everybody finished");
        if (O->current >= 0 && !O->gens[static_cast<std::size_t>(O->current)].removed && O->gens[static_cast<std::size_t>(O->current)].complete && !sk_peek_exists(kFile)) sim_violation("the shared memory vanished");
    }
    sim_calm();
    if (any_dead && rec < 0 && by_opener && sk_peek_exists(kLock) && O->current >= 0 && O->gens[static_cast<std::size_t>(O->current)].complete && !O->gens[static_cast<std::size_t>(O->current)].removed) {
        int late; { SimAtomic at; late = sim_spawn("late", 41, 0, 1000, 1, O); sim_expect_abort(late, 1); }
        if (!sim_wait_exit(late, 10000000000ULL) || sim_exit_kind(late) != 1) sim_violation("[killed-opener-blocks] a process that was killed while opening complete shared memory keeps every later process from opening it");
    }
    if (rec < 0 && (any_dead || sim_chance(300))) { sim_faults(0); { SimAtomic a; O->faults = false; } spawn_recovery(); if (!sim_wait_exit(rec, 30000000000ULL)) sim_violation("the recovery does not finish"); }
    if (rec >= 0 && O->removes == 0 && sim_exit_kind(rec) == 1 && !O->faults) { const int late = sim_spawn("late", 41, 0, 1000, 1, O); if (!sim_wait_exit(late, 10000000000ULL)) sim_violation("opening after the recovery does not finish"); }
    (void)recovered; sim_cover(static_cast<std::uint64_t>(O->gens.size()) | static_cast<std::uint64_t>(O->ok_open) << 4 | static_cast<std::uint64_t>(O->ok_create) << 8 | static_cast<std::uint64_t>(O->ok_coo) << 12 | static_cast<std::uint64_t>(any_dead) << 16 | static_cast<std::uint64_t>(stale) << 17 | static_cast<std::uint64_t>(n) << 20);
}
