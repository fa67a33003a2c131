// Relative pointers in shared memory: several processes follow them while other threads map and unmap regions;
// a rogue process corrupts pointers while victims follow them (C20).
#include "sim_api.h"
#include "kernel_api.h"
#include "score/memory/shared/memory_resource_registry.h"
#include "score/memory/shared/offset_ptr.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/memory/shared/vector.h"
#include "score/memory/shared/map.h"
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace shm = score::memory::shared;
template <class T> using Ptr = shm::OffsetPtr<T>;
namespace {
constexpr int kSegs = 4, kMaxNodes = 12;
struct Node { Ptr<Node> next; Ptr<void> any; Ptr<const Node> back; std::uint64_t id; std::uint64_t sum; Ptr<std::uint64_t> cell; std::uint64_t v[4]; };
struct Root {
    explicit Root(shm::ManagedMemoryResource& r) : index(shm::PolymorphicOffsetPtrAllocator<Ptr<Node>>{r}), table(shm::PolymorphicOffsetPtrAllocator<std::pair<const int, Ptr<Node>>>{r}) {}
    Ptr<Node> head; Ptr<Node> null; int n = 0; shm::Vector<Ptr<Node>> index; shm::Map<int, Ptr<Node>> table;
};
struct Seg { std::size_t root = 0, size = 0; int n = 0; std::size_t off[kMaxNodes] = {}; bool ready = false; };
struct Oracle { std::mutex order; Seg seg[kSegs]; int segs = 2; bool corrupt = false, stop = false, racy = false; int rounds = 4; std::map<int, std::map<std::uintptr_t, std::uintptr_t>> mapped; };
Oracle* O;
std::string path(int s) { return "/seg" + std::to_string(s); }
std::uint64_t word(int s, int i) { return 0x9E3779B97F4A7C15ULL * static_cast<std::uint64_t>(s * 100 + i + 1); }
using Res = std::shared_ptr<shm::ISharedMemoryResource>;
char* base_of(const Res& r) { return static_cast<char*>(r->getBaseAddress()); }
std::size_t off_of(const Res& r, const void* p) { return static_cast<std::size_t>(static_cast<const char*>(p) - base_of(r)); }
Res create(int s) {
    Seg& g = O->seg[s];
    auto r = shm::SharedMemoryFactory::Create(path(s), [&](Res m) {
        auto* root = m->construct<Root>(*m); g.root = off_of(m, root); root->n = g.n; Node* prev = nullptr; root->index.reserve(static_cast<std::size_t>(g.n));
        for (int i = 0; i < g.n; ++i) {
            if (sim_chance(400)) m->allocate(8 * (1 + sim_below(20)), 8);
            Node* x = m->construct<Node>(); g.off[i] = off_of(m, x); x->id = static_cast<std::uint64_t>(i); x->sum = word(s, i); for (int k = 0; k < 4; ++k) x->v[k] = word(s, i) + static_cast<std::uint64_t>(k);
            x->any = static_cast<void*>(x); x->cell = &x->v[0]; x->back = prev; if (prev) prev->next = x; else root->head = x; prev = x;
            root->index.push_back(Ptr<Node>{x}); root->table.emplace(i, Ptr<Node>{x});
        }
    }, 16384, shm::SharedMemoryFactory::UserPermissions{shm::permission::WorldWritable{}});
    if (!r) sim_violation("creating a region failed");
    struct stat st; if (sk_stat(("/dev/shm" + path(s)).c_str(), &st) != 0) sim_violation("the memory does not exist"); g.size = static_cast<std::size_t>(st.st_size);
    return r;
}
Node* node(const Res& r, int s, int i) { return reinterpret_cast<Node*>(base_of(r) + O->seg[s].off[i]); }
void same(const void* got, const void* want, const char* how) { if (got != want) sim_violation("%s yields %s instead of the object it was made for", how, got ? "another address" : "nothing"); }
// follows every kind of pointer of an intact region in this process's mapping
void walk(const Res& r, int s) {
    const Seg& g = O->seg[s]; Root* root = reinterpret_cast<Root*>(base_of(r) + g.root);
    Ptr<Node> p = root->head; int i = 0;     // copied to the stack
    if (root->null || root->null.get() != nullptr || !(root->null == nullptr)) sim_violation("a null pointer does not stay null");
    while (p) {
        if (i >= g.n) sim_violation("the list is longer than it was made");
        Node* want = node(r, s, i); same(p.get(), want, "a pointer copied out of shared memory"); same(&*p, want, "dereferencing"); Node& x = *p;
        if (x.id != static_cast<std::uint64_t>(i) || x.sum != word(s, i)) sim_violation("a pointer leads to the wrong object");
        same(x.any.get<Node>(), want, "a typeless pointer"); same(x.any.get(sizeof(Node)), want, "a typeless pointer of given size");
        same(x.back.get(), i ? node(r, s, i - 1) : nullptr, "the backward pointer"); same(x.cell.operator->(), &want->v[0], "member access");
        if (x.cell[2] != word(s, i) + 2) sim_violation("indexing a pointer yields a wrong element");
        switch (sim_below(5)) {
            case 0: { Ptr<std::uint64_t> c = x.cell; c += 3; if (*c != word(s, i) + 3) sim_violation("pointer arithmetic yields a wrong element"); --c; c -= 1; c++; if (*c != word(s, i) + 2) sim_violation("pointer arithmetic yields a wrong element"); if (!(x.cell < c) || c - x.cell != 2) sim_violation("pointers compare wrongly"); Ptr<std::uint64_t> d{c}; d = d; if (d != c) sim_violation("a copied pointer differs"); break; }
            case 1: { auto h = std::make_unique<Ptr<Node>>(x.next); Ptr<const Node> k = *h; same(k.get(), i + 1 < g.n ? node(r, s, i + 1) : nullptr, "a converted copy"); Ptr<Node> again; again = *h; same(again.get(), i + 1 < g.n ? node(r, s, i + 1) : nullptr, "an assigned copy"); break; }
            case 2: { auto it = root->table.find(i); if (it == root->table.end()) sim_violation("a map in shared memory lost an entry"); same(it->second.get(), want, "a pointer in a map"); break; }
            case 3: same(root->index.at(static_cast<std::size_t>(i)).get(), want, "a pointer in a vector"); break;
            default: { Node* raw = x.any.get<Node>(); Ptr<Node> to = Ptr<Node>::pointer_to(*raw); same(to.get(), want, "a pointer made from a reference"); break; }
        }
        p = x.next; ++i; sim_count("followed", 1);
    }
    if (i != g.n) sim_violation("the list ends after %d of %d objects", i, g.n);
    if (root->index.size() != static_cast<std::size_t>(g.n) || root->table.size() != static_cast<std::size_t>(g.n)) sim_violation("a container in shared memory has the wrong size");
}
void bounds(const Res& r, int s) {
    auto& reg = shm::MemoryResourceRegistry::getInstance(); const char* b = base_of(r); const std::size_t n = O->seg[s].size;
    const char* probe[3] = {b, b + sim_below(static_cast<unsigned>(n)), b + n - 1};
    for (const char* q : probe) { const auto k = reg.GetBoundsFromAddress(q); if (!k.has_value()) sim_violation("a mapped region is not known"); if (k->GetStartAddress() != reinterpret_cast<std::uintptr_t>(b) || k->GetEndAddress() != k->GetStartAddress() + n) sim_violation("the bounds of a mapped region are wrong"); }
}
std::mutex maps;      // of this process: known finding close-open-race, so most runs do not let one thread open what another is just unmapping
Res open(int s, bool rw) { std::unique_lock<std::mutex> l{maps, std::defer_lock}; if (!O->racy) l.lock(); auto r = shm::SharedMemoryFactory::Open(path(s), rw); if (!r) sim_violation("opening a region failed"); return r; }
void drop(Res& r) { std::unique_lock<std::mutex> l{maps, std::defer_lock}; if (!O->racy) l.lock(); r.reset(); }
// a thread that maps and unmaps regions of its own and follows pointers in them
void mapper(int s, const Res& stable) {
    if (O->racy || sim_chance(150)) for (int i = 0; i < (O->racy ? 15 : 40); ++i) { Res r = open(s, true); sim_count("maps", 1); drop(r); }
    for (int i = 0; i < O->rounds; ++i) {
        std::uintptr_t was;
        {   Res r = open(s, sim_chance(500)); was = reinterpret_cast<std::uintptr_t>(base_of(r)); bounds(r, s); walk(r, s); if (sim_chance(500)) bounds(stable, 0);
            if (sim_chance(300)) sim_sleep_ns(sim_below(30000)); walk(r, s); sim_count("maps", 1); drop(r); }
        (void)was; if (sim_chance(300)) sim_sleep_ns(sim_below(30000));
    }
}
void follower(int) {
    for (int s = 0; s < O->segs; ++s) for (;;) { bool rd; { std::lock_guard<std::mutex> l{O->order}; rd = O->seg[s].ready; } if (rd) break; sim_sleep_ns(50000); }
    Res keep = open(0, sim_chance(500)); std::vector<std::thread> t;
    for (int s = 1; s < O->segs; ++s) if (sim_chance(700)) t.emplace_back([s, &keep] { mapper(s, keep); });
    for (int i = O->racy ? 2 : sim_chance(300) ? 1 : 0; i > 0; --i) t.emplace_back([&keep] { mapper(O->segs - 1, keep); });
    const int walkers = static_cast<int>(sim_below(2)); for (int i = 0; i < walkers; ++i) t.emplace_back([&keep] { for (int k = 0; k < O->rounds; ++k) { walk(keep, 0); bounds(keep, 0); } });
    for (int k = 0; k < O->rounds; ++k) { walk(keep, 0); bounds(keep, 0); if (sim_chance(200)) sim_sleep_ns(sim_below(20000)); }
    for (auto& x : t) x.join();
    // nothing but the region that is still open may be known
    auto& reg = shm::MemoryResourceRegistry::getInstance(); const std::uintptr_t lo = reinterpret_cast<std::uintptr_t>(base_of(keep)); const std::size_t n = O->seg[0].size;
    bounds(keep, 0); keep.reset();
    const auto k = reg.GetBoundsFromAddressAsInteger(lo + n / 2); if (k.has_value()) sim_violation("a region is still known after it was unmapped");
}
// ------------------------------------------------------------------ corruption
void inside(const Res& r, const void* p, std::size_t n, const char* how) {
    if (!p) return; const char* q = static_cast<const char*>(p); const char* b = base_of(r);
    if (q < b || q + n > b + O->seg[1].size) sim_violation("a corrupted pointer led outside of its region (%s): %ld..%ld of %zu bytes", how, static_cast<long>(q - b), static_cast<long>(q - b + static_cast<long>(n)), O->seg[1].size);
    sim_count("corrupted_inside", 1);
}
std::int64_t bad_offset(std::size_t self, std::size_t size) {
    const std::int64_t me = static_cast<std::int64_t>(self), end = static_cast<std::int64_t>(size);
    switch (sim_below(12)) {
        case 10: case 11: { const std::int64_t n[4] = {1, 8, static_cast<std::int64_t>(sizeof(Node)), static_cast<std::int64_t>(1 + sim_below(64))}; return end - me - n[sim_below(4)] + static_cast<std::int64_t>(sim_below(4)) - 1; }
        case 0: return end - me; case 1: return end - me - 1; case 2: return end - me - 8; case 3: return -me - 1; case 4: return -me - 8; case 5: return -me;
        case 6: return end - me - static_cast<std::int64_t>(sim_below(160)); case 7: return static_cast<std::int64_t>(sim_below(1u << 20)) - (1 << 19);
        case 8: return static_cast<std::int64_t>(sim_rand64() >> (1 + sim_below(40))) * (sim_chance(500) ? 1 : -1);
        default: return static_cast<std::int64_t>(sim_below(static_cast<unsigned>(size))) - me;
    }
}
void rogue() {
    Res r = open(1, true); const Seg& g = O->seg[1];
    for (int i = 0; i < 60; ++i) {
        const int k = static_cast<int>(sim_below(static_cast<unsigned>(g.n))); Node* x = node(r, 1, k);
        char* f = sim_chance(300) ? reinterpret_cast<char*>(&x->next) : sim_chance(500) ? reinterpret_cast<char*>(&x->any) : reinterpret_cast<char*>(&x->cell);
        std::uint64_t good[8]; memcpy(good, f, sizeof(Ptr<Node>)); volatile std::int64_t* w = reinterpret_cast<volatile std::int64_t*>(f);
        const std::int64_t off = bad_offset(off_of(r, f), g.size); const bool all = sim_chance(300);
        for (std::size_t j = 0; j < sizeof(Ptr<Node>) / 8; ++j) if (j == 0 || all) w[j] = j == 0 ? off : static_cast<std::int64_t>(sim_rand64() >> sim_below(30));
        sim_count("corruptions", 1);
        if (sim_chance(500)) sim_sleep_ns(sim_below(20000));
        if (sim_chance(500)) for (std::size_t j = 0; j < sizeof(Ptr<Node>) / 8; ++j) w[j] = static_cast<std::int64_t>(good[j]);
        bool st; { SimAtomic a; st = O->stop; } if (st) break;
    }
}
void victim(int) {
    Res r = open(1, sim_chance(500)); const Seg& g = O->seg[1]; std::vector<std::thread> t;
    if (O->segs > 2 && sim_chance(400)) t.emplace_back([] { for (int i = 0; i < 3; ++i) { Res x = open(2, false); walk(x, 2); drop(x); } });
    for (int i = 0; i < 20; ++i) {
        Node* x = node(r, 1, static_cast<int>(sim_below(static_cast<unsigned>(g.n))));
        switch (sim_below(11)) {
            case 0: inside(r, x->next.get(), sizeof(Node), "get"); break;
            case 1: inside(r, &*x->next, sizeof(Node), "dereference"); break;
            case 2: inside(r, x->cell.operator->(), 8, "member access"); break;
            case 3: { const std::ptrdiff_t k = static_cast<std::ptrdiff_t>(sim_below(4000)) - 1000; inside(r, &x->cell[k], 8, "index"); break; }
            case 4: inside(r, x->any.get<Node>(), sizeof(Node), "typeless"); break;
            case 5: { const std::size_t n = sim_chance(500) ? 1 + sim_below(5000) : O->seg[1].size - off_of(r, &x->any) - sim_below(3); inside(r, x->any.get(n), n, "typeless with size"); break; }
            case 6: { Ptr<Node> c{x->next}; if (sim_chance(500)) { Ptr<Node> d{c}; inside(r, d.get(), sizeof(Node), "copy of a copy"); } else { auto h = std::make_unique<Ptr<Node>>(nullptr); *h = c; inside(r, h->get(), sizeof(Node), "assigned copy"); } break; }
            case 7: { Ptr<std::uint64_t> c{x->cell}; c += static_cast<std::ptrdiff_t>(sim_below(6000)) - 3000; inside(r, c.get(), 8, "arithmetic on a copy"); break; }
            case 8: { Ptr<const Node> c{x->next}; inside(r, c.get(), sizeof(Node), "converted copy"); Ptr<const Node> d; d = x->next; inside(r, &*d, sizeof(Node), "converted assignment"); break; }
            case 9: { Node* p = x->next; inside(r, p, sizeof(Node), "conversion"); break; }
            default: { Ptr<void> c{x->any}; inside(r, c.get<std::uint64_t>(), 8, "typeless copy"); break; }
        }
        sim_count("victim_accesses", 1); if (sim_chance(200)) sim_sleep_ns(sim_below(10000));
    }
    for (auto& y : t) y.join();
}
void keeper() {
    std::vector<Res> all; for (int s = 0; s < O->segs; ++s) { all.push_back(create(s)); { std::lock_guard<std::mutex> l{O->order}; O->seg[s].ready = true; } }
    for (;;) { bool st; { SimAtomic a; st = O->stop; } if (st) break; sim_sleep_ns(100000); }
}
}  // namespace
extern "C" void sim_process_main(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg); switch (role) { case 0: keeper(); break; case 1: follower(0); break; case 2: rogue(); break; default: victim(0); }
}
extern "C" void sim_control() {
    O = new Oracle; sim_max_steps(250000); O->segs = 2 + static_cast<int>(sim_below(3)); O->corrupt = sim_chance(400); O->racy = !O->corrupt && sim_chance(40); O->rounds = 1 + static_cast<int>(sim_below(5));
    for (auto& s : O->seg) s.n = 1 + static_cast<int>(sim_below(sim_chance(300) ? kMaxNodes : 4));
    sim_allow_fault(SF_STALL, 4); sim_allow_fault(SF_DELAY, 60); sim_allow_fault(SF_CAS_SPURIOUS, 30); if (!O->corrupt) sim_race_check(1, 1);
    std::vector<int> p; const int k = sim_spawn("keeper", 0, 0, 1000, 1, O);
    for (;;) { bool rd; { std::lock_guard<std::mutex> l{O->order}; rd = O->seg[O->segs - 1].ready; } if (rd) break; if (!sim_alive(k)) sim_violation("creating the regions failed: %s", sim_exit_text(k)); sim_sleep_ns(100000); }
    const int n = 1 + static_cast<int>(sim_below(3));
    for (int i = 0; i < n; ++i) { SimAtomic a; p.push_back(sim_spawn(("process" + std::to_string(i)).c_str(), O->corrupt ? 3 : 1, 0, 1000, 1, O)); if (O->corrupt || O->racy) sim_expect_abort(p.back(), 1); }
    int rg = 0; if (O->corrupt) rg = sim_spawn("rogue", 2, 0, 1000, 1, O);
    for (int x : p) { if (!sim_wait_exit(x, 30000000000ULL)) sim_violation("a process does not finish"); if (O->corrupt && sim_exit_kind(x) == 3) sim_count("victim_ended_itself", 1);
        if (O->racy && sim_exit_kind(x) == 3) sim_violation("[close-open-race] a process ended itself while one thread opened a region that another thread was just unmapping: %s", sim_exit_text(x)); }
    { SimAtomic a; O->stop = true; }
    if (rg && !sim_wait_exit(rg, 30000000000ULL)) sim_violation("the rogue process does not finish");
    if (!sim_wait_exit(k, 30000000000ULL)) sim_violation("the keeper does not finish");
    sim_cover(static_cast<std::uint64_t>(O->segs * 64 + n * 8 + O->corrupt));
}
