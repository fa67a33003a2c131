// Event slots in shared memory: one provider, several consumer processes, optional ASIL-B control, rogue QM consumer and crashes.
#include "sim_api.h"
#include "kernel_api.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/mw/com/impl/bindings/lola/consumer_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/event_control.h"
#include "score/mw/com/impl/bindings/lola/event_data_control_composite.h"
#include "score/mw/com/impl/bindings/lola/provider_event_data_control_local_view.h"
#include "score/mw/com/impl/bindings/lola/slot_collector.h"
#include "score/mw/com/impl/bindings/lola/slot_decrementer.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_local_view.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_registration_guard.h"
#include "score/mw/com/impl/bindings/lola/transaction_log_set.h"
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>
namespace lola = score::mw::com::impl::lola;
namespace shm = score::memory::shared;
using Slot = lola::SlotIndexType;
namespace {
constexpr int kMaxWords = 24;
struct Sample { std::uint64_t seq; std::uint64_t w[kMaxWords]; };
struct Root {
    Root(int nslots, int nsub, bool enforce, shm::ManagedMemoryResource& r) : control{static_cast<Slot>(nslots), static_cast<std::uint8_t>(nsub), enforce, r} {}
    lola::EventControl control;
};
struct Data { Sample s[16]; };
std::uint64_t word(std::uint64_t seq, int i) { return seq * 0x9E3779B97F4A7C15ULL + static_cast<std::uint64_t>(i) * 0x2545F4914F6CDD1DULL; }

// everything the oracle knows; lives once in the simulator's address space
struct Oracle {
    // configuration of the run
    int nslots = 4, nqm = 1, nb = 0, words = 4, sends = 10; bool asil_b = false, rogue = false, enforce = true; int maxs[8] = {}; bool releaser[8] = {}; int rounds = 3; bool crash_c = false, crash_p = false; int pool = 0;
    // state
    bool ready = false, provider_done = false; int consumers_done = 0;
    std::uint64_t next_seq = 1;                        // also the time stamp
    enum { kFree, kWriting, kSent };
    struct S { int st = kFree; std::uint64_t seq = 0; std::map<int, int> holders; std::uint64_t since = 0; std::set<int> maybe; bool visible = false; } slots[16];
    std::uint64_t version = 0;                         // changes with every provider action or hold/release
    int outstanding = 0;                               // allocations in writing
    int inprog[8] = {}; int inprogress() const { int n = 0; for (int x : inprog) n += x; return n; }                                // receive or release calls in progress
    int dead_holders = 0; bool opened[8] = {}; int busy[8] = {}; bool was_busy = false; bool allocating = false; bool qm_cut = false;
    int held(int s) const { int n = 0; for (auto& h : slots[s].holders) n += h.second; return n; }
};
Oracle* O;
const char* kQm = "/qm-ctl"; const char* kB = "/b-ctl"; const char* kData = "/data";
struct Mem { std::shared_ptr<shm::ISharedMemoryResource> r; };

std::size_t offset_of_root = 0;
template <class F> std::shared_ptr<shm::ISharedMemoryResource> create(const char* path, std::size_t size, F f) {
    auto r = shm::SharedMemoryFactory::Create(path, [&f](std::shared_ptr<shm::ISharedMemoryResource> m) { f(*m); }, size, shm::ISharedMemoryResource::UserPermissions{shm::ISharedMemoryResource::WorldWritable{}});
    if (!r) sim_violation("creating shared memory %s failed", path);
    return r;
}
std::shared_ptr<shm::ISharedMemoryResource> open_rw(const char* path) { auto r = shm::SharedMemoryFactory::Open(path, true); if (!r) sim_violation("opening shared memory %s failed", path); return r; }
Root* root(shm::ISharedMemoryResource& r) { return static_cast<Root*>(r.getUsableBaseAddress()); }

// ------------------------------------------------------------------ provider
void provider(int incarnation) {
    std::shared_ptr<shm::ISharedMemoryResource> qm, b, data;
    auto mk = [&](shm::ISharedMemoryResource& m) { m.construct<Root>(O->nslots, O->nqm + O->nb + (O->rogue ? 1 : 0) + 1, O->enforce, m); };
    if (incarnation == 0) {
        qm = create(kQm, 16384, mk); if (O->asil_b) b = create(kB, 16384, mk);
        data = create(kData, sizeof(Data) + 64, [&](shm::ISharedMemoryResource& m) { m.construct<Data>(); });
    } else { qm = open_rw(kQm); if (O->asil_b) b = open_rw(kB); data = open_rw(kData); }
    lola::ProviderEventDataControlLocalView<> vq{root(*qm)->control.data_control};
    std::optional<lola::ProviderEventDataControlLocalView<>> vb; if (b) vb.emplace(root(*b)->control.data_control);
    if (incarnation > 0) {
        vq.RemoveAllocationsForWriting(); if (vb) vb->RemoveAllocationsForWriting();
        SimAtomic a; for (int i = 0; i < O->nslots; ++i) if (O->slots[i].st == Oracle::kWriting) { O->slots[i].st = Oracle::kFree; O->slots[i].since = ++O->version; }
        O->outstanding = 0;
    }
    lola::EventDataControlComposite<> ctl{vq, vb ? &*vb : nullptr};
    Data* d = static_cast<Data*>(data->getUsableBaseAddress()); sim_race_region(d, sizeof(Data));   // the payload; the control data is atomics and the transaction logs
    std::uint64_t ts = 1;
    if (incarnation > 0) {
        ts = ctl.GetLatestTimestamp() + 1ULL; SimAtomic a;
        // what was sent before the crash counts; a sample whose sending was cut short may be there or not
        int taken = 0; std::uint64_t last = 0; for (auto& s : O->slots) if (s.st == Oracle::kSent && s.visible && s.seq > last && !(O->allocating)) last = s.seq;
        if (ts <= last) sim_violation("the restarted provider continues with time stamp %llu although %llu was sent", (unsigned long long)ts, (unsigned long long)last);
        for (int i = 0; i < O->nslots; ++i) { auto& s = O->slots[i];
            const auto q = vq[static_cast<Slot>(i)]; const auto b = vb ? (*vb)[static_cast<Slot>(i)] : q;
            sim_event("after restart slot %d: qm %u/%u b %u/%u, expected %d %llu visible %d held %d", i, q.GetTimeStamp(), q.GetReferenceCount(), b.GetTimeStamp(), b.GetReferenceCount(), s.st, (unsigned long long)s.seq, s.visible, O->held(i));
            const bool reusable = O->allocating && !O->held(i);   // the crash came while a slot was being taken
            if (s.st == Oracle::kSent && s.visible && reusable && b.GetTimeStamp() != s.seq) { s.st = Oracle::kFree; s.since = ++O->version; if (++taken > 1) sim_violation("the crash of the provider during one allocation lost more than one sample"); }
            else if (s.st == Oracle::kSent && s.visible && reusable && !O->qm_cut && q.GetTimeStamp() != s.seq) { s.visible = false; s.since = ++O->version; if (++taken > 1) sim_violation("the crash of the provider during one allocation lost more than one sample"); }
            else if (s.st == Oracle::kSent && s.visible) { if ((!O->qm_cut && q.GetTimeStamp() != s.seq) || b.GetTimeStamp() != s.seq) sim_violation("sample %llu in slot %d, sent before the provider crashed, is lost", (unsigned long long)s.seq, i); }
            else if (s.st == Oracle::kSent) { if (b.GetTimeStamp() == s.seq) { s.visible = q.GetTimeStamp() == s.seq; } else { s.st = Oracle::kFree; } s.since = ++O->version; }
            if (q.IsInWriting() && !O->qm_cut) sim_violation("slot %d is still marked as being written after the provider was restarted", i);
            if (b.IsInWriting()) sim_violation("slot %d is still marked as being written after the provider was restarted", i); }
        O->allocating = false; if (O->next_seq < ts) O->next_seq = ts;
    }
    { SimAtomic a; O->ready = true; }
    std::deque<int> pending;
    int reserved = 0; for (int i = 0; i < O->nqm + O->nb; ++i) reserved += O->maxs[i];
    auto send_one = [&](bool discard) {
        const int s = pending.front(); pending.pop_front();
        if (discard) {
            { SimAtomic a; O->slots[s].st = Oracle::kFree; O->outstanding--; O->slots[s].since = ++O->version; }
            ctl.Discard(static_cast<Slot>(s)); sim_event("discarded slot %d", s); sim_count("discards", 1);
        } else {
            std::uint64_t seq;
            { SimAtomic a; seq = O->next_seq++; O->slots[s].st = Oracle::kSent; O->slots[s].seq = seq; O->slots[s].visible = false; O->slots[s].since = ++O->version; O->outstanding--; }
            Sample& x = d->s[s]; x.seq = seq; for (int i = 0; i < O->words; ++i) x.w[i] = word(seq, i);
            ctl.EventReady(static_cast<Slot>(s), static_cast<std::uint32_t>(seq)); sim_event("sent %llu in slot %d", (unsigned long long)seq, s); sim_count("sends", 1);
            { SimAtomic a; O->slots[s].visible = true; O->slots[s].since = ++O->version; }
        }
    };
    for (int n = 0; n < O->sends; ++n) {
        int must = 0; { SimAtomic a; must = O->nslots - reserved - O->outstanding - O->dead_holders; }
        { SimAtomic a; O->allocating = true; O->version++; }
        const auto res = ctl.AllocateNextSlot();
        SimAtomic* at = new SimAtomic; O->allocating = false; O->version++;
        if (res.qm_misbehaved) { if (!O->qm_cut) { O->qm_cut = true; sim_race_check(0, 0); sim_event("QM consumers cut off"); sim_count("qm_cut", 1); if (!O->rogue && must > 0 && !O->crash_c) sim_violation("well behaved QM consumers were cut off although they reserved fewer samples than there are slots"); for (auto& s : O->slots) for (int c = 0; c < O->nqm; ++c) s.holders.erase(c); } }
        if (!res.allocated_slot_index.has_value()) {
            sim_event("allocation failed"); sim_count("alloc_failed", 1);
            if (must > 0 && !O->crash_c) sim_violation("no slot could be allocated although consumers may hold %d and %d are being written of %d slots", reserved, O->outstanding, O->nslots);
        } else {
            const int s = *res.allocated_slot_index;
            if (s >= O->nslots) sim_violation("slot index %d outside of %d slots", s, O->nslots);
            auto& o = O->slots[s];
            if (o.st == Oracle::kWriting) sim_violation("slot %d was handed out for writing twice", s);
            if (O->held(s)) sim_violation("slot %d was handed out for writing while %d references of consumers to it exist", s, O->held(s));
            o.st = Oracle::kWriting; o.since = ++O->version; O->outstanding++; pending.push_back(s);
            sim_event("allocated slot %d", s);
        }
        delete at;
        const int keep = O->pool;
        while (static_cast<int>(pending.size()) > keep || (!pending.empty() && sim_chance(700))) { if (pending.size() > 1 && sim_chance(300)) { pending.push_back(pending.front()); pending.pop_front(); } 
            // the time stamp order is the sending order: only the order of sending matters
            send_one(sim_chance(120)); }
        if (sim_chance(100)) sim_sleep_ns(1000 + sim_below(200000));
    }
    while (!pending.empty()) send_one(sim_chance(100));
    { SimAtomic a; O->provider_done = true; }
}

// ------------------------------------------------------------------ consumer
struct Held { int slot; std::uint64_t seq; std::unique_ptr<lola::SlotDecrementer> dec; };
void check_sample(const Sample& x, const Held& h, bool is_b, const char* when) {
    // a QM consumer that was cut off from the provider may see anything
    auto cut = [is_b] { if (is_b) return false; SimAtomic a; return O->qm_cut; };
    if (x.seq != h.seq && !cut()) sim_violation("sample %llu in slot %d turned into %llu (%s)", (unsigned long long)h.seq, h.slot, (unsigned long long)x.seq, when);
    for (int i = 0; i < O->words; ++i) { const std::uint64_t v = x.w[i]; if (v != word(h.seq, i) && !cut()) sim_violation("word %d of sample %llu in slot %d is not what was sent (%s)", i, (unsigned long long)h.seq, h.slot, when); }
}
void consumer(int id, int incarnation) {
    for (;;) { bool r; { SimAtomic a; r = O->ready; } if (r) break; sim_sleep_ns(50000); }
    const bool is_b = id >= O->nqm;
    auto ctl = open_rw(is_b ? kB : kQm); auto data = shm::SharedMemoryFactory::Open(kData, false); if (!data) sim_violation("opening the data failed");
    { SimAtomic a; O->opened[id] = true; }
    Root* r = root(*ctl); const Data* d = static_cast<const Data*>(data->getUsableBaseAddress());
    auto& set = r->control.transaction_log_set_; const lola::TransactionLogId lid = static_cast<lola::TransactionLogId>(1001 + id);
    if (incarnation > 0) {
        lola::ConsumerEventDataControlLocalView<> view{r->control.data_control};
        set.MarkTransactionLogsNeedRollback(lid);
        std::vector<int> back;
        const auto rb = set.RollbackProxyTransactions(lid,
            [&](lola::TransactionLog::SlotIndexType s) noexcept { { SimAtomic a; back.push_back(s); O->slots[s].holders.erase(id); O->slots[s].maybe.erase(id); } view.DereferenceEventWithoutTransactionLogging(s); },
            [&](lola::TransactionLog::MaxSampleCountType n) noexcept { r->control.subscription_control.Unsubscribe(n); if (n != O->maxs[id]) sim_violation("rollback gives back %d reserved samples instead of %d", n, O->maxs[id]); });
        sim_event("rollback of consumer %d: %d, %zu slots", id, rb.has_value(), back.size());
        if (!rb.has_value() && !O->was_busy) sim_violation("the references of the dead consumer could not be given back although it died outside of any call");
        if (!rb.has_value()) { sim_count("rollback_refused", 1); sim_give_up("the dead consumer could not be rolled back (reported)"); }
        sim_count("rollback_done", 1);
        SimAtomic a; O->dead_holders = 0;
        for (int s = 0; s < O->nslots; ++s) { if (O->slots[s].holders.count(id)) sim_violation("the reference of the dead consumer to slot %d was not given back", s); O->slots[s].maybe.erase(id); }
        O->version++;
    }
    for (int round = 0; round < O->rounds; ++round) {
        lola::ConsumerEventDataControlLocalView<> view{r->control.data_control};
        { SimAtomic a; O->busy[id]++; }
        auto guard_r = set.RegisterProxyElement(lid, view);
        if (!guard_r.has_value()) sim_violation("consumer %d cannot register although the number of subscribers is within the limit", id);
        std::optional<lola::TransactionLogRegistrationGuard> guard{std::move(guard_r).value()};
        lola::TransactionLogLocalView log{set.GetTransactionLog(guard->GetTransactionLogIndex())};
        log.SubscribeTransactionBegin(static_cast<std::size_t>(O->maxs[id]));
        const auto sr = r->control.subscription_control.Subscribe(static_cast<std::uint16_t>(O->maxs[id]));
        if (sr != lola::SubscribeResult::kSuccess) { log.SubscribeTransactionAbort(); guard.reset(); if (sr != lola::SubscribeResult::kUpdateRetryFailure) sim_violation("subscription refused (%d) within the quotas", static_cast<int>(sr)); { SimAtomic a; O->busy[id]--; } sim_count("subscribe_retry", 1); sim_yield(); continue; }
        log.SubscribeTransactionCommit();
        { SimAtomic a; O->busy[id]--; }
        {
            lola::SlotCollector col{view, static_cast<std::size_t>(O->maxs[id])};
            std::mutex m; std::condition_variable cv; std::deque<Held> held, to_release; int live = 0; bool stop = false;
            auto release = [&](Held h, const char* who) {
                check_sample(d->s[h.slot], h, is_b, "when released");
                { SimAtomic a; auto& s = O->slots[h.slot]; if (--s.holders[id] <= 0) s.holders.erase(id); O->inprog[id]++; O->busy[id]++; O->version++; }
                h.dec.reset();
                { SimAtomic a; O->inprog[id]--; O->busy[id]--; O->version++; }
                sim_event("consumer %d released %llu (%s)", id, (unsigned long long)h.seq, who); sim_count("releases", 1);
                std::lock_guard<std::mutex> l{m}; --live;
            };
            std::thread rel;
            if (O->releaser[id]) rel = std::thread{[&] { for (;;) { Held h; { std::unique_lock<std::mutex> l{m}; cv.wait(l, [&] { return stop || !to_release.empty(); }); if (to_release.empty()) return; h = std::move(to_release.front()); to_release.pop_front(); } release(std::move(h), "thread"); } }};
            std::uint64_t last = 0; int empty = 0;
            const int gets = 3 + static_cast<int>(sim_below(12));
            for (int g = 0; g < gets; ++g) {
                int room; { std::lock_guard<std::mutex> l{m}; room = O->maxs[id] - live; }
                if (room > 0) {
                    const int want = 1 + static_cast<int>(sim_below(static_cast<std::uint32_t>(room)));
                    struct U { int slot; std::uint64_t seq, since; }; std::vector<U> unseen; std::uint64_t v0; bool quiet;
                    { SimAtomic a; for (int s = 0; s < O->nslots; ++s) if (O->slots[s].st == Oracle::kSent && O->slots[s].visible && O->slots[s].seq > last) unseen.push_back({s, O->slots[s].seq, O->slots[s].since}); v0 = O->version; quiet = O->inprogress() == 0 && !O->allocating; O->inprog[id]++; O->busy[id]++; v0 = ++O->version; for (int s = 0; s < O->nslots; ++s) O->slots[s].maybe.insert(id); }
                    const auto idx = col.GetNewSamplesSlotIndices(static_cast<std::size_t>(want));
                    std::vector<Held> got;
                    { SimAtomic a; O->inprog[id]--; O->busy[id]--;
                      for (int s = 0; s < O->nslots; ++s) O->slots[s].maybe.erase(id);
                      std::set<std::uint64_t> del; std::uint64_t prev = last;
                      for (auto it = idx.begin; it != idx.end; ++it) {
                          const int s = *it; if (s >= O->nslots) sim_violation("received slot index %d", s);
                          auto& o = O->slots[s];
                          const bool trust = is_b || !O->qm_cut;   // a QM consumer that was cut off may see anything
                          if (trust && o.st != Oracle::kSent) sim_violation("consumer %d was handed slot %d which is %s", id, s, o.st == Oracle::kWriting ? "being written" : "not filled");
                          if (trust && o.seq <= last) sim_violation("consumer %d received sample %llu again or after %llu", id, (unsigned long long)o.seq, (unsigned long long)last);
                          if (trust && o.seq <= prev) sim_violation("consumer %d received sample %llu after %llu within one call", id, (unsigned long long)o.seq, (unsigned long long)prev);
                          prev = o.seq; del.insert(o.seq);
                          if (is_b || !O->qm_cut) o.holders[id]++;
                          got.push_back({s, o.seq, nullptr});
                      }
                      if (static_cast<int>(got.size()) > want) sim_violation("consumer %d asked for %d samples and got %zu", id, want, got.size());
                      if (!del.empty() && (is_b || !O->qm_cut)) { const std::uint64_t oldest = *del.begin();
                          for (auto& u : unseen) if (u.seq > oldest && !del.count(u.seq) && O->slots[u.slot].since == u.since && !(O->allocating && !O->held(u.slot))) sim_violation("consumer %d received the older sample %llu but not the available newer sample %llu", id, (unsigned long long)oldest, (unsigned long long)u.seq); }
                      // nobody else did anything during the call: exactly the newest must have been delivered
                      int still = 0; for (auto& u : unseen) if (O->slots[u.slot].since == u.since) ++still;
                      if ((is_b || (!O->qm_cut && !O->rogue)) && quiet && v0 == O->version && static_cast<int>(got.size()) < (want < still ? want : still) && !O->crash_p) sim_violation("consumer %d got %zu samples although %d were available and %d asked for", id, got.size(), still, want);
                      O->version++; if (prev > last) last = prev;
                    }
                    for (auto& h : got) { h.dec = std::make_unique<lola::SlotDecrementer>(view, static_cast<Slot>(h.slot)); sim_event("consumer %d received %llu", id, (unsigned long long)h.seq); check_sample(d->s[h.slot], h, is_b, "when received"); }
                    sim_count("received", static_cast<long>(got.size())); sim_cover(static_cast<std::uint64_t>(got.size()) << 8 | static_cast<std::uint64_t>(want) << 16 | unseen.size() << 24 | static_cast<std::uint64_t>(room));
                    if (got.empty()) { ++empty; if (sim_chance(500)) sim_sleep_ns(1000 + sim_below(100000)); }
                    { std::lock_guard<std::mutex> l{m}; live += static_cast<int>(got.size()); }
                    for (auto& h : got) held.push_back(std::move(h));
                }
                // look at what is held, release some
                for (auto& h : held) if (sim_chance(300)) check_sample(d->s[h.slot], h, is_b, "while held");
                while (!held.empty() && sim_chance(static_cast<int>(held.size()) >= O->maxs[id] ? 800 : 400)) {
                    const auto k = sim_below(static_cast<std::uint32_t>(held.size())); Held h = std::move(held[k]); held.erase(held.begin() + k);
                    if (O->releaser[id] && sim_chance(600)) { std::lock_guard<std::mutex> l{m}; to_release.push_back(std::move(h)); cv.notify_one(); } else release(std::move(h), "main");
                }
            }
            while (!held.empty()) { Held h = std::move(held.back()); held.pop_back(); release(std::move(h), "end"); }
            if (rel.joinable()) { { std::lock_guard<std::mutex> l{m}; stop = true; cv.notify_all(); } rel.join(); }
        }
        { SimAtomic a; O->busy[id]++; }
        log.UnsubscribeTransactionBegin(); r->control.subscription_control.Unsubscribe(static_cast<std::uint16_t>(O->maxs[id])); log.UnsubscribeTransactionCommit();
        guard.reset();
        { SimAtomic a; O->busy[id]--; }
        sim_event("consumer %d unsubscribed", id);
    }
    SimAtomic a; O->consumers_done++;
}
// a QM consumer that misuses the memory it may write
void rogue() {
    for (;;) { bool r; { SimAtomic a; r = O->ready; } if (r) break; sim_sleep_ns(20000); }
    auto ctl = open_rw(kQm); auto& slots = root(*ctl)->control.data_control.state_slots_;
    const int n = 5 + static_cast<int>(sim_below(60));
    for (int i = 0; i < n; ++i) {
        const auto s = sim_below(static_cast<std::uint32_t>(O->nslots)); auto& x = slots[s];
        switch (sim_below(7)) {
            case 0: x.fetch_add(1); break;
            case 1: x.fetch_sub(1); break;
            case 2: x.store(0); break;
            case 3: x.store(~0ULL); break;
            case 4: x.store(sim_rand64()); break;
            case 5: x.store((static_cast<std::uint64_t>(sim_below(50)) << 32) | sim_below(2)); break;
            default: for (auto& y : slots) y.fetch_add(1); break;
        }
        sim_count("rogue_writes", 1);
        if (sim_chance(300)) sim_sleep_ns(sim_below(100000));
    }
}
}  // namespace
extern "C" void sim_process_main(int role, int incarnation, void* arg) {
    O = static_cast<Oracle*>(arg);
    if (role == 1) provider(incarnation); else if (role == 99) rogue(); else consumer(role - 10, incarnation);
}
extern "C" void sim_control() {
    O = new Oracle; const std::string p = sim_param("p"); const bool crashes = p == "C07" || p == "C08";
    sim_max_steps(150000);
    O->asil_b = p == "C04" || sim_chance(300); O->nqm = 1 + static_cast<int>(sim_below(3)); O->nb = O->asil_b ? 1 + static_cast<int>(sim_below(2)) : 0;
    O->rogue = p == "C04" && sim_chance(800); if (O->rogue || (p == "C04" && sim_chance(300))) O->nqm = 0;
    if (p == "C07") O->crash_c = true; if (p == "C08") O->crash_p = true;
    O->pool = static_cast<int>(sim_below(3)); O->words = 1 + static_cast<int>(sim_below(sim_chance(300) ? kMaxWords : 5)); O->sends = 4 + static_cast<int>(sim_below(40)); O->rounds = 1 + static_cast<int>(sim_below(3));
    int sum = 0; for (int i = 0; i < O->nqm + O->nb; ++i) { O->maxs[i] = 1 + static_cast<int>(sim_below(3)); sum += O->maxs[i]; O->releaser[i] = sim_chance(350); }
    O->nslots = sum + static_cast<int>(sim_below(3)) + (sim_chance(500) ? 1 + O->pool : 0); if (O->nslots > 15) O->nslots = 15; if (O->nslots < 1) O->nslots = 1; if (O->nslots < sum) { for (int i = 0; i < 8; ++i) if (O->maxs[i]) O->maxs[i] = 1; }
    sim_allow_fault(SF_CAS_SPURIOUS, 8); sim_allow_fault(SF_STALL, 4); sim_allow_fault(SF_COND_SPURIOUS, 20);
    if (!*sim_param("norace") && !O->rogue) sim_race_check(1, 0);
    int prov = sim_spawn("provider", 1, 0, 900, 1, O); std::vector<int> pc; const int nc = O->nqm + O->nb;
    for (int i = 0; i < nc; ++i) pc.push_back(sim_spawn(("consumer" + std::to_string(i)).c_str(), 10 + i, 0, 1001 + i, 1, O));
    int rg = -1; if (O->rogue) rg = sim_spawn("rogue", 99, 0, 1099, 1, O);
    int victim = -1, inc = 0;
    if (O->crash_c) { victim = static_cast<int>(sim_below(static_cast<std::uint32_t>(nc))); for (;;) { bool r; { SimAtomic a; r = O->opened[victim]; } if (r) break; sim_sleep_ns(20000); } sim_crash_after(pc[static_cast<std::size_t>(victim)], 1 + sim_below(sim_chance(500) ? 3000 : 800)); }
    if (O->crash_p) { for (;;) { bool r; { SimAtomic a; r = O->ready; } if (r) break; sim_sleep_ns(20000); } sim_crash_after(prov, 1 + sim_below(sim_chance(500) ? 3000 : 600)); }
    auto wait = [&](int pid, const char* what) { if (!sim_wait_exit(pid, 20000000000ULL)) sim_violation("%s does not finish", what); };
    if (victim >= 0) { const auto v = static_cast<std::size_t>(victim); wait(pc[v], "consumer"); if (sim_exit_kind(pc[v]) == 2) { { SimAtomic a; for (int s = 0; s < O->nslots; ++s) O->dead_holders += O->maxs[v]; O->was_busy = O->busy[v] > 0; O->inprog[v] = 0; O->busy[v] = 0; } ++inc; pc[v] = sim_spawn("consumer-again", 10 + victim, inc, 1001 + victim, 1, O); } }
    if (O->crash_p) { wait(prov, "provider"); if (sim_exit_kind(prov) == 2) { prov = sim_spawn("provider-again", 1, 1, 900, 1, O); sim_count("provider_restarts", 1); } }
    wait(prov, "provider"); for (int c : pc) wait(c, "consumer"); if (rg >= 0) wait(rg, "rogue");
    sim_calm();
    // all references were released: every slot must be usable again
    sim_race_check(0, 0);
    auto qm = open_rw(kQm); std::shared_ptr<shm::ISharedMemoryResource> b; if (O->asil_b) b = open_rw(kB);
    lola::ProviderEventDataControlLocalView<> vq{root(*qm)->control.data_control}; std::optional<lola::ProviderEventDataControlLocalView<>> vb; if (b) vb.emplace(root(*b)->control.data_control);
    for (int s = 0; s < O->nslots; ++s) {
        if (!O->rogue) { const auto st = vq[static_cast<Slot>(s)]; if (!O->qm_cut && st.GetReferenceCount() != 0) sim_violation("slot %d still has %u references after all samples were released", s, st.GetReferenceCount());
            if (!O->qm_cut && st.GetTimeStamp() != (O->slots[s].st == Oracle::kSent ? O->slots[s].seq : 0) && !(O->slots[s].st == Oracle::kSent && !O->slots[s].visible && st.GetTimeStamp() == 0)) sim_violation("slot %d has time stamp %u instead of %llu", s, st.GetTimeStamp(), (unsigned long long)O->slots[s].seq); }
        if (vb) { const auto st = (*vb)[static_cast<Slot>(s)]; if (st.GetReferenceCount() != 0) sim_violation("ASIL-B slot %d still has %u references after all samples were released", s, st.GetReferenceCount()); }
    }
    if (!O->rogue && !O->qm_cut) {
        auto& sc = root(*qm)->control.subscription_control; const int n = O->nqm + O->nb + 1;
        for (int i = 0; i < n; ++i) { auto r = sc.Subscribe(static_cast<std::uint16_t>(i == 0 && O->enforce ? O->nslots : 0)); if (r != lola::SubscribeResult::kSuccess) sim_violation("after all consumers unsubscribed subscription %d of %d is refused (%d)", i, n, static_cast<int>(r)); }
        if (sc.Subscribe(0) != lola::SubscribeResult::kMaxSubscribersOverflow) sim_violation("more subscribers accepted than configured");
    }
    lola::EventDataControlComposite<> ctl{vq, vb ? &*vb : nullptr}; std::set<int> all;
    if (!O->qm_cut && !O->rogue) for (int i = 0; i < O->nslots; ++i) { const auto r = ctl.AllocateNextSlot(); if (!r.allocated_slot_index.has_value()) sim_violation("only %d of %d slots can be allocated after everything was released", i, O->nslots); if (!all.insert(*r.allocated_slot_index).second) sim_violation("slot %d allocated twice", static_cast<int>(*r.allocated_slot_index)); }
    if (crashes) sim_count("crash_runs", 1);
}
