// Fields end to end on the complete runtime (C13): a provider with one or two instances that updates, offers, withdraws, crashes and returns; consumers in several processes and quality levels that subscribe, get and set.
// Oracle: the writes of an instance with the time in which each took effect, the reads with the time in which each was made. A read value must have been written, and not replaced before the read began (by a write that began
// after the value's own write had ended), and not be older than what an earlier read showed.
#include "com.h"
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace simcom;
namespace fld {
enum Phase { kChaos, kStill, kCheckDown, kCheckUp, kAgree, kTear };
enum Want { kFree, kHold, kWithdrawn, kOffered, kUpdate, kExit };
constexpr std::uint32_t kMix = 0x5a5a1234u;
constexpr std::uint64_t kOpen = ~0ull;
struct Write { int inst = 0, client = -1; std::uint32_t from = 0; bool set = false, started = false, ended = false, ok = false, done = false, dead = false, maybe[2] = {}; int ran = 0; std::uint64_t begin = kOpen, end[2] = {kOpen, kOpen}; };
struct ClientState { int id = 0, proc = -1, thread = 0, inst = 0; bool b = false, busy_create = false, missed = false, has_proxy = false; unsigned quota = 1; std::uint64_t ack = 0; const char* call = ""; };
struct Oracle { HalfMade half;
    Cfg cfg, cfgb; unsigned pace = 1000; bool b = false, calm = false, crashes = false; int procs = 1, ni = 1; std::vector<ClientState> c; std::uint64_t round = 0; Phase phase = kChaos; Want want = kFree; std::uint64_t want_no = 0, want_ack = 0;
    std::deque<Write> writes; std::set<std::uint64_t> open[2]; std::uint64_t changed[2] = {}; unsigned updates_left = 0; bool empty[2] = {}, avoid_empty = true; std::uint64_t emptied[2] = {}; std::uint64_t clock = 0, agreed[2] = {}; unsigned setters_pm = 0, updates_pm = 0; int running[2] = {}; bool closed[2] = {true, true}, active[2] = {}, shm_open[2] = {}, meanwhile[2] = {}, withdrawn[2] = {true, true}; std::uint64_t downs[2] = {}; unsigned offers_left = 300; std::uint64_t epoch = 0; int prov_pid = 0; int pid[4] = {}; bool prov_crashed = false; bool cons_crashed[4] = {}, cons_crashed_any = false; bool stale_lock = false, avoid_ro = true, limited = false; int spawned = 0; std::string prop; unsigned slow_pm = 0, slow_ns = 0; std::map<std::string, int> creator; std::set<int> dead; std::map<int, int> proc; int proc_of(int p) const { const auto i = proc.find(p); return i == proc.end() ? -1 : i->second; } std::set<int> uids; int prov_uid = 1001; std::map<int, int> uid_of;
};
Oracle* O;
const char kLocalRo[] = "(invalid memory access) in _ZN5score2mw3com4impl4lola21SkeletonMemoryManager";
const char kStale[] = "stale-handle-during-offer", kStaleText[] = "for given event instance. Terminating";
void offer_changes(int i, bool on) { O->active[i] = on; O->epoch++; O->meanwhile[i] = false; for (auto& c : O->c) if (c.busy_create) O->meanwhile[i] = true, sim_tag_termination(c.proc < 0 ? O->prov_pid : O->pid[c.proc], kStale, kStaleText); }
void nap() { switch (sim_below(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep_ns(sim_below(20000)); break; default: sim_sleep_ns(sim_below(O->pace)); } }
std::string pname(int i) { return i ? "p2" : "p"; } std::string cname(int i, bool b) { return std::string(b ? "cb" : "cq") + (i ? "2" : ""); }
// ---- the register
std::uint64_t stamp() { SimAtomic a; return ++O->clock; }
void touch(std::uint64_t id, bool open) { const int i = O->writes[id - 1].inst; O->changed[i] = ++O->clock; if (open) O->open[i].insert(id); else O->open[i].erase(id); }
void w_begin(std::uint64_t id) { SimAtomic a; Write& w = O->writes[id - 1]; touch(id, true); if (w.begin == kOpen) w.begin = O->clock; }
void w_end(std::uint64_t id, bool ok) { SimAtomic a; Write& w = O->writes[id - 1]; w.ended = true; w.ok = ok; touch(id, false); if (ok && w.begin > O->emptied[w.inst]) O->empty[w.inst] = false; if (ok) for (int k = 0; k < 2; ++k) { w.end[k] = std::min(w.end[k], O->clock); w.maybe[k] = false; } else if (!w.set) w.dead = true; }
std::uint64_t w_new(int inst, int client, std::uint32_t from) { SimAtomic a; Write w; w.inst = inst; w.client = client; w.from = from; w.set = client >= 0; O->writes.push_back(w); return O->writes.size(); }
// what has begun at instance i and never ended cannot take effect later
void w_cut(int i) { SimAtomic a; ++O->clock; for (auto id : O->open[i]) { Write& w = O->writes[id - 1]; for (int k = 0; k < 2; ++k) if (w.end[k] == kOpen) { w.end[k] = O->clock; w.maybe[k] = true; } } O->open[i].clear(); O->changed[i] = O->clock; }
bool writing(int inst, std::uint64_t since) { SimAtomic a; return !O->open[inst].empty() || O->changed[inst] > since; }
// begin: the value was current at this time or later (0: not known)
void check_read(const Payload& v, int inst, int q, std::uint64_t begin, int client, const char* how) {
    SimAtomic a; const auto id = static_cast<unsigned long long>(v.id); if (!v.good()) sim_violation("client %d %s a damaged value (id %llu)", client, how, id);
    if (id == 0 || id > O->writes.size() || O->writes[id - 1].begin == kOpen || O->writes[id - 1].inst != inst) sim_violation("client %d %s value %llu, which nobody wrote to instance %d", client, how, id, inst + 1);
    Write& w = O->writes[id - 1]; if (w.dead) sim_violation("client %d %s value %llu, whose update failed", client, how, id);
    if (v.from != (w.set ? w.from ^ kMix : w.from)) sim_violation("client %d %s value %llu without the change made by the set handler", client, how, id);
    if (begin) for (std::size_t k = id > 100 ? id - 100 : 0; k < O->writes.size(); ++k) { const auto& x = O->writes[k]; if (x.inst == inst && !x.dead && !x.maybe[q] && x.begin != kOpen && x.begin > w.end[q] && x.end[q] < begin) sim_violation("client %d %s value %llu, which value %zu had replaced before", client, how, id, k + 1); }
    w.end[q] = std::min(w.end[q], ++O->clock); w.maybe[q] = false;   // seen now, so it took effect before
    sim_count("reads_checked", 1);
}
void work() { if (sim_chance(O->slow_pm)) sim_sleep_ns(sim_below(O->slow_ns)); else if (sim_chance(300)) nap(); }
// ---- client
struct Client {
    ClientState& s; std::unique_ptr<FldProxy> p; std::uint64_t seen_round = 0; bool subscribed = false; std::uint64_t last = 0; Payload last_value{};
    struct Held { com::SamplePtr<Payload> ptr; Payload copy; }; std::deque<Held> held; int q() const { return s.b ? 1 : 0; }
    explicit Client(ClientState& st) : s{st} {}
    struct Call { ClientState& s; Call(Client& c, const char* w) : s{c.s} { SimAtomic a; s.call = w; } ~Call() { SimAtomic a; s.call = ""; } };
    // known: the state of a proxy that is created while the provider withdraws takes the next offer for the one it was created from, so its methods stay unsubscribed
    // known: a service whose memory was removed with its withdrawal is offered again without a value for its fields
    bool novalue() const { return O->empty[s.inst]; } const char* empty() const { return novalue() ? "[reoffer-without-value] " : ""; }
    const char* missed() const { return s.missed ? "[created-during-withdrawal] " : ""; }
    void create() {
        com::ServiceHandleContainer<FldProxy::HandleType> hs; bool fresh, away; std::uint64_t epoch0, downs0; { SimAtomic a; away = O->withdrawn[s.inst]; downs0 = O->downs[s.inst]; fresh = O->active[s.inst] && !O->prov_crashed; epoch0 = O->epoch; }
        { Call c{*this, "FindService"}; auto r = FldProxy::FindService(spec(cname(s.inst, s.b))); if (!r) sim_violation("client %d cannot search", s.id); hs = std::move(r).value(); }
        if (hs.empty()) { sim_count("not_found", 1); return; }
        { SimAtomic a; if (s.proc < 0 && O->avoid_ro && !O->shm_open[s.inst]) return; s.busy_create = O->meanwhile[s.inst] = true; s.call = "Create"; if (!fresh || O->epoch != epoch0) sim_tag_termination(sim_self(), kStale, kStaleText); }
        auto r = FldProxy::Create(hs[0]);
        SimAtomic a; s.busy_create = false; s.call = ""; bool busy = false; for (auto& c : O->c) busy |= c.proc == s.proc && c.busy_create; if (!busy) sim_tag_termination(sim_self(), kStale, "");
        sim_event("client %d creates a proxy: %s", s.id, r ? "ok" : "refused");
        if (!r) { sim_count("proxies_refused", 1); return; }
        p = std::make_unique<FldProxy>(std::move(r).value()); s.has_proxy = true; s.missed = away || O->downs[s.inst] != downs0; subscribed = false; last = 0; sim_count("proxies", 1); check_marker();
    }
    // a proxy protects the memory by a lock on the usage marker; known: it can end up on a marker that the provider removes in the same moment
    void check_marker() {
        SimAtomic a; for (auto& c : O->c) if (c.proc == s.proc && c.busy_create) return;
        if (!p) return;
        sk_peek_fds(sim_self(), [](void* v, int, const char* path, int lock) { const std::string p = path; if (lock != 0 && lock != LOCK_UN && p.find("partial_restart/usage-") != std::string::npos && p.find("(deleted)") != std::string::npos) sim_violation("[usage-marker-race] the proxy of client %d uses the service, but the usage marker that it locked is removed", static_cast<Client*>(v)->s.id); }, this);
    }
    void check_held() { for (auto& h : held) if (std::memcmp(&*h.ptr, &h.copy, sizeof(Payload)) != 0) sim_violation("a value that client %d holds has changed", s.id); }
    void release() { check_held(); held.clear(); }
    void subscribe(bool must) {
        if (subscribed) return;
        check_marker(); std::uint64_t e0; bool on; { SimAtomic a; e0 = O->epoch; on = O->active[s.inst]; }
        { Call c{*this, "Subscribe"}; auto r = p->fld.Subscribe(s.quota); if (!r) { if (must) sim_violation("client %d cannot subscribe although the service is offered: %s", s.id, std::string(r.error().UserMessage()).c_str()); sim_count("subscriptions_refused", 1); return; } }
        subscribed = true; last = 0; sim_count("subscriptions", 1);
        const auto t = stamp(); const bool yes = p->fld.GetSubscriptionState() == com::SubscriptionState::kSubscribed; bool stable; { SimAtomic a; stable = on && O->active[s.inst] && O->epoch == e0; }
        if (yes && stable) { poll(must); bool still; { SimAtomic a; still = O->active[s.inst] && O->epoch == e0; } if (!last && still && !writing(s.inst, t) && !(novalue() && O->avoid_empty)) sim_violation("%sclient %d subscribed and gets no value", empty(), s.id); if (last) sim_count("initial_values", 1); }
    }
    void unsubscribe() { if (!subscribed) return; release(); Call c{*this, "Unsubscribe"}; p->fld.Unsubscribe(); subscribed = false; last = 0; sim_count("unsubscriptions", 1); }
    void poll(bool must) {
        check_held(); while (held.size() >= s.quota || (!held.empty() && sim_chance(300))) held.pop_front();
        std::uint64_t e0; bool on; { SimAtomic a; e0 = O->epoch; on = O->active[s.inst]; } const auto t = stamp(); unsigned n = 0; Call c{*this, "GetNewSamples"};
        auto r = p->fld.GetNewSamples([&](com::SamplePtr<Payload> x) {
            const Payload v = *x; check_read(v, s.inst, q(), 0, s.id, "polls"); ++n;
            { SimAtomic a; if (last && O->writes[v.id - 1].end[q()] < O->writes[last - 1].begin) sim_violation("client %d polls value %llu after the newer value %llu", s.id, static_cast<unsigned long long>(v.id), static_cast<unsigned long long>(last)); if (v.id == last) sim_count("same_value_again", 1); }
            last = v.id; last_value = v; held.push_back({std::move(x), v});
        }, s.quota);
        bool stable; { SimAtomic a; stable = on && O->active[s.inst] && O->epoch == e0; }
        if (!r) { if (must) sim_violation("client %d cannot poll although the service is offered and it subscribed: %s", s.id, std::string(r.error().UserMessage()).c_str()); return; }
        if (last && (n || !writing(s.inst, t)) && stable && p->fld.GetSubscriptionState() == com::SubscriptionState::kSubscribed) { check_read(last_value, s.inst, q(), t, s.id, n ? "polls as the newest" : "has as the newest"); }
        sim_count(n ? "polls_with_values" : "polls_without", 1);
    }
    void get(bool must) {
        const auto t = stamp(); Call c{*this, "Get"}; auto r = p->fld.Get();
        if (!r) { if (must) sim_violation("%sclient %d cannot get the value although the service is offered: %s", novalue() ? empty() : missed(), s.id, std::string(r.error().UserMessage()).c_str()); sim_count("gets_failed", 1); return; }
        if (sim_chance(200)) nap();
        const Payload v = *r.value(); check_read(v, s.inst, q(), t, s.id, "gets"); sim_count("gets", 1);
        SimAtomic a; if (O->phase == kCheckDown) sim_violation("client %d gets a value although the service is withdrawn", s.id);
        if (O->phase == kAgree) { auto& g = O->agreed[s.inst]; if (g && g != v.id) sim_violation("client %d gets value %llu, another client got %llu, and nobody writes", s.id, static_cast<unsigned long long>(v.id), static_cast<unsigned long long>(g)); g = v.id; }
    }
    void set(bool must) {
        const auto f = static_cast<std::uint32_t>(sim_below(1u << 30)); const auto id = w_new(s.inst, s.id, f); Payload v; v.fill(id, f); { SimAtomic a; O->writes[id - 1].started = true; }
        Call c{*this, "Set"}; auto r = p->fld.Set(v); { SimAtomic a; O->writes[id - 1].ended = true; }
        if (!r) { if (must) sim_violation("%sclient %d cannot set the value although the service is offered: %s", missed(), s.id, std::string(r.error().UserMessage()).c_str()); sim_count("sets_failed", 1); return; }
        w_end(id, true); const Payload got = *r.value(); SimAtomic a; const Write& w = O->writes[id - 1]; sim_count("sets", 1);
        if (w.ran != 1) sim_violation("the value %llu set by client %d went through the set handler %d times", static_cast<unsigned long long>(id), s.id, w.ran);
        if (!got.good() || got.id != id || got.from != (f ^ kMix)) sim_violation("client %d set value %llu and the accepted value is %llu", s.id, static_cast<unsigned long long>(id), static_cast<unsigned long long>(got.id));
        if (O->phase == kCheckDown) sim_violation("client %d sets a value although the service is withdrawn", s.id);
    }
    void destroy() { unsubscribe(); { Call c{*this, "destroy the proxy"}; p.reset(); } SimAtomic a; s.has_proxy = false; sim_event("client %d destroyed its proxy", s.id); }
    void op() {
        if (!p) { create(); return; }
        switch (sim_below(12)) {
            case 0: if (sim_chance(300)) destroy(); break;
            case 1: unsubscribe(); break;
            case 2: case 3: subscribe(false); break;
            case 4: case 5: case 6: if (subscribed) poll(false); else subscribe(false); break;
            case 7: case 8: if (sim_chance(O->setters_pm)) set(false); break;
            default: get(false);
        }
    }
    void phase(Phase ph) {
        check_marker();
        switch (ph) {
            case kChaos: case kStill: break;
            case kCheckDown: if (p) { get(false); set(false); } break;
            case kCheckUp:
                if (!p) { create(); if (!p && !O->prov_crashed && !(s.proc >= 0 && O->cons_crashed[s.proc])) sim_violation("client %d cannot create a proxy although the service is offered", s.id); }
                if (p) { subscribe(!O->cons_crashed_any); get(true); if (sim_chance(O->setters_pm)) set(true); SimAtomic a; sim_count("clients_checked", 1); }
                break;
            case kAgree: if (p) {
                get(true); if (subscribed && p->fld.GetSubscriptionState() == com::SubscriptionState::kSubscribed) { poll(true); if (!last) sim_violation("%sclient %d is subscribed and has no value", empty(), s.id); check_read(last_value, s.inst, q(), stamp(), s.id, "has as the newest"); SimAtomic a; const auto g = O->agreed[s.inst]; if (last != g) sim_violation("client %d polled value %llu, the getter returns %llu, and nobody writes", s.id, static_cast<unsigned long long>(last), static_cast<unsigned long long>(g)); sim_count("subscribers_agree", 1); } }
                break;
            case kTear: if (p) destroy(); break;
        }
    }
    void run() {
        { SimAtomic a; s.has_proxy = false; s.busy_create = false; }
        for (;;) {
            std::uint64_t r; Phase ph; { SimAtomic a; r = O->round; ph = O->phase; }
            if (r != seen_round) { phase(ph); seen_round = r; SimAtomic a; s.ack = r; }
            if (ph == kTear) break;
            if (ph == kChaos) { nap(); op(); } else sim_sleep_ns(500000);
        }
    }
};
void left_in_process(const char* who) {
    struct R { const char* who; } r{who};
    sk_peek_fds(sim_self(), [](void* a, int fd, const char* path, int) { const std::string p = path; if (p.find("lola-") != std::string::npos || p.find("partial_restart/") != std::string::npos) sim_violation("%s destroyed all its proxies and skeletons and still has descriptor %d of %s", static_cast<R*>(a)->who, fd, path); }, &r);
    sk_peek_maps([](void* a, int pid, const char* path, int) { if (pid == sim_self() && std::string(path).find("lola-") != std::string::npos) sim_violation("%s destroyed all its proxies and skeletons and still maps %s", static_cast<R*>(a)->who, path); }, &r);
}
void clients_of(int proc, std::vector<std::thread>& t) { for (auto& c : O->c) if (c.proc == proc && c.thread > 0) t.emplace_back([&c] { Client x{c}; x.run(); }); }
void client_process(int proc) {
    std::vector<std::thread> t; clients_of(proc, t);
    for (auto& c : O->c) if (c.proc == proc && c.thread == 0) { Client x{c}; x.run(); }
    for (auto& x : t) x.join();
    left_in_process("a client process");
}
// ---- provider
struct Provider {
    int inst; std::unique_ptr<FldSkeleton> s; bool offered = false; std::uint64_t initial = 0;
    std::uint64_t value(Payload& v) { const auto f = static_cast<std::uint32_t>(sim_below(1u << 30)); const auto id = w_new(inst, -1, f); v.fill(id, f); return id; }
    void create() {
        auto r = FldSkeleton::Create(spec(pname(inst))); if (!r) sim_violation("the provider cannot create its skeleton"); s = std::make_unique<FldSkeleton>(std::move(r).value()); sim_count("skeletons", 1); const int i = inst;
        auto h = s->fld.RegisterSetHandler([i](Payload& v) {
            { SimAtomic a; const auto id = static_cast<unsigned long long>(v.id); if (O->closed[i]) sim_violation("the set handler of instance %d runs although the service is withdrawn", i + 1);
              if (!v.good() || id == 0 || id > O->writes.size() || !O->writes[id - 1].set || O->writes[id - 1].inst != i || !O->writes[id - 1].started) sim_violation("the set handler of instance %d gets value %llu, which nobody set", i + 1, id);
              Write& w = O->writes[id - 1]; if (w.ran++) sim_violation("the set handler runs twice for value %llu", id); if (w.from != v.from) sim_violation("the set handler gets a mixed value %llu", id); touch(id, true); w.begin = O->clock; O->running[i]++; sim_count("set_handler_runs", 1); }
            work(); v.fill(v.id, v.from ^ kMix); SimAtomic a; O->running[i]--;
        }); if (!h) sim_violation("the provider cannot register its set handler");
        initial = 0;
    }
    void offer() {
        if (!s) create();
        if (offered) return;
        { SimAtomic a; sim_event("the provider offers instance %d", inst + 1); offer_changes(inst, true); O->withdrawn[inst] = O->closed[inst] = false; if (!O->avoid_ro) sim_tag_termination(sim_self(), "local-consumer-read-only", kLocalRo); }
        if (!has_value) { if (sim_chance(60) && O->avoid_ro) { auto r = s->OfferService(); if (r) sim_violation("the service is offered although its field has no value"); sim_count("offers_without_value", 1); } Payload v; initial = value(v); if (!s->fld.Update(v)) sim_violation("the provider cannot set the initial value"); w_begin(initial); }
        const bool was_empty = O->empty[inst]; if (has_value) { SimAtomic a; O->empty[inst] = true; O->emptied[inst] = ++O->clock; } const auto r = [&] { Making m{O->half.making}; return s->OfferService(); }(); if (!r) sim_violation("%sthe provider cannot offer: %s", O->stale_lock ? "[killed-opener-blocks] " : O->meanwhile[inst] ? "[stale-handle-during-offer] " : "", std::string(r.error().UserMessage()).c_str()); offered = true;
        if (!has_value) { w_end(initial, true); has_value = true; }
        else if (data() == inode) O->empty[inst] = was_empty; else { { SimAtomic a; O->empty[inst] = true; O->emptied[inst] = ++O->clock; sim_count("offered_empty", 1); } if (O->avoid_empty) update(); }   // known: offered again without a value
        SimAtomic a; sim_tag_termination(sim_self(), "local-consumer-read-only", ""); O->shm_open[inst] = true; sim_event("instance %d is offered", inst + 1); sim_count("offers", 1);
    }
    void update() {
        if (!offered) return;
        Payload v; const auto id = value(v);
        if (sim_chance(500)) { w_begin(id); auto r = s->fld.Update(v); w_end(id, r.has_value()); if (!r) sim_violation("the provider cannot update its field: %s", std::string(r.error().UserMessage()).c_str()); }
        else { auto al = s->fld.Allocate(); if (!al) sim_violation("the provider cannot allocate a value: %s", std::string(al.error().UserMessage()).c_str()); auto x = std::move(al).value(); *x = v; if (sim_chance(300)) nap(); w_begin(id); auto r = s->fld.Update(std::move(x)); w_end(id, r.has_value()); if (!r) sim_violation("the provider cannot update its field: %s", std::string(r.error().UserMessage()).c_str()); }
        sim_count("updates", 1);
    }
    void withdraw(bool destroy) {
        if (!offered && !destroy) return;
        inode = data();
        { SimAtomic a; offer_changes(inst, false); O->withdrawn[inst] = true; O->downs[inst]++; sim_event(destroy ? "the provider destroys its skeleton of instance %d" : "the provider withdraws instance %d", inst + 1); }
        if (destroy) { for (;;) { { SimAtomic a; O->shm_open[inst] = false; bool busy = false; for (auto& c : O->c) busy |= c.proc < 0 && c.busy_create; if (!busy || !O->avoid_ro) break; } sim_sleep_ns(1000000); } s.reset(); has_value = false; O->empty[inst] = false; } else s->StopOfferService();
        offered = false; { SimAtomic a; O->closed[inst] = true; if (O->running[inst]) sim_violation("the withdrawal of instance %d returned while its set handler runs", inst + 1); sim_event("instance %d is withdrawn", inst + 1); sim_count("withdrawals", 1); }
        w_cut(inst);
    }
    bool has_value = false; unsigned long inode = 0; unsigned long data() const { struct stat st; std::memset(&st, 0, sizeof st); SimAtomic a; return sk_stat(("/dev/shm/lola-data-0000000000000101-0000" + std::to_string(inst + 1)).c_str(), &st) == 0 ? static_cast<unsigned long>(st.st_ino) : 1; }
};
void provider() {
    std::vector<std::thread> t; clients_of(-1, t);
    {
        std::uint64_t seen = 0; Provider p[2]; p[0].inst = 0; p[1].inst = 1;
        for (;;) {
            Want w; std::uint64_t no; { SimAtomic a; w = O->want; no = O->want_no; }
            if (no != seen) {
                for (int i = 0; i < O->ni; ++i) {
                    if (w == kWithdrawn) { if (!p[i].offered && O->prov_crashed) p[i].offer(); p[i].withdraw(p[i].s && sim_chance(300)); }
                    if (w == kOffered) p[i].offer();
                    if (w == kUpdate && sim_chance(O->updates_pm)) p[i].update();
                    if (w == kExit) p[i].withdraw(true);
                }
                if (w == kExit) left_in_process("the provider");
                seen = no; { SimAtomic a; O->want_ack = no; } if (w == kExit) break;
            }
            if (w != kFree) { sim_sleep_ns(500000); continue; }
            nap(); nap(); auto& x = p[sim_below(static_cast<unsigned>(O->ni))];
            if (!x.s) { x.create(); continue; }
            if (!x.offered) { x.offer(); continue; }
            if (sim_chance(O->updates_pm)) { const unsigned n = 1 + sim_below(4); for (unsigned k = 0; k < n && O->updates_left; ++k) { { SimAtomic a; O->updates_left--; } x.update(); } }
            if (!O->offers_left) continue; { SimAtomic a; O->offers_left--; }   // a client needs up to 500 ms to get over each offer of a provider that is dead by then
            switch (sim_below(30)) { case 0: case 1: x.withdraw(false); break; case 2: if (sim_chance(500)) x.withdraw(true); break; default: break; }
        }
    }
    for (auto& x : t) x.join();
    left_in_process("the provider");
}
void process(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg); bool b = O->b; if (role) for (auto& c : O->c) if (c.proc == role - 10) b = c.b;
    init_runtime(b ? "/etc/com_b.json" : "/etc/com_q.json");
    if (role == 0) provider(); else client_process(role - 10);
}
// ---- who may access the memory of a proxy's calls: the user of the proxy and the user of the provider
void rights() {
    SimAtomic a; char kind; int pid, uid, other; unsigned mode; char path[256];
    while (sk_audit_next(&kind, &pid, &uid, &other, &mode, path, sizeof path)) {
        const std::string p = path; if (p.find("lola-methods") == std::string::npos || p.find("_lock") != std::string::npos) continue;
        sim_count("rights_checked", 1);
        if (kind == 'c' && pid > 0) O->creator[p.substr(p.rfind('/') + 1)] = pid;
        if (kind == 'c' && (mode & 077)) sim_violation("%s gets the access rights %o", path, mode);
        if (kind == 'a' && other != O->prov_uid) sim_violation("user %d gets rights %u on %s, which only the provider needs", other, mode, path);
    }
}
// ---- controller
bool await(std::uint64_t ns, bool (*done)()) { for (std::uint64_t t = 0; t < ns; t += 2000000) { { SimAtomic a; if (done()) return true; } sim_sleep_ns(2000000); } SimAtomic a; return done(); }
bool proc_alive(int p) { return sim_alive(p < 0 ? O->prov_pid : O->pid[p]); }
bool acked() { for (auto& c : O->c) if (proc_alive(c.proc) && c.ack != O->round) return false; return true; }
void calm() { if (!O->calm) { O->calm = true; sim_calm(); } }
void set_phase(Phase ph) {
    rights();
    { SimAtomic a; O->phase = ph; O->round++; } if (ph == kChaos) return;
    if (await(20000000000ull, acked)) return;
    calm(); if (await(20000000000ull, acked)) return;
    SimAtomic a; for (auto& c : O->c) if (proc_alive(c.proc) && c.ack != O->round) sim_violation("client %d does not come back from %s", c.id, c.call[0] ? c.call : "its work");
}
void set_want(Want w) {
    { SimAtomic a; O->want = w; O->want_no++; } if (w == kFree || w == kHold) return;
    auto d = [] { return O->want_ack == O->want_no || !sim_alive(O->prov_pid); };
    if (await(20000000000ull, d)) return;
    calm(); if (!await(20000000000ull, d)) sim_violation("the provider does not come back from what it was asked for (%d)", static_cast<int>(w));
}
void tag_lock(int pid) { sim_tag_termination(pid, "killed-opener-blocks", O->stale_lock ? "Lock file still present after timeout" : ""); }
// known: what a dead process registered for its calls of one instance collides with what its successor registers for another instance of the same provider
void tag_collide() {
    bool on = false; for (int i = 0; i < O->procs; ++i) { std::set<int> insts; for (auto& c : O->c) if (c.proc == i) insts.insert(c.inst); bool died = false; for (int d : O->dead) if (d != O->prov_pid && O->proc_of(d) == i) died = true; if (died && insts.size() > 1) on = true; }
    if (sim_alive(O->prov_pid)) sim_tag_termination(O->prov_pid, "calls-of-dead-collide", on ? "insertion_result.second at message_passing_service_instance.cpp" : "");
}
void after_kill() {
    SimAtomic a; sk_peek_tree("/tmp/", [](void*, const char* path, unsigned, unsigned, int) { const std::string p = path; if (p.find("/lola-") != std::string::npos && p.size() > 5 && p.compare(p.size() - 5, 5, "_lock") == 0) O->stale_lock = true; }, nullptr);
    if (O->stale_lock) { sim_count("stale_lock_files", 1); if (sim_alive(O->prov_pid)) tag_lock(O->prov_pid); for (int i = 0; i < O->procs; ++i) if (sim_alive(O->pid[i])) tag_lock(O->pid[i]); }
}
// known: a provider that dies while it takes or releases the slot for a getter leaves a transaction which its successor can neither roll back nor survive
void start_provider(int inc) { { SimAtomic a; for (int i = 0; i < 2; ++i) { O->shm_open[i] = false; O->closed[i] = true; O->running[i] = 0; offer_changes(i, false); } } const int p = sim_spawn("provider", 0, inc, O->prov_uid, 1, O); SimAtomic a; O->spawned++; O->prov_pid = p; O->half.next_provider(p); tag_lock(p); if (inc) sim_tag_termination(p, "getter-died-midway", "35RollbackSkeletonTracingTransactions"); }
void start_client(int i, int inc) { const int p = sim_spawn("client", 10 + i, inc, 1011 + i, 1, O); SimAtomic a; O->spawned++; O->pid[i] = p; O->proc[p] = i; tag_lock(p); }
void control(const std::string& prop) {
    auto o = std::make_unique<Oracle>(); O = o.get(); O->prop = prop;
    static const unsigned paces[] = {30000, 300000, 5000000}; O->pace = paces[sim_below(3)]; O->b = sim_chance(350); O->crashes = sim_chance(500); O->procs = 1 + static_cast<int>(sim_below(3)); O->ni = 1 + (sim_chance(300) ? 1 : 0);
    O->slow_pm = sim_chance(500) ? sim_below(300) : 0; O->slow_ns = 1 + (sim_chance(500) ? O->pace * 3 : 20000000);
    static const unsigned rates[] = {0, 300, 1000}; O->setters_pm = rates[sim_below(3)]; O->updates_pm = rates[sim_below(3)]; unsigned quotas = 0; const bool local = sim_chance(250); O->avoid_ro = !sim_chance(50); O->avoid_empty = !sim_chance(50);
    for (int i = local ? -1 : 0; i < O->procs; ++i) { const bool b = O->b && (i < 0 ? true : sim_chance(400)); const int th = 1 + (sim_chance(400) ? 1 : 0); for (int t = 0; t < th; ++t) { ClientState c; c.id = static_cast<int>(O->c.size()); c.proc = i; c.thread = i < 0 ? t + 1 : t; c.b = b; c.inst = static_cast<int>(sim_below(static_cast<unsigned>(O->ni))); c.quota = 1 + sim_below(3); quotas += c.quota; O->c.push_back(c); } }
    auto& g = O->cfg; g.slots = quotas + 2 + sim_below(3); g.subscribers = static_cast<unsigned>(O->c.size());
    auto fill = [&](Cfg& x, bool as_b) { for (int i = 0; i < O->ni; ++i) { if (as_b || !O->b) x.instances.push_back({pname(i), 1, i + 1, O->b}); x.instances.push_back({cname(i, false), 1, i + 1, false}); if (as_b) x.instances.push_back({cname(i, true), 1, i + 1, true}); } x.asil_b = as_b; };
    if (sim_chance(300)) { O->limited = true; g.providers_qm = g.providers_b = "1001"; for (auto& c : O->c) { auto& l = c.b ? g.consumers_b : g.consumers_qm; const std::string u = std::to_string(c.proc < 0 ? O->prov_uid : 1011 + c.proc); if (("," + l + ",").find("," + u + ",") == std::string::npos) l += (l.empty() ? "" : ",") + u; } if (g.consumers_qm.empty()) g.consumers_qm = "1077"; if (g.consumers_b.empty()) g.consumers_b = "1078"; g.strict = sim_chance(500); }
    O->cfgb = g; fill(g, false); if (O->b) { fill(O->cfgb, true); write_file("/etc/com_b.json", O->cfgb.json()); }
    write_file("/etc/com_q.json", g.json());
    sk_audit(true); make_dirs(2); sim_mutual_send("mutual-send-block"); sim_max_steps(6000000);
    int inc = 0, cinc[4] = {}; 
    start_provider(inc); for (int i = 0; i < O->procs; ++i) start_client(i, 0);
    const int cycles = 1 + static_cast<int>(sim_below(2));
    for (int cy = 0; cy < cycles; ++cy) {
        set_phase(kChaos); set_want(kFree);
        const unsigned parts = 1 + sim_below(6);
        for (unsigned k = 0; k < parts; ++k) {
            { SimAtomic a; O->offers_left = 300; O->updates_left = 400; } sim_sleep_ns(O->pace * 2 + sim_below(O->pace * 10));
            if (!O->crashes || !sim_chance(300) || O->spawned >= 11) continue;
            if (sim_chance(500)) {   // the provider dies
                sim_crash_after(O->prov_pid, sim_below(sim_chance(500) ? 400 : 4000)); sim_wait_exit(O->prov_pid, 500000000ull); sim_kill(O->prov_pid); after_kill(); { SimAtomic a; O->dead.insert(O->prov_pid); O->prov_crashed = true; sim_event("the provider is dead"); w_cut(0); w_cut(1); for (auto& c : O->c) if (c.proc < 0) c.busy_create = false; } sim_count("provider_crashes", 1);
                sim_sleep_ns(sim_below(O->pace * 3)); start_provider(++inc);
            } else {
                const int i = static_cast<int>(sim_below(static_cast<unsigned>(O->procs)));
                sim_crash_after(O->pid[i], sim_below(sim_chance(500) ? 400 : 4000)); sim_wait_exit(O->pid[i], 500000000ull); sim_kill(O->pid[i]); after_kill(); { SimAtomic a; O->dead.insert(O->pid[i]); tag_collide(); }
                sim_event("client process %d is dead", i); O->cons_crashed[i] = O->cons_crashed_any = true; sim_count("client_crashes", 1); { SimAtomic a; for (auto& c : O->c) if (c.proc == i) { c.busy_create = false; } }
                sim_sleep_ns(sim_below(O->pace * 3)); start_client(i, ++cinc[i]);
            }
        }
        set_want(kHold); set_phase(kStill);
        if (sim_chance(600)) { set_want(kWithdrawn); sim_sleep_ns(2000000000ull); set_phase(kCheckDown); }
        set_want(kOffered); if (cy + 1 == cycles) calm(); sim_sleep_ns(3000000000ull); set_phase(kCheckUp); if (sim_chance(500)) set_want(kUpdate); set_want(kHold); { SimAtomic a; O->agreed[0] = O->agreed[1] = 0; } set_phase(kStill); set_phase(kAgree);
    }
    calm(); const bool clients_first = sim_chance(600);
    if (!clients_first) { set_want(kWithdrawn); sim_sleep_ns(1000000000ull); }
    set_phase(kTear); for (int i = 0; i < O->procs; ++i) if (!sim_wait_exit(O->pid[i], 20000000000ull)) sim_violation("client process %d does not end", i);
    set_want(kExit); rights(); if (!sim_wait_exit(O->prov_pid, 20000000000ull)) sim_violation("the provider does not end");
    rights();   // what a process leaves when it dies stays until its successor makes the same memory again
    sk_peek_tree("/dev/shm/", [](void*, const char* path, unsigned, unsigned, int) { const std::string p = path; if (p.find("lola-methods") != std::string::npos && !O->dead.count(O->creator[p.substr(p.rfind('/') + 1)])) sim_violation("%s is left behind after orderly shutdown", path); }, nullptr);
    if (clients_first && O->dead.empty()) { sk_peek_tree("/dev/shm/", [](void*, const char* path, unsigned, unsigned, int) { sim_violation("%s is left behind after orderly shutdown", path); }, nullptr); sim_count("shutdowns_checked", 1); }
}
}
