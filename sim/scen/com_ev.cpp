// Events end to end on the complete runtime (C06, C09, C26, C27, C28, C29): a provider that offers, withdraws, crashes and returns; consumers with polling and receive handlers in several processes.
#include "com.h"
#include <algorithm>
#include <atomic>
#include <deque>
#include <map>
#include <set>
#include <sys/file.h>
#include <sys/mman.h>
using namespace simcom;
namespace evs {
enum Phase { kChaos, kStill, kCheckPending, kCheckSubscribed, kDrain, kCheckFinal, kTear };
enum Want { kFree, kHold, kWithdrawn, kOffered, kBurst, kExit };
constexpr int kMaxClients = 8;
struct Ctx;   // one receive handler
struct Sub { bool subscribed = false; int n = 0; std::uint64_t last = 0; bool handler = false; int held = 0; bool fresh_offer_seen = false; };
struct ClientState { int id = 0, proc = -1, thread = 0, nmax = 1, gen = 0; bool b = false, busy_create = false, doomed = false, has_proxy = false, alive = false; Sub sub[2]; std::uint64_t ack = 0; const char* call = ""; };
struct Oracle { HalfMade half;
    Cfg cfg, cfgb; unsigned pace = 1000; bool b = false, calm = false, crashes = false; int procs = 1; std::vector<ClientState> c; std::uint64_t round = 0; Phase phase = kChaos; Want want = kFree; std::uint64_t want_no = 0, want_ack = 0; bool offered = false, ever_offered = false; std::uint64_t next_id[2] = {1, 1}; std::uint64_t sent[2] = {0, 0};   // newest id that was sent completely
    std::set<std::uint64_t> known[2]; std::vector<std::uint64_t> burst[2]; int prov_pid = 0; int pid[4] = {}; bool prov_crashed = false; bool cons_crashed[4] = {}; bool handlers = true; int handler_pm = 500; bool tear_first = false; int max_handlers = 5; std::uint64_t n_create_fail = 0; bool restricted = false; int hold_proc = -1; bool avoid_ro = true; bool outsider_busy = false; bool creating_meanwhile = false, stale_lock = false, shm_open = false, active = false; std::uint64_t epoch = 0;   // active: from the start of an offer to the start of its withdrawal; epoch: number of such changes
      // shm_open: the skeleton of the present provider process holds the memory; avoid_ro: a consumer in the provider's process does not map it before the skeleton does
    std::string prop; std::map<int, int> kind; bool created[4] = {}; std::set<int> dead; bool strict = false, limited = false; std::set<int> allow_qm, allow_b; int outsider = 0; std::map<int, int> dead_of; std::set<std::pair<int, int>> heard; int slow_sends = 0, spawned = 0; std::set<int> tried; std::set<int> late, away, forgotten; int proc_of(int p) const { const auto i = dead_of.find(p); if (i != dead_of.end()) return i->second; for (int j = 0; j < 4; ++j) if (pid[j] == p) return j; return -2; } bool replaced(int pid) const { const auto i = dead_of.find(pid); return i != dead_of.end() && created[i->second]; } bool wrong_provider = false;   // kind of a process: 0 provider, 1 QM consumer, 2 ASIL-B consumer, 3 outsider; created: the present incarnation has had a proxy; dead: consumers that died
};
Oracle* O;
const char kLocalRo[] = "(invalid memory access) in _ZN5score2mw3com4impl4lola21SkeletonMemoryManager";
// known: a proxy that is created from the handle of an earlier offer can open the memory of a new one before it is filled
const char kStale[] = "stale-handle-during-offer", kStaleText[] = "for given event instance. Terminating";
void offer_changes(bool on) { O->active = on; O->epoch++; O->creating_meanwhile = O->outsider_busy; for (auto& c : O->c) if (c.busy_create) O->creating_meanwhile = true, sim_tag_termination(c.proc < 0 ? O->prov_pid : O->pid[c.proc], kStale, kStaleText); }
void nap() { switch (sim_below(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep_ns(sim_below(20000)); break; default: sim_sleep_ns(sim_below(O->pace)); } }
const char* name(int e) { return e ? "ev2" : "ev"; }
// ---- consumer
struct Ctx { int e; bool removed = false, self_unset = false, self_unsub = false, self_done = false; int running = 0; std::uint64_t calls = 0; std::atomic<bool> claimed{false}; std::mutex m; std::deque<com::SamplePtr<Payload>> held; std::size_t keep = 0; };
// known: handlers run on the thread that has to set up connections; a handler that waits for a lock whose owner waits for a connection lets it time out
std::string too_long(int prov, bool b) { return "LoLa_2_" + std::to_string(1000 + prov) + (b ? "_ASIL_B" : "_QM") + "  takes too long to create"; }
const char* connect_tag(int pid) { return sim_log_seen(pid, too_long(O->prov_pid, false).c_str()) || sim_log_seen(pid, too_long(O->prov_pid, true).c_str()) ? "[connect-blocked-by-handler] " : ""; }
struct Client {
    ClientState& s; std::unique_ptr<SvcProxy> p; std::vector<com::SamplePtr<Payload>> held[2]; std::shared_ptr<Ctx> ctx[2]; std::uint64_t seen_round = 0; std::uint64_t changes[2] = {};
    explicit Client(ClientState& st) : s{st} {}
    auto& ev(int e) { return e ? p->ev2 : p->ev; }
    void call(const char* what) { SimAtomic a; s.call = what; }
    struct Call { ClientState& s; Call(Client& c, const char* w) : s{c.s} { SimAtomic a; s.call = w; } ~Call() { SimAtomic a; s.call = ""; } };
    // reads up to max samples; to: where they are kept
    template <typename Keep> std::size_t read(int e, std::size_t max, Keep&& keep, bool must) {
        auto r = ev(e).GetNewSamples([&](com::SamplePtr<Payload> x) noexcept {
            { SimAtomic a; Sub& b = s.sub[e]; if (!x->good() || x->from != static_cast<std::uint32_t>(e)) sim_violation("consumer %d gets a damaged sample of %s (id %llu)", s.id, name(e), static_cast<unsigned long long>(x->id));
              if (!O->known[e].count(x->id)) sim_violation("consumer %d gets sample %llu of %s which was never sent", s.id, static_cast<unsigned long long>(x->id), name(e));
              if (x->id <= b.last) sim_violation("consumer %d gets sample %llu of %s after %llu", s.id, static_cast<unsigned long long>(x->id), name(e), static_cast<unsigned long long>(b.last));
              b.last = x->id; sim_count("samples_received", 1); }
            keep(std::move(x)); }, max);
        if (!r.has_value()) { SimAtomic a; sim_count("reads_refused", 1); if (must) sim_violation("consumer %d cannot read %s although it is subscribed and holds fewer samples than it reserved: %s", s.id, name(e), std::string(r.error().UserMessage()).c_str()); return 0; }
        return r.value();
    }
    void on_notify(const std::shared_ptr<Ctx>& c) {
        { SimAtomic a; if (c->removed) sim_violation("the receive handler of consumer %d for %s is called after its removal had returned", s.id, name(c->e)); c->running++; c->calls++; sim_count("handler_calls", 1); if (c->running > 1) sim_count("handler_calls_overlapping", 1); }
        if (!c->self_done) {
            std::lock_guard<std::mutex> l{c->m};
            if (sim_chance(30)) sim_sleep_ns(sim_below(200000));
            if (!c->self_done) {
                while (c->held.size() >= static_cast<std::size_t>(s.sub[c->e].n) && !c->held.empty()) drop(c->e, c->held.front()), c->held.pop_front();
                for (;;) { const std::size_t got = read(c->e, static_cast<std::size_t>(s.sub[c->e].n), [&](com::SamplePtr<Payload> x) noexcept { c->held.push_back(std::move(x)); }, true); while (c->held.size() > c->keep) drop(c->e, c->held.front()), c->held.pop_front(); if (got == 0 || !sim_chance(500)) break; }
                if ((c->self_unset || c->self_unsub) && sim_chance(300) && !c->claimed.exchange(true)) {
                    while (!c->held.empty()) drop(c->e, c->held.front()), c->held.pop_front();
                    if (c->self_unsub) { { SimAtomic a; s.sub[c->e].subscribed = false; } ev(c->e).Unsubscribe(); SimAtomic a; sim_count("unsubscribed_in_handler", 1); sim_event("consumer %d unsubscribes %s in its handler", s.id, name(c->e)); }
                    else { auto r = ev(c->e).UnsetReceiveHandler(); if (!r) sim_violation("consumer %d cannot remove its handler for %s in the handler", s.id, name(c->e)); SimAtomic a; sim_count("removed_in_handler", 1); sim_event("consumer %d removes the handler for %s in the handler", s.id, name(c->e)); }
                    SimAtomic a; s.sub[c->e].handler = false; c->self_done = true;
                }
            }
        }
        SimAtomic a; c->running--;
    }
    void drop(int e, com::SamplePtr<Payload>& x) { { SimAtomic a; if (!x->good() || x->from != static_cast<std::uint32_t>(e)) sim_violation("a sample of %s held by consumer %d changed", name(e), s.id); } x = com::SamplePtr<Payload>{}; }
    void create() {
        com::ServiceHandleContainer<SvcProxy::HandleType> hs; bool fresh; std::uint64_t epoch0; { SimAtomic a; fresh = O->active && !O->prov_crashed; epoch0 = O->epoch; }
        { Call c{*this, "FindService"}; auto r = SvcProxy::FindService(spec(s.b ? "cb" : "cq")); if (!r) sim_violation("consumer %d cannot search", s.id); hs = std::move(r).value(); }
        if (hs.empty()) { sim_count("not_found", 1); return; }
        { SimAtomic a; if (s.proc < 0 && O->avoid_ro && !O->shm_open) return; s.busy_create = O->creating_meanwhile = true; s.call = "Create"; if (!fresh || O->epoch != epoch0) sim_tag_termination(sim_self(), kStale, kStaleText); }
        auto r = SvcProxy::Create(hs[0]);
        SimAtomic a; s.busy_create = false; s.call = ""; bool busy = false; for (auto& c : O->c) busy |= c.proc == s.proc && c.busy_create; if (!busy) sim_tag_termination(sim_self(), kStale, "");
        sim_event("consumer %d creates a proxy: %s", s.id, r ? "ok" : "refused");
        if (!r) { sim_count("proxies_refused", 1); return; }
        p = std::make_unique<SvcProxy>(std::move(r).value()); s.has_proxy = true; if (s.proc >= 0) O->created[s.proc] = true; sim_count("proxies", 1); check_marker();
    }
    // a proxy protects the memory by a lock on the usage marker; known: it can end up on a marker that the provider removes in the same moment
    void check_marker() {
        SimAtomic a; for (auto& c : O->c) if (c.proc == s.proc && c.busy_create) return;
        if (!p) return;
        sk_peek_fds(sim_self(), [](void* v, int, const char* path, int lock) { const std::string p = path; if (lock != 0 && lock != LOCK_UN && p.find("partial_restart/usage-") != std::string::npos && p.find("(deleted)") != std::string::npos) sim_violation("[usage-marker-race] the proxy of consumer %d uses the service, but the usage marker that it locked is removed", static_cast<Client*>(v)->s.id); }, this);
    }
    bool subscribe(int e) {
        Sub& b = s.sub[e]; const int n = 1 + static_cast<int>(sim_below(static_cast<unsigned>(s.nmax)));
        { SimAtomic a; b.n = n; b.last = 0; }
        Call c{*this, "Subscribe"}; auto r = ev(e).Subscribe(static_cast<std::size_t>(n));
        SimAtomic a; sim_event("consumer %d subscribes %s with %d: %s", s.id, name(e), n, r ? "ok" : "refused");
        if (!r) { sim_count("subscriptions_refused", 1); bool crash = false; for (bool x : O->cons_crashed) crash |= x; if (!crash && !O->prov_crashed) sim_violation("consumer %d cannot subscribe %s with %d samples although the quota suffices: %s", s.id, name(e), n, std::string(r.error().UserMessage()).c_str()); return false; }
        b.subscribed = true; sim_count("subscriptions", 1); return true;
    }
    void set_handler(int e) {
        auto c = std::make_shared<Ctx>(); c->e = e; c->keep = sim_chance(500) ? 0 : sim_below(static_cast<unsigned>(s.sub[e].subscribed ? s.sub[e].n : 1)); const auto k = sim_below(10); c->self_unset = k == 0; c->self_unsub = k == 1; if (c->self_unsub) c->keep = 0;
        for (auto& x : held[e]) drop(e, x);
        held[e].clear();
        { SimAtomic a; if (ctx[e]) ctx[e]->removed = ctx[e]->removed || false; s.sub[e].handler = true; sim_event("consumer %d sets a handler for %s", s.id, name(e)); }
        Call cc{*this, "SetReceiveHandler"}; auto old = ctx[e]; ctx[e] = c;
        auto r = ev(e).SetReceiveHandler([this, c]() noexcept { on_notify(c); });
        SimAtomic a; if (old) { if (old->running && !old->self_done) sim_violation("the replaced handler of consumer %d for %s still runs", s.id, name(e)); old->removed = true; } if (!r) sim_violation("consumer %d cannot set a handler for %s", s.id, name(e)); sim_count("handlers_set", 1);
    }
    void gone(int e) { SimAtomic a; auto& c = ctx[e]; if (c) { if (c->running) sim_violation("the removal of the receive handler of consumer %d for %s returned while it runs", s.id, name(e)); c->removed = true; } s.sub[e].handler = false; }
    void unset_handler(int e) {   // the application's thread
        auto c = ctx[e]; if (!c) return;
        if (c->claimed.exchange(true)) { while (!c->self_done || c->running) sim_sleep_ns(1000000); ctx[e] = nullptr; return; }   // the handler removes itself
        { Call cc{*this, "UnsetReceiveHandler"}; auto r = ev(e).UnsetReceiveHandler(); if (!r) sim_violation("consumer %d cannot remove its handler for %s", s.id, name(e)); }
        gone(e); { SimAtomic a; sim_event("consumer %d removed the handler for %s", s.id, name(e)); sim_count("handlers_removed", 1); }
        for (auto& x : c->held) drop(e, x);
        c->held.clear(); ctx[e] = nullptr;
    }
    void unsubscribe(int e) {
        auto c = ctx[e]; bool direct = false;
        if (c) { if (c->keep == 0 && sim_chance(400) && !c->claimed.exchange(true)) direct = true; else unset_handler(e); }
        for (auto& x : held[e]) drop(e, x);
        held[e].clear();
        if (!s.sub[e].subscribed) { if (direct) { c->claimed = false; unset_handler(e); } return; }
        { Call cc{*this, "Unsubscribe"}; ev(e).Unsubscribe(); }
        if (direct) { gone(e); ctx[e] = nullptr; sim_count("handlers_removed_by_unsubscribe", 1); }
        SimAtomic a; s.sub[e].subscribed = false; sim_event("consumer %d unsubscribed %s", s.id, name(e)); sim_count("unsubscriptions", 1);
    }
    void destroy() {
        bool direct[2] = {};
        for (int e = 0; e < 2; ++e) {
            auto c = ctx[e];
            if (c && c->keep == 0 && sim_chance(500) && !c->claimed.exchange(true)) { direct[e] = true; std::lock_guard<std::mutex> l{c->m}; c->self_done = true; } else if (c) unset_handler(e);   // a handler must not use an event that is being destroyed
            for (auto& x : held[e]) drop(e, x);
            held[e].clear();
            if (!direct[e] && sim_chance(500) && s.sub[e].subscribed) unsubscribe(e);
        }
        { Call cc{*this, "destroy the proxy"}; p.reset(); }
        for (int e = 0; e < 2; ++e) { if (direct[e]) { gone(e); ctx[e] = nullptr; } SimAtomic a; s.sub[e] = Sub{}; }
        SimAtomic a; s.has_proxy = false; sim_event("consumer %d destroyed its proxy", s.id);
    }
    void poll(int e) {
        if (ctx[e]) { if (!ctx[e]->self_done) return; unset_handler(e); }
        if (!s.sub[e].subscribed) return;
        while (!held[e].empty() && sim_chance(400)) { const auto k = sim_below(static_cast<unsigned>(held[e].size())); drop(e, held[e][k]); held[e].erase(held[e].begin() + k); }
        const std::size_t free = static_cast<std::size_t>(s.sub[e].n) - held[e].size(), max = 1 + sim_below(static_cast<unsigned>(s.nmax)); std::size_t got = 0;
        Call c{*this, "GetNewSamples"}; const auto r = read(e, max, [&](com::SamplePtr<Payload> x) noexcept { held[e].push_back(std::move(x)); got++; }, free > 0);
        if (got > std::min(free, max) || r != got) sim_violation("consumer %d asked for %zu samples of %s with %zu free and got %zu (%zu reported)", s.id, max, name(e), free, got, r);
    }
    void op() {
        if (!p) { create(); return; }
        const int e = static_cast<int>(sim_below(2)); Sub& b = s.sub[e];
        if (ctx[e] && ctx[e]->self_done) unset_handler(e);
        switch (sim_below(10)) {
            case 0: if (!b.subscribed && !ctx[e]) { Call c{*this, "GetSubscriptionState"}; if (ev(e).GetSubscriptionState() != com::SubscriptionState::kNotSubscribed) sim_violation("consumer %d is subscribed to %s without having subscribed", s.id, name(e)); } [[fallthrough]];
            case 1: case 2: if (!b.subscribed && !ctx[e]) subscribe(e); else if (!b.subscribed && !(ctx[e]->self_unsub || ctx[e]->self_unset)) { if (ctx[e]->keep == 0) subscribe(e); } else poll(e); break;
            case 3: if (O->handlers && !ctx[e] && sim_chance(static_cast<unsigned>(O->handler_pm))) set_handler(e); else poll(e); break;
            case 4: if (ctx[e] && sim_chance(500)) unset_handler(e); else poll(e); break;
            case 5: if (b.subscribed && sim_chance(300)) unsubscribe(e); else poll(e); break;
            case 6: if (sim_chance(100)) destroy(); else poll(e); break;
            case 7: if (b.subscribed && !ctx[e]) { Call c{*this, "Subscribe again"}; auto r = ev(e).Subscribe(static_cast<std::size_t>(b.n)); if (!r) sim_violation("consumer %d cannot subscribe %s again with the same number", s.id, name(e)); } break;
            default: poll(e);
        }
    }
    // what the controller asks for
    void phase(Phase ph) {
        switch (ph) {
            case kChaos: break; case kStill: check_marker(); break;
            case kCheckPending: case kCheckSubscribed:
                if (ph == kCheckSubscribed && sim_chance(500)) {
                    if (!p) { create(); if (!p && !(s.proc >= 0 ? O->cons_crashed[s.proc] : O->prov_crashed) && !s.doomed) { SimAtomic a; sim_count("late_create_failed", 1); sim_violation("consumer %d cannot create a proxy although the service is offered", s.id); } }
                    if (p) for (int e = 0; e < 2; ++e) { if (!s.sub[e].subscribed && (!ctx[e])) { if (O->handlers && sim_chance(300)) set_handler(e), ctx[e]->self_unset = ctx[e]->self_unsub = false, ctx[e]->keep = 0; subscribe(e); } }
                }
                if (p) for (int e = 0; e < 2; ++e) { if (ctx[e] && ctx[e]->self_done) unset_handler(e); check_state(e, ph); }
                break;
            case kDrain:
                if (p) for (int e = 0; e < 2; ++e) { if (ctx[e] && ctx[e]->self_done) unset_handler(e); if (ctx[e]) { SimAtomic a; ctx[e]->self_unset = ctx[e]->self_unsub = false; continue; } if (!s.sub[e].subscribed) continue; for (auto& x : held[e]) drop(e, x); held[e].clear(); Call c{*this, "GetNewSamples"}; read(e, static_cast<std::size_t>(s.sub[e].n), [](com::SamplePtr<Payload>) noexcept {}, true); }
                break;
            case kCheckFinal:
                if (p) for (int e = 0; e < 2; ++e) { if (ctx[e] && ctx[e]->self_done) unset_handler(e); if (s.sub[e].subscribed) check_final(e); }
                break;
            case kTear: if (p) destroy(); break;
        }
    }
    void check_state(int e, Phase ph) {
        const auto st = ev(e).GetSubscriptionState(); SimAtomic a; sim_count("states_checked", 1);
        const auto want = !s.sub[e].subscribed ? com::SubscriptionState::kNotSubscribed : ph == kCheckPending ? com::SubscriptionState::kSubscriptionPending : com::SubscriptionState::kSubscribed;
        if (st != want) sim_violation("the subscription of consumer %d to %s is %s although %s", s.id, name(e), st == com::SubscriptionState::kNotSubscribed ? "not subscribed" : st == com::SubscriptionState::kSubscribed ? "subscribed" : "pending", want == com::SubscriptionState::kNotSubscribed ? "it did not subscribe" : ph == kCheckPending ? "the service is withdrawn" : "the service is offered");
    }
    void check_final(int e) {
        const auto& bu = O->burst[e]; Sub& b = s.sub[e];
        if (ctx[e]) {
            SimAtomic a; if (bu.empty()) return;
            if (b.last != bu.back()) sim_violation("%sconsumer %d reads %s in its receive handler and saw sample %llu last, but %llu was sent (handler called %llu times)", connect_tag(sim_self()), s.id, name(e), static_cast<unsigned long long>(b.last), static_cast<unsigned long long>(bu.back()), static_cast<unsigned long long>(ctx[e]->calls));
            sim_count("handlers_checked", 1); return;
        }
        const std::uint64_t before = b.last; std::vector<std::uint64_t> got;
        const std::size_t avail = [&] { auto r = ev(e).GetNumNewSamplesAvailable(); return r ? r.value() : 0; }();
        read(e, static_cast<std::size_t>(b.n), [&](com::SamplePtr<Payload> x) noexcept { SimAtomic a; got.push_back(x->id); }, true);
        SimAtomic a; const std::size_t want = std::min(bu.size(), static_cast<std::size_t>(b.n)); (void)before;
        if (got.size() < want) sim_violation("consumer %d reads %zu samples of %s, but %zu were sent and it may hold %d", s.id, got.size(), name(e), bu.size(), b.n);
        if (avail < want) sim_violation("consumer %d is told that %zu new samples of %s are available, but there are %zu", s.id, avail, name(e), bu.size());
        if (!bu.empty() && got.back() != bu.back()) sim_violation("consumer %d reads sample %llu of %s last, but the newest is %llu", s.id, static_cast<unsigned long long>(got.back()), name(e), static_cast<unsigned long long>(bu.back()));
        sim_count("pollers_checked", 1);
    }
    void run() {
        { SimAtomic a; s.alive = true; s.has_proxy = false; s.busy_create = false; for (auto& b : s.sub) b = Sub{}; }
        for (;;) {
            std::uint64_t r; Phase ph; { SimAtomic a; r = O->round; ph = O->phase; }
            if (r != seen_round) { phase(ph); seen_round = r; SimAtomic a; s.ack = r; }
            if (ph == kTear) break;
            if (ph == kChaos) { nap(); op(); } else sim_sleep_ns(500000);
        }
    }
};
void left_in_process(const char* who) {   // nothing of the service may be left in a process that gave up all of it
    struct R { const char* who; } r{who};
    sk_peek_fds(sim_self(), [](void* a, int fd, const char* path, int) { const std::string p = path; if (p.find("lola-") != std::string::npos || p.find("partial_restart/") != std::string::npos || p.find("/service_discovery/100/1/") != std::string::npos) sim_violation("%s destroyed all its proxies and skeletons and still has descriptor %d of %s", static_cast<R*>(a)->who, fd, path); }, &r);
    sk_peek_maps([](void* a, int pid, const char* path, int) { if (pid == sim_self() && std::string(path).find("lola-") != std::string::npos) sim_violation("%s destroyed all its proxies and skeletons and still maps %s", static_cast<R*>(a)->who, path); }, &r);
}
void clients_of(int proc, std::vector<std::thread>& t) { for (auto& c : O->c) if (c.proc == proc && c.thread > 0) t.emplace_back([&c] { Client x{c}; x.run(); }); }
void consumer(int proc) {
    std::vector<std::thread> t; clients_of(proc, t);
    for (auto& c : O->c) if (c.proc == proc && c.thread == 0) { Client x{c}; x.run(); }
    for (auto& x : t) x.join();
    left_in_process("a consumer process");
}
// ---- provider
struct Provider {
    std::unique_ptr<SvcSkeleton> s; bool offered = false; std::uint64_t seen = 0;
    void create() { auto r = SvcSkeleton::Create(spec("p")); if (!r) sim_violation("the provider cannot create its skeleton"); s = std::make_unique<SvcSkeleton>(std::move(r).value()); sim_count("skeletons", 1); }
    void offer() { if (!s) create(); if (offered) return; { SimAtomic a; sim_event("the provider offers"); offer_changes(true); if (!O->avoid_ro) sim_tag_termination(sim_self(), "local-consumer-read-only", kLocalRo); } const auto r = [&] { Making m{O->half.making}; return s->OfferService(); }(); if (!r) sim_violation("%sthe provider cannot offer: %s", O->stale_lock ? "[killed-opener-blocks] " : O->creating_meanwhile ? "[stale-handle-during-offer] " : "", std::string(r.error().UserMessage()).c_str()); offered = true; SimAtomic a; sim_tag_termination(sim_self(), "local-consumer-read-only", ""); O->shm_open = true; O->offered = O->ever_offered = true; sim_event("the service is offered"); sim_count("offers", 1); }
    void drop() { for (;;) { { SimAtomic a; O->shm_open = false; bool busy = false; for (auto& c : O->c) busy |= c.proc < 0 && c.busy_create; if (!busy || !O->avoid_ro) break; } sim_sleep_ns(1000000); } s.reset(); }
    void withdraw(bool destroy) { if (!offered && !destroy) return; { SimAtomic a; O->offered = false; offer_changes(false); sim_event(destroy ? "the provider destroys its skeleton" : "the provider withdraws"); } if (destroy) drop(); else s->StopOfferService(); offered = false; SimAtomic a; sim_event("the service is withdrawn"); sim_count("withdrawals", 1); }
    void send(int e, bool plain) {
        auto go = [&](auto& ev) {
            std::uint64_t id; { SimAtomic a; id = O->next_id[e]++; O->known[e].insert(id); }
            if (sim_chance(200)) { Payload p; p.fill(id, static_cast<std::uint32_t>(e)); auto r = ev.Send(p); if (!r) sim_violation("sending %s fails: %s", name(e), std::string(r.error().UserMessage()).c_str()); }
            else {
                auto a = ev.Allocate(); if (!a) sim_violation("the provider cannot allocate a sample of %s although the consumers respect their quotas: %s", name(e), std::string(a.error().UserMessage()).c_str());
                a.value()->fill(id, static_cast<std::uint32_t>(e)); if (!plain && sim_chance(100)) { sim_count("samples_dropped", 1); return; }
                const auto t0 = sim_now_ns(); auto r = ev.Send(std::move(a).value()); if (sim_now_ns() - t0 >= 500000000ull) O->slow_sends++; if (!r) sim_violation("sending %s fails: %s", name(e), std::string(r.error().UserMessage()).c_str());
            }
            SimAtomic a; O->sent[e] = id; if (plain) O->burst[e].push_back(id); sim_count("samples_sent", 1);
        };
        if (e) go(s->ev2); else go(s->ev);
    }
    void run() {
        for (;;) {
            Want w; std::uint64_t no; { SimAtomic a; w = O->want; no = O->want_no; }
            if (no != seen) {
                if (w == kWithdrawn) { if (!offered && O->prov_crashed) offer(); withdraw(s && sim_chance(300)); }   // what a dead provider offered is taken back by its successor
                if (w == kOffered) offer();
                if (w == kBurst) {
                    const unsigned n = 1 + sim_below(8); std::thread t; const bool two = sim_chance(300);
                    if (two) t = std::thread([&] { for (unsigned i = 0; i < n; ++i) { nap(); send(1, true); } });
                    for (unsigned i = 0; i < n; ++i) { nap(); send(two ? 0 : static_cast<int>(sim_below(2)), true); } if (two) t.join();
                }
                if (w == kExit) { withdraw(true); left_in_process("the provider"); }
                seen = no; { SimAtomic a; O->want_ack = no; } if (w == kExit) return;
            }
            if (w != kFree) { sim_sleep_ns(500000); continue; }
            nap();
            if (!s) { create(); continue; }
            if (!offered) { if (sim_chance(100)) { drop(); SimAtomic a; sim_event("the provider drops its skeleton"); } else offer(); continue; }
            switch (sim_below(20)) { case 0: withdraw(false); break; case 1: if (sim_chance(500)) withdraw(true); break; default: send(static_cast<int>(sim_below(2)), false); }
        }
    }
};
void provider() {
    std::vector<std::thread> t; clients_of(-1, t);
    { Provider p; p.run(); }
    for (auto& x : t) x.join();
    left_in_process("the provider");
}
void outsider();
void process(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg); if (role == 50) { init_runtime("/etc/com_x.json"); outsider(); return; }
    const bool b = role == 0 ? O->b : O->c[static_cast<std::size_t>(std::find_if(O->c.begin(), O->c.end(), [&](const ClientState& c) { return c.proc == role - 10; }) - O->c.begin())].b;
    init_runtime(b ? "/etc/com_b.json" : "/etc/com_q.json");
    if (role == 0) provider(); else consumer(role - 10);
}
// ---- who may access what (C28), who is still spoken to (C26)
void rights() {
    SimAtomic a; char kind; int pid, uid, other; unsigned mode; char path[256];
    while (sk_audit_next(&kind, &pid, &uid, &other, &mode, path, sizeof path)) {
        if (kind == 'x') { O->away.insert(other); continue; }
        const std::string p = path; const auto k = O->kind.find(pid); if (k == O->kind.end()) continue;
        if (kind == 'r') {   // known: what a dead process sent last can be read after what its successor sent, from another connection
            if (k->second != 0) continue;
            const auto d = O->dead_of.find(other - 1000); if (d != O->dead_of.end()) { for (const auto& h : O->heard) if (h.first == pid && h.second > d->first && (O->pid[d->second] == h.second || (O->dead_of.count(h.second) && O->dead_of[h.second] == d->second))) O->late.insert(d->first); }
            O->heard.insert({pid, other - 1000}); continue;
        }
        // known: the memory, and with it the knowledge of which processes used the service, is removed while a process is away, so that its successor does not announce its death
        if (kind == 'u') { if (k->second == 0 && p.find("lola-data-") != std::string::npos) O->forgotten.insert(O->away.begin(), O->away.end()); continue; }
        if (kind == 'm' && p.find("lola-ctl-") != std::string::npos && k->second != 0) for (auto& d : O->dead_of) if (d.first < pid && d.second == O->proc_of(pid)) O->away.erase(d.first);
        if (kind == 'k') { if (O->phase == kDrain && k->second == 0) for (int d : O->dead) if (O->replaced(d) && p.find("LoLa_2_" + std::to_string(1000 + d) + "_") != std::string::npos) O->tried.insert(d); continue; }
        const bool data = p.find("lola-data-") != std::string::npos, ctl = p.find("lola-ctl-") != std::string::npos, ctl_b = ctl && p.find("-b") != std::string::npos;
        if ((!data && !ctl) || p.find("_lock") != std::string::npos) continue;
        sim_count("rights_checked", 1); const auto& list = ctl_b ? O->allow_b : O->allow_qm; const bool open_to_all = data ? O->allow_qm.empty() && O->allow_b.empty() && !O->strict : list.empty() && !O->strict;
        if (kind == 'c') { const unsigned max = !open_to_all ? 0600u : data ? 0644u : 0666u; if (mode & ~max) sim_violation("%s gets the access rights %o, but at most %o is configured", path, mode, max); }
        if (kind == 'a') { const bool listed = data ? O->allow_qm.count(other) || O->allow_b.count(other) : list.count(other); if (!listed) sim_violation("user %d gets rights %u on %s but is not in the configured list", other, mode, path); if (data && mode != 4) sim_violation("user %d gets rights %u on %s, only reading is needed", other, mode, path); }
        if (k->second == 0) continue;
        const bool write = kind == 'm' ? (mode & PROT_WRITE) != 0 : kind == 'o' && (mode & O_ACCMODE) != O_RDONLY;
        if (data && write) sim_violation("consumer process %d %s %s writable", pid, kind == 'm' ? "maps" : "opens", path);
        if (ctl_b && write && k->second == 1) sim_violation("QM process %d %s the ASIL-B control data %s writable", pid, kind == 'm' ? "maps" : "opens", path);
        if (k->second == 3 && !O->wrong_provider && (kind == 'o' || kind == 'm')) sim_violation("process %d of user %d, which is not in the configured list, %s %s", pid, uid, kind == 'm' ? "maps" : "opens", path);
    }
}
// A notification to a process that is dead makes the sender wait for a connection. (A connection that was begun once is retried in the background, which hurts nobody.)
void spoken_to_dead() {
    SimAtomic a; if (!O->slow_sends || O->tried.empty()) return; const char* tag = ""; int who = *O->tried.begin();
    for (int d : O->tried) if (O->late.count(d)) tag = "[late-message-of-dead] ", who = d; else if (O->forgotten.count(d)) tag = "[memory-removed-while-away] ", who = d;
    sim_violation("%sthe provider still sends notifications to process %d, which died and was replaced: %d calls of Send took half a second", tag, who, O->slow_sends);
}
// a process that is not allowed to use the service, or does not accept the provider
void outsider() {
    for (;;) {
        { SimAtomic a; if (O->phase == kTear) return; }
        sim_sleep_ns(sim_below(O->pace * 4)); { SimAtomic a; if (O->phase != kChaos) continue; }
        auto hs = SvcProxy::FindService(spec("cq")); if (!hs || hs.value().empty()) continue;
        { SimAtomic a; O->creating_meanwhile = true; O->outsider_busy = true; if (!O->stale_lock) sim_tag_termination(sim_self(), kStale, kStaleText); }
        auto r = SvcProxy::Create(hs.value()[0]);
        SimAtomic a; O->outsider_busy = false; if (r) sim_violation("%s", O->wrong_provider ? "a proxy is created although the provider's user is not in the consumer's list of allowed providers" : "a proxy is created for a user that is not in the list of allowed consumers"); sim_count("outsiders_refused", 1);
    }
}
// ---- controller
bool await(std::uint64_t ns, bool (*done)()) { for (std::uint64_t t = 0; t < ns; t += 2000000) { { SimAtomic a; if (done()) return true; } sim_sleep_ns(2000000); } SimAtomic a; return done(); }
bool proc_alive(int p) { return sim_alive(p < 0 ? O->prov_pid : O->pid[p]); }
bool acked() { for (auto& c : O->c) if (proc_alive(c.proc) && c.ack != O->round) return false; return true; }
void calm() { if (!O->calm) { O->calm = true; sim_calm(); } }
void set_phase(Phase ph) {
    rights();
    { SimAtomic a; O->phase = ph; O->round++; } if (ph == kChaos) return;
    if (await(20000000000ull, acked)) return;
    calm(); if (await(20000000000ull, acked)) return;
    SimAtomic a; for (auto& c : O->c) if (proc_alive(c.proc) && c.ack != O->round) sim_violation("%sconsumer %d does not come back from %s", connect_tag(c.proc < 0 ? O->prov_pid : O->pid[c.proc]), c.id, c.call[0] ? c.call : "its work");
}
void set_want(Want w) {
    { SimAtomic a; O->want = w; O->want_no++; } if (w == kFree || w == kHold) return;
    auto d = [] { return O->want_ack == O->want_no || !sim_alive(O->prov_pid); };
    if (await(20000000000ull, d)) return;
    calm(); if (!await(20000000000ull, d)) sim_violation("the provider does not come back from what it was asked for (%d)", static_cast<int>(w));
}
// a process killed while it creates or opens a memory leaves its lock file and blocks everybody who opens it later (known)
void tag_lock(int pid) { sim_tag_termination(pid, "killed-opener-blocks", O->stale_lock ? "Lock file still present after timeout" : ""); }
void after_kill() { SimAtomic a; sk_peek_tree("/tmp/", [](void*, const char* path, unsigned, unsigned, int) { const std::string p = path; if (p.find("/lola-") != std::string::npos && p.size() > 5 && p.compare(p.size() - 5, 5, "_lock") == 0) O->stale_lock = true; }, nullptr); if (O->stale_lock) { sim_count("stale_lock_files", 1); if (sim_alive(O->prov_pid)) tag_lock(O->prov_pid); for (int i = 0; i < O->procs; ++i) if (sim_alive(O->pid[i])) tag_lock(O->pid[i]); if (O->outsider && sim_alive(O->outsider)) { sim_tag_termination(O->outsider, kStale, ""); tag_lock(O->outsider); } } }
void watch(int pid, int prov) { for (int b = 0; b < 2; ++b) sim_watch_log(pid, too_long(prov, b).c_str()); }
void start_provider(int inc) { { SimAtomic a; O->offered = O->shm_open = false; offer_changes(false); } const int p = sim_spawn("provider", 0, inc, 1001, 1, O); SimAtomic a; O->spawned++; O->prov_pid = p; O->half.next_provider(p); O->kind[p] = 0; tag_lock(p); for (int i = 0; i < O->procs; ++i) watch(O->pid[i], p); }
void start_consumer(int i, int inc) { const int p = sim_spawn("consumer", 10 + i, inc, 1011 + i, 1, O); SimAtomic a; O->spawned++; if (inc) O->dead.insert(O->pid[i]), O->dead_of[O->pid[i]] = i; O->pid[i] = p; O->created[i] = false; for (auto& c : O->c) if (c.proc == i) O->kind[p] = c.b ? 2 : 1; tag_lock(p); watch(p, O->prov_pid); }
void control(const std::string& prop) {
    auto o = std::make_unique<Oracle>(); O = o.get(); O->prop = prop;
    static const unsigned paces[] = {30000, 300000, 5000000}; O->pace = paces[sim_below(3)]; O->b = sim_chance(350); O->crashes = sim_chance(prop == "C26" ? 900 : prop == "C09" || prop == "C29" ? 250 : 500); O->handlers = !sim_chance(200); O->handler_pm = 200 + static_cast<int>(sim_below(800));
    O->procs = 1 + static_cast<int>(sim_below(3)); const bool local = sim_chance(300); O->avoid_ro = !sim_chance(100); int total = 0;
    for (int i = local ? -1 : 0; i < O->procs; ++i) { const bool b = O->b && (i < 0 ? true : sim_chance(400)); const int th = 1 + (sim_chance(350) ? 1 : 0); for (int t = 0; t < th; ++t) { ClientState c; c.id = static_cast<int>(O->c.size()); c.proc = i; c.thread = i < 0 ? t + 1 : t; c.b = b; c.nmax = 1 + static_cast<int>(sim_below(3)); total += c.nmax; O->c.push_back(c); } }
    auto& g = O->cfg; g.slots = static_cast<unsigned>(total) + 1 + sim_below(3); g.subscribers = static_cast<unsigned>(O->c.size()) + sim_below(2); g.simulate_size = sim_chance(700);
    g.instances.push_back({"p", 0, 1, O->b}); g.instances.push_back({"cq", 0, 1, false}); O->cfgb = g; if (O->b) { O->cfgb.asil_b = true; O->cfgb.instances.push_back({"cb", 0, 1, true}); } else g.instances[0].asil_b = false;
    if (sim_chance(prop == "C28" ? 800 : 100)) {   // the users are listed
        O->limited = true; O->strict = sim_chance(500); auto join = [](const std::set<int>& s) { std::string r; for (int u : s) r += (r.empty() ? "" : ",") + std::to_string(u); return r; };
        for (auto& c : O->c) if (c.proc >= 0) (c.b ? O->allow_b : O->allow_qm).insert(1011 + c.proc);
        if (!O->b || O->allow_b.empty() || sim_chance(300)) O->allow_qm.insert(1077);
        if (O->b && sim_chance(300)) O->allow_b.insert(1078);
        bool any_b = false, any_q = false; for (auto& c : O->c) if (c.proc >= 0) (c.b ? any_b : any_q) = true;
        if (!O->strict) { if (!any_b && sim_chance(500)) O->allow_b.clear(); else if (!any_q && O->b && !O->allow_b.empty() && sim_chance(500)) O->allow_qm.clear(); }   // a list of one quality only restricts the data to it
        g.strict = O->cfgb.strict = O->strict; g.consumers_qm = O->cfgb.consumers_qm = join(O->allow_qm); g.consumers_b = O->cfgb.consumers_b = join(O->allow_b); g.providers_qm = O->cfgb.providers_qm = "1001"; g.providers_b = O->cfgb.providers_b = "1001";
    }
    if (O->b) { g.instances.erase(g.instances.begin()); write_file("/etc/com_b.json", O->cfgb.json()); }
    write_file("/etc/com_q.json", g.json());
    const bool with_outsider = sim_chance(prop == "C28" ? 500 : 30); if (with_outsider) { O->wrong_provider = O->strict && O->allow_qm.empty() ? false : O->allow_qm.empty() || sim_chance(400); Cfg x = g; if (O->wrong_provider) { if (O->strict && sim_chance(500)) x.providers_qm = x.providers_b = ""; else x.providers_qm = "1500"; } write_file("/etc/com_x.json", x.json()); }
    sk_audit(prop == "C28" || prop == "C26"); make_dirs(1); sim_mutual_send("mutual-send-block"); sim_max_steps(6000000);
    int inc = 0, cinc[4] = {};
    start_provider(inc); for (int i = 0; i < O->procs; ++i) start_consumer(i, 0);
    if (with_outsider) { const int p = sim_spawn("outsider", 50, 0, O->wrong_provider && !O->allow_qm.empty() ? *O->allow_qm.begin() : 1090, 1, O); SimAtomic a; O->spawned++; O->outsider = p; O->kind[p] = 3; tag_lock(p); }
    const int cycles = 1 + static_cast<int>(sim_below(2));
    for (int cy = 0; cy < cycles; ++cy) {
        set_phase(kChaos); set_want(kFree);
        const unsigned parts = 1 + sim_below(6);
        for (unsigned k = 0; k < parts; ++k) {
            sim_sleep_ns(O->pace * 2 + sim_below(O->pace * 10));
            if (!O->crashes || !sim_chance(300) || O->spawned >= 11) continue;
            if (sim_chance(500)) {   // the provider dies
                sim_crash_after(O->prov_pid, sim_below(sim_chance(500) ? 400 : 4000)); sim_wait_exit(O->prov_pid, 500000000ull); sim_kill(O->prov_pid); after_kill(); { SimAtomic a; O->prov_crashed = true; O->offered = false; sim_event("the provider is dead"); } sim_count("provider_crashes", 1);
                if (local) { SimAtomic a; for (auto& c : O->c) if (c.proc < 0) c.alive = false; }
                sim_sleep_ns(sim_below(O->pace * 3)); start_provider(++inc);
            } else {
                const int i = static_cast<int>(sim_below(static_cast<unsigned>(O->procs))); bool ok = false;
                for (int tries = 0; tries < 20 && !ok; ++tries) { SimAtomic a; ok = true; for (auto& c : O->c) if (c.proc == i && c.busy_create) ok = false; if (ok) { sim_kill(O->pid[i]); after_kill(); } else break; }
                if (!ok) continue;
                sim_event("consumer process %d is dead", i); sk_audit_note('x', O->pid[i]); O->cons_crashed[i] = true; sim_count("consumer_crashes", 1); sim_wait_exit(O->pid[i], 1000000000ull);
                sim_sleep_ns(sim_below(O->pace * 3)); start_consumer(i, ++cinc[i]);
            }
        }
        set_want(kHold); set_phase(kStill);
        if (sim_chance(600)) { set_want(kWithdrawn); sim_sleep_ns(2000000000ull); set_phase(kCheckPending); }
        set_want(kOffered); sim_sleep_ns(2000000000ull); set_phase(kCheckSubscribed); sim_sleep_ns(1000000000ull); set_phase(kDrain);
        { SimAtomic a; for (auto& b : O->burst) b.clear(); } rights(); O->slow_sends = 0; O->tried.clear(); set_want(kBurst); if (cy + 1 == cycles) calm(); sim_sleep_ns(3000000000ull); set_phase(kCheckFinal); spoken_to_dead();
    }
    calm(); const bool consumers_first = sim_chance(600);
    if (!consumers_first) { set_want(kWithdrawn); sim_sleep_ns(1000000000ull); }
    set_phase(kTear); if (with_outsider && !sim_wait_exit(O->outsider, 20000000000ull)) sim_violation("the outsider does not end"); for (int i = 0; i < O->procs; ++i) if (!sim_wait_exit(O->pid[i], 20000000000ull)) sim_violation("consumer process %d does not end", i);
    if (!consumers_first && sim_chance(700)) { set_want(kOffered); }
    set_want(kExit); rights(); if (!sim_wait_exit(O->prov_pid, 20000000000ull)) sim_violation("the provider does not end");
    struct L { bool shm; } l{consumers_first};
    sk_peek_tree("/tmp/", [](void*, const char* path, unsigned, unsigned, int locked) { const std::string p = path; if (locked) sim_violation("%s is still locked after everything ended", path); if (p.find("/service_discovery/100/1/") != std::string::npos || p.find("partial_restart/existence") != std::string::npos || p.find("_lock") != std::string::npos) sim_violation("%s is left behind after orderly shutdown", path); }, &l);
    if (consumers_first) { sk_peek_tree("/dev/shm/", [](void*, const char* path, unsigned, unsigned, int) { sim_violation("%s is left behind after orderly shutdown", path); }, &l); sk_peek_tree("/tmp/mw_com_lola/partial_restart/", [](void*, const char* path, unsigned, unsigned, int) { sim_violation("%s is left behind after orderly shutdown", path); }, &l); sim_count("shutdowns_checked", 1); }
}
}
