// Methods end to end on the complete runtime (C12): a provider with one or two instances that offers, withdraws, crashes and returns; clients in several processes, threads and quality levels that call its methods.
#include "com.h"
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <sys/file.h>
#include <sys/mman.h>
using namespace simcom;
namespace mth {
enum Phase { kChaos, kStill, kCheckDown, kCheckUp, kTear };
enum Want { kFree, kHold, kWithdrawn, kOffered, kExit };
constexpr std::uint32_t kMix = 0x5a5a1234u;
struct CallRec { int client = 0, inst = 0, method = 0; std::uint32_t b = 0; bool started = false, ended = false, ok = false, running = false, done = false; int ran = 0; };
struct PingRec { int inst; std::uint64_t begin, end; bool taken; };
struct ClientState { int id = 0, proc = -1, thread = 0, inst = 0; bool b = false, busy_create = false, missed = false, has_proxy = false; std::uint64_t ack = 0; const char* call = ""; };
struct Oracle { HalfMade half;
    Cfg cfg, cfgb; unsigned pace = 1000; bool b = false, calm = false, crashes = false; int procs = 1, ni = 1; std::vector<ClientState> c; std::uint64_t round = 0; Phase phase = kChaos; Want want = kFree; std::uint64_t want_no = 0, want_ack = 0;
    std::deque<CallRec> calls; std::deque<PingRec> pings; std::uint64_t pings_started = 0; int running[2] = {}; bool closed[2] = {true, true}, active[2] = {}, shm_open[2] = {}, meanwhile[2] = {}, withdrawn[2] = {true, true}; std::uint64_t downs[2] = {}; unsigned offers_left = 300; std::uint64_t epoch = 0; int prov_pid = 0; int pid[4] = {}; bool prov_crashed = false; bool cons_crashed[4] = {}; bool stale_lock = false, avoid_ro = true, limited = false; int spawned = 0; std::string prop; unsigned slow_pm = 0, slow_ns = 0; std::map<std::string, int> creator; std::set<int> dead; std::map<int, int> proc; int proc_of(int p) const { const auto i = proc.find(p); return i == proc.end() ? -1 : i->second; } std::set<int> uids; int prov_uid = 1001; std::map<int, int> uid_of;
};
Oracle* O;
const char kLocalRo[] = "(invalid memory access) in _ZN5score2mw3com4impl4lola21SkeletonMemoryManager";
const char kStale[] = "stale-handle-during-offer", kStaleText[] = "for given event instance. Terminating";
void offer_changes(int i, bool on) { O->active[i] = on; O->epoch++; O->meanwhile[i] = false; for (auto& c : O->c) if (c.busy_create) O->meanwhile[i] = true, sim_tag_termination(c.proc < 0 ? O->prov_pid : O->pid[c.proc], kStale, kStaleText); }
void nap() { switch (sim_below(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep_ns(sim_below(20000)); break; default: sim_sleep_ns(sim_below(O->pace)); } }
const char* mname(int m) { return m == 0 ? "call" : m == 1 ? "push" : "ping"; }
std::string pname(int i) { return i ? "p2" : "p"; } std::string cname(int i, bool b) { return std::string(b ? "cb" : "cq") + (i ? "2" : ""); }
// ---- what the handlers see
void enter(int inst) { if (O->closed[inst]) sim_violation("a method handler of instance %d runs although the service is withdrawn", inst + 1); O->running[inst]++; }
CallRec* begin_call(int inst, int method, std::uint64_t id, std::uint32_t b) {
    SimAtomic a; enter(inst); if (id == 0 || id > O->calls.size()) { sim_violation("the handler of %s runs with the argument %llu, which no client passed", mname(method), static_cast<unsigned long long>(id)); }
    CallRec& r = O->calls[id - 1];
    if (!r.started) sim_violation("the handler of %s runs for call %llu before it was made", mname(method), static_cast<unsigned long long>(id));
    if (r.method != method || r.inst != inst) sim_violation("call %llu of %s to instance %d arrives at %s of instance %d", static_cast<unsigned long long>(id), mname(r.method), r.inst + 1, mname(method), inst + 1);
    if (r.b != b) sim_violation("the arguments of call %llu of %s are mixed", static_cast<unsigned long long>(id), mname(method));
    if (r.ran++) sim_violation("the handler of %s runs twice for call %llu of client %d", mname(method), static_cast<unsigned long long>(id), r.client);
    if (r.ended) sim_count("handler_after_failed_call", 1);
    r.running = true; sim_count("handler_runs", 1); return &r;
}
void work() { if (sim_chance(O->slow_pm)) sim_sleep_ns(sim_below(O->slow_ns)); else if (sim_chance(300)) nap(); }
void end_call(CallRec* r, int inst, bool same) { SimAtomic a; if (!same && !r->ended) sim_violation("the arguments of a call of %s by client %d change while the handler runs", mname(r->method), r->client); r->running = false; r->done = true; O->running[inst]--; }
// ---- client
struct Client {
    ClientState& s; std::unique_ptr<MthProxy> p; std::uint64_t seen_round = 0;
    std::optional<com::impl::MethodReturnTypePtr<Payload>> held; std::uint64_t held_id = 0; std::uint32_t held_b = 0;
    explicit Client(ClientState& st) : s{st} {}
    struct Call { ClientState& s; Call(Client& c, const char* w) : s{c.s} { SimAtomic a; s.call = w; } ~Call() { SimAtomic a; s.call = ""; } };
    // known: the state of a proxy that is created while the provider withdraws takes the next offer for the one it was created from, so its methods stay unsubscribed
    const char* missed() const { return s.missed ? "[created-during-withdrawal] " : ""; }
    void create() {
        com::ServiceHandleContainer<MthProxy::HandleType> hs; bool fresh, away; std::uint64_t epoch0, downs0; { SimAtomic a; away = O->withdrawn[s.inst]; downs0 = O->downs[s.inst]; fresh = O->active[s.inst] && !O->prov_crashed; epoch0 = O->epoch; }
        { Call c{*this, "FindService"}; auto r = MthProxy::FindService(spec(cname(s.inst, s.b))); if (!r) sim_violation("client %d cannot search", s.id); hs = std::move(r).value(); }
        if (hs.empty()) { sim_count("not_found", 1); return; }
        { SimAtomic a; if (s.proc < 0 && O->avoid_ro && !O->shm_open[s.inst]) return; s.busy_create = O->meanwhile[s.inst] = true; s.call = "Create"; if (!fresh || O->epoch != epoch0) sim_tag_termination(sim_self(), kStale, kStaleText); }
        auto r = MthProxy::Create(hs[0]);
        SimAtomic a; s.busy_create = false; s.call = ""; bool busy = false; for (auto& c : O->c) busy |= c.proc == s.proc && c.busy_create; if (!busy) sim_tag_termination(sim_self(), kStale, "");
        sim_event("client %d creates a proxy: %s", s.id, r ? "ok" : "refused");
        if (!r) { sim_count("proxies_refused", 1); return; }
        p = std::make_unique<MthProxy>(std::move(r).value()); s.has_proxy = true; s.missed = away || O->downs[s.inst] != downs0; sim_count("proxies", 1);
    }
    std::uint64_t begin(int method, std::uint32_t b) { SimAtomic a; CallRec r; r.client = s.id; r.inst = s.inst; r.method = method; r.b = b; O->calls.push_back(r); return O->calls.size(); }
    void start(std::uint64_t id) { SimAtomic a; O->calls[id - 1].started = true; sim_count("calls", 1); }
    bool finish(std::uint64_t id, bool ok, bool must, const std::string& why) {
        SimAtomic a; CallRec& r = O->calls[id - 1]; r.ended = true; r.ok = ok;
        if (ok && (r.ran != 1 || !r.done)) sim_violation("call %llu of %s by client %d succeeded but its handler ran %d times and is %s", static_cast<unsigned long long>(id), mname(r.method), s.id, r.ran, r.done ? "done" : "not done");
        if (!ok && must) { if (sim_self() >= 0) sim_violation("%sclient %d cannot call %s although the service is offered and its proxy exists: %s", missed(), s.id, mname(r.method), why.c_str()); }
        if (ok && O->phase == kCheckDown) sim_violation("call %llu of %s by client %d succeeded although the service is withdrawn", static_cast<unsigned long long>(id), mname(r.method), s.id);
        sim_count(ok ? "calls_ok" : "calls_failed", 1); if (!ok && r.ran) sim_count("calls_failed_after_handler", 1); return ok;
    }
    void check_ret(const Payload& v, std::uint64_t id, std::uint32_t b, const char* when) { SimAtomic a; if (!v.good() || v.id != id || v.from != (b ^ kMix)) sim_violation("call %llu of client %d returns the value of call %llu (%s, %s)", static_cast<unsigned long long>(id), s.id, static_cast<unsigned long long>(v.id), v.good() ? "whole" : "damaged", when); }
    void release() { if (!held) return; check_ret(**held, held_id, held_b, "held for some time"); held.reset(); sim_count("returns_held", 1); }
    void call(bool must) {
        const auto b = static_cast<std::uint32_t>(sim_below(1u << 30));
        if (held) {   // the only place of the call queue is taken
            if (must || sim_chance(500)) { release(); }
            else { const auto id = begin(0, b); auto r = p->call(id, b); if (r) sim_violation("client %d holds the value of call %llu and can call again", s.id, static_cast<unsigned long long>(held_id)); SimAtomic a; sim_count("queue_full", 1); return; }
        }
        const auto id = begin(0, b); Call c{*this, "the method call"};
        auto eval = [&](auto&& r) {
            const bool ok = r.has_value(); if (!finish(id, ok, must, ok ? "" : std::string(r.error().UserMessage()))) return;
            check_ret(*r.value(), id, b, "fresh"); if (!must && sim_chance(300)) { held.emplace(std::move(r).value()); held_id = id; held_b = b; }
        };
        if (sim_chance(500)) { start(id); eval(p->call(id, b)); return; }
        auto al = p->call.Allocate(); if (!al) { finish(id, false, must, std::string(al.error().UserMessage())); return; }
        auto args = std::move(al).value(); *std::get<0>(args) = id; if (sim_chance(300)) nap(); *std::get<1>(args) = b; if (!must && sim_chance(100)) { sim_count("allocated_not_called", 1); return; }
        start(id); eval(p->call(std::move(std::get<0>(args)), std::move(std::get<1>(args))));
    }
    void push(bool must) {
        const auto b = static_cast<std::uint32_t>(sim_below(1u << 30)); const auto id = begin(1, b); Payload v; v.fill(id, b); Call c{*this, "the method call"}; start(id);
        auto r = p->push(v); finish(id, r.has_value(), must, r ? "" : std::string(r.error().UserMessage()));
    }
    void ping(bool must) {
        std::uint64_t n0; { SimAtomic a; n0 = O->pings.size(); O->pings_started++; sim_count("calls", 1); } (void)n0; const auto t0 = sim_now_ns(); Call c{*this, "the method call"};
        auto r = p->ping(); SimAtomic a;
        if (!r) { if (must) sim_violation("%sclient %d cannot call ping although the service is offered and its proxy exists: %s", missed(), s.id, std::string(r.error().UserMessage()).c_str()); sim_count("calls_failed", 1); return; }
        const std::uint64_t v = *r.value(); sim_count("calls_ok", 1);
        if (v == 0 || v > O->pings.size()) sim_violation("ping returns %llu to client %d, which no handler returned", static_cast<unsigned long long>(v), s.id);
        PingRec& q = O->pings[v - 1]; if (q.taken) sim_violation("ping returns %llu to two calls", static_cast<unsigned long long>(v)); q.taken = true;
        if (q.inst != s.inst || q.begin < t0 || q.end == 0) sim_violation("ping of client %d returns %llu, which its handler did not return during the call", s.id, static_cast<unsigned long long>(v));
        if (O->phase == kCheckDown) sim_violation("ping of client %d succeeded although the service is withdrawn", s.id);
    }
    void any(bool must) { switch (sim_below(4)) { case 0: push(must); break; case 1: ping(must); break; default: call(must); } }
    void destroy() { release(); { Call c{*this, "destroy the proxy"}; p.reset(); } SimAtomic a; s.has_proxy = false; sim_event("client %d destroyed its proxy", s.id); }
    void op() { if (!p) { create(); return; } if (sim_chance(40)) destroy(); else { if (held && sim_chance(300)) release(); any(false); } }
    void phase(Phase ph) {
        switch (ph) {
            case kChaos: case kStill: break;
            case kCheckDown: if (p) { release(); for (int i = 0; i < 2; ++i) any(false); } break;
            case kCheckUp:
                if (!p) { create(); if (!p && !O->prov_crashed && !(s.proc >= 0 && O->cons_crashed[s.proc])) sim_violation("client %d cannot create a proxy although the service is offered", s.id); }
                if (p) { release(); call(true); push(true); ping(true); SimAtomic a; sim_count("clients_checked", 1); }
                break;
            case kTear: if (p) destroy(); break;
        }
    }
    void run() {
        { SimAtomic a; s.has_proxy = false; s.busy_create = false; }
        for (;;) {
            std::uint64_t r; Phase ph; { SimAtomic a; r = O->round; ph = O->phase; }
            if (r != seen_round) { phase(ph); seen_round = r; SimAtomic a; s.ack = r; }
            if (ph == kTear) break;
            if (ph == kChaos) { nap(); op(); } else sim_sleep_ns(500000);
        }
    }
};
void left_in_process(const char* who) {
    struct R { const char* who; } r{who};
    sk_peek_fds(sim_self(), [](void* a, int fd, const char* path, int) { const std::string p = path; if (p.find("lola-") != std::string::npos || p.find("partial_restart/") != std::string::npos) sim_violation("%s destroyed all its proxies and skeletons and still has descriptor %d of %s", static_cast<R*>(a)->who, fd, path); }, &r);
    sk_peek_maps([](void* a, int pid, const char* path, int) { if (pid == sim_self() && std::string(path).find("lola-") != std::string::npos) sim_violation("%s destroyed all its proxies and skeletons and still maps %s", static_cast<R*>(a)->who, path); }, &r);
}
void clients_of(int proc, std::vector<std::thread>& t) { for (auto& c : O->c) if (c.proc == proc && c.thread > 0) t.emplace_back([&c] { Client x{c}; x.run(); }); }
void client_process(int proc) {
    std::vector<std::thread> t; clients_of(proc, t);
    for (auto& c : O->c) if (c.proc == proc && c.thread == 0) { Client x{c}; x.run(); }
    for (auto& x : t) x.join();
    left_in_process("a client process");
}
// ---- provider
struct Provider {
    int inst; std::unique_ptr<MthSkeleton> s; bool offered = false;
    void create() {
        auto r = MthSkeleton::Create(spec(pname(inst))); if (!r) sim_violation("the provider cannot create its skeleton"); s = std::make_unique<MthSkeleton>(std::move(r).value()); sim_count("skeletons", 1); const int i = inst;
        auto check = [](auto&& x, const char* m) { if (!x) sim_violation("the provider cannot register its handler of %s", m); };
        check(s->call.RegisterHandler([i](Payload& ret, const std::uint64_t& a, const std::uint32_t& b) { const auto a0 = a; const auto b0 = b; CallRec* c = begin_call(i, 0, a0, b0); work(); ret.fill(a0, b0 ^ kMix); if (sim_chance(200)) work(); end_call(c, i, a == a0 && b == b0); }), "call");
        check(s->push.RegisterHandler([i](const Payload& v) { const Payload v0 = v; if (!v0.good()) sim_violation("the handler of push gets a damaged argument (id %llu)", static_cast<unsigned long long>(v0.id)); CallRec* c = begin_call(i, 1, v0.id, v0.from); work(); end_call(c, i, std::memcmp(&v0, &v, sizeof v) == 0); }), "push");
        if (sim_chance(50) && O->avoid_ro) { auto r = s->OfferService(); if (r) sim_violation("the service is offered although a method has no handler"); sim_count("offers_without_handler", 1); }
        check(s->ping.RegisterHandler([i](std::uint64_t& ret) { std::size_t k; { SimAtomic a; enter(i); if (O->pings.size() >= O->pings_started) sim_violation("the handler of ping runs more often than it was called"); O->pings.push_back({i, sim_now_ns(), 0, false}); k = O->pings.size(); sim_count("handler_runs", 1); } work(); ret = k; SimAtomic a; O->pings[k - 1].end = sim_now_ns(); O->running[i]--; }), "ping");
    }
    void offer() {
        if (!s) create();
        if (offered) return;
        { SimAtomic a; sim_event("the provider offers instance %d", inst + 1); offer_changes(inst, true); O->withdrawn[inst] = O->closed[inst] = false; if (!O->avoid_ro) sim_tag_termination(sim_self(), "local-consumer-read-only", kLocalRo); }
        const auto r = [&] { Making m{O->half.making}; return s->OfferService(); }(); if (!r) sim_violation("%sthe provider cannot offer: %s", O->stale_lock ? "[killed-opener-blocks] " : O->meanwhile[inst] ? "[stale-handle-during-offer] " : "", std::string(r.error().UserMessage()).c_str()); offered = true;
        SimAtomic a; sim_tag_termination(sim_self(), "local-consumer-read-only", ""); O->shm_open[inst] = true; sim_event("instance %d is offered", inst + 1); sim_count("offers", 1);
    }
    void withdraw(bool destroy) {
        if (!offered && !destroy) return;
        { SimAtomic a; offer_changes(inst, false); O->withdrawn[inst] = true; O->downs[inst]++; sim_event(destroy ? "the provider destroys its skeleton of instance %d" : "the provider withdraws instance %d", inst + 1); }
        if (destroy) { for (;;) { { SimAtomic a; O->shm_open[inst] = false; bool busy = false; for (auto& c : O->c) busy |= c.proc < 0 && c.busy_create; if (!busy || !O->avoid_ro) break; } sim_sleep_ns(1000000); } s.reset(); } else s->StopOfferService();
        offered = false; SimAtomic a; O->closed[inst] = true; if (O->running[inst]) sim_violation("the withdrawal of instance %d returned while a method handler runs", inst + 1); sim_event("instance %d is withdrawn", inst + 1); sim_count("withdrawals", 1);
    }
};
void provider() {
    std::vector<std::thread> t; clients_of(-1, t);
    {
        std::uint64_t seen = 0; Provider p[2]; p[0].inst = 0; p[1].inst = 1;
        for (;;) {
            Want w; std::uint64_t no; { SimAtomic a; w = O->want; no = O->want_no; }
            if (no != seen) {
                for (int i = 0; i < O->ni; ++i) {
                    if (w == kWithdrawn) { if (!p[i].offered && O->prov_crashed) p[i].offer(); p[i].withdraw(p[i].s && sim_chance(300)); }
                    if (w == kOffered) p[i].offer();
                    if (w == kExit) p[i].withdraw(true);
                }
                if (w == kExit) left_in_process("the provider");
                seen = no; { SimAtomic a; O->want_ack = no; } if (w == kExit) break;
            }
            if (w != kFree) { sim_sleep_ns(500000); continue; }
            nap(); nap(); auto& x = p[sim_below(static_cast<unsigned>(O->ni))];
            if (!x.s) { x.create(); continue; }
            if (!x.offered) { x.offer(); continue; }
            if (!O->offers_left) continue; { SimAtomic a; O->offers_left--; }   // a client needs up to 500 ms to get over each offer of a provider that is dead by then
            switch (sim_below(30)) { case 0: case 1: x.withdraw(false); break; case 2: if (sim_chance(500)) x.withdraw(true); break; default: break; }
        }
    }
    for (auto& x : t) x.join();
    left_in_process("the provider");
}
void process(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg); bool b = O->b; if (role) for (auto& c : O->c) if (c.proc == role - 10) b = c.b;
    init_runtime(b ? "/etc/com_b.json" : "/etc/com_q.json");
    if (role == 0) provider(); else client_process(role - 10);
}
// ---- who may access the memory of a proxy's calls: the user of the proxy and the user of the provider
void rights() {
    SimAtomic a; char kind; int pid, uid, other; unsigned mode; char path[256];
    while (sk_audit_next(&kind, &pid, &uid, &other, &mode, path, sizeof path)) {
        const std::string p = path; if (p.find("lola-methods") == std::string::npos || p.find("_lock") != std::string::npos) continue;
        sim_count("rights_checked", 1);
        if (kind == 'c' && pid > 0) O->creator[p.substr(p.rfind('/') + 1)] = pid;
        if (kind == 'c' && (mode & 077)) sim_violation("%s gets the access rights %o", path, mode);
        if (kind == 'a' && other != O->prov_uid) sim_violation("user %d gets rights %u on %s, which only the provider needs", other, mode, path);
    }
}
// ---- controller
bool await(std::uint64_t ns, bool (*done)()) { for (std::uint64_t t = 0; t < ns; t += 2000000) { { SimAtomic a; if (done()) return true; } sim_sleep_ns(2000000); } SimAtomic a; return done(); }
bool proc_alive(int p) { return sim_alive(p < 0 ? O->prov_pid : O->pid[p]); }
bool acked() { for (auto& c : O->c) if (proc_alive(c.proc) && c.ack != O->round) return false; return true; }
void calm() { if (!O->calm) { O->calm = true; sim_calm(); } }
void set_phase(Phase ph) {
    rights();
    { SimAtomic a; O->phase = ph; O->round++; } if (ph == kChaos) return;
    if (await(20000000000ull, acked)) return;
    calm(); if (await(20000000000ull, acked)) return;
    SimAtomic a; for (auto& c : O->c) if (proc_alive(c.proc) && c.ack != O->round) sim_violation("client %d does not come back from %s", c.id, c.call[0] ? c.call : "its work");
}
void set_want(Want w) {
    { SimAtomic a; O->want = w; O->want_no++; } if (w == kFree || w == kHold) return;
    auto d = [] { return O->want_ack == O->want_no || !sim_alive(O->prov_pid); };
    if (await(20000000000ull, d)) return;
    calm(); if (!await(20000000000ull, d)) sim_violation("the provider does not come back from what it was asked for (%d)", static_cast<int>(w));
}
void tag_lock(int pid) { sim_tag_termination(pid, "killed-opener-blocks", O->stale_lock ? "Lock file still present after timeout" : ""); }
// known: what a dead process registered for its calls of one instance collides with what its successor registers for another instance of the same provider
void tag_collide() {
    bool on = false; for (int i = 0; i < O->procs; ++i) { std::set<int> insts; for (auto& c : O->c) if (c.proc == i) insts.insert(c.inst); bool died = false; for (int d : O->dead) if (d != O->prov_pid && O->proc_of(d) == i) died = true; if (died && insts.size() > 1) on = true; }
    if (sim_alive(O->prov_pid)) sim_tag_termination(O->prov_pid, "calls-of-dead-collide", on ? "insertion_result.second at message_passing_service_instance.cpp" : "");
}
void after_kill() {
    SimAtomic a; sk_peek_tree("/tmp/", [](void*, const char* path, unsigned, unsigned, int) { const std::string p = path; if (p.find("/lola-") != std::string::npos && p.size() > 5 && p.compare(p.size() - 5, 5, "_lock") == 0) O->stale_lock = true; }, nullptr);
    if (O->stale_lock) { sim_count("stale_lock_files", 1); if (sim_alive(O->prov_pid)) tag_lock(O->prov_pid); for (int i = 0; i < O->procs; ++i) if (sim_alive(O->pid[i])) tag_lock(O->pid[i]); }
}
void start_provider(int inc) { { SimAtomic a; for (int i = 0; i < 2; ++i) { O->shm_open[i] = false; O->closed[i] = true; O->running[i] = 0; offer_changes(i, false); } } const int p = sim_spawn("provider", 0, inc, O->prov_uid, 1, O); SimAtomic a; O->spawned++; O->prov_pid = p; O->half.next_provider(p); tag_lock(p); }
void start_client(int i, int inc) { const int p = sim_spawn("client", 10 + i, inc, 1011 + i, 1, O); SimAtomic a; O->spawned++; O->pid[i] = p; O->proc[p] = i; tag_lock(p); }
void control(const std::string& prop) {
    auto o = std::make_unique<Oracle>(); O = o.get(); O->prop = prop;
    static const unsigned paces[] = {30000, 300000, 5000000}; O->pace = paces[sim_below(3)]; O->b = sim_chance(350); O->crashes = sim_chance(500); O->procs = 1 + static_cast<int>(sim_below(3)); O->ni = 1 + (sim_chance(300) ? 1 : 0);
    O->slow_pm = sim_chance(500) ? sim_below(300) : 0; O->slow_ns = 1 + (sim_chance(500) ? O->pace * 3 : 20000000);
    const bool local = sim_chance(250); O->avoid_ro = !sim_chance(50);
    for (int i = local ? -1 : 0; i < O->procs; ++i) { const bool b = O->b && (i < 0 ? true : sim_chance(400)); const int th = 1 + (sim_chance(400) ? 1 : 0); for (int t = 0; t < th; ++t) { ClientState c; c.id = static_cast<int>(O->c.size()); c.proc = i; c.thread = i < 0 ? t + 1 : t; c.b = b; c.inst = static_cast<int>(sim_below(static_cast<unsigned>(O->ni))); O->c.push_back(c); } }
    auto& g = O->cfg;
    auto fill = [&](Cfg& x, bool as_b) { for (int i = 0; i < O->ni; ++i) { if (as_b || !O->b) x.instances.push_back({pname(i), 2, i + 1, O->b}); x.instances.push_back({cname(i, false), 2, i + 1, false}); if (as_b) x.instances.push_back({cname(i, true), 2, i + 1, true}); } x.asil_b = as_b; };
    if (sim_chance(300)) { O->limited = true; g.providers_qm = g.providers_b = "1001"; for (auto& c : O->c) { auto& l = c.b ? g.consumers_b : g.consumers_qm; const std::string u = std::to_string(c.proc < 0 ? O->prov_uid : 1011 + c.proc); if (("," + l + ",").find("," + u + ",") == std::string::npos) l += (l.empty() ? "" : ",") + u; } if (g.consumers_qm.empty()) g.consumers_qm = "1077"; if (g.consumers_b.empty()) g.consumers_b = "1078"; g.strict = sim_chance(500); }
    O->cfgb = g; fill(g, false); if (O->b) { fill(O->cfgb, true); write_file("/etc/com_b.json", O->cfgb.json()); }
    write_file("/etc/com_q.json", g.json());
    sk_audit(true); make_dirs(2); sim_mutual_send("mutual-send-block"); sim_max_steps(6000000);
    int inc = 0, cinc[4] = {}; 
    start_provider(inc); for (int i = 0; i < O->procs; ++i) start_client(i, 0);
    const int cycles = 1 + static_cast<int>(sim_below(2));
    for (int cy = 0; cy < cycles; ++cy) {
        set_phase(kChaos); set_want(kFree);
        const unsigned parts = 1 + sim_below(6);
        for (unsigned k = 0; k < parts; ++k) {
            { SimAtomic a; O->offers_left = 300; } sim_sleep_ns(O->pace * 2 + sim_below(O->pace * 10));
            if (!O->crashes || !sim_chance(300) || O->spawned >= 11) continue;
            if (sim_chance(500)) {   // the provider dies
                sim_crash_after(O->prov_pid, sim_below(sim_chance(500) ? 400 : 4000)); sim_wait_exit(O->prov_pid, 500000000ull); sim_kill(O->prov_pid); after_kill(); { SimAtomic a; O->dead.insert(O->prov_pid); O->prov_crashed = true; sim_event("the provider is dead"); for (auto& r : O->calls) if (r.running) r.running = false; for (auto& c : O->c) if (c.proc < 0) c.busy_create = false; } sim_count("provider_crashes", 1);
                sim_sleep_ns(sim_below(O->pace * 3)); start_provider(++inc);
            } else {
                const int i = static_cast<int>(sim_below(static_cast<unsigned>(O->procs)));
                sim_crash_after(O->pid[i], sim_below(sim_chance(500) ? 400 : 4000)); sim_wait_exit(O->pid[i], 500000000ull); sim_kill(O->pid[i]); after_kill(); { SimAtomic a; O->dead.insert(O->pid[i]); tag_collide(); }
                sim_event("client process %d is dead", i); O->cons_crashed[i] = true; sim_count("client_crashes", 1); { SimAtomic a; for (auto& c : O->c) if (c.proc == i) { c.busy_create = false; for (auto& r : O->calls) if (r.client == c.id) r.ended = true; } }
                sim_sleep_ns(sim_below(O->pace * 3)); start_client(i, ++cinc[i]);
            }
        }
        set_want(kHold); set_phase(kStill);
        if (sim_chance(600)) { set_want(kWithdrawn); sim_sleep_ns(2000000000ull); set_phase(kCheckDown); }
        set_want(kOffered); if (cy + 1 == cycles) calm(); sim_sleep_ns(3000000000ull); set_phase(kCheckUp);
    }
    calm(); const bool clients_first = sim_chance(600);
    if (!clients_first) { set_want(kWithdrawn); sim_sleep_ns(1000000000ull); }
    set_phase(kTear); for (int i = 0; i < O->procs; ++i) if (!sim_wait_exit(O->pid[i], 20000000000ull)) sim_violation("client process %d does not end", i);
    set_want(kExit); rights(); if (!sim_wait_exit(O->prov_pid, 20000000000ull)) sim_violation("the provider does not end");
    rights();   // what a process leaves when it dies stays until its successor makes the same memory again
    sk_peek_tree("/dev/shm/", [](void*, const char* path, unsigned, unsigned, int) { const std::string p = path; if (p.find("lola-methods") != std::string::npos && !O->dead.count(O->creator[p.substr(p.rfind('/') + 1)])) sim_violation("%s is left behind after orderly shutdown", path); }, nullptr);
    if (clients_first && O->dead.empty()) { sk_peek_tree("/dev/shm/", [](void*, const char* path, unsigned, unsigned, int) { sim_violation("%s is left behind after orderly shutdown", path); }, nullptr); sim_count("shutdowns_checked", 1); }
}
}
