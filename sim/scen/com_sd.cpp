// Service discovery (C10) and exclusive offering (C11): providers come, go and die while searches run.
#include "com.h"
#include <algorithm>
#include <map>
#include <set>
using namespace simcom;
namespace sd {
constexpr int kInst = 3;
enum St { kGone, kChanging, kOffered, kUnknown };
struct Inst { St st = kGone; std::uint64_t since = 0; int owner = -1; bool ever = false; };   // owner: provider (slot) that holds the instance
struct Search { int id, proc, inc, inst; bool b; bool stopping = false, stopped = false, dead = false, started = false; int in_cb = 0; long cb_thread = 0; std::set<int> last; int calls = 0; };
struct Oracle {
    Cfg cfg; Inst in[kInst][2]; std::uint64_t seq = 1; std::vector<std::unique_ptr<Search>> s; bool end = false; bool contend; int insts; bool faults; bool b; int providers, searchers; unsigned pace; bool quiet = false; int holders[kInst] = {}; bool unclean[kInst] = {}; int live_holder[kInst] = {-1, -1, -1}; int ops; int crash_pm; bool stop_in_cb, start_in_cb;
    int prov_pid[8] = {}; int prov_inst_mask[8] = {}; bool destroying[kInst][8] = {}; std::uint64_t destroyed_at[kInst] = {}; bool tainted[kInst] = {};   // tainted: the holder was created while another provider was giving the instance up
};
Oracle* O;
long self() { return static_cast<long>(pthread_self()); }
int id_of(const SvcProxy::HandleType& h) { return static_cast<int>(std::get<com::impl::LolaServiceInstanceId>(h.GetInstanceId().binding_info_).GetId()); }
void set(int i, St st) { SimAtomic a; for (int q = 0; q < 2; ++q) { Inst& x = O->in[i][q]; if (q == 1 && !O->b) continue; x.st = st; x.since = O->seq++; if (st != kGone) x.ever = true; } }
std::string pspec(int i) { return "p" + std::to_string(i + 1); }
std::string cspec(int i, bool b) { return std::string(b ? "b" : "c") + (i < 0 ? "any" : std::to_string(i + 1)); }
void nap() { switch (sim_below(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep_ns(sim_below(20000)); break; default: sim_sleep_ns(sim_below(O->pace)); } }
// ---- providers
void give_up(int slot, int i, std::unique_ptr<SvcSkeleton>& s) { { SimAtomic a; O->live_holder[i] = -1; O->destroying[i][slot] = true; } s.reset(); SimAtomic a; O->destroying[i][slot] = false; O->destroyed_at[i] = O->seq++; }
struct Held { std::unique_ptr<SvcSkeleton> s; bool offered = false; };
void provider(int slot, int inc) {
    Held held[kInst];
    for (int n = 0; n < O->ops && !O->end; ++n) {
        const int i = static_cast<int>(sim_below(static_cast<unsigned>(O->insts)));
        if (!(O->prov_inst_mask[slot] >> i & 1)) continue;
        Held& h = held[i]; nap();
        if (!h.s) {
            int other0; std::uint64_t seq0; bool busy = false; { SimAtomic a; other0 = O->live_holder[i]; seq0 = O->seq++; for (bool d : O->destroying[i]) busy |= d; }
            auto r = SvcSkeleton::Create(spec(pspec(i)));
            SimAtomic a;
            sim_event("provider %d.%d creates instance %d: %s", slot, inc, i + 1, r ? "ok" : "refused");
            if (r) {
                for (bool d : O->destroying[i]) busy |= d; busy |= O->destroyed_at[i] > seq0;
                if (O->live_holder[i] >= 0 && sim_alive(O->prov_pid[O->live_holder[i]])) sim_violation("%sprovider %d may create instance %d although provider %d holds it", O->tainted[i] || busy ? "[existence-marker-race] " : "", slot, i + 1, O->live_holder[i]);
                O->tainted[i] = busy;
                O->live_holder[i] = slot; h.s = std::make_unique<SvcSkeleton>(std::move(r).value()); h.offered = false; sim_count("skeletons", 1);
            } else { sim_count("skeletons_refused", 1); if (other0 < 0 && O->live_holder[i] < 0 && !O->contend && !O->faults) sim_violation("provider %d cannot create instance %d although nobody holds it", slot, i + 1); }
            continue;
        }
        if (!h.offered) {
            if (sim_chance(200)) { sim_event("provider %d drops instance %d", slot, i + 1); give_up(slot, i, h.s); continue; }   // never offered or stopped
            set(i, kChanging); const auto r = h.s->OfferService(); set(i, r ? kOffered : kUnknown); { SimAtomic a; sim_event("provider %d.%d offers instance %d: %s", slot, inc, i + 1, r ? "ok" : "refused"); sim_count(r ? "offers" : "offers_refused", 1); }
            if (!r && !O->faults) sim_violation("provider %d cannot offer instance %d: %s", slot, i + 1, std::string(r.error().UserMessage()).c_str());
            h.offered = r.has_value(); continue;
        }
        if (O->end) break;
        if (sim_chance(300)) {   // destroyed while offered
            set(i, kChanging); sim_event("provider %d destroys instance %d", slot, i + 1); give_up(slot, i, h.s); set(i, kGone); h.offered = false;
        } else { set(i, kChanging); h.s->StopOfferService(); set(i, kGone); h.offered = false; SimAtomic a; sim_event("provider %d.%d withdraws instance %d", slot, inc, i + 1); }
        sim_count("withdrawals", 1);
    }
    while (!O->end) sim_sleep_ns(1000000);
    if (O->crash_pm == 0 || sim_chance(500)) for (int i = 0; i < kInst; ++i) if (held[i].s) give_up(slot, i, held[i].s);
    for (auto& h : held) (void)h.s.release();   // process exit without clean-up
}
// ---- searchers
struct Mine { std::mutex m; std::vector<std::pair<com::FindServiceHandle, Search*>> h; };
Search* start_search(const std::shared_ptr<Mine>& mine, int proc, int inc);
void stop_search(Search* s, com::FindServiceHandle h) {
    { SimAtomic a; s->stopping = true; sim_event("search %d is stopped", s->id); }
    const auto r = SvcProxy::StopFindService(h);
    SimAtomic a; if (!r) sim_violation("stopping search %d failed", s->id);
    if (s->in_cb && s->cb_thread != self()) sim_violation("stopping search %d returned while its handler runs in another thread", s->id);
    s->stopped = true; sim_count("searches_stopped", 1);
}
Search* start_search(const std::shared_ptr<Mine>& mine, int proc, int inc) {
    Search* s; { SimAtomic a; auto u = std::make_unique<Search>(); u->id = static_cast<int>(O->s.size()); u->proc = proc; u->inc = inc; u->inst = sim_chance(400) ? -1 : static_cast<int>(sim_below(static_cast<unsigned>(O->insts))); u->b = O->b && sim_chance(500); O->s.push_back(std::move(u)); s = O->s.back().get(); sim_event("process %d starts search %d for %d%s", proc, s->id, s->inst + 1, s->b ? " (B)" : ""); }
    auto r = SvcProxy::StartFindService([mine, s](com::ServiceHandleContainer<SvcProxy::HandleType> hs, com::FindServiceHandle h) noexcept {
        { SimAtomic a; if (s->stopped) sim_violation("the handler of search %d is called after the search was stopped", s->id); if (s->dead) sim_violation("the handler of search %d is called although starting it failed", s->id);
          if (s->in_cb && s->cb_thread != self()) sim_violation("the handler of search %d runs twice at the same time", s->id);
          s->in_cb++; s->cb_thread = self(); s->calls++; std::set<int> now; for (const auto& x : hs) { const int i = id_of(x) - 1; if (!now.insert(i).second) sim_violation("search %d reports instance %d twice", s->id, i + 1); if (i < 0 || i >= O->insts || (s->inst >= 0 && i != s->inst)) sim_violation("search %d for instance %d reports instance %d", s->id, s->inst + 1, i + 1); if (!O->in[i][s->b].ever) sim_violation("search %d reports instance %d which nobody ever offered", s->id, i + 1); }
          std::string t; for (int i : now) t += " " + std::to_string(i + 1); sim_event("search %d reports%s", s->id, t.empty() ? " nothing" : t.c_str()); sim_count("handler_calls", 1);
          if (s->started && now == s->last && s->calls > 1) sim_count("unchanged_reports", 1); s->last = now; }
        if (sim_chance(100)) sim_sleep_ns(sim_below(300000));
        if (O->stop_in_cb && sim_chance(150) && !O->quiet) { sim_count("stopped_in_handler", 1); bool mine_to_stop = false; { std::lock_guard<std::mutex> l{mine->m}; if (!s->stopping) { mine_to_stop = true; SimAtomic a; s->stopping = true; } } if (mine_to_stop) stop_search(s, h); }
        else if (O->start_in_cb && sim_chance(150) && !O->quiet) { sim_count("started_in_handler", 1); start_search(mine, s->proc, s->inc); }
        SimAtomic a; s->in_cb--;
    }, spec(cspec(s->inst, s->b)));
    if (!r) { SimAtomic a; s->dead = s->stopped = true; sim_count("searches_failed", 1); if (!O->faults) sim_violation("search %d cannot be started", s->id); return s; }
    { std::lock_guard<std::mutex> l{mine->m}; mine->h.emplace_back(r.value(), s); }
    { SimAtomic a; s->started = true; sim_count("searches", 1); }
    return s;
}
void one_shot(int proc) {
    const int inst = sim_chance(500) ? -1 : static_cast<int>(sim_below(static_cast<unsigned>(O->insts))); const bool b = O->b && sim_chance(500);
    Inst before[kInst]; { SimAtomic a; for (int i = 0; i < kInst; ++i) before[i] = O->in[i][b]; }
    auto r = SvcProxy::FindService(spec(cspec(inst, b)));
    SimAtomic a; if (!r) { sim_count("finds_failed", 1); if (!O->faults) sim_violation("a one-shot search failed"); return; }
    std::set<int> got; for (const auto& h : r.value()) if (!got.insert(id_of(h) - 1).second) sim_violation("a one-shot search reports instance %d twice", id_of(h));
    sim_count("finds", 1); std::string t; for (int i : got) t += " " + std::to_string(i + 1); sim_event("process %d finds%s", proc, t.c_str());
    for (int i = 0; i < O->insts; ++i) { const Inst& n = O->in[i][b]; if (inst >= 0 && i != inst) { if (got.count(i)) sim_violation("a search for instance %d finds %d", inst + 1, i + 1); continue; }
        if (n.since != before[i].since) continue;
        if (n.st == kOffered && !got.count(i)) sim_violation("a one-shot search by process %d misses instance %d which is offered all the time", proc, i + 1);
        if (n.st == kGone && got.count(i)) sim_violation("a one-shot search by process %d finds instance %d which is not offered at any time meanwhile", proc, i + 1); }
}
void searcher_thread(const std::shared_ptr<Mine>& mine, int proc, int inc) {
    for (int n = 0; n < O->ops && !O->quiet; ++n) {
        nap();
        switch (sim_below(5)) {
            case 0: case 1: start_search(mine, proc, inc); break;
            case 2: case 3: one_shot(proc); break;
            default: { com::FindServiceHandle h{com::impl::make_FindServiceHandle(0)}; Search* s = nullptr; { std::lock_guard<std::mutex> l{mine->m}; if (!mine->h.empty()) { const auto k = sim_below(static_cast<unsigned>(mine->h.size())); SimAtomic a; if (!mine->h[k].second->stopping) { h = mine->h[k].first; s = mine->h[k].second; s->stopping = true; } } } if (s) stop_search(s, h); }
        }
    }
}
void searcher(int slot, int inc) {
    auto mine = std::make_shared<Mine>();
    std::thread t; const bool two = sim_chance(400); if (two) t = std::thread([&] { searcher_thread(mine, slot, inc); });
    searcher_thread(mine, slot, inc); if (two) t.join();
    while (!O->end) sim_sleep_ns(1000000);
    for (;;) { std::pair<com::FindServiceHandle, Search*> x{com::impl::make_FindServiceHandle(0), nullptr}; { std::lock_guard<std::mutex> l{mine->m}; for (auto& e : mine->h) if (!e.second->stopping) { x = e; SimAtomic a; e.second->stopping = true; break; } } if (!x.second) break; stop_search(x.second, x.first); }
}
void process(int role, int inc, void* arg) {
    O = static_cast<Oracle*>(arg); init_runtime("/etc/com.json");
    if (role < 10) provider(role, inc); else searcher(role - 10, inc);
}
void after_death(int slot) { SimAtomic a; for (int i = 0; i < kInst; ++i) { const bool held = O->live_holder[i] == slot || O->destroying[i][slot]; if (held && O->contend) for (int q = 0; q < 2; ++q) if (O->in[i][q].st != kGone) { O->in[i][q].st = kUnknown; O->in[i][q].since = O->seq++; } if (O->destroying[i][slot]) { O->destroying[i][slot] = false; O->destroyed_at[i] = O->seq++; } if (O->live_holder[i] == slot) { O->live_holder[i] = -1; } } for (int i = 0; i < O->insts; ++i) if (O->prov_inst_mask[slot] >> i & 1) for (int q = 0; q < 2; ++q) if (!O->contend && O->in[i][q].st != kGone) { O->in[i][q].st = kUnknown; O->in[i][q].since = O->seq++; } }
void control(const std::string& prop) {
    auto o = std::make_unique<Oracle>(); O = o.get(); const bool c11 = prop == "C11";
    O->insts = c11 ? 1 + sim_chance(300) : 1 + static_cast<int>(sim_below(kInst)); O->contend = c11 || sim_chance(100); O->faults = false; O->b = sim_chance(300); O->providers = O->contend ? 2 + static_cast<int>(sim_below(3)) : 1 + static_cast<int>(sim_below(2)); O->searchers = c11 ? 0 + static_cast<int>(sim_below(2)) : 1 + static_cast<int>(sim_below(2)); static const unsigned paces[] = {50000, 1000000, 20000000}; O->pace = paces[sim_below(3)]; O->ops = 4 + static_cast<int>(sim_below(12)); O->stop_in_cb = sim_chance(500); O->start_in_cb = sim_chance(500);
    O->crash_pm = sim_chance(400) ? 1 : 0;
    if (O->contend) for (int p = 0; p < O->providers; ++p) O->prov_inst_mask[p] = (1 << O->insts) - 1; else for (int i = 0; i < O->insts; ++i) O->prov_inst_mask[sim_below(static_cast<unsigned>(O->providers))] |= 1 << i;
    O->cfg.asil_b = O->b; O->cfg.slots = 1 + sim_below(3); O->cfg.subscribers = 1 + sim_below(3);
    for (int i = 0; i < O->insts; ++i) { O->cfg.instances.push_back({pspec(i), 0, i + 1, O->b}); O->cfg.instances.push_back({cspec(i, false), 0, i + 1, false}); if (O->b) O->cfg.instances.push_back({cspec(i, true), 0, i + 1, true}); }
    O->cfg.instances.push_back({cspec(-1, false), 0, -1, false}); if (O->b) O->cfg.instances.push_back({cspec(-1, true), 0, -1, true});
    write_file("/etc/com.json", O->cfg.json());
    make_dirs(O->crash_pm ? 3 : 0);
    sim_max_steps(3000000);
    int sp[4] = {}, inc[8] = {}; bool crashed = false;
    for (int p = 0; p < O->providers; ++p) O->prov_pid[p] = sim_spawn("provider", p, 0, O->contend ? 1001 : 1001 + p, 1, O);
    for (int p = 0; p < O->searchers; ++p) sp[p] = sim_spawn("searcher", 10 + p, 0, 1011 + p, 1, O);
    const int crashes = O->crash_pm ? 1 + static_cast<int>(sim_below(3)) : 0;
    for (int k = 0; k < crashes; ++k) {
        sim_sleep_ns(sim_below(O->pace * 4)); const int p = static_cast<int>(sim_below(static_cast<unsigned>(O->providers))); if (!sim_alive(O->prov_pid[p])) continue;
        sim_crash_after(O->prov_pid[p], sim_below(sim_chance(500) ? 300 : 4000)); sim_wait_exit(O->prov_pid[p], 1000000000ull); sim_kill(O->prov_pid[p]);
        sim_event("provider %d is dead", p); after_death(p); crashed = true; sim_count("provider_crashes", 1);
        if (sim_chance(700) || O->contend) { sim_sleep_ns(sim_below(O->pace)); O->prov_pid[p] = sim_spawn("provider", p, ++inc[p], O->contend ? 1001 : 1001 + p, 1, O); }
    }
    // let all of them finish what they do; the faults stop here
    sim_sleep_ns(3000000000ull); O->quiet = true; sim_calm(); sim_sleep_ns(3000000000ull);
    { SimAtomic a; for (auto& s : O->s) if (s->started && !s->stopped && !s->stopping) for (int i = 0; i < O->insts; ++i) { if (s->inst >= 0 && i != s->inst) continue; const Inst& x = O->in[i][s->b]; if (x.st == kOffered && !s->last.count(i)) sim_violation("search %d (process %d) does not report instance %d which is offered", s->id, s->proc, i + 1); if (x.st == kGone && s->last.count(i)) sim_violation("search %d (process %d) still reports instance %d which is not offered", s->id, s->proc, i + 1); sim_count("searches_checked", 1); } }
    O->end = true; (void)crashed;
    for (int p = 0; p < O->searchers; ++p) if (!sim_wait_exit(sp[p], 20000000000ull)) sim_violation("searcher %d does not end", p);
    for (int p = 0; p < O->providers; ++p) if (!sim_wait_exit(O->prov_pid[p], 20000000000ull)) sim_violation("provider %d does not end", p);
}
}
