// Fibers, scheduler, virtual time, decisions.
#include "core.h"
#include <cstdarg>
#include <sys/mman.h>
#include <unistd.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <mutex>
#include <set>
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
namespace sim {
Result* R; Config C; Fiber* cur; std::vector<Fiber*> fibers; std::vector<Proc*> procs; u64 now_ns = 1000000000ULL * 1000; u64 steps; bool tracing_text;
std::vector<Region> tracked; std::map<std::string, std::string> params;
static Rng cfg_rng, sched_rng, fault_rng;
static u64 max_steps = 400000; static bool budget_ok = true; static bool calm; static bool faults_on = true;
static u64 tick; static int strategy; static u32 sw_num, sw_den; static u32 priv_w; static u64 plain_interval; static u32 npct; static u64 pct_points[8]; static int pct_low;
static unsigned fault_rate[SF_COUNT]; static u32 fault_scale;
static u64 hash_, shash; static Ctx main_ctx; static u64 next_deadline = ~0ULL; static bool finished;
static int last_sw_from = -1;
static const char* fault_names[] = {"crash","cas_spurious","cond_spurious","eintr","eagain","short_read","short_write","enomem","enospc","emfile","econn","stall","time_leap","delay","eio","user0","user1","user2","user3"};
static std::vector<std::pair<int, std::string>> log_watch; static std::set<std::pair<int, std::string>> log_hits;   // log texts that a scenario wants to know about
Proc* proc(int pid) { return pid >= 0 && pid < static_cast<int>(procs.size()) ? procs[pid] : nullptr; }

asm(R"(
.text
.globl sim_switch_ctx
.type sim_switch_ctx,@function
sim_switch_ctx:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq (%rsi), %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl sim_fiber_boot
.type sim_fiber_boot,@function
sim_fiber_boot:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  call sim_fiber_main
  ud2
  .cfi_endproc
)");
extern "C" void sim_switch_ctx(Ctx*, Ctx*); extern "C" void sim_fiber_boot();

void hist(const char* fmt, ...) {
    if (!R) return;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (const char* p = b; *p; ++p) hash_ = hash_ * 1099511628211ULL ^ static_cast<u8>(*p);
    if (!tracing_text) return;
    if (params.count("brief")) for (const char* w : {"poll", "read ", "write ", "recvmsg", "sendmsg", "log ", "socket", "connect", "close", "inotify", "stat ", "mkdir", "chmod", "listdir"}) if (!strncmp(b, w, strlen(w))) return;
    char l[760]; const int n = snprintf(l, sizeof l, "%8llu %12.6fms p%d/f%d %s\n", static_cast<unsigned long long>(steps), (now_ns - 1000000000000ULL) / 1e6, cur ? cur->pid : -1, cur ? cur->id : -1, b);
    const int cap = sizeof R->hist - 1;
    if (R->nhist + n > cap) { const int drop = R->nhist / 2; memmove(R->hist, R->hist + drop, R->nhist - drop); R->nhist -= drop; }
    memcpy(R->hist + R->nhist, l, n); R->nhist += n; R->hist[R->nhist] = 0;
}
// debugging aid: what looks like return addresses on the stacks of the blocked fibers
static void out(const char* f, ...) { char b[400]; va_list a; va_start(a, f); const int n = vsnprintf(b, sizeof b, f, a); va_end(a); syscall(SYS_write, 2, b, n < 400 ? n : 399); }
static void dump_stacks() {
    for (Fiber* f : fibers) {
        if (f->state == FState::kDone || f == cur) continue;
        out("--- p%d/f%d %s\n", f->pid, f->id, f->wait_what ? f->wait_what : "");
        u64 sp; memcpy(&sp, &f->ctx, sizeof sp); int n = 0;
        for (; sp + 8 <= reinterpret_cast<u64>(f->stack) + f->stack_size && n < 60; sp += 8) {
            u64 v; memcpy(&v, reinterpret_cast<void*>(sp), 8); Dl_info i; if (v < 0x10000 || !dladdr(reinterpret_cast<void*>(v), &i) || !i.dli_sname) continue;
            const auto off = v - reinterpret_cast<u64>(i.dli_saddr); if (!off) continue;
            int st = 1; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); out("   %.160s +%llu\n", st == 0 ? d : i.dli_sname, static_cast<unsigned long long>(off)); n++;
        }
    }
}
void finish(int verdict, const char* fmt, ...) {
    if (finished) _exit(0);
    finished = true;
    char b[1400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (R) {
        hist("END %d %s", verdict, b);
        if (verdict) for (Fiber* f : fibers) if (f->state == FState::kBlocked && f->wait_what) hist("  p%d/f%d waits: %s", f->pid, f->id, f->wait_what);
        if (params.count("stacks")) dump_stacks();
        R->verdict = verdict; snprintf(R->text, sizeof R->text, "%s", b);
        R->hash = mix(mix(hash_, steps), now_ns); R->sched_hash = shash; R->steps = steps; R->sim_ns = now_ns - 1000000000000ULL;
        R->done = 1;
    } else fprintf(stderr, "finish %d %s\n", verdict, b);
    _exit(0);
}
static void record(u64 key, u32 val) {
    R->decisions++;
    if (R->ntrace < kMaxTrace) { R->trace[R->ntrace].key = key; R->trace[R->ntrace].val = val; }
    if (R->ntrace <= kMaxTrace) R->ntrace++;
}
static bool lookup(u64 key, u32* v) { auto it = C.trace.find(key); if (it == C.trace.end()) return false; *v = it->second; return true; }
static u64 next_plain_after(Fiber* f, u64 n) {
    if (C.replay) { auto it = C.trace.lower_bound(dkey(DK_PLAIN, f->id, n)); if (it == C.trace.end() || (it->first >> 48) != ((u64)DK_PLAIN << 12 | (u64)f->id)) return ~0ULL; return it->first & 0xffffffffffffULL; }
    if (!plain_interval) return ~0ULL;
    return n + 1 + sched_rng.below(static_cast<u32>(2 * plain_interval));
}
Fiber* new_fiber(int pid, void* (*fn)(void*), void* arg, const char* name) {
    Fiber* f = new Fiber{};
    f->id = static_cast<int>(fibers.size()); f->pid = pid; f->state = FState::kRunnable; f->fn = fn; f->arg = arg; f->stack_size = 512 * 1024;
    if (f->id >= 4000) finish(2, "too many threads");
    f->stack = reinterpret_cast<u8*>(kStackLo + (static_cast<u64>(f->id) << kStackBits));
    if (mmap(f->stack, f->stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) finish(3, "no stack");
    mprotect(f->stack, 4096, PROT_NONE);
    void** sp = reinterpret_cast<void**>(f->stack + f->stack_size - 64);
    *--sp = nullptr; *--sp = nullptr; *--sp = reinterpret_cast<void*>(&sim_fiber_boot);
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f->ctx.sp = sp;
    f->deadline = ~0ULL; f->tls = new std::map<u64, u8*>; f->keys = new std::map<unsigned, void*>; f->atexit = new std::vector<std::pair<void (*)(void*), void*>>; f->name = new std::string(name ? name : "");
    Proc* p = proc(pid); f->tindex = p->nthreads++; p->live_threads++;
    f->rng.s = mix(mix(C.seed, 0x5157), static_cast<u64>(pid) * 1000 + f->tindex);
    f->prio = 100 + static_cast<int>(sched_rng.below(1000));
    f->vc = new std::vector<u64>; f->frames = new std::vector<u64>;
    fibers.push_back(f);
    f->next_plain = next_plain_after(f, 0);
    hb_fork(f);
    return f;
}
extern "C" void sim_fiber_main() {
    Fiber* f = cur;
    f->in_sim = false;
    f->ret = f->fn(f->arg);
    f->in_sim = true;
    fiber_exit_cleanup(f);
    f->state = FState::kDone;
    hb_release(f);
    Proc* p = proc(f->pid); p->live_threads--;
    wake(f, -1);
    f->in_sim = true;
    block(nullptr, "done", ~0ULL);
    __builtin_trap();
}
void fiber_exit_cleanup(Fiber* f) {
    f->in_sim = false;
    while (!f->atexit->empty()) { auto e = f->atexit->back(); f->in_sim = true; f->atexit->pop_back(); f->in_sim = false; e.first(e.second); }
    f->in_sim = true;
}
static void save(Fiber* f) { void** g = reinterpret_cast<void**>(abi::__cxa_get_globals()); f->cxa[0] = g[0]; f->cxa[1] = g[1]; f->once[0] = std::__once_callable; f->once[1] = reinterpret_cast<void*>(std::__once_call); f->err = errno; }
static void restore(Fiber* f) { void** g = reinterpret_cast<void**>(abi::__cxa_get_globals()); g[0] = f->cxa[0]; g[1] = f->cxa[1]; std::__once_callable = f->once[0]; std::__once_call = reinterpret_cast<void (*)()>(f->once[1]); errno = f->err; }
static void switch_to(Fiber* n) {
    Fiber* o = cur;
    if (o == n) return;
    R->switches++; shash = mix(shash, static_cast<u64>(n->id) << 32 | (o ? o->points & 0xffffffff : 0)); hash_ = mix(hash_, shash);
    if (o) save(o);
    cur = n; n->last_run = steps; restore(n);
    sim_switch_ctx(o ? &o->ctx : &main_ctx, &n->ctx);
}
static void recompute_deadline() { next_deadline = ~0ULL; for (Fiber* f : fibers) if (f->state == FState::kBlocked && f->deadline < next_deadline) next_deadline = f->deadline; }
static void expire() {
    for (Fiber* f : fibers) if (f->state == FState::kBlocked && f->deadline <= now_ns) { f->state = FState::kRunnable; f->timed_out = true; }
    recompute_deadline();
}
static int runnable(Fiber** out, bool with_cur) {
    int n = 0; bool stalled = false;
    for (Fiber* f : fibers) if (f->state == FState::kRunnable && (with_cur || f != cur)) { if (f->stall_until > steps && !calm) { stalled = true; continue; } out[n++] = f; }
    if (!n && stalled) for (Fiber* f : fibers) if (f->state == FState::kRunnable && (with_cur || f != cur)) { f->stall_until = 0; out[n++] = f; }
    return n;
}
static Fiber* cand[4096];
static bool others_idle() { for (Fiber* f : fibers) if (f->state == FState::kBlocked && f->deadline != ~0ULL && !f->idle_wait) return false; return true; }
// cur cannot continue: choose who runs
static void schedule() {
    for (;;) {
        if (next_deadline <= now_ns) expire();
        const int n = runnable(cand, true);
        if (n) {
            Fiber* d = nullptr;  // default: round robin
            for (Fiber* f : fibers) if (f->state == FState::kRunnable) { if (!d) d = f; if (f->id > cur->id) { d = f; break; } }   // stalled ones too: a replay knows no stalls
            Fiber* t = d; u32 v;
            const u64 key = dkey(DK_BLOCK, cur->id, cur->blocks++);
            if (C.replay) { if (lookup(key, &v)) for (int i = 0; i < n; ++i) if (static_cast<u32>(cand[i]->id) == v) t = cand[i]; }
            else if (!calm) {
                t = cand[0];
                if (strategy == 1) { for (int i = 0; i < n; ++i) if (cand[i]->prio > t->prio) t = cand[i]; }
                else t = cand[sched_rng.below(n)];
            }
            if (t != d) record(key, t->id);
            switch_to(t);
            return;
        }
        for (Fiber* f : fibers) if (f->state == FState::kBlocked && f->idle_wait && others_idle()) { f->idle_wait = 2; f->state = FState::kRunnable; f->timed_out = false; goto again; }
        if (next_deadline == ~0ULL) {
            std::string s;
            for (Fiber* f : fibers) if (f->state == FState::kBlocked) { char b[160]; snprintf(b, sizeof b, " [%s/%s waits: %s]", proc(f->pid)->name.c_str(), f->name->c_str(), f->wait_what ? f->wait_what : "?"); s += b; }
            finish(1, "deadlock: no thread can run and no time limit is pending:%s", s.c_str());
        }
        if (next_deadline > now_ns) now_ns = next_deadline;
        if (++steps > max_steps) finish(budget_ok ? 2 : 1, "step budget exceeded");
        expire();
        again:;
    }
}
void kill_proc(int pid, int kind, const char* text) {
    Proc* p = proc(pid); if (!p || !p->alive) return;
    p->alive = false; p->exit_kind = kind; p->exit_text = text ? text : ""; p->crash_in = -1;
    hist("process %s ends: kind %d %s", p->name.c_str(), kind, p->exit_text.c_str());
    for (Fiber* f : fibers) if (f->pid == pid && f->state != FState::kDone) { f->state = FState::kDead; f->deadline = ~0ULL; }
    recompute_deadline();
    hb_proc_died(pid); kernel_proc_died(pid);
    wake(p, -1);
}
void die_current(int kind, const char* text) { cur->in_sim = true; cur->no_preempt = 0; kill_proc(cur->pid, kind, text); schedule(); __builtin_trap(); }
void abort_process(const char* text) {
    cur->in_sim = true;
    Proc* p = cur_proc();
    if (!p->expect_abort) finish(1, "%sprocess %s terminated itself: %s", tag_of(p, text).c_str(), p->name.c_str(), text);
    die_current(3, text);
}
void block(const void* obj, const char* what, u64 deadline) {
    if (cur->no_preempt) finish(3, "blocking (%s) inside an atomic section", what);
    if (cur->state == FState::kRunnable) { cur->state = FState::kBlocked; cur->wait_obj = obj; cur->wait_what = what; cur->blocked_at = now_ns; cur->deadline = deadline; cur->timed_out = false; if (deadline < next_deadline) next_deadline = deadline; }
    Fiber* me = cur;
    schedule();
    me->wait_obj = nullptr; me->wait_what = nullptr; me->deadline = ~0ULL;
}
void wake(const void* obj, int n) {
    int c = 0; Fiber** w = static_cast<Fiber**>(alloca(sizeof(Fiber*) * fibers.size()));
    for (Fiber* f : fibers) if (f->state == FState::kBlocked && f->wait_obj == obj) w[c++] = f;
    while (c && n) { const u32 k = n < 0 ? 0 : draw(c, 0); w[k]->state = FState::kRunnable; w[k]->woken = true; w[k] = w[--c]; if (n > 0) --n; }
}
u32 draw(u32 n, u32 dflt) {
    if (n <= 1) return 0;
    Fiber* f = cur; const u64 key = dkey(DK_DRAW, f->id, f->draws++); u32 v = dflt;
    if (C.replay) { u32 x; if (lookup(key, &x) && x < n) v = x; } else if (!calm) v = fault_rng.below(n);
    if (v != dflt) record(key, v);
    return v;
}
bool fault(int kind) {
    if (!cur) return false;
    Fiber* f = cur; const u64 key = dkey(DK_DRAW, f->id, f->draws++); u32 v = 0;
    if (C.replay) { u32 x; if (lookup(key, &x)) v = 1; }
    else if (faults_on && !calm && !f->no_preempt && fault_rate[kind]) v = fault_rng.below(1000000) < fault_rate[kind] * fault_scale;
    if (v) { record(key, 1); R->faults[kind]++; hist("fault %s", fault_names[kind]); }
    return v != 0;
}
void point(int cls) {
    Fiber* f = cur;
    if (!f || f->no_preempt) return;
    ++steps; now_ns += tick; ++f->points; hash_ = mix(hash_, static_cast<u64>(f->id) << 8 | cls);
    if (steps > max_steps) finish(budget_ok ? 2 : 1, "step budget exceeded");
    Proc* p = procs[f->pid];
    if (p->crash_in > 0 && --p->crash_in == 0) { R->faults[SF_CRASH]++; hist("fault crash of %s", p->name.c_str()); die_current(2, "killed by the fault injector"); }
    if (next_deadline <= now_ns) expire();
    const u64 key = dkey(DK_SWITCH, f->id, f->points);
    Fiber* t = f;
    if (C.replay) {
        u32 v; if (lookup(key, &v)) { if (v >= 0x80000000u) { R->faults[SF_DELAY]++; record(key, v); block(nullptr, "delay", now_ns + static_cast<u64>(v - 0x80000000u) * 1000); return; } if (v >= 0x10000) { now_ns += static_cast<u64>(v - 0x10000) * 100000; R->faults[SF_TIME_LEAP]++; record(key, v); expire(); return; }
            if (v < fibers.size() && fibers[v]->state == FState::kRunnable) t = fibers[v]; }
    } else if (calm) {
        if ((f->points & 63) == 0) { const int n = runnable(cand, false); for (int i = 0; i < n; ++i) if (t == f || cand[i]->last_run < t->last_run) t = cand[i]; }
    } else {
        if (cls && sched_rng.below(1000) >= priv_w) return;
        if (faults_on && fault_rate[SF_TIME_LEAP] && sched_rng.below(1000000) < fault_rate[SF_TIME_LEAP] * fault_scale / 8) {
            const u32 leap = 1 + (sched_rng.below(4) ? sched_rng.below(500) : sched_rng.below(30000));
            now_ns += static_cast<u64>(leap) * 100000; R->faults[SF_TIME_LEAP]++; record(key, 0x10000 + leap); expire(); return;
        }
        if (faults_on && fault_rate[SF_DELAY] && !cls && sched_rng.below(1000000) < fault_rate[SF_DELAY] * fault_scale / 8) {   // one thread does not run for a while
            const u32 us = 1 + sched_rng.below(sched_rng.below(3) ? 200 : 20000); R->faults[SF_DELAY]++; record(key, 0x80000000u + us); block(nullptr, "delay", now_ns + static_cast<u64>(us) * 1000); return;
        }
        if (faults_on && fault_rate[SF_STALL] && sched_rng.below(1000000) < fault_rate[SF_STALL] * fault_scale) {
            f->stall_until = steps + 50 + sched_rng.below(3000); R->faults[SF_STALL]++;
            const int n = runnable(cand, false); if (n) t = cand[sched_rng.below(n)];
        } else if (strategy == 1) {
            for (u32 i = 0; i < npct; ++i) if (pct_points[i] == steps) f->prio = pct_low--;
            if (steps - f->last_run > 3000) { f->prio = pct_low--; f->last_run = steps; }
            const int n = runnable(cand, true); for (int i = 0; i < n; ++i) if (cand[i]->prio > t->prio) t = cand[i];
        } else if (sched_rng.below(sw_den) < sw_num) {
            const int n = runnable(cand, false);
            if (n) { t = cand[sched_rng.below(n)];
                if (strategy == 2 && last_sw_from >= 0 && sched_rng.below(2)) for (int i = 0; i < n; ++i) if (cand[i]->id == last_sw_from) t = cand[i]; // ping-pong
                last_sw_from = f->id; }
        }
    }
    if (t != f) { record(key, t->id); switch_to(t); }
}
void plain_point() {
    Fiber* f = cur;
    f->next_plain = next_plain_after(f, f->plain + 1);
    if (f->no_preempt || calm) return;
    const u64 key = dkey(DK_PLAIN, f->id, f->plain); Fiber* t = f; u32 v;
    if (C.replay) { if (lookup(key, &v) && v < fibers.size() && fibers[v]->state == FState::kRunnable) t = fibers[v]; }
    else { const int n = runnable(cand, false); if (n) t = cand[sched_rng.below(n)]; }
    if (t != f) { ++steps; now_ns += tick; record(key, t->id); switch_to(t); }   // leaves no trace otherwise: a replay comes here only for recorded switches
}
static void* control_main(void* p) { reinterpret_cast<void (*)()>(p)(); cur->in_sim = true; finish(0, "held"); }
void run(void (*control)()) {
    cfg_rng.s = mix(C.seed, 1); sched_rng.s = mix(C.seed, 2); fault_rng.s = mix(C.seed, 3); hash_ = C.seed; shash = 0;
    tick = 20 + cfg_rng.below(200);
    static const u32 pr[][2] = {{1,2},{1,4},{1,8},{1,16},{1,40},{1,100},{1,400}};
    const u32 k = cfg_rng.below(7); sw_num = pr[k][0]; sw_den = pr[k][1];
    strategy = static_cast<int>(cfg_rng.below(3));
    npct = cfg_rng.below(8); const u32 span = 1u << (7 + cfg_rng.below(10)); for (u32 i = 0; i < npct; ++i) pct_points[i] = 1 + cfg_rng.below(span);
    static const u32 pw[] = {1000, 1000, 300, 50, 0}; priv_w = pw[cfg_rng.below(5)];
    static const u64 pi[] = {0, 0, 2000, 300, 60}; plain_interval = pi[cfg_rng.below(5)];
    fault_scale = 1000; if (cfg_rng.below(4) == 0) fault_scale = 0; else if (cfg_rng.below(2)) fault_scale = 250;
    Proc* p = new Proc{}; p->pid = 0; p->name = "control"; p->alive = true; p->crash_in = -1; procs.push_back(p);
    Fiber* f = new_fiber(0, control_main, reinterpret_cast<void*>(control), "control");
    cur = nullptr; switch_to(f);
    __builtin_trap();
}
static void* process_main(void* a) {
    Proc* p = static_cast<Proc*>(a); Fiber* f = cur;
    Image& im = images[p->image];
    im.pmain(p->role, p->incarnation, p->arg);
    f->in_sim = true; fiber_exit_cleanup(f); f->in_sim = false;
    if (im.used) run_exit_handlers(p->image);
    f->in_sim = true;
    p->live_threads = 0; f->state = FState::kDone;
    kill_proc(p->pid, 1, "returned");
    schedule();
    __builtin_trap();
}
}
using namespace sim;
namespace sim { std::string tag_of(Proc* p, const char* text) { for (auto& e : p->tags) if (!e.second.empty() && strstr(text, e.second.c_str())) return "[" + e.first + "] "; return ""; } }
extern "C" {
std::uint64_t sim_rand64() { return cur->rng.next(); }
std::uint32_t sim_below(std::uint32_t n) { return cur->rng.below(n); }
int sim_chance(unsigned pm) { return cur->rng.below(1000) < pm; }
static std::string mutual;
void sim_mutual_send(const char* finding) { mutual = finding; }
static bool mutual_send() { int first = -1; for (Fiber* f : fibers) if (f->state == FState::kBlocked && f->wait_what && !strcmp(f->wait_what, "write") && now_ns > f->blocked_at + 2000000000ULL) { if (first < 0) first = f->pid; else if (first != f->pid) return true; } return false; }
void sim_violation(const char* fmt, ...) { cur->in_sim = true; char b[1300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); const bool m = !mutual.empty() && *b != '[' && mutual_send(); finish(1, m ? "[%s] %s" : "%s%s", m ? mutual.c_str() : "", b); }
void sim_event(const char* fmt, ...) { InSim s; char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); hist("%s", b); }
void sim_count(const char* name, long n) {
    for (int i = 0; i < R->ncounters; ++i) if (!strncmp(R->counters[i].name, name, 39)) { R->counters[i].n += n; return; }
    if (R->ncounters < kMaxCounters) { snprintf(R->counters[R->ncounters].name, 40, "%s", name); R->counters[R->ncounters++].n = n; }
}
void sim_cover(std::uint64_t s) { if (R->ncover < kMaxCover) R->cover[R->ncover++] = s; }
void sim_atomic_begin() { if (cur) cur->no_preempt++; }
void sim_atomic_end() { if (cur) cur->no_preempt--; }
void sim_yield() { InSim s; point(0); }
int sim_spawn(const char* name, int role, int inc, int uid, int own, void* arg) {
    InSim s; point(0);
    Proc* p = new Proc{}; p->pid = static_cast<int>(procs.size()); p->name = name; p->uid = uid; p->role = role; p->incarnation = inc; p->alive = true; p->crash_in = -1; p->arg = arg; p->image = 0;
    if (own) { int k = -1; for (std::size_t i = 1; i < images.size(); ++i) if (!images[i].used) { k = static_cast<int>(i); break; } if (k < 0) finish(3, "no image copy left"); images[k].used = true; p->image = k; }
    procs.push_back(p); hist("spawn %s pid %d image %d", name, p->pid, p->image);
    hb_proc_started(new_fiber(p->pid, process_main, p, "main"));
    return p->pid;
}
int sim_self() { return cur ? cur->pid : 0; }
int sim_alive(int pid) { return proc(pid)->alive; }
int sim_exit_kind(int pid) { return proc(pid)->exit_kind; }
const char* sim_exit_text(int pid) { return proc(pid)->exit_text.c_str(); }
void sim_expect_abort(int pid, int on) { proc(pid)->expect_abort = on; }
void sim_tag_termination(int pid, const char* tag, const char* text) { InSim s; auto& v = proc(pid)->tags; if (!*text) { for (auto& e : v) if (e.first == tag) e.second.clear(); return; } for (auto& e : v) if (e.first == tag && (e.second == text || e.second.empty())) { e.second = text; return; } v.emplace_back(tag, text); }
void sim_kill(int pid) { InSim s; if (!proc(pid)->alive) return; R->faults[SF_CRASH]++; kill_proc(pid, 2, "killed by the fault injector"); if (cur->pid == pid) { schedule(); __builtin_trap(); } }
void sim_crash_after(int pid, unsigned n) { proc(pid)->crash_in = n ? n : 1; }
int sim_wait_exit(int pid, std::uint64_t to) { InSim s; Proc* p = proc(pid); const u64 d = to == ~0ULL ? to : now_ns + to; while (p->alive) { block(p, "process exit", d); if (cur->timed_out && p->alive) return 0; } return 1; }
void sim_sleep_ns(std::uint64_t ns) { InSim s; block(nullptr, "sleep", now_ns + ns); }
std::uint64_t sim_now_ns() { return now_ns; }
std::uint64_t sim_steps() { return steps; }
int sim_wait_idle(std::uint64_t to) { InSim s; cur->idle_wait = 1; block(nullptr, "idle", now_ns + to); const int r = cur->idle_wait == 2; cur->idle_wait = 0; return r; }
void sim_allow_fault(int kind, unsigned pm) { static const unsigned q[] = {0, 1, 2, 4, 4}; const unsigned k = q[cfg_rng.below(5)]; fault_rate[kind] = pm * k / 4; }
void sim_faults(int on) { faults_on = on; }
int sim_fault(int kind) { InSim s; return fault(kind); }
void sim_calm() { calm = true; for (Proc* p : procs) p->crash_in = -1; for (Fiber* f : fibers) f->next_plain = ~0ULL; }
void sim_max_steps(std::uint64_t n) { max_steps = n; }
void sim_budget_ok(int on) { budget_ok = on; }
void sim_give_up(const char* why) { cur->in_sim = true; finish(2, "%s", why); }
const char* sim_param(const char* k) { auto it = params.find(k); return it == params.end() ? "" : it->second.c_str(); }
int sim_heap_state(const void* p) { return heap_state(p); }
void sim_track_region(const void* p, std::size_t n) { InSim s; tracked.push_back({reinterpret_cast<u64>(p), reinterpret_cast<u64>(p) + n}); }
int sim_cas_weak_spurious() { if (!cur || cur->in_sim) return 0; InSim s; return fault(SF_CAS_SPURIOUS); }
void sim_contract_failure(const char* kind, const char* cond, const char* file, int line) { char b[700]; const char* s = strrchr(file, 0x2f); snprintf(b, sizeof b, "%s failed: %s at %s:%d", kind, cond, s ? s + 1 : file, line); if (!cur) { fprintf(stderr, "outside of a run: %s\n", b); _exit(70); } abort_process(b); }
int sim_log_enabled(int level) { return level <= 3; }
void sim_log_write(int level, const char* ctx, const char* text) {
    InSim s; const std::string t = std::string(ctx) + ": " + text; if (level == 1) cur->fatal = t;
    hist("log %s %s", level == 1 ? "fatal" : level == 2 ? "error" : "warning", t.c_str());
    for (auto& w : log_watch) if (w.first == cur->pid && t.find(w.second) != std::string::npos) log_hits.insert({w.first, w.second});
}
void sim_watch_log(int pid, const char* text) { InSim s; log_watch.push_back({pid, text}); }
int sim_log_seen(int pid, const char* text) { InSim s; return log_hits.count({pid, text}) ? 1 : 0; }
}
