// Runtime behind clang's -fsanitize=thread instrumentation: scheduling points, heap checks, happens-before race detection.
#include "core.h"
#include <unordered_map>
#include <atomic>
#include <algorithm>
#include <execinfo.h>
namespace sim {
using VC = std::vector<u64>;
static bool race_on; static bool race_heap; volatile bool user_access;
static void join(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (std::size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i]; }
struct SyncVar { VC rel; };
struct FiberHb { VC fence_rel, fence_acq; bool has_rel = false; };
static std::unordered_map<u64, SyncVar>* sync_vars; static std::vector<FiberHb>* fhb;
static FiberHb& fh(int id) { if (!fhb) fhb = new std::vector<FiberHb>; if (static_cast<int>(fhb->size()) <= id) fhb->resize(id + 1); return (*fhb)[id]; }
static SyncVar& sv(u64 a) { if (!sync_vars) sync_vars = new std::unordered_map<u64, SyncVar>; return (*sync_vars)[a]; }
static std::vector<Region>* race_regions;   // in canonical addresses; none: everywhere
static u64& own(Fiber* f) { if (static_cast<int>(f->vc->size()) <= f->id) f->vc->resize(f->id + 1); return (*f->vc)[f->id]; }
void hb_acquire(const void* o) { if (!race_on || !cur || !sync_vars) return; auto it = sync_vars->find(canonical(reinterpret_cast<u64>(o))); if (it != sync_vars->end()) join(*cur->vc, it->second.rel); }
void hb_release(const void* o) { if (!race_on || !cur) return; own(cur); join(sv(canonical(reinterpret_cast<u64>(o))).rel, *cur->vc); own(cur)++; }
void hb_fork(Fiber* c) { if (cur) { own(cur); join(*c->vc, *cur->vc); own(cur)++; } own(c)++; }
static char proc_death;   // whatever a process did is ordered before its successors
void hb_proc_died(int pid) { if (!race_on) return; for (Fiber* f : fibers) if (f->pid == pid) join(sv(reinterpret_cast<u64>(&proc_death)).rel, *f->vc); }
void hb_proc_started(Fiber* c) { if (!race_on) return; join(*c->vc, sv(reinterpret_cast<u64>(&proc_death)).rel); }
void hb_join(Fiber* c) { if (cur) join(*cur->vc, *c->vc); }
struct Cell { u64 clk; int fiber; u8 off, size, write, atomic; const void* pc; };
static std::unordered_map<u64, std::vector<Cell>>* cells;
static std::string where(const void* pc) {
    void* b[1] = {const_cast<void*>(pc)}; char** s = backtrace_symbols(b, 1); std::string r = s && s[0] ? s[0] : "?"; auto k = r.rfind('/'); if (k != std::string::npos) r = r.substr(k + 1); return r;
}
static void race_check(u64 a, unsigned n, bool w, bool at, const void* pc) {
    const u64 c = canonical(a); const int me = cur->id;
    if (race_regions) { bool in = false; for (auto& r : *race_regions) if (c < r.hi && c + n > r.lo) in = true; if (!in) return; }
    VC& vc = *cur->vc; own(cur);
    if (!cells) { cells = new std::unordered_map<u64, std::vector<Cell>>; cells->reserve(4096); }
    u64 g = c & ~7ULL; unsigned off = static_cast<unsigned>(c & 7);
    while (n) {
        const unsigned k = std::min(n, 8 - off);
        auto& v = (*cells)[g]; bool done = false;
        for (std::size_t i = 0; i < v.size();) {
            Cell& x = v[i];
            const bool overlap = x.off < off + k && off < static_cast<unsigned>(x.off) + x.size;
            if (overlap && x.fiber != me && (x.write || w) && !(x.atomic && at)) {
                const bool ordered = static_cast<int>(vc.size()) > x.fiber && vc[x.fiber] >= x.clk;
                if (!ordered) finish(1, "data race: %s of %u bytes by %s/%s at %s is not ordered after %s by %s/%s at %s", w ? (at ? "atomic write" : "write") : (at ? "atomic read" : "read"), k, cur_proc()->name.c_str(), cur->name->c_str(), where(pc).c_str(), x.write ? "the write" : "the read", proc(fibers[x.fiber]->pid)->name.c_str(), fibers[x.fiber]->name->c_str(), where(x.pc).c_str());
            }
            if (x.fiber == me && x.off >= off && x.off + x.size <= off + k && (w || !x.write) && x.atomic == at) {
                if (!done) { x.clk = vc[me]; x.off = static_cast<u8>(off); x.size = static_cast<u8>(k); x.write = w; x.pc = pc; done = true; ++i; } else { v[i] = v.back(); v.pop_back(); }
            } else ++i;
        }
        if (!done) v.push_back({vc[me], me, static_cast<u8>(off), static_cast<u8>(k), w, at, pc});
        g += 8; off = 0; n -= k;
    }
}
static void race_forget(u64 a, u64 n) { if (cells) for (u64 g = a & ~7ULL; g < a + n; g += 8) cells->erase(canonical(g)); }
[[gnu::noinline]] static void bad_heap(u64 a, int st, bool w, const void* pc) {
    Fiber* f = cur; f->in_sim = true;
    finish(1, "%s of %s heap memory by %s/%s at %s", w ? "write" : "read", st == 2 ? "freed" : "never allocated", cur_proc()->name.c_str(), f->name->c_str(), where(pc).c_str()); (void)a;
}
static inline bool in_tracked(u64 a) { for (auto& r : tracked) if (a >= r.lo && a < r.hi) return true; return false; }
static inline bool own_stack(u64 a) { return a - reinterpret_cast<u64>(cur->stack) < cur->stack_size; }
// memory of another thread's function that has returned
static inline void stack_check(u64 a, bool w, const void* pc) {
    const u64 i = (a - kStackLo) >> kStackBits; if (a < kStackLo || i >= fibers.size()) return;
    Fiber* f = fibers[i]; if (f == cur || f->pid != cur->pid || (a & ((1ULL << kStackBits) - 1)) >= f->stack_size) return;
    if (f->state != FState::kDone && (f->frames->empty() || a >= f->frames->back())) return;
    cur->in_sim = true; finish(1, "%s of the stack of a function that has returned in %s/%s, by %s at %s", w ? "write" : "read", cur_proc()->name.c_str(), f->name->c_str(), cur->name->c_str(), where(pc).c_str());
}
static inline void heap_check(u64 a, unsigned n, bool w, const void* pc) {
    stack_check(a, w, pc);
    if (heap_contains(reinterpret_cast<void*>(a))) {
        const int s = heap_state(reinterpret_cast<void*>(a)), e = heap_state(reinterpret_cast<void*>(a + n - 1));
        if (s != 1) bad_heap(a, s, w, pc);
        if (e != 1) bad_heap(a, e, w, pc);
    }
}
static inline void access(void* p, unsigned n, bool w, const void* pc) {
    Fiber* f = cur; if (!f || f->in_sim || !n) return;
    const u64 a = reinterpret_cast<u64>(p);
    if (own_stack(a)) return;
    const bool shm = is_shm(p) || (!tracked.empty() && in_tracked(a));
    if (shm) { f->in_sim = true; point(1); f->in_sim = false; }
    heap_check(a, n, w, pc);
    if (race_on && !f->no_preempt && (shm || race_heap)) { f->in_sim = true; race_check(a, n, w, false, pc); f->in_sim = false; }
    if (!shm && !f->no_preempt && ++f->plain >= f->next_plain) { f->in_sim = true; plain_point(); f->in_sim = false; }
}
// before an atomic operation
static inline bool at_begin(const volatile void* p, unsigned n, bool w, const void* pc) {
    Fiber* f = cur; if (!f || f->in_sim) return false;
    const u64 a = reinterpret_cast<u64>(p);
    f->in_sim = true;
    const bool shm = is_shm(const_cast<const void*>(p)) || (!tracked.empty() && in_tracked(a));
    point(shm ? 0 : (own_stack(a) ? 1 : 0));
    heap_check(a, n, w, pc);
    user_access = true;
    return true;
}
static inline void at_end() { user_access = false; cur->in_sim = false; }
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void hb_load(const volatile void* p, unsigned n, int mo, const void* pc) {
    if (!race_on || cur->no_preempt) return;
    const u64 a = reinterpret_cast<u64>(p), c = canonical(a); own(cur);
    if (!own_stack(a)) race_check(a, n, false, true, pc);
    auto& s = sv(c);
    if (acq(mo)) join(*cur->vc, s.rel); else join(fh(cur->id).fence_acq, s.rel);
}
static void hb_store(const volatile void* p, unsigned n, int mo, bool rmw, const void* pc) {
    if (!race_on || cur->no_preempt) return;
    const u64 a = reinterpret_cast<u64>(p), c = canonical(a); own(cur);
    if (!own_stack(a)) race_check(a, n, true, true, pc);
    auto& s = sv(c);
    if (rel(mo)) { if (rmw) join(s.rel, *cur->vc); else s.rel = *cur->vc; own(cur)++; }
    else if (fh(cur->id).has_rel) { if (rmw) join(s.rel, fh(cur->id).fence_rel); else s.rel = fh(cur->id).fence_rel; }
    else if (!rmw) s.rel.clear();
}
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void sim_race_check(int on, int heap) { race_on = on; race_heap = heap; }
void sim_race_region(const void* p, std::size_t n) { InSim s; if (!race_regions) race_regions = new std::vector<Region>; const u64 c = canonical(reinterpret_cast<u64>(p)); race_regions->push_back({c, c + n}); }
void sim_race_forget(const void* p, std::size_t n) { InSim s; race_forget(reinterpret_cast<u64>(p), n); }
void sim_check_access(const void* p, std::size_t n, int w) { if (cur && !cur->in_sim) heap_check(reinterpret_cast<u64>(p), static_cast<unsigned>(n), w, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) { Fiber* f = cur; if (!f) return; const u64 a = reinterpret_cast<u64>(__builtin_frame_address(0)) + 16; auto& v = *f->frames; while (!v.empty() && v.back() <= a) v.pop_back(); v.push_back(a); }
void __tsan_func_exit() { Fiber* f = cur; if (f && !f->frames->empty()) f->frames->pop_back(); }
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
  void __tsan_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, static_cast<unsigned>(n), false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, static_cast<unsigned>(n), true, PC); }
// block operations on shared memory are done piecewise, so that others can see them half done
static bool piecewise(const void* d, const void* s, size_t n) { return cur && !cur->in_sim && n > 8 && (is_shm(d) || is_shm(s) || (!tracked.empty() && (in_tracked((u64)d) || in_tracked((u64)s)))); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (!n) return d;
    if (piecewise(d, s, n)) { for (size_t i = 0; i < n; i += 8) { const size_t k = n - i < 8 ? n - i : 8; access((char*)s + i, k, false, PC); access((char*)d + i, k, true, PC); memcpy((char*)d + i, (const char*)s + i, k); } return d; }
    access(const_cast<void*>(s), static_cast<unsigned>(n), false, PC); access(d, static_cast<unsigned>(n), true, PC); return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) { if (!n) return d; access(const_cast<void*>(s), static_cast<unsigned>(n), false, PC); access(d, static_cast<unsigned>(n), true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) {
    if (!n) return d;
    if (piecewise(d, d, n)) { for (size_t i = 0; i < n; i += 8) { const size_t k = n - i < 8 ? n - i : 8; access((char*)d + i, k, true, PC); memset((char*)d + i, c, k); } return d; }
    access(d, static_cast<unsigned>(n), true, PC); return memset(d, c, n);
}
#define AT(BITS, T) \
T __tsan_atomic##BITS##_load(const volatile T* p, int mo) { const bool s = at_begin(p, sizeof(T), false, PC); const T v = *p; if (s) { hb_load(p, sizeof(T), mo, PC); at_end(); } return v; } \
void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); *p = v; if (s) { hb_store(p, sizeof(T), mo, false, PC); at_end(); } } \
T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; *p = v; if (s) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); at_end(); } return o; } \
T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; *p = static_cast<T>(o + v); if (s) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); at_end(); } return o; } \
T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; *p = static_cast<T>(o - v); if (s) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); at_end(); } return o; } \
T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; *p = o & v; if (s) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); at_end(); } return o; } \
T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; *p = o | v; if (s) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); at_end(); } return o; } \
T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; *p = o ^ v; if (s) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); at_end(); } return o; } \
T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; *p = static_cast<T>(~(o & v)); if (s) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); at_end(); } return o; } \
int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; const bool ok = o == *e; if (ok) *p = v; else *e = o; \
  if (s) { if (ok) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); } else hb_load(p, sizeof(T), fmo, PC); at_end(); } return ok; } \
int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { const bool s = at_begin(p, sizeof(T), true, PC); const T o = *p; bool ok = o == *e; if (ok && s && fault(SF_CAS_SPURIOUS)) { hb_load(p, sizeof(T), fmo, PC); at_end(); return 0; } if (ok) *p = v; else *e = o; \
  if (s) { if (ok) { hb_load(p, sizeof(T), mo, PC); hb_store(p, sizeof(T), mo, true, PC); } else hb_load(p, sizeof(T), fmo, PC); at_end(); } return ok; } \
T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { __tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, u8) AT(16, std::uint16_t) AT(32, u32) AT(64, u64) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) {
    if (!cur || cur->in_sim || !race_on) return;
    InSim s; if (acq(mo)) join(*cur->vc, fh(cur->id).fence_acq);
    if (rel(mo)) { own(cur); fh(cur->id).fence_rel = *cur->vc; fh(cur->id).has_rel = true; own(cur)++; }
}
void __tsan_atomic_signal_fence(int) {}
}
