// Internals of the simulator.
#pragma once
#include "../kernel_api.h"
#include "../sim_api.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
namespace sim {
using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t; using i64 = std::int64_t;

struct Rng { u64 s; u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    u32 below(u32 n) { return n <= 1 ? 0 : static_cast<u32>((static_cast<unsigned __int128>(next()) * n) >> 64); } };
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }

enum class FState : u8 { kRunnable, kBlocked, kDone, kDead };
struct Ctx { void* sp; };
struct Fiber {
    int id; int pid; FState state; bool detached; bool joined; bool in_sim;
    Ctx ctx; u8* stack; std::size_t stack_size;
    void* (*fn)(void*); void* arg; void* ret;
    u64 points; u64 draws; u64 blocks;       // per fiber counters, the keys of recorded decisions
    const void* wait_obj; u64 deadline; bool timed_out; bool woken; const char* wait_what; u64 blocked_at;
    int no_preempt; int prio;
    u64 stall_until; u64 last_run;
    std::string fatal;                       // text of the last fatal log record
    std::map<u64, u8*>* tls; void* cxa[2]; void* once[2]; int err;
    std::vector<std::pair<void (*)(void*), void*>>* atexit;
    std::map<unsigned, void*>* keys;
    Rng rng; std::string* name; int tindex; u64 plain; u64 next_plain; int idle_wait;
    std::vector<u64>* vc; std::vector<u64>* frames;   // frames: lowest address of each active function (images built with stack checks)
};
struct Proc;
std::string tag_of(Proc*, const char* text);   // prefix of the report that a scenario asked for
struct Proc { int pid; int uid; int image; int role; bool alive; int exit_kind; std::string exit_text; std::string name; bool expect_abort; i64 crash_in; int live_threads; int nthreads; int incarnation; void* arg; void* exit_obj; std::vector<std::pair<std::string, std::string>> tags; };

struct Config {                    // everything that defines a run
    u64 seed;
    bool replay;                   // decisions only from `trace`
    std::map<u64, u32> trace;      // key -> decision
};
// decision key: kind(4) fiber(12) count(48)
enum DKind : u64 { DK_SWITCH = 1, DK_BLOCK = 2, DK_DRAW = 3, DK_PLAIN = 4 };
inline u64 dkey(u64 kind, u64 fiber, u64 count) { return (kind << 60) | (fiber << 48) | count; }

constexpr int kMaxCounters = 48; constexpr int kMaxCover = 4096; constexpr int kMaxTrace = 200000;
struct Result {                    // lives in memory shared with the driver
    volatile int done; int verdict; // 0 held, 1 violation, 2 budget exceeded, 3 simulator error
    char text[1500];
    u64 hash, sched_hash, steps, sim_ns, switches, decisions;
    u64 faults[SF_COUNT];
    int ncounters; struct { char name[40]; i64 n; } counters[kMaxCounters];
    int ncover; u64 cover[kMaxCover];
    int ntrace; struct { u64 key; u32 val; } trace[kMaxTrace];
    int nhist; char hist[1 << 18];  // tail of the history, text
};
extern Result* R; extern Config C;
extern Fiber* cur; extern std::vector<Fiber*> fibers; extern std::vector<Proc*> procs;
extern u64 now_ns; extern u64 steps;
extern bool tracing_text; extern std::map<std::string, std::string> params;

// scheduler
Fiber* new_fiber(int pid, void* (*fn)(void*), void* arg, const char* name);
void point(int cls);                                        // cls: 0 sync/atomic/syscall, 1 private atomic, 2 plain access
void block(const void* obj, const char* what, u64 deadline); // cur blocks; returns after wake or time out
void wake(const void* obj, int n);                          // n<0: all
u32 draw(u32 n, u32 dflt);                                  // recorded random choice
bool fault(int kind);
[[noreturn]] void finish(int verdict, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void hist(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void die_current(int kind, const char* text);  // current process ends
void kill_proc(int pid, int kind, const char* text);
void run(void (*control)());
void kernel_proc_died(int pid);
void kernel_init();
Proc* proc(int pid); inline Proc* cur_proc() { return cur ? proc(cur->pid) : nullptr; }
void fiber_exit_cleanup(Fiber* f);
void plain_point();  // a plain access that may be preempted
void run_exit_handlers(int image);
void abort_process(const char* text);  // self termination of the current process
struct InSim { bool old; InSim() { old = cur ? cur->in_sim : true; if (cur) cur->in_sim = true; } ~InSim() { if (cur) cur->in_sim = old; } };
// heap
void heap_init(); bool heap_contains(const void* p); int heap_state(const void* p);
// images
struct Image { int index; void* handle; void (*control)(); void (*pmain)(int, int, void*); bool used; u64 lo, hi; };
extern std::vector<Image> images;
inline bool is_shm(const void* p);
// happens-before bookkeeping (race detector)
void hb_acquire(const void* obj); void hb_release(const void* obj); void hb_fork(Fiber* child); void hb_join(Fiber* child); void hb_proc_died(int pid); void hb_proc_started(Fiber* f);
constexpr u64 kShmLo = 0x300000000000ULL, kShmHi = 0x310000000000ULL; constexpr int kShmSlotBits = 28;
inline bool is_shm(const void* p) { const u64 a = reinterpret_cast<u64>(p); return a >= kShmLo && a < kShmHi; }
struct Region { u64 lo, hi; }; extern std::vector<Region> tracked;
constexpr u64 kStackLo = 0x200000000000ULL; constexpr int kStackBits = 20;
constexpr u64 kHeapLo = 0x100000000000ULL; constexpr u64 kHeapSize = 1ULL << 30;
u64 canonical(u64 va);  // the same number for every mapping of the same shared byte
}
