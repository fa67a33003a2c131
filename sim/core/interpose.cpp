// Replacements for the C library functions through which simulated processes meet threads, time and process ends.
#include "core.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <linux/fcntl.h>
#include <dlfcn.h>
#include <cerrno>
#include <signal.h>
#include <sched.h>
#include <mutex>
#include <stdarg.h>
#include <unistd.h>
extern "C" void* __libc_memalign(size_t, size_t);
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }
extern "C" void sim_check_access(const void*, std::size_t, int);
namespace sim {
struct MutexO { int lock, count, owner, nusers, kind; };
static MutexO* mo(pthread_mutex_t* m) { return reinterpret_cast<MutexO*>(m); }
static inline void touch(const void* p, std::size_t n) { sim_check_access(p, n, 1); }
// a scheduling point before an operation on p; p must exist before and after it
static inline void point_on(const void* p) { point(0); cur->in_sim = false; sim_check_access(p, 8, 1); cur->in_sim = true; }
static u64 abs_to_ns(clockid_t c, const timespec* t);
static i64 real_offset() { return 1700000000000000000LL; }
static u64 abs_to_ns(clockid_t c, const timespec* t) { i64 v = static_cast<i64>(t->tv_sec) * 1000000000LL + t->tv_nsec; if (c == CLOCK_REALTIME) v -= real_offset(); return v < 0 ? 0 : static_cast<u64>(v); }
static void lock_raw(pthread_mutex_t* m) {
    MutexO* o = mo(m);
    if (o->owner == cur->id + 1 && (o->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { o->count++; return; }
    while (o->owner) { block(m, "mutex", ~0ULL); cur->in_sim = false; touch(m, 8); cur->in_sim = true; }
    o->owner = cur->id + 1; o->count = 1; hb_acquire(m);
}
static void unlock_raw(pthread_mutex_t* m) {
    MutexO* o = mo(m);
    if (o->owner != cur->id + 1) finish(1, "mutex released by a thread that does not hold it (%s)", cur_proc()->name.c_str());
    if (--o->count) return;
    hb_release(m); o->owner = 0; wake(m, -1);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    touch(c, 8); touch(m, 8); InSim s; point_on(m);
    MutexO* o = mo(m); const int cnt = o->count; o->count = 1; unlock_raw(m);
    int r = 0;
    if (fault(SF_COND_SPURIOUS)) { point(0); } else { block(c, "condition variable", deadline); if (cur->timed_out) r = ETIMEDOUT; }
    cur->in_sim = false; touch(m, 8); cur->in_sim = true;
    lock_raw(m); o->count = cnt; hb_acquire(c);
    return r;
}
struct RwO { int readers, writer; };
struct AtExit { void (*fn)(void*); void* arg; void* dso; };
static std::vector<AtExit>* atexits; bool loading_image;
void run_exit_handlers(int image) {
    Image& im = images[image]; if (!atexits) return;
    for (;;) {
        AtExit e{}; bool found = false;
        cur->in_sim = true;
        for (std::size_t i = atexits->size(); i-- > 0;) { const u64 d = reinterpret_cast<u64>((*atexits)[i].dso); if (d >= im.lo && d < im.hi) { e = (*atexits)[i]; atexits->erase(atexits->begin() + static_cast<long>(i)); found = true; break; } }
        cur->in_sim = false;
        if (!found) return;
        e.fn(e.arg);
    }
}
static bool from_image(void* dso) { const u64 d = reinterpret_cast<u64>(dso); for (auto& im : images) if (d >= im.lo && d < im.hi) return true; return false; }
}
using namespace sim;
#define PLAIN (!cur || cur->in_sim)
// Objects of the shared libraries (locale, call_once, ...) belong to all simulated processes at once: their critical sections run atomically, so that a
// process that dies never leaves them locked.
static bool foreign(const void* p) {
    const u64 a = reinterpret_cast<u64>(p);
    if ((a >= kStackLo && a < kStackLo + (1ULL << 40)) || (a >= kHeapLo && a < kHeapLo + kHeapSize) || is_shm(p)) return false;
    for (auto& im : images) if (a >= im.lo && a < im.hi) return false;
    return true;
}
extern "C" {
// ---- thread local storage of the images (compiled with emulated TLS)
struct emutls_control { std::size_t size, align; void* obj; void* templ; };
asm(".data\n.globl \"__emutls_v._ZSt15__once_callable\"\n.type \"__emutls_v._ZSt15__once_callable\",@object\n.size \"__emutls_v._ZSt15__once_callable\",32\n\"__emutls_v._ZSt15__once_callable\":\n.globl sim_ec\nsim_ec: .quad 8,8,0,0\n.globl \"__emutls_v._ZSt11__once_call\"\n.type \"__emutls_v._ZSt11__once_call\",@object\n.size \"__emutls_v._ZSt11__once_call\",32\n\"__emutls_v._ZSt11__once_call\":\n.globl sim_eo\nsim_eo: .quad 8,8,0,0\n.text\n");
extern emutls_control sim_ec, sim_eo;
void* __emutls_get_address(emutls_control* c) {
    if (c == &sim_ec) return &std::__once_callable;
    if (c == &sim_eo) return &std::__once_call;
    static std::map<u64, u8*>* none; if (!none) { none = new std::map<u64, u8*>; }
    InSim s; auto& m = cur ? *cur->tls : *none;
    u8*& p = m[reinterpret_cast<u64>(c)];
    if (!p) { p = static_cast<u8*>(__libc_memalign(c->align < 16 ? 16 : c->align, c->size)); if (c->templ) memcpy(p, c->templ, c->size); else memset(p, 0, c->size); }
    return p;
}
int __cxa_thread_atexit(void (*fn)(void*), void* o, void*) { if (cur) { InSim s; cur->atexit->push_back({fn, o}); } return 0; }
int __cxa_thread_atexit_impl(void (*fn)(void*), void* o, void* d) { return __cxa_thread_atexit(fn, o, d); }
int __cxa_atexit(void (*fn)(void*), void* a, void* d) {
    if (loading_image || (cur && from_image(d))) { InSim s; if (!atexits) atexits = new std::vector<AtExit>; atexits->push_back({fn, a, d}); return 0; }
    return 0;  // the simulator itself leaves without running exit handlers
}
// ---- guards of function local statics: byte 0 done, byte 1 running
int __cxa_guard_acquire(u64* g) {
    volatile u8* b = reinterpret_cast<volatile u8*>(g);
    if (PLAIN) { if (b[0]) return 0; b[1] = 1; return 1; }
    if (foreign(g)) { if (b[0]) return 0; b[1] = 1; cur->no_preempt++; return 1; }
    InSim s; point(0);
    for (;;) { if (b[0]) { hb_acquire(g); return 0; } if (!b[1]) { b[1] = 1; return 1; } block(g, "initialisation of a static variable", ~0ULL); }
}
void __cxa_guard_release(u64* g) { volatile u8* b = reinterpret_cast<volatile u8*>(g); b[0] = 1; b[1] = 0; if (!PLAIN) { if (foreign(g)) { cur->no_preempt--; return; } InSim s; hb_release(g); wake(g, -1); } }
void __cxa_guard_abort(u64* g) { volatile u8* b = reinterpret_cast<volatile u8*>(g); b[1] = 0; if (!PLAIN) { if (foreign(g)) { cur->no_preempt--; return; } InSim s; wake(g, -1); } }
// ---- mutexes
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { memset(m, 0, sizeof *m); int k = 0; if (a) pthread_mutexattr_gettype(a, &k); mo(m)->kind = k; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (!PLAIN) { touch(m, 8); if (mo(m)->owner && fibers[mo(m)->owner - 1]->state != FState::kDead) { cur->in_sim = true; finish(1, "mutex destroyed while locked (%s)", cur_proc()->name.c_str()); } } return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (PLAIN) return 0; if (foreign(m)) { cur->no_preempt++; return 0; } touch(m, 8); InSim s; point_on(m); lock_raw(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (PLAIN) return 0; touch(m, 8); InSim s; point_on(m); MutexO* o = mo(m); if (o->owner && !(o->owner == cur->id + 1 && (o->kind & 3) == PTHREAD_MUTEX_RECURSIVE)) return EBUSY; lock_raw(m); return 0; }
static int timedlock(pthread_mutex_t* m, u64 d) { if (PLAIN) return 0; touch(m, 8); InSim s; point_on(m); MutexO* o = mo(m); while (o->owner && !(o->owner == cur->id + 1 && (o->kind & 3) == PTHREAD_MUTEX_RECURSIVE)) { block(m, "mutex with time limit", d); if (cur->timed_out && o->owner) return ETIMEDOUT; } lock_raw(m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return timedlock(m, abs_to_ns(CLOCK_REALTIME, t)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) { return timedlock(m, abs_to_ns(c, t)); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (PLAIN) return 0; if (foreign(m)) { if (cur->no_preempt) cur->no_preempt--; return 0; } touch(m, 8); InSim s; point_on(m); unlock_raw(m); return 0; }
// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (!PLAIN) touch(c, 8); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return PLAIN ? 0 : cond_wait(c, m, ~0ULL); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return PLAIN ? 0 : cond_wait(c, m, abs_to_ns(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { return PLAIN ? 0 : cond_wait(c, m, abs_to_ns(k, t)); }
int pthread_cond_signal(pthread_cond_t* c) { if (PLAIN) return 0; touch(c, 8); InSim s; point_on(c); hb_release(c); wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (PLAIN) return 0; touch(c, 8); InSim s; point_on(c); hb_release(c); wake(c, -1); return 0; }
// ---- reader writer locks
int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) { memset(r, 0, sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* r) { if (!PLAIN) touch(r, 8); return 0; }
#define RWO RwO* o = reinterpret_cast<RwO*>(r)
int pthread_rwlock_rdlock(pthread_rwlock_t* r) { if (PLAIN) return 0; touch(r, 8); InSim s; point_on(r); RWO; while (o->writer) block(r, "shared lock", ~0ULL); o->readers++; hb_acquire(r); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { if (PLAIN) return 0; touch(r, 8); InSim s; point_on(r); RWO; if (o->writer) return EBUSY; o->readers++; hb_acquire(r); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) { if (PLAIN) return 0; touch(r, 8); InSim s; point_on(r); RWO; while (o->writer || o->readers) block(r, "exclusive lock", ~0ULL); o->writer = cur->id + 1; hb_acquire(r); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* r) { if (PLAIN) return 0; touch(r, 8); InSim s; point_on(r); RWO; if (o->writer || o->readers) return EBUSY; o->writer = cur->id + 1; hb_acquire(r); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* r) { if (PLAIN) return 0; touch(r, 8); InSim s; point_on(r); RWO; hb_release(r); if (o->writer) o->writer = 0; else if (o->readers > 0) o->readers--; else finish(1, "shared mutex released that is not held (%s)", cur_proc()->name.c_str()); wake(r, -1); return 0; }
// ---- once
int pthread_once(pthread_once_t* t, void (*fn)()) {
    volatile int* v = reinterpret_cast<volatile int*>(t);
    if (PLAIN || foreign(t)) { if (*v != 2) { if (cur) cur->no_preempt++; *v = 2; fn(); if (cur) cur->no_preempt--; } return 0; }
    { InSim s; point(0); while (*v == 1) block(t, "once", ~0ULL); if (*v == 2) { hb_acquire(t); return 0; } *v = 1; }
    struct G { volatile int* v; pthread_once_t* t; bool ok = false; ~G() { InSim s; *v = ok ? 2 : 0; hb_release(t); wake(t, -1); } } g{v, t};
    fn(); g.ok = true; return 0;
}
// ---- semaphores
int sem_init(sem_t* s, int, unsigned v) { reinterpret_cast<int*>(s)[0] = static_cast<int>(v); return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* p) { if (PLAIN) return 0; touch(p, 8); InSim s; point_on(p); hb_release(p); reinterpret_cast<int*>(p)[0]++; wake(p, -1); return 0; }
int sem_wait(sem_t* p) { if (PLAIN) return 0; touch(p, 8); InSim s; point_on(p); while (reinterpret_cast<int*>(p)[0] <= 0) block(p, "semaphore", ~0ULL); reinterpret_cast<int*>(p)[0]--; hb_acquire(p); return 0; }
int sem_trywait(sem_t* p) { if (PLAIN) return 0; InSim s; point(0); if (reinterpret_cast<int*>(p)[0] <= 0) { errno = EAGAIN; return -1; } reinterpret_cast<int*>(p)[0]--; hb_acquire(p); return 0; }
// ---- threads
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (PLAIN) { fprintf(stderr, "thread created outside of a run\n"); ::abort(); }
    InSim s; point(0);
    Fiber* f = new_fiber(cur->pid, fn, arg, "thread");
    if (a) { int d = 0; pthread_attr_getdetachstate(a, &d); f->detached = d == PTHREAD_CREATE_DETACHED; }
    *t = reinterpret_cast<pthread_t>(f); return 0;
}
int pthread_join(pthread_t t, void** r) {
    InSim s; point(0); Fiber* f = reinterpret_cast<Fiber*>(t);
    if (f == cur) return EDEADLK;
    if (f->joined || f->detached) finish(1, "thread joined twice or joined after detach (%s)", cur_proc()->name.c_str());
    f->joined = true;
    while (f->state != FState::kDone) block(f, "end of a thread", ~0ULL);
    hb_acquire(f); hb_join(f); if (r) *r = f->ret; return 0;
}
int pthread_detach(pthread_t t) { reinterpret_cast<Fiber*>(t)->detached = true; return 0; }
pthread_t pthread_self() { return cur ? reinterpret_cast<pthread_t>(cur) : static_cast<pthread_t>(1); }
int pthread_setname_np(pthread_t t, const char* n) { if (!cur) return 0; InSim s; *reinterpret_cast<Fiber*>(t)->name = n; return 0; }
int pthread_getname_np(pthread_t t, char* b, size_t n) { if (!cur) return 0; InSim s; snprintf(b, n, "%s", reinterpret_cast<Fiber*>(t)->name->c_str()); return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int pthread_setschedparam(pthread_t, int, const sched_param*) { return 0; }
int pthread_getschedparam(pthread_t, int* p, sched_param* q) { *p = 0; memset(q, 0, sizeof *q); return 0; }
static unsigned next_key = 1;
int pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = next_key++; return 0; }
int pthread_key_delete(pthread_key_t) { return 0; }
void* pthread_getspecific(pthread_key_t k) { if (!cur) return nullptr; auto it = cur->keys->find(k); return it == cur->keys->end() ? nullptr : it->second; }
int pthread_setspecific(pthread_key_t k, const void* v) { if (!cur) return 0; InSim s; (*cur->keys)[k] = const_cast<void*>(v); return 0; }
int sched_yield() { if (PLAIN) return 0; InSim s; point(0); return 0; }
// ---- time
int clock_gettime(clockid_t c, timespec* t) { u64 n = now_ns; if (c == CLOCK_REALTIME) n += static_cast<u64>(real_offset()); t->tv_sec = static_cast<time_t>(n / 1000000000ULL); t->tv_nsec = static_cast<long>(n % 1000000000ULL); return 0; }
int gettimeofday(timeval* t, void*) { const u64 n = now_ns + static_cast<u64>(real_offset()); t->tv_sec = static_cast<time_t>(n / 1000000000ULL); t->tv_usec = static_cast<long>(n % 1000000000ULL / 1000); return 0; }
time_t time(time_t* t) { const time_t v = static_cast<time_t>((now_ns + static_cast<u64>(real_offset())) / 1000000000ULL); if (t) *t = v; return v; }
static int do_sleep(u64 deadline) { InSim s; point(0); if (deadline > now_ns) block(nullptr, "sleep", deadline); return 0; }
int nanosleep(const timespec* t, timespec*) { if (PLAIN) return 0; return do_sleep(now_ns + static_cast<u64>(t->tv_sec) * 1000000000ULL + static_cast<u64>(t->tv_nsec)); }
int clock_nanosleep(clockid_t c, int fl, const timespec* t, timespec*) { if (PLAIN) return 0; return do_sleep((fl & TIMER_ABSTIME) ? abs_to_ns(c, t) : now_ns + static_cast<u64>(t->tv_sec) * 1000000000ULL + static_cast<u64>(t->tv_nsec)); }
int usleep(useconds_t us) { if (PLAIN) return 0; return do_sleep(now_ns + us * 1000ULL); }
unsigned sleep(unsigned x) { if (PLAIN) return 0; do_sleep(now_ns + x * 1000000000ULL); return 0; }
// ---- futex based waiting of std::future
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
    if (!PLAIN && n == SYS_futex) {
        InSim s; int* addr = reinterpret_cast<int*>(a[0]); const int op = static_cast<int>(a[1]) & 0x7f;
        point(0);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*addr != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
            u64 d = ~0ULL; const timespec* t = reinterpret_cast<const timespec*>(a[3]);
            if (t) d = op == FUTEX_WAIT ? now_ns + static_cast<u64>(t->tv_sec) * 1000000000ULL + static_cast<u64>(t->tv_nsec) : abs_to_ns((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
            block(addr, "futex", d);
            if (cur->timed_out) { cur->err = ETIMEDOUT; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake(addr, static_cast<int>(a[2]) == 0x7fffffff ? -1 : static_cast<int>(a[2])); return 1; }
        finish(3, "futex operation %d", op);
    }
    if (!PLAIN && n == SYS_gettid) return 5000 + cur->id;
    if (!PLAIN && n == SYS_getpid) return sk_getpid();
    long ret; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = static_cast<int>(-ret); return -1; }
    return ret;
}
pid_t gettid() { return PLAIN ? static_cast<pid_t>(syscall(SYS_gettid)) : 5000 + cur->id; }
pid_t getpid() { return PLAIN ? static_cast<pid_t>(syscall(SYS_getpid)) : sk_getpid(); }
// the repository calls these two directly
extern int sk_shutdown(int, int); extern int sk_set_nonblock(int, int);
int shutdown(int fd, int how) { if (PLAIN) return static_cast<int>(syscall(SYS_shutdown, fd, how)); const int r = sk_shutdown(fd, how); if (r < 0) { errno = -r; return -1; } return r; }
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); const long arg = va_arg(ap, long); va_end(ap);
    if (PLAIN) return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
    int r = -EINVAL; if (cmd == F_GETFL) { r = sk_set_nonblock(fd, -1); if (r >= 0) r |= O_RDWR; } else if (cmd == F_SETFL) { r = sk_set_nonblock(fd, (arg & O_NONBLOCK) != 0); if (r > 0) r = 0; } else if (cmd == F_GETFD || cmd == F_SETFD) r = 0;
    if (r < 0) { errno = -r; return -1; } return r;
}
void _exit(int c) { if (cur && !cur->in_sim) abort_process("_exit called"); syscall(SYS_exit_group, c); __builtin_trap(); }
void exit(int c) { if (cur && !cur->in_sim) abort_process("exit called"); fflush(nullptr); _exit(c); }
void quick_exit(int c) { exit(c); }
void abort() {
    if (cur && !cur->in_sim) { cur->in_sim = true; static std::string t; t = "abort or std::terminate called" + (cur->fatal.empty() ? "" : " (" + cur->fatal + ")"); abort_process(t.c_str()); }
    if (cur) { fprintf(stderr, "abort inside of the simulator\n"); }
    syscall(SYS_exit_group, 71); __builtin_trap();
}
void __assert_fail(const char* e, const char* f, unsigned l, const char*) { char b[400]; snprintf(b, sizeof b, "assertion %s failed at %s:%u", e, f, l); if (cur && !cur->in_sim) abort_process(b); fprintf(stderr, "%s\n", b); abort(); }
void __cxa_pure_virtual() { if (cur && !cur->in_sim) abort_process("pure virtual function called"); abort(); }
void __stack_chk_fail() { if (cur && !cur->in_sim) abort_process("stack corrupted"); abort(); }
}
namespace sim { extern volatile bool user_access;
static void on_signal(int sig, siginfo_t* si, void* uc) {
    const bool in_sim = !cur || (cur->in_sim && !user_access);
    const u64 rip = static_cast<u64>(static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP]);
    if (cur) cur->in_sim = true;
    if (in_sim) { if (R) finish(3, "signal %d inside of the simulator at %p ip %llx", sig, si->si_addr, static_cast<unsigned long long>(rip)); fprintf(stderr, "signal %d\n", sig); syscall(SYS_exit_group, 72); }
    Dl_info di{}; dladdr(reinterpret_cast<void*>(rip), &di);
    Proc* p = cur_proc(); char b[400]; snprintf(b, sizeof b, "signal %d (invalid memory access) in %s+0x%llx", sig, di.dli_sname ? di.dli_sname : "?", static_cast<unsigned long long>(rip - reinterpret_cast<u64>(di.dli_saddr)));
    if (p->expect_abort) finish(3, "signal in a process that may abort: %s", b);
    finish(1, "%sprocess %s: %s", tag_of(p, b).c_str(), p->name.c_str(), b);
}
void install_signals() {
    static u8 alt[65536]; stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}
}
