// Heap of the simulated processes: bump allocation without reuse, so that every access to freed memory is recognised.
#include "core.h"
#include <sys/mman.h>
#include <cerrno>
#include <new>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void* __libc_memalign(size_t, size_t); }
namespace sim {
static u8* shadow; static u64 top = kHeapLo; static i64 live_blocks; static i64 fail_after = -1;
// shadow per 16 bytes: 0 never used, 1 live, 2 freed, 3 header
void heap_init() {
    if (mmap(reinterpret_cast<void*>(kHeapLo), kHeapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) abort();
    shadow = static_cast<u8*>(mmap(nullptr, kHeapSize / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (shadow == MAP_FAILED) abort();
}
bool heap_contains(const void* p) { return reinterpret_cast<u64>(p) - kHeapLo < kHeapSize; }
int heap_state(const void* p) { return heap_contains(p) ? shadow[(reinterpret_cast<u64>(p) - kHeapLo) >> 4] : 0; }
static void* alloc(std::size_t n, std::size_t al) {
    if (al < 16) al = 16;
    u64 a = (top + 16 + al - 1) & ~(static_cast<u64>(al) - 1);
    const u64 end = (a + (n ? n : 1) + 15) & ~15ULL;
    if (end + 64 > kHeapLo + kHeapSize || n > kHeapSize) finish(2, "heap budget exceeded");
    reinterpret_cast<u64*>(a)[-1] = n; reinterpret_cast<u64*>(a)[-2] = static_cast<u64>(cur->pid);
    const u64 i = (a - kHeapLo) >> 4; shadow[i - 1] = 3; memset(shadow + i, 1, (end - a) >> 4);
    if (n <= 65536) memset(reinterpret_cast<void*>(a), 0xA5, n);
    top = end; ++live_blocks;
    return reinterpret_cast<void*>(a);
}
static void release(void* p) {
    const u64 a = reinterpret_cast<u64>(p), i = (a - kHeapLo) >> 4;
    if (a & 15 || shadow[i] == 2) finish(1, "double or invalid free in %s", cur_proc()->name.c_str());
    if (shadow[i] != 1 || shadow[i - 1] != 3) finish(1, "invalid free in %s", cur_proc()->name.c_str());
    const std::size_t n = reinterpret_cast<u64*>(a)[-1];
    memset(shadow + i, 2, ((n ? n : 1) + 15) >> 4); if (n <= 65536) memset(p, 0xDB, n); --live_blocks;
}
static std::size_t size_of(void* p) { return reinterpret_cast<u64*>(p)[-1]; }
static inline bool ours() { return cur && !cur->in_sim; }
}
using namespace sim;
extern "C" {
void* malloc(size_t n) { return ours() ? alloc(n, 16) : __libc_malloc(n); }
void free(void* p) { if (!p) return; if (!heap_contains(p)) { __libc_free(p); return; } if (cur) release(p); }
void* calloc(size_t a, size_t b) { if (!ours()) return __libc_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = alloc(n, 16); memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
    if (p && !heap_contains(p)) { return __libc_realloc(p, n); }
    if (!p) return malloc(n);
    void* q = malloc(n); const size_t o = size_of(p); memcpy(q, p, o < n ? o : n); release(p); return q;
}
void* memalign(size_t al, size_t n) { return ours() ? alloc(n, al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return *p ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p && heap_contains(p) ? size_of(p) : 0; }
long sim_live_blocks() { return static_cast<long>(live_blocks); }
}
