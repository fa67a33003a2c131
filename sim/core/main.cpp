#include <exception>
// Driver: runs simulations in forked children, gates, minimises and reports.
#include "core.h"
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <set>
#include <algorithm>
namespace sim {
std::vector<Image> images; extern bool loading_image; void install_signals();
static double real_now() { long r; timespec t; asm volatile("syscall" : "=a"(r) : "a"(SYS_clock_gettime), "D"(CLOCK_MONOTONIC), "S"(&t) : "rcx", "r11", "memory"); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }
static void load(const char* path) {
    Image im{}; im.index = static_cast<int>(images.size());
    loading_image = true; im.handle = dlopen(path, RTLD_NOW | RTLD_LOCAL); loading_image = false;
    if (!im.handle) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
    im.control = reinterpret_cast<void (*)()>(dlsym(im.handle, "sim_control")); im.pmain = reinterpret_cast<void (*)(int, int, void*)>(dlsym(im.handle, "sim_process_main"));
    struct link_map* lm; dlinfo(im.handle, RTLD_DI_LINKMAP, &lm); im.lo = lm->l_addr; im.hi = im.lo;
    FILE* f = fopen("/proc/self/maps", "r"); char l[5000]; static char real[4200]; if (!realpath(path, real)) exit(2);
    while (fgets(l, sizeof l, f)) { unsigned long a, b; if (strstr(l, real) && sscanf(l, "%lx-%lx", &a, &b) == 2) { im.hi = b; } else if (im.hi != im.lo && sscanf(l, "%lx-%lx", &a, &b) == 2 && a == im.hi && strchr(l, '/') == nullptr) im.hi = b; else if (im.hi != im.lo && a > im.hi) break; }
    fclose(f);
    images.push_back(im);
}
// one run in a child process; result in shared memory r
static bool one(Result* r, u64 seed, const std::map<u64, u32>* trace, bool text, double limit_s) {
    r->done = 0; r->ncounters = 0; r->ncover = 0; r->ntrace = 0; r->nhist = 0; r->switches = r->decisions = 0; memset(r->faults, 0, sizeof r->faults); r->text[0] = 0;
    const pid_t p = fork();
    if (p == 0) {
        rlimit rl{static_cast<rlim_t>(limit_s), static_cast<rlim_t>(limit_s) + 1}; setrlimit(RLIMIT_CPU, &rl);
        rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
        R = r; C.seed = seed; C.replay = trace != nullptr; if (trace) C.trace = *trace; tracing_text = text;
        kernel_init(); run(images[0].control);
    }
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (r->done) return true;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { r->verdict = 1; snprintf(r->text, sizeof r->text, "a thread loops for ever without waiting or synchronising"); r->hash = 0x11; r->done = 1; return true; }
    r->verdict = 3; snprintf(r->text, sizeof r->text, "run ended without a verdict (status %x)", st); r->hash = 0; r->done = 1; return true;
}
static std::map<u64, u32> trace_of(const Result* r) { std::map<u64, u32> m; for (int i = 0; i < r->ntrace && i < kMaxTrace; ++i) m[r->trace[i].key] = r->trace[i].val; return m; }
// violations are the same class when their text up to the first digit agrees
static std::string klass(const char* t) { std::string s; for (; *t && !(*t >= '0' && *t <= '9') && s.size() < 60; ++t) s += *t; return s; }
static std::map<u64, u32> minimise(Result* r, u64 seed, std::map<u64, u32> t, const std::string& kl, double until) {
    auto fails = [&](const std::map<u64, u32>& c) { one(r, seed, &c, false, 20); return r->verdict == 1 && klass(r->text) == kl; };
    std::size_t n = 2; std::vector<std::pair<u64, u32>> v(t.begin(), t.end());
    { std::map<u64, u32> e; if (fails(e)) return e; }
    while (v.size() >= 1 && real_now() < until) {
        const std::size_t ch = (v.size() + n - 1) / n; bool red = false;
        for (std::size_t i = 0; i < v.size() && real_now() < until; i += ch) {
            std::map<u64, u32> c; for (std::size_t j = 0; j < v.size(); ++j) if (j < i || j >= i + ch) c.insert(v[j]);
            if (c.size() < v.size() && fails(c)) { v.assign(c.begin(), c.end()); n = n > 2 ? n - 1 : 2; red = true; break; }
        }
        if (!red) { if (ch == 1) break; n = std::min(n * 2, v.size()); }
    }
    return std::map<u64, u32>(v.begin(), v.end());
}
struct Shared { volatile int stop; volatile u64 next; u64 runs[64], viol[64]; };
static Result* map_result() { return static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; ++s) { if (*s == '"' || *s == '\\') { fputc('\\', f); fputc(*s, f); } else if (*s == '\n') fputs("\\n", f); else if (static_cast<u8>(*s) < 32) fputc(' ', f); else fputc(*s, f); } fputc('"', f); }
// findings that are listed as known carry their identifier in brackets
static bool known(const char* t, std::string* id) {
    if (t[0] != '[') return false; const char* e = strchr(t, ']'); if (!e) return false; *id = std::string(t + 1, e); auto it = params.find("known"); if (it == params.end()) return false;
    return ("," + it->second + ",").find("," + *id + ",") != std::string::npos;
}
static const char* fault_names[] = {"crash","cas_spurious","cond_spurious","eintr","eagain","short_read","short_write","enomem","enospc","emfile","econn","stall","time_leap","delay","eio","user0","user1","user2","user3"};
}
using namespace sim;
// sim batch OUT.json SEED0 RUNS SECONDS WORKERS image...      explore
// sim replay FILE image...                                    replay (prints verdict, hash and history)
// sim min SEED FILE image...                                  reproduce seed, gate, minimise, write replay file
#include <sys/single_threaded.h>
int main(int argc, char** argv) {
    __libc_single_threaded = 0;   // simulated threads are threads: reference counts must be atomic
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); const char* e[] = {"PATH=/usr/bin", nullptr}; execve("/proc/self/exe", argv, const_cast<char**>(e)); perror("execve"); return 2; }
    if (argc < 2) return 2;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    const std::string cmd = argv[1];
    int first = cmd == "batch" ? 7 : cmd == "min" ? 4 : 3;
    std::set_terminate([] { abort(); });
    heap_init();
    for (int i = first; i < argc; ++i) { if (!strncmp(argv[i], "--", 2)) { std::string a = argv[i] + 2; auto e = a.find('='); params[a.substr(0, e)] = e == std::string::npos ? "1" : a.substr(e + 1); } else load(argv[i]); }
    install_signals();
    if (cmd == "batch") {
        const u64 seed0 = strtoull(argv[3], nullptr, 0), runs = strtoull(argv[4], nullptr, 0); const double secs = atof(argv[5]); const int W = atoi(argv[6]);
        Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        const double t0 = real_now(); int pipes[64]; pid_t pids[64];
        for (int w = 0; w < W; ++w) {
            int pp[2]; if (pipe(pp)) return 2;
            const pid_t p = fork();
            if (p == 0) {
                close(pp[0]); FILE* o = fdopen(pp[1], "w");
                Result* r = map_result();
                std::set<u64> seen, cov; std::map<std::string, i64> cnt; u64 nruns = 0, steps_ = 0, simns = 0, faults[SF_COUNT] = {}, held = 0, budget = 0, errs = 0, sw = 0, gates = 0;
                while (!sh->stop && real_now() - t0 < secs) {
                    const u64 i = __atomic_fetch_add(&sh->next, 1, __ATOMIC_SEQ_CST); if (i >= runs) break;
                    const u64 seed = mix(seed0, i) | 1;
                    one(r, seed, nullptr, false, 60); ++nruns; steps_ += r->steps; simns += r->sim_ns; sw += r->switches;
                    if (seen.size() < 2000000) seen.insert(r->sched_hash); for (int c = 0; c < r->ncover; ++c) cov.insert(r->cover[c]);
                    for (int f = 0; f < SF_COUNT; ++f) faults[f] += r->faults[f]; for (int c = 0; c < r->ncounters; ++c) cnt[r->counters[c].name] += r->counters[c].n;
                    if (r->verdict == 0) ++held; else if (r->verdict == 2) ++budget; else if (r->verdict == 3) { ++errs; fprintf(o, "E %llu %s\n", (unsigned long long)seed, r->text); fflush(o); } else if (std::string kid; known(r->text, &kid)) { ++cnt["known_" + kid]; } else { fprintf(o, "V %llu %s\n", (unsigned long long)seed, r->text); fflush(o); sh->stop = 1; }
                    if (r->verdict != 3 && i % 97 == 0) { const u64 h = r->hash; const int v = r->verdict; one(r, seed, nullptr, false, 60); ++gates; if (r->hash != h || r->verdict != v) { fprintf(o, "E %llu not repeatable\n", (unsigned long long)seed); ++errs; fflush(o); } 
                        if (r->ntrace < kMaxTrace) { auto t = trace_of(r); one(r, seed, &t, false, 60); if (r->hash != h || r->verdict != v) { fprintf(o, "E %llu trace replay differs\n", (unsigned long long)seed); ++errs; fflush(o); } } }
                }
                fprintf(o, "S %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long)nruns, (unsigned long long)steps_, (unsigned long long)simns, (unsigned long long)held, (unsigned long long)budget, (unsigned long long)errs, (unsigned long long)sw, (unsigned long long)gates);
                for (int f = 0; f < SF_COUNT; ++f) if (faults[f]) fprintf(o, "F %s %llu\n", fault_names[f], (unsigned long long)faults[f]);
                for (auto& c : cnt) fprintf(o, "C %s %lld\n", c.first.c_str(), (long long)c.second);
                for (u64 h : seen) fprintf(o, "H %llx\n", (unsigned long long)h);
                for (u64 h : cov) fprintf(o, "K %llx\n", (unsigned long long)h);
                fclose(o); _exit(0);
            }
            close(pp[1]); pipes[w] = pp[0]; pids[w] = p;
        }
        u64 tot[8] = {}; std::map<std::string, i64> F, Cn; std::set<u64> H, Kv; std::vector<std::pair<u64, std::string>> V, E;
        std::vector<std::string> bufs(W); int open_n = W; std::vector<bool> op(W, true);
        auto line = [&](const std::string& l) {
            unsigned long long a[8]; char nm[200];
            if (l[0] == 'S') { if (sscanf(l.c_str(), "S %llu %llu %llu %llu %llu %llu %llu %llu", a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7) == 8) for (int i = 0; i < 8; ++i) tot[i] += a[i]; }
            else if (l[0] == 'F') { if (sscanf(l.c_str(), "F %199s %llu", nm, a) == 2) F[nm] += static_cast<i64>(a[0]); }
            else if (l[0] == 'C') { auto e = l.rfind(' '); Cn[l.substr(2, e - 2)] += atoll(l.c_str() + e); }
            else if (l[0] == 'H') H.insert(strtoull(l.c_str() + 2, nullptr, 16)); else if (l[0] == 'K') Kv.insert(strtoull(l.c_str() + 2, nullptr, 16));
            else if (l[0] == 'V' || l[0] == 'E') { char* e; const u64 s = strtoull(l.c_str() + 2, &e, 10); (l[0] == 'V' ? V : E).push_back({s, e + 1}); }
        };
        while (open_n) {
            std::vector<pollfd> pf; std::vector<int> ix; for (int w = 0; w < W; ++w) if (op[w]) { pf.push_back({pipes[w], POLLIN, 0}); ix.push_back(w); }
            if (::poll(pf.data(), pf.size(), -1) < 0) continue;
            for (std::size_t i = 0; i < pf.size(); ++i) if (pf[i].revents) { static char b[65536]; const ssize_t n = ::read(pf[i].fd, b, sizeof b); if (n <= 0) { op[ix[i]] = false; --open_n; continue; } auto& s = bufs[ix[i]]; s.append(b, static_cast<std::size_t>(n)); std::size_t p; std::size_t at = 0; while ((p = s.find('\n', at)) != std::string::npos) { line(s.substr(at, p - at)); at = p + 1; } s.erase(0, at); }
        }
        for (int w = 0; w < W; ++w) waitpid(pids[w], nullptr, 0);
        const double wall = real_now() - t0; std::sort(V.begin(), V.end());
        FILE* f = fopen(argv[2], "w");
        fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"sim_ns\":%llu,\"held\":%llu,\"budget\":%llu,\"errors\":%llu,\"switches\":%llu,\"repeat_checks\":%llu,\"wall_s\":%.3f,\"interleavings\":%zu,\"states\":%zu", (unsigned long long)tot[0], (unsigned long long)tot[1], (unsigned long long)tot[2], (unsigned long long)tot[3], (unsigned long long)tot[4], (unsigned long long)tot[5], (unsigned long long)tot[6], (unsigned long long)tot[7], wall, H.size(), Kv.size());
        fprintf(f, ",\"faults\":{"); bool c = false; for (auto& e : F) { fprintf(f, "%s\"%s\":%lld", c ? "," : "", e.first.c_str(), (long long)e.second); c = true; }
        fprintf(f, "},\"counters\":{"); c = false; for (auto& e : Cn) { fprintf(f, "%s\"%s\":%lld", c ? "," : "", e.first.c_str(), (long long)e.second); c = true; }
        fprintf(f, "},\"violations\":["); c = false; for (auto& e : V) { fprintf(f, "%s{\"seed\":\"%llu\",\"text\":", c ? "," : "", (unsigned long long)e.first); jstr(f, e.second.c_str()); fprintf(f, "}"); c = true; }
        fprintf(f, "],\"error_list\":["); c = false; for (auto& e : E) { fprintf(f, "%s{\"seed\":\"%llu\",\"text\":", c ? "," : "", (unsigned long long)e.first); jstr(f, e.second.c_str()); fprintf(f, "}"); c = true; }
        fprintf(f, "]}\n"); fclose(f);
        return 0;
    }
    Result* r = map_result();
    if (cmd == "min") {
        const u64 seed = strtoull(argv[2], nullptr, 0);
        one(r, seed, nullptr, false, 60); const u64 h = r->hash; if (r->verdict != 1) { printf("GATE seed does not fail (%d %s)\n", r->verdict, r->text); return 3; }
        one(r, seed, nullptr, false, 60); if (r->verdict != 1 || r->hash != h) { printf("GATE seed is not repeatable\n"); return 3; }
        const std::string kl = klass(r->text); std::map<u64, u32> t = trace_of(r); const std::size_t before = t.size(); bool have = r->ntrace < kMaxTrace;
        if (have) { one(r, seed, &t, false, 60); if (r->verdict != 1 || r->hash != h) { printf("GATE trace replay differs\n"); return 3; } t = minimise(r, seed, t, kl, real_now() + 25); one(r, seed, &t, true, 60); if (r->verdict != 1) { printf("GATE minimised trace does not fail\n"); return 3; } }
        else one(r, seed, nullptr, true, 60);
        FILE* f = fopen(argv[3], "w"); if (!f) return 2;
        fprintf(f, "seed %llu\nmode %s\nhash %llx\ndecisions %zu of %zu\n", (unsigned long long)seed, have ? "trace" : "seed", (unsigned long long)r->hash, t.size(), before);
        for (auto& e : t) fprintf(f, "d %llx %u\n", (unsigned long long)e.first, e.second);
        fprintf(f, "violation %s\nhistory\n%s", r->text, r->hist); fclose(f);
        printf("VIOLATED %s\n", r->text); return 1;
    }
    if (cmd == "both") {   // for debugging: histories of a seed run and of its trace replay
        one(r, strtoull(argv[2], nullptr, 0), nullptr, true, 60); FILE* f = fopen("/tmp/both.1", "w"); fputs(r->hist, f); fclose(f); auto t = trace_of(r);
        one(r, strtoull(argv[2], nullptr, 0), &t, true, 60); f = fopen("/tmp/both.2", "w"); fputs(r->hist, f); fclose(f); return 0;
    }
    if (cmd == "replay") {
        FILE* f = fopen(argv[2], "r"); if (!f) { // a seed
            one(r, strtoull(argv[2], nullptr, 0), nullptr, true, 60); printf("%s%s\nverdict %d steps %llu switches %llu hash %llx\n", r->hist, r->text, r->verdict, (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->hash); return r->verdict; }
        char l[2000]; u64 seed = 0, h = 0; bool tr = true; std::map<u64, u32> t; unsigned long long a; unsigned b;
        while (fgets(l, sizeof l, f)) { if (sscanf(l, "seed %llu", &a) == 1) seed = a; else if (!strncmp(l, "mode seed", 9)) tr = false; else if (sscanf(l, "hash %llx", &a) == 1) h = a; else if (sscanf(l, "d %llx %u", &a, &b) == 2) t[a] = b; else if (!strncmp(l, "history", 7)) break; }
        one(r, seed, tr ? &t : nullptr, true, 60);
        printf("%s\nverdict %d %s\nhash %llx %s\n", r->hist, r->verdict, r->text, (unsigned long long)r->hash, r->hash == h ? "as recorded" : "DIFFERENT");
        return r->verdict == 1 && r->hash == h ? 1 : r->verdict == 1 ? 4 : 0;
    }
    return 2;
}
