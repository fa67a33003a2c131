// Tracing on the complete runtime (C24): a provider whose events and field are traced, consumers that read and set, and a trace daemon (this scenario plays it) that registers memory, takes the traced samples, reads
// them late, reports completion late, in any order, from several threads or never, and fails with every kind of error.
// Oracle: the bytes a traced sample had when it was traced are there until its completion is reported; a traced sample is the one being sent; sending works and delivers whatever the daemon does; a trace slot whose
// sample is completed (or whose service was withdrawn) is used again.
#include "com.h"
#include "score/mw/com/impl/runtime.h"
#include "../node/trace_daemon.h"
#include "score/memory/shared/shared_memory_factory.h"
#include "score/mw/com/impl/bindings/lola/event_slot_status.h"
#include "score/mw/com/impl/bindings/lola/service_data_control.h"
#include "score/memory/shared/typedshm/typedshm_wrapper/typed_memory.h"
#include "score/os/errno.h"
#include <fcntl.h>
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace simcom;
namespace trc {
namespace tr = score::analysis::tracing;
enum Elem { kEv = 0, kEv2 = 1, kFld = 2, kElems = 3 };   // of one instance; two instances of the service with the events
constexpr int kAll = 6;                                   // elements of instance 1: 0 1, of instance 2: 3 4; the field: 2
struct ClientState { int id = 0, proc = 0, thread = 0, inst = 0; bool b = false, field = false, ready = false, done = false; unsigned quota = 1; const char* call = ""; };
struct Oracle { HalfMade half;
    Cfg cfg, cfgb; unsigned pace = 1000; bool b = false, crashes = false, trace_clients = false, avoid_late = true, set_calls = false; int ni = 1, procs = 1; std::vector<ClientState> c;
    bool point[kAll] = {}, point_alloc[kAll] = {}; unsigned fail_pm = 0, shm_fail_pm = 0, lose_pm = 0, slow_ns = 1; bool gets = false; bool register_fails = false, cb_fails = false, fatal = false;
    std::uint64_t sent[kAll] = {}, started[kAll] = {}, cut[kAll] = {}; std::set<std::uint64_t> failed[kAll]; bool stop = false, hold = true, healthy = false, last_offer = false, exit = false, calm = false; unsigned sends_left = 0, offers_left = 0; int prov_pid = 0, pid[4] = {}; int up = 0; std::uint64_t offers = 0; int spawned = 0, incarnation = 0, rogue_pid = 0; bool rogue = false; bool stale_lock = false; std::map<std::string, int> creators; unsigned typed_fail_pm = 0; bool typed_failed = false;
};
Oracle* O;
void nap() { switch (sim_below(4)) { case 0: break; case 1: sim_yield(); break; case 2: sim_sleep_ns(sim_below(20000)); break; default: sim_sleep_ns(sim_below(O->pace)); } }
// ---- the typed memory daemon: owns the memory it creates for others
constexpr int kTypedUid = 900;
struct TypedMem final : score::memory::shared::TypedMemory {
    using Err = score::os::Error;
    score::cpp::expected_blank<Err> AllocateNamedTypedMemory(const std::size_t size, const std::string name, const score::memory::shared::permission::UserPermissions& perms) const noexcept override {
        nap(); SimAtomic a; namespace ms = score::memory::shared::permission; const int me = sk_getuid();
        if (!O->healthy && sim_chance(O->typed_fail_pm)) { sim_count("typed_memory_failures", 1); O->typed_failed = true; return score::cpp::make_unexpected(Err::createFromErrno(ENOMEM)); }
        sk_become(kTypedUid); const int fd = sk_shm_open(name.c_str(), O_CREAT | O_EXCL | O_RDWR, 0600); int r = fd;
        if (fd >= 0) {
            sk_fchmod(fd, std::holds_alternative<ms::WorldWritable>(perms) ? 0666 : std::holds_alternative<ms::WorldReadable>(perms) ? 0644 : 0600); r = sk_ftruncate(fd, static_cast<long>(size)); sk_acl_allow(fd, static_cast<unsigned>(me), 6);
            if (const auto* m = std::get_if<ms::UserPermissionsMap>(&perms)) for (auto& [perm, users] : *m) for (auto u : users) sk_acl_allow(fd, u, perm == score::os::Acl::Permission::kWrite ? 2 : 4);
            sk_close(fd); if (r < 0) sk_shm_unlink(name.c_str());
            else if (const int m = sk_open(("/tmp" + name).c_str(), O_CREAT | O_WRONLY, 0644); m >= 0) sk_close(m);   // where the code looks for typed memory (on QNX it is the memory itself)
        }
        sk_become(me); if (r < 0) { O->typed_failed = true; return score::cpp::make_unexpected(Err::createFromErrno(-r)); }
        O->creators[name] = me; return {};
    }
    score::cpp::expected<int, Err> AllocateAndOpenAnonymousTypedMemory(const std::uint64_t) const noexcept override { return score::cpp::make_unexpected(Err::createFromErrno(ENOTSUP)); }
    score::cpp::expected_blank<Err> Unlink(std::string_view name) const noexcept override {
        nap(); SimAtomic a; const std::string n{name}; const int me = sk_getuid(); auto it = O->creators.find(n); if (it == O->creators.end() || it->second != me) return score::cpp::make_unexpected(Err::createFromErrno(EPERM));
        sk_become(kTypedUid); const int r = sk_shm_unlink(n.c_str()); sk_unlink(("/tmp" + n).c_str()); sk_become(me); if (r < 0) return score::cpp::make_unexpected(Err::createFromErrno(-r)); O->creators.erase(it); return {};
    }
    score::cpp::expected<uid_t, Err> GetCreatorUid(std::string_view name) const noexcept override { nap(); SimAtomic a; auto it = O->creators.find(std::string{name}); if (it == O->creators.end()) { sim_count("creator_unknown", 1); return score::cpp::make_unexpected(Err::createFromErrno(ENOENT)); } return static_cast<uid_t>(it->second); }
};
// ---- the trace daemon
const char* const kCutOff = "Disconnecting unsafe QM consumers";
struct Pending { tr::TraceContextId ctx = 0; int elem = 0; const Payload* at = nullptr; Payload copy{}; int object = 0; bool cancelled = false, claimed = false, undermined = false, lost = false, reporting = false; std::uint64_t no = 0; };
struct Object { void* base = nullptr; std::size_t size = 0; bool registered = false; };
thread_local int t_elem = -1; thread_local const Payload* t_value = nullptr; thread_local std::uint64_t t_id = 0; thread_local int t_traced = 0; thread_local std::uint64_t t_lates = 0; thread_local bool t_alloc = false; thread_local int t_offering = -1;
int group(int e) { return e / 3 * 2 + (e == kFld ? 1 : 0); }   // the service instance (whose data memory is registered) an element belongs to
enum Reg { kNot, kRegistered, kRetry, kDead };
struct DaemonImpl final : sim_trace::Daemon {
    bool provider; std::deque<Object> objects; std::deque<Pending> pending; tr::TraceDoneCallBackType cb{}; bool has_cb = false, disturbed = false; std::uint64_t no = 0, lates = 0; std::map<tr::TraceContextId, std::uint64_t> late_at; std::uint32_t last_data_id[kAll] = {}; int lost[kAll] = {}; Reg reg[4] = {}; bool dis[kAll][2] = {};
    explicit DaemonImpl(bool p) : provider{p} {}
    tr::ErrorCode draw() { static const tr::ErrorCode r[] = {tr::ErrorCode::kNotEnoughMemoryRecoverable, tr::ErrorCode::kMessageSendFailedRecoverable, tr::ErrorCode::kRingBufferFullRecoverable}, f[] = {tr::ErrorCode::kInvalidArgumentFatal, tr::ErrorCode::kDaemonConnectionFailedFatal, tr::ErrorCode::kInvalidAppInstanceIdFatal};
        if (O->fatal && sim_chance(150)) { disturbed = true; sim_count("trace_terminal_errors", 1); return tr::ErrorCode::kTerminalFatal; } if (sim_chance(250)) { sim_count("trace_fatal_errors", 1); return f[sim_below(3)]; } sim_count("trace_recoverable_errors", 1); return r[sim_below(3)]; }
    static bool recoverable(tr::ErrorCode c) { return c == tr::ErrorCode::kNotEnoughMemoryRecoverable || c == tr::ErrorCode::kMessageSendFailedRecoverable || c == tr::ErrorCode::kRingBufferFullRecoverable; }
    score::result::Error sample_error() { const auto c = draw(); if (!recoverable(c)) dis[t_elem][t_alloc] = true; return tr::MakeError(c); }   // ends this one trace point
    score::result::Error error() { return tr::MakeError(draw()); }
    tr::RegisterClientResult RegisterClient(tr::BindingType, const std::string&) override { nap(); if (O->register_fails) { disturbed = true; return score::MakeUnexpected(tr::ErrorCode::kDaemonNotConnectedFatal); } return tr::TraceClientId{7}; }
    tr::RegisterTraceDoneCallBackResult RegisterTraceDoneCB(tr::TraceClientId c, tr::TraceDoneCallBackType f) override { nap(); if (c != 7) sim_violation("the trace-done callback is registered for client %d", c); if (O->cb_fails) { disturbed = true; return score::MakeUnexpected(tr::ErrorCode::kCallbackAlreadyRegisteredRecoverable); } cb = std::move(f); has_cb = true; return {}; }
    tr::RegisterSharedMemoryObjectResult RegisterShmObject(tr::TraceClientId c, int fd) override {
        nap(); if (c != 7) sim_violation("memory is registered for trace client %d", c);
        struct stat st; std::memset(&st, 0, sizeof st); if (sk_fstat(fd, &st) != 0) sim_violation("the descriptor of the memory registered for tracing is not open");
        const bool again = t_offering < 0; const int g = again ? group(t_elem) : t_offering;
        { SimAtomic a; if (again && reg[g] != kRetry && !disturbed) sim_violation("memory of group %d is registered again", g); if (again) sim_count("memory_registered_again", 1); if (sim_chance(O->shm_fail_pm)) { const auto c = draw(); reg[g] = recoverable(c) && !again ? kRetry : kDead; if (reg[g] == kRetry) sim_count("registrations_to_repeat", 1); sim_event("registration of the memory of group %d fails%s", g, reg[g] == kRetry ? " for now" : ""); return tr::RegisterSharedMemoryObjectResult{score::unexpect, tr::MakeError(c)}; } }
        const long at = sk_mmap(nullptr, static_cast<std::size_t>(st.st_size), PROT_READ, MAP_SHARED, fd, 0); void* p = reinterpret_cast<void*>(at); if (at < 0 && at > -4096) sim_violation("the memory registered for tracing cannot be mapped");
        SimAtomic a; reg[g] = kRegistered; sim_event("memory of group %d is registered", g); objects.push_back({p, static_cast<std::size_t>(st.st_size), true}); sim_count("trace_objects", 1); return static_cast<tr::ShmObjectHandle>(objects.size());
    }
    tr::UnregisterSharedMemoryObjectResult UnregisterShmObject(tr::TraceClientId, tr::ShmObjectHandle h) override {
        nap(); Object* o; { SimAtomic a; o = object(h); o->registered = false; sim_event("object %d is unregistered", h); for (auto& p : pending) if (p.object == h) p.cancelled = true; for (int& l : lost) l = 0; }
        sk_munmap(o->base, o->size); SimAtomic a; if (sim_chance(O->shm_fail_pm)) return tr::UnregisterSharedMemoryObjectResult{score::unexpect, error()};
        return {};
    }
    Object* object(tr::ShmObjectHandle h) { if (h <= 0 || static_cast<std::size_t>(h) > objects.size() || !objects[static_cast<std::size_t>(h) - 1].registered) sim_violation("memory object %d is used in a trace and not registered", h); return &objects[static_cast<std::size_t>(h) - 1]; }
    static int elem_of(const tr::ServiceInstanceElement& e) { const bool f = e.element_id.index() == 1; if (e.service_id == 101) return f && std::get<1>(e.element_id).id == 3 && e.instance_id == 1 ? int{kFld} : -1; if (e.service_id != 100 || f) return -1; const auto id = std::get<0>(e.element_id).id; return id < 1 || id > 2 || e.instance_id < 1 || e.instance_id > 2 ? -1 : static_cast<int>((e.instance_id - 1) * 3 + id - 1); }
    void slow() { if (sim_chance(300)) nap(); }
    tr::TraceResult Trace(tr::TraceClientId c, const tr::AraComMetaInfo& i, tr::ShmDataChunkList& l, tr::TraceContextId ctx) override {
        slow();
        {
            SimAtomic a; t_traced++; const int e = elem_of(i.properties.element); if (c != 7 || e < 0) sim_violation("a sample is traced for something unknown (client %d, service %u instance %u)", c, i.properties.element.service_id, i.properties.element.instance_id);
            if (e != t_elem) sim_violation("element %d is traced while element %d is sent", e, t_elem);
            if (l.size() != 1 || l[0].size != sizeof(Payload)) sim_violation("a traced sample has %zu parts of %zu bytes", l.size(), l.empty() ? 0 : l[0].size);
            const Object* o = object(l[0].start.shm_object_handle); if (l[0].start.offset + sizeof(Payload) > o->size) sim_violation("a traced sample lies outside of the memory it is said to be in");
            const auto* at = reinterpret_cast<const Payload*>(static_cast<const char*>(o->base) + l[0].start.offset); Payload v; std::memcpy(&v, at, sizeof v);
            if (!v.good() || v.id != t_id) sim_violation("value %llu of element %d is sent and the traced bytes are those of value %llu%s", static_cast<unsigned long long>(t_id), e, static_cast<unsigned long long>(v.id), v.good() ? "" : " (damaged)");
            if (!i.properties.data_id.has_value()) sim_violation("a traced sample has no data id");
            if (e != kFld && *i.properties.data_id <= last_data_id[e] && last_data_id[e]) sim_violation("the traced sample of element %d has data id %u after %u", e, *i.properties.data_id, last_data_id[e]);
            last_data_id[e] = *i.properties.data_id;
            for (auto& p : pending) if (p.ctx == ctx && !p.cancelled && !p.undermined) sim_violation("trace context %u is used again before its completion was reported", ctx);
            sim_count("samples_traced", 1); if (i.data_loss) sim_count("data_loss_flags", 1);
            if (!O->healthy && sim_chance(O->fail_pm)) { return tr::TraceResult{score::unexpect, sample_error()}; }
            Pending p; p.ctx = ctx; p.elem = e; p.at = at; p.copy = v; p.object = l[0].start.shm_object_handle; p.no = ++no;
            if (!O->healthy && sim_chance(O->lose_pm)) { p.claimed = p.lost = true; sim_count("completions_lost", 1); }
            for (auto& x : pending) if (x.ctx == ctx && x.reporting && !objects[static_cast<std::size_t>(x.object) - 1].registered) p.undermined = true;   // a completion is being reported late
            if (auto it = late_at.find(ctx); it != late_at.end() && it->second > t_lates) p.undermined = true;
            pending.push_back(p); sim_event("trace %llu of element %d as %u", static_cast<unsigned long long>(p.no), e, ctx);
        }
        slow(); return {};
    }
    tr::TraceResult Trace(tr::TraceClientId c, const tr::AraComMetaInfo&, tr::LocalDataChunkList& l) override {
        slow(); SimAtomic a; if (c != 7) sim_violation("something is traced for client %d", c);
        unsigned char sum = 0; for (auto& x : l) { if (x.size && !x.start) sim_violation("traced data without an address"); for (std::size_t k = 0; k < x.size; ++k) sum = static_cast<unsigned char>(sum + static_cast<const unsigned char*>(x.start)[k]); }
        sim_count("calls_traced", 1); if (sum == 255) sim_count("sum", 1);
        if (!O->healthy && sim_chance(O->fail_pm)) return tr::TraceResult{score::unexpect, error()};
        return {};
    }
    int open_of(int e) { int n = 0; for (auto& p : pending) if (p.elem == e && (!p.cancelled || p.reporting)) ++n; return n; }
    void check(const Pending& p) { if (!p.cancelled && std::memcmp(p.at, &p.copy, sizeof(Payload)) != 0) sim_violation("%sthe traced sample %llu of element %d has changed before its completion was reported", p.undermined ? "[late-trace-done] " : O->rogue && sim_log_seen(O->prov_pid, kCutOff) ? "[qm-cut-off-drops-traced] " : "", static_cast<unsigned long long>(p.copy.id), p.elem); }
    void undermine(tr::TraceContextId c) { SimAtomic a; late_at[c] = ++lates; for (auto& x : pending) if (x.ctx == c && !x.cancelled) x.undermined = true; }   // known: a late completion releases what uses the trace context now
    // a thread of the trace library: reads what is to be traced and reports it as done
    void worker(const bool* end) {
        for (;;) {
            Pending p; bool found = false;
            { SimAtomic a; for (auto& x : pending) check(x); unsigned n = 0; for (auto& x : pending) if (!x.claimed && (!x.cancelled || !O->avoid_late)) ++n; if (n) { unsigned k = sim_chance(500) ? 0 : sim_below(n); for (auto& x : pending) { if (x.claimed || (x.cancelled && O->avoid_late)) continue; if (k-- == 0) { x.claimed = true; p = x; found = true; break; } } }
              for (auto it = pending.begin(); it != pending.end();) it = it->cancelled && (it->lost || (!it->claimed && O->avoid_late)) ? pending.erase(it) : it + 1;
              if (!found && *end) return; }
            if (!found) { sim_sleep_ns(200000); continue; }
            if (sim_chance(300)) sim_sleep_ns(sim_below(O->slow_ns)); else nap();
            bool late = false; { SimAtomic a; for (auto& x : pending) if (x.no == p.no) { check(x); late = x.cancelled || x.undermined; } else check(x); }
            if (late && O->avoid_late) { forget(p); continue; }
            { SimAtomic a; for (auto& x : pending) if (x.no == p.no) x.reporting = x.cancelled = true; }   // from here on the slot may be used again
            sim_event("completion of %u", p.ctx); if (late) undermine(p.ctx); cb(p.ctx); SimAtomic a;
            for (auto it = pending.begin(); it != pending.end();) it = it->no == p.no ? pending.erase(it) : it + 1;
            if (late) { sim_count("completions_after_withdrawal", 1); undermine(p.ctx); }
            sim_count("completions", 1);
        }
    }
    void forget(const Pending& p) { SimAtomic a; for (auto it = pending.begin(); it != pending.end();) it = it->no == p.no ? pending.erase(it) : it + 1; }
};
DaemonImpl* D;
// ---- provider
int elem(int inst, int e) { return inst * 3 + e; }
bool enabled() { auto* r = com::impl::Runtime::getInstance().GetTracingRuntime(); return r && r->IsTracingEnabled(); }
bool typed(int e) { char n[64]; std::snprintf(n, sizeof n, "/lola-data-%016d-%05d", e == kFld ? 101 : 100, e / 3 + 1); return O->creators.count(n) != 0; }
struct Sender {   // marks the value that the calling thread sends
    int e; bool must = false, was = false; Reg reg = kNot;
    Sender(int el, std::uint64_t id, bool alloc) : e{el} {
        SimAtomic a; t_elem = el; t_id = id; t_traced = 0; t_alloc = alloc; t_lates = D->lates; reg = D->reg[group(e)];
        must = !O->rogue && (alloc ? O->point_alloc[e] : O->point[e]) && !D->dis[e][alloc] && typed(e) && enabled() && D->has_cb && !D->disturbed && (reg == kRegistered || reg == kRetry) && O->cfg.tracing_slots && e != kFld && D->open_of(e) < static_cast<int>(O->cfg.tracing_slots); was = enabled();
    }
    ~Sender() {
        SimAtomic a; if (t_traced > 1) sim_violation("value %llu of element %d is traced %d times", static_cast<unsigned long long>(t_id), e, t_traced); if (t_traced) sim_count("sends_traced", 1);
        if (must && !t_traced && !D->disturbed && enabled() && D->reg[group(e)] != kDead) { if (D->reg[group(e)] == kRetry) sim_violation("the memory of element %d is not registered again", e); sim_violation("value %llu of element %d is not traced although a trace slot is free", static_cast<unsigned long long>(t_id), e); }
        if (!t_traced && (reg == kDead || reg == kNot || D->reg[group(e)] == kDead)) D->dis[e][t_alloc] = true;   // no memory to trace from: ends the trace point
        if (was && !enabled() && !D->disturbed && O->incarnation == 0) sim_violation("tracing is disabled without a reason"); if (must && t_traced) sim_count("due_traces", 1);
        if (!must && !t_traced) sim_count("sends_not_traced", 1);
        t_elem = -1;
    }
};
void result(int e, std::uint64_t id, bool ok, const char* what) { SimAtomic a; if (!ok) sim_violation("the provider cannot %s element %d", what, e); if (e != kFld) O->sent[e] = id; sim_count("sends", 1); }
std::uint64_t next_id(int e) { SimAtomic a; return ++O->started[e]; }
struct Gate { std::mutex m; std::condition_variable cv; bool paused = true, quit = false; int busy = 0;
    bool enter() { std::unique_lock<std::mutex> l{m}; cv.wait(l, [&] { return !paused || quit; }); if (quit) return false; ++busy; return true; }
    void leave() { std::lock_guard<std::mutex> l{m}; --busy; cv.notify_all(); }
    void pause() { std::unique_lock<std::mutex> l{m}; paused = true; cv.wait(l, [&] { return busy == 0; }); }
    void resume() { std::lock_guard<std::mutex> l{m}; paused = false; cv.notify_all(); }
    void end() { std::lock_guard<std::mutex> l{m}; quit = true; cv.notify_all(); } };
bool may_send() { SimAtomic a; if (O->healthy) return true; if (!O->sends_left) return false; --O->sends_left; return true; }
template <typename Ev> void send_one(Ev& ev, int e) {
    Payload v; const auto id = next_id(e); v.fill(id, static_cast<std::uint32_t>(e));
    if (sim_chance(500)) { Sender s{e, id, false}; result(e, id, ev.Send(v).has_value(), "send"); return; }
    auto al = ev.Allocate(); if (!al) sim_violation("the provider cannot allocate a sample of element %d: %s", e, std::string(al.error().UserMessage()).c_str());
    auto x = std::move(al).value(); *x = v; if (sim_chance(300)) nap(); Sender s{e, id, true}; result(e, id, ev.Send(std::move(x)).has_value(), "send");
}
// a process that opens the memory (or was killed while it did) holds the lock file of it
bool lock_left() { bool r = false; SimAtomic a; sk_peek_tree("/tmp/", [](void* x, const char* path, unsigned, unsigned, int) { const std::string p = path; if (p.find("/lola-") != std::string::npos && p.size() > 5 && p.compare(p.size() - 5, 5, "_lock") == 0) *static_cast<bool*>(x) = true; }, &r); return r; }

struct Provider {
    int inst; bool field; std::unique_ptr<SvcSkeleton> s; std::unique_ptr<FldSkeleton> f; Gate gate; std::vector<std::thread> t; bool offered = false;
    void create() {
        if (field) {
            auto r = FldSkeleton::Create(spec("f")); if (!r) sim_violation("the provider cannot create its skeleton"); f = std::make_unique<FldSkeleton>(std::move(r).value());
            auto h = f->fld.RegisterSetHandler([](Payload& v) { const auto id = next_id(kFld); v.fill(id, kFld); SimAtomic a; t_elem = kFld; t_id = id; t_traced = 0; t_lates = D->lates; }); if (!h) sim_violation("the provider cannot register its set handler");
        } else { auto r = SvcSkeleton::Create(spec(inst ? "p2" : "p")); if (!r) sim_violation("the provider cannot create its skeleton"); s = std::make_unique<SvcSkeleton>(std::move(r).value()); }
        for (int k = 0; k < (field ? 1 : 2); ++k) t.emplace_back([this, k] { for (;;) { if (!gate.enter()) return; if (may_send()) one(k); else sim_sleep_ns(1000000); gate.leave(); nap(); if (O->healthy) sim_sleep_ns(3000000); } });
    }
    void one(int k) { if (field) update(); else if (k == 0) send_one(s->ev, elem(inst, kEv)); else send_one(s->ev2, elem(inst, kEv2)); }
    void update() {
        Payload v; const auto id = next_id(kFld); v.fill(id, kFld);
        if (sim_chance(500)) { Sender x{kFld, id, false}; result(kFld, id, f->fld.Update(v).has_value(), "update"); return; }
        auto al = f->fld.Allocate(); if (!al) sim_violation("the provider cannot allocate a value: %s", std::string(al.error().UserMessage()).c_str());
        auto x = std::move(al).value(); *x = v; if (sim_chance(300)) nap(); Sender m{kFld, id, true}; result(kFld, id, f->fld.Update(std::move(x)).has_value(), "update");
    }
    bool first = true;
    void offer() {
        Payload v; std::optional<Sender> m; if (field && first) { const auto id = next_id(kFld); v.fill(id, kFld); if (!f->fld.Update(v)) sim_violation("the provider cannot set the initial value"); m.emplace(int{kFld}, id, false); } first = false;
        t_offering = group(field ? int{kFld} : elem(inst, 0)); const auto r = [&] { Making m{O->half.making}; return field ? f->OfferService() : s->OfferService(); }(); t_offering = -1; if (!r) sim_violation("%sthe provider cannot offer: %s", O->stale_lock || lock_left() ? "[killed-opener-blocks] " : "", std::string(r.error().UserMessage()).c_str()); m.reset();
        if (field && offered_once) update();   // a field whose memory was removed has no value after it is offered again
        offered = offered_once = true; { SimAtomic a; O->offers++; sim_event("%s %d is offered", field ? "field" : "service", inst + 1); } gate.resume();
    }
    bool offered_once = false;
    void withdraw() { gate.pause(); { SimAtomic a; sim_event("%s %d is withdrawn", field ? "field" : "service", inst + 1); for (int e = 0; e < kElems; ++e) if (field ? e == kFld : e != kFld) { O->cut[elem(inst, e)] = O->started[elem(inst, e)]; D->last_data_id[elem(inst, e)] = 0; } } if (field) f->StopOfferService(); else s->StopOfferService(); offered = false; { SimAtomic a; D->reg[group(field ? int{kFld} : elem(inst, 0))] = kNot; for (auto& p : D->pending) if (p.elem / 3 == inst && (p.elem == kFld) == field) p.cancelled = true; } sim_count("withdrawals", 1); }
    void destroy() { gate.pause(); gate.end(); for (auto& x : t) x.join(); s.reset(); f.reset(); }
};
void provider() {
    bool end = false; std::vector<std::thread> w; for (int i = 0; i < 2; ++i) w.emplace_back([&end] { D->worker(&end); });
    {
        Provider p[3]; int n = 0; for (int i = 0; i < O->ni; ++i, ++n) p[n].inst = i, p[n].field = false; p[n].inst = 0; p[n].field = true; ++n;
        for (int i = 0; i < n; ++i) { p[i].create(); p[i].offer(); }
        { SimAtomic a; O->up = 1; }
        std::vector<std::thread> offerers; // instances are offered and withdrawn independently of each other
        for (int i = 0; i < n; ++i) offerers.emplace_back([&, i] {
            auto& x = p[i];
            for (;;) {
                bool stop, may; { SimAtomic a; stop = O->stop; may = !O->hold && O->offers_left; } if (stop) break;
                nap(); if (!may || !sim_chance(x.offered ? 30 : 300)) { if (sim_chance(200)) sim_sleep_ns(O->pace * 3); continue; }
                { SimAtomic a; O->offers_left--; } if (x.offered) x.withdraw(); else x.offer();
            }
            if (x.offered && sim_chance(500)) x.withdraw();
            for (;;) { bool h; { SimAtomic a; h = O->last_offer; } if (h) break; sim_sleep_ns(500000); }
            if (!x.offered) x.offer();
        });
        for (auto& x : offerers) x.join();
        { SimAtomic a; O->up = 2; }
        for (;;) { bool e; { SimAtomic a; e = O->exit; } if (e) break; sim_sleep_ns(500000); }
        for (int i = 0; i < n; ++i) { if (sim_chance(500)) p[i].withdraw(); p[i].destroy(); }
    }
    { SimAtomic a; end = true; } for (auto& x : w) x.join();
}
// ---- consumers
struct Client {
    ClientState& s; std::unique_ptr<SvcProxy> p; std::unique_ptr<FldProxy> f; std::uint64_t last[2] = {}; bool handler = false; struct Held { com::SamplePtr<Payload> ptr; Payload copy; }; std::deque<Held> held[2];
    explicit Client(ClientState& st) : s{st} {}
    template <typename P> void find(std::unique_ptr<P>& out, const std::string& name) { for (;;) { auto r = P::FindService(spec(name)); if (!r) sim_violation("client %d cannot search", s.id); if (r->empty()) { sim_sleep_ns(1000000); continue; } auto c = P::Create(r.value()[0]); if (!c) sim_violation("%sclient %d cannot create a proxy", O->stale_lock ? "[killed-opener-blocks] " : "", s.id); out = std::make_unique<P>(std::move(c).value()); return; } }
    template <typename Ev> void poll(Ev& ev, int k) {
        const int e = s.field ? int{kFld} : elem(s.inst, k); auto& h = held[k]; for (auto& x : h) if (std::memcmp(&*x.ptr, &x.copy, sizeof(Payload)) != 0) sim_violation("a sample that client %d holds has changed", s.id);
        while (h.size() >= s.quota || (!h.empty() && sim_chance(400))) h.pop_front();
        auto r = ev.GetNewSamples([&](com::SamplePtr<Payload> x) {
            const Payload v = *x; { SimAtomic a; if (!v.good() || v.from != static_cast<std::uint32_t>(e) || !v.id || v.id > O->started[e]) sim_violation("client %d gets a damaged sample of element %d (id %llu)", s.id, e, static_cast<unsigned long long>(v.id)); if (e != kFld && v.id <= last[k]) sim_violation("client %d gets sample %llu of element %d after %llu", s.id, static_cast<unsigned long long>(v.id), e, static_cast<unsigned long long>(last[k])); }
            last[k] = v.id; h.push_back({std::move(x), v}); sim_count("samples_received", 1);
        }, s.quota);
        if (!r) sim_count("polls_failed", 1);
    }
    template <typename Ev> void subscribe(Ev& ev, bool on) { if (on) { auto r = ev.Subscribe(s.quota); if (!r) sim_violation("client %d cannot subscribe: %s", s.id, std::string(r.error().UserMessage()).c_str()); } }
    template <typename Ev> void churn(Ev& ev, int k) { held[k].clear(); ev.Unsubscribe(); last[k] = 0; nap(); auto r = ev.Subscribe(s.quota); subscribed[k] = r.has_value(); }
    bool subscribed[2] = {true, true};
    void op() {
        const int k = s.field ? 0 : static_cast<int>(sim_below(2));
        if (!subscribed[k]) { auto r = s.field ? f->fld.Subscribe(s.quota) : k ? p->ev2.Subscribe(s.quota) : p->ev.Subscribe(s.quota); subscribed[k] = r.has_value(); if (!r) { nap(); return; } }
        if (sim_chance(30)) { if (s.field) churn(f->fld, 0); else if (k) churn(p->ev2, 1); else churn(p->ev, 0); return; }
        if (sim_chance(30)) { auto h = [] {}; if (s.field) handler ? f->fld.UnsetReceiveHandler() : f->fld.SetReceiveHandler(h); else handler ? p->ev.UnsetReceiveHandler() : p->ev.SetReceiveHandler(h); handler = !handler; return; }
        if (s.field) { if (O->set_calls && sim_chance(200)) { Payload v; v.fill(1, kFld); auto r = f->fld.Set(v); if (r) { SimAtomic a; if (!r->operator*().good()) sim_violation("the accepted value is damaged"); sim_count("sets", 1); } } else if (O->gets && sim_chance(200)) { auto r = f->fld.Get(); if (r) { const Payload v = *r.value(); if (!v.good()) sim_violation("client %d gets a damaged value", s.id); sim_count("gets", 1); } } else poll(f->fld, 0); }
        else if (k) poll(p->ev2, 1); else poll(p->ev, 0);
    }
    void run() {
        if (s.field) { find(f, s.b ? "cbf" : "cqf"); subscribe(f->fld, true); } else { find(p, std::string(s.b ? "cb" : "cq") + (s.inst ? "2" : "")); subscribe(p->ev, true); subscribe(p->ev2, true); }
        { SimAtomic a; s.ready = true; }
        for (;;) { bool stop; { SimAtomic a; stop = O->stop; } if (stop) break; nap(); op(); }
        for (;;) { bool up; { SimAtomic a; up = O->up == 2 && O->healthy; } if (up) break; sim_sleep_ns(1000000); }
        // whatever happened to the tracing, new samples arrive
        for (int k = 0; k < (s.field ? 1 : 2); ++k) {
            const int e = s.field ? int{kFld} : elem(s.inst, k); std::uint64_t goal; { SimAtomic a; goal = O->started[e] + 1; } bool got = false;
            for (int n = 0; n < 5000 && !got; ++n) { if (!subscribed[k]) { auto r = s.field ? f->fld.Subscribe(s.quota) : k ? p->ev2.Subscribe(s.quota) : p->ev.Subscribe(s.quota); subscribed[k] = r.has_value(); } if (s.field) poll(f->fld, 0); else if (k) poll(p->ev2, 1); else poll(p->ev, 0); got = last[k] >= goal; if (!got) sim_sleep_ns(2000000); }
            if (!got) sim_violation("client %d gets no new sample of element %d", s.id, e);
            sim_count("deliveries_checked", 1);
        }
        held[0].clear(); held[1].clear(); p.reset(); f.reset(); SimAtomic a; s.done = true;
    }
};
void rogue();
void process(int role, int, void* arg) {
    O = static_cast<Oracle*>(arg); bool b = O->b; if (role) { b = false; for (auto& c : O->c) if (c.proc == role - 10) b |= c.b; }
    sim_trace::typed_memory_uid = kTypedUid; score::memory::shared::SharedMemoryFactory::SetTypedMemoryProvider(std::make_shared<TypedMem>());
    if (role == 99) { init_runtime("/etc/con_q.json"); rogue(); return; }
    static DaemonImpl d{role == 0}; D = &d; sim_trace::set_daemon(&d);
    init_runtime(role == 0 ? (b ? "/etc/com_b.json" : "/etc/com_q.json") : (b ? "/etc/con_b.json" : "/etc/con_q.json"));
    if (role == 0) { provider(); return; }
    std::vector<std::thread> t; for (auto& c : O->c) if (c.proc == role - 10 && c.thread > 0) t.emplace_back([&c] { Client x{c}; x.run(); });
    for (auto& c : O->c) if (c.proc == role - 10 && c.thread == 0) { Client x{c}; x.run(); }
    for (auto& x : t) x.join();
}
// a QM consumer that takes references to samples and never gives them back
void rogue() {
    for (;;) {
        { SimAtomic a; if (O->stop) return; } sim_sleep_ns(O->pace * 4); if (!O->up || sim_chance(500)) continue;
        char name[64]; const bool f = sim_chance(300); std::snprintf(name, sizeof name, "/lola-ctl-%016d-%05d", f ? 101 : 100, f ? 1 : 1 + static_cast<int>(sim_below(static_cast<unsigned>(O->ni))));
        auto m = score::memory::shared::SharedMemoryFactory::Open(name, true); if (!m) continue; auto& c = *static_cast<com::impl::lola::ServiceDataControl*>(m->getUsableBaseAddress()); const bool all = sim_chance(500);
        for (auto& e : c.event_controls_) for (auto& x : e.second.data_control.state_slots_) { auto v = x.load(); const com::impl::lola::EventSlotStatus st{v}; if (st.IsInvalid() || st.IsInWriting() || (!all && sim_chance(700))) continue; if (x.compare_exchange_strong(v, v + 1)) sim_count("rogue_references", 1); }
    }
}
bool await(std::uint64_t ns, bool (*done)()) { for (std::uint64_t t = 0; t < ns; t += 2000000) { { SimAtomic a; if (done()) return true; } sim_sleep_ns(2000000); } SimAtomic a; return done(); }
void must(std::uint64_t ns, bool (*done)(), const char* what) { if (await(ns, done)) return; if (!O->calm) { O->calm = true; sim_calm(); } if (!await(ns, done)) sim_violation("%s", what); }
void start_provider(int inc) { { SimAtomic a; O->up = 0; O->incarnation = inc; } const int p = sim_spawn("provider", 0, inc, 1001, 1, O); SimAtomic a; O->prov_pid = p; O->half.next_provider(p); sim_watch_log(p, kCutOff); if (O->stale_lock) sim_tag_termination(p, "killed-opener-blocks", "Lock file still present after timeout"); if (inc) { sim_tag_termination(p, "getter-died-midway", "35RollbackSkeletonTracingTransactions"); sim_tag_termination(p, "getter-died-midway", "!skeleton_tracing_transaction_log_.IsActive()"); } if (O->gets && O->point[kFld]) sim_tag_termination(p, "getter-collides-with-trace", "(!slot.GetTransactionBegin()) at transaction_log_local_view"); }
std::string filter() {
    auto b = [](bool x) { return std::string(x ? "true" : "false"); }; const std::string px = b(O->trace_clients); std::string s = "{\"services\":[{\"shortname_path\":\"/sim/Svc\",\"events\":[";
    const std::string sub = ",\"trace_subscribe_send\":" + px + ",\"trace_unsubscribe_send\":" + px + ",\"trace_subscription_state_changed\":" + px + ",\"trace_receive_handler_registered\":" + px + ",\"trace_receive_handler_deregistered\":" + px + ",\"trace_receive_handler_callback\":" + px + ",\"trace_get_new_samples\":" + px + ",\"trace_get_new_samples_callback\":" + px;
    for (int k = 0; k < 2; ++k) s += std::string(k ? "," : "") + "{\"shortname\":\"" + (k ? "ev2" : "ev") + "\",\"trace_send\":" + b(O->point[k]) + ",\"trace_send_allocate\":" + b(O->point_alloc[k]) + sub + "}";
    s += "]},{\"shortname_path\":\"/sim/Fld\",\"fields\":[{\"shortname\":\"fld\",\"notifier\":{\"trace_update\":" + b(O->point[kFld]) + sub + "}}]}]}"; return s;
}
void control(const std::string& prop) {
    auto o = std::make_unique<Oracle>(); O = o.get();
    static const unsigned paces[] = {30000, 300000, 5000000}; O->pace = paces[sim_below(3)]; const bool c04 = prop == "C04"; O->b = c04 || sim_chance(350); O->crashes = sim_chance(500); O->procs = 1 + static_cast<int>(sim_below(2)); O->ni = 1 + (sim_chance(300) ? 1 : 0); O->rogue = O->b && sim_chance(c04 ? 900 : 300);
    static const unsigned fails[] = {0, 0, 20, 200}; O->fail_pm = fails[sim_below(4)]; O->shm_fail_pm = sim_chance(250) ? 300 : 0; O->typed_fail_pm = sim_chance(100) ? 300 : 0; O->lose_pm = sim_chance(300) ? 200 : 0; O->fatal = sim_chance(300); O->slow_ns = 1 + (sim_chance(500) ? O->pace * 3 : 20000000); O->register_fails = sim_chance(40); O->cb_fails = sim_chance(30); O->avoid_late = !sim_chance(100); O->set_calls = sim_chance(500); O->trace_clients = sim_chance(500);
    for (int e = 0; e < 2; ++e) { O->point[e] = O->point[e + 3] = sim_chance(800); O->point_alloc[e] = O->point_alloc[e + 3] = sim_chance(800); } O->point[kFld] = O->point_alloc[kFld] = sim_chance(800); O->gets = !O->point[kFld] || sim_chance(20);
    unsigned quotas = 0; for (int i = 0; i < O->procs; ++i) { const bool b = O->b && (O->rogue || sim_chance(400)); const int th = 1 + (sim_chance(500) ? 1 : 0); for (int t = 0; t < th; ++t) { ClientState c; c.id = static_cast<int>(O->c.size()); c.proc = i; c.thread = t; c.b = b; c.inst = static_cast<int>(sim_below(static_cast<unsigned>(O->ni))); c.field = sim_chance(350); if (c.field) c.inst = 0; c.quota = 1 + sim_below(3); quotas += c.quota; O->c.push_back(c); } }
    auto& g = O->cfg; g.slots = quotas + 2 + sim_below(2); g.subscribers = static_cast<unsigned>(O->c.size()); g.tracing_slots = 1 + sim_below(3); g.trace = !c04 || sim_chance(200);
    auto fill = [&](Cfg& x, bool as_b, bool prov, bool cons) { for (int i = 0; i < O->ni; ++i) { if (prov) x.instances.push_back({i ? "p2" : "p", 0, i + 1, O->b}); if (cons) x.instances.push_back({i ? "cq2" : "cq", 0, i + 1, false}); if (cons && as_b) x.instances.push_back({i ? "cb2" : "cb", 0, i + 1, true}); } if (prov) x.instances.push_back({"f", 1, 1, O->b}); if (cons) x.instances.push_back({"cqf", 1, 1, false}); if (cons && as_b) x.instances.push_back({"cbf", 1, 1, true}); x.asil_b = as_b; };
    const Cfg base = g; auto write = [&](const char* path, bool as_b, bool prov, bool trace) { Cfg x = base; x.trace = trace && base.trace; fill(x, as_b, prov, !prov); write_file(path, x.json()); };
    write("/etc/com_q.json", false, true, true); write("/etc/com_b.json", true, true, true); write("/etc/con_q.json", false, false, O->trace_clients); write("/etc/con_b.json", true, false, O->trace_clients); O->trace_clients &= base.trace; write_file("/etc/trace.json", filter());
    make_dirs(2); sim_mutual_send("mutual-send-block"); sim_max_steps(6000000);
    int inc = 0; start_provider(inc); must(20000000000ull, [] { return O->up == 1; }, "the provider does not come up");
    for (int i = 0; i < O->procs; ++i) { const int p = sim_spawn("client", 10 + i, 0, 1011 + i, 1, O); SimAtomic a; O->pid[i] = p; }
    { SimAtomic a; O->sends_left = sim_below(40); }
    must(20000000000ull, [] { for (auto& c : O->c) if (!c.ready) return false; return true; }, "a client does not get ready");
    if (O->rogue) { const int p = sim_spawn("rogue", 99, 0, 1099, 1, O); SimAtomic a; O->rogue_pid = p; sim_tag_termination(p, "killed-opener-blocks", "Lock file still present after timeout"); }
    const unsigned parts = 1 + sim_below(5);
    for (unsigned k = 0; k < parts; ++k) {
        { SimAtomic a; O->hold = false; O->sends_left = 150; O->offers_left = sim_chance(600) ? 4 + sim_below(12) : 0; } sim_sleep_ns(O->pace * 2 + sim_below(O->pace * 15));
        if (!O->crashes || !sim_chance(400) || inc > 5) continue;
        sim_crash_after(O->prov_pid, sim_below(sim_chance(500) ? 400 : 4000)); sim_wait_exit(O->prov_pid, 500000000ull); sim_kill(O->prov_pid); sim_event("the provider is dead"); sim_count("provider_crashes", 1);
        { SimAtomic a; O->hold = true; sk_peek_tree("/tmp/", [](void*, const char* path, unsigned, unsigned, int) { const std::string p = path; if (p.find("/lola-") != std::string::npos && p.size() > 5 && p.compare(p.size() - 5, 5, "_lock") == 0) O->stale_lock = true; }, nullptr); if (O->stale_lock) for (int i = 0; i < O->procs; ++i) sim_tag_termination(O->pid[i], "killed-opener-blocks", "Lock file still present after timeout"); O->register_fails = sim_chance(80); for (auto& x : O->cut) x = 0; }
        sim_sleep_ns(sim_below(O->pace * 3)); start_provider(++inc); must(40000000000ull, [] { return O->up == 1; }, "the provider does not come up again");
    }
    { SimAtomic a; O->stop = true; O->last_offer = true; O->offers_left = 0; if (!O->calm) { O->calm = true; sim_calm(); } O->healthy = true; } 
    must(40000000000ull, [] { return O->up == 2; }, "the provider does not come back to an offer");
    must(40000000000ull, [] { for (auto& c : O->c) if (!c.done) return false; return true; }, "a client does not end");
    for (int i = 0; i < O->procs; ++i) if (!sim_wait_exit(O->pid[i], 20000000000ull)) sim_violation("client process %d does not end", i);
    if (O->rogue && !sim_wait_exit(O->rogue_pid, 20000000000ull)) sim_violation("a consumer that keeps references does not end");
    { SimAtomic a; O->exit = true; } if (!sim_wait_exit(O->prov_pid, 20000000000ull)) sim_violation("the provider does not end");
}
}
