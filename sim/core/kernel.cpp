// The simulated operating system: files, shared memory, locks, pipes, sockets, inotify, poll, permissions.
#include "core.h"
#include <sys/mman.h>
#include <sys/file.h>
#include <sys/inotify.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <cerrno>
#include <unistd.h>
#include <deque>
#include <set>
#include <algorithm>
extern "C" void* __libc_malloc(size_t);
extern "C" void sim_check_access(const void*, std::size_t, int);
namespace sim {
enum class NT { kFile, kDir, kShm, kSock };
struct Ofd;
struct Inode { NT type; std::string name; unsigned mode; int uid; int gid; u64 ino; int nlink = 1; std::string data; int memfd = -1; u64 size = 0; std::vector<Ofd*> locks; std::vector<std::pair<int, int>> acl; Ofd* listener = nullptr; int shm_id = -1; int maps = 0; };
unsigned long net_changes = 0;   // how often a network connection was made, shut down, closed or cut
struct Channel { std::deque<u8> buf; std::size_t cap = 4096; bool wclosed = false, rclosed = false, reset = false; };
enum class OT { kFile, kPipeR, kPipeW, kSock, kInotify };
struct InEvent { int wd; unsigned mask; std::string name; };
struct Ofd {
    OT type; int refs = 1; Inode* node = nullptr; int flags = 0; u64 off = 0; int lock = LOCK_UN; std::string path; int owner = 0;
    Channel* rd = nullptr; Channel* wr = nullptr; bool listening = false; int backlog = 0; std::deque<Ofd*> pending; std::string bound; Ofd* peer = nullptr; int peer_pid = 0, peer_uid = 0; bool connected = false, inet = false;
    std::map<int, std::pair<Inode*, unsigned>> watches; std::map<int, std::string> wpath; int next_wd = 1; std::deque<InEvent> events; bool woken = false;
};
struct Mapping { u64 lo; u64 len; Inode* node; u64 off; int pid; int prot; };
struct KProc { std::map<int, Ofd*> fds; };
struct K {
    std::map<std::string, Inode*> fs; u64 next_ino = 100; std::map<std::string, Ofd*> abstract_socks; std::map<int, KProc> procs; std::vector<Mapping> maps; std::map<u64, Mapping*> bylo; int next_slot = 0; int next_shm = 1; std::vector<Ofd*> inotifies;
    std::map<int, std::vector<int>> dummy;
};
static K* k; static int poll_obj; static std::size_t sock_cap = 0, sock_cap_back = 0;
static std::vector<std::pair<u64, u64>> slot_info;  // slot -> (shm id, offset)
static std::string norm(const char* p) {
    std::string s(p), o; std::size_t i = 0; std::vector<std::string> parts;
    while (i < s.size()) { while (i < s.size() && s[i] == '/') ++i; std::size_t j = s.find('/', i); if (j == std::string::npos) j = s.size(); std::string c = s.substr(i, j - i); if (c == "..") { if (!parts.empty()) parts.pop_back(); } else if (!c.empty() && c != ".") parts.push_back(c); i = j; }
    for (auto& c : parts) o += "/" + c; return o.empty() ? "/" : o;
}
static std::string parent(const std::string& p) { auto r = p.rfind('/'); return r == 0 || r == std::string::npos ? "/" : p.substr(0, r); }
static std::string leaf(const std::string& p) { return p.substr(p.rfind('/') + 1); }
static Inode* find(const std::string& p) { auto it = k->fs.find(p); return it == k->fs.end() ? nullptr : it->second; }
static Inode* mk(const std::string& p, NT t, unsigned mode, int uid) { Inode* n = new Inode{}; n->type = t; n->mode = mode; n->uid = uid; n->gid = uid; n->ino = k->next_ino++; n->name = p; k->fs[p] = n; return n; }
// what the kernel granted to whom, for oracles
struct Audit { char kind; int pid, uid, other; unsigned mode; std::string path; };
static bool audit_on; static std::deque<Audit> audits;
static void audit(char kind, const std::string& path, unsigned mode, int other) { if (audit_on && cur) audits.push_back({kind, cur->pid, cur_proc()->uid, other, mode, path}); }
static KProc& kp() { return k->procs[cur->pid]; }
static Ofd* get(int fd) { auto& m = kp().fds; auto it = m.find(fd); return it == m.end() ? nullptr : it->second; }
static int put(Ofd* o) { auto& m = kp().fds; int n = 3; while (m.count(n)) ++n; m[n] = o; o->owner = cur->pid; return n; }
static int uid() { return cur_proc()->uid; }
static bool may(Inode* n, int want) {  // want: 4 read 2 write 1 exec
    const int u = uid(); if (u == 0) return true;
    unsigned b; if (u == n->uid) b = (n->mode >> 6) & 7; else { b = n->mode & 7; if (n->gid == u) b |= (n->mode >> 3) & 7; }
    if (u != n->uid) for (auto& a : n->acl) if (a.first == u) b |= static_cast<unsigned>(a.second);
    return (b & want) == static_cast<unsigned>(want);
}
static void changed() { wake(&poll_obj, -1); }
static void notify(Inode* dir, unsigned mask, const std::string& name) {
    for (Ofd* o : k->inotifies) for (auto& w : o->watches) if (w.second.first == dir && ((w.second.second & mask & 0xfff) || (mask & (IN_IGNORED | IN_Q_OVERFLOW)))) { o->events.push_back({w.first, mask, name}); wake(o, -1); }
    changed();
}
static void notify_path(const std::string& p, unsigned mask) { if (Inode* d = find(parent(p))) notify(d, mask, leaf(p)); }
static void drop_watches(Inode* n) {
    for (Ofd* o : k->inotifies) for (auto it = o->watches.begin(); it != o->watches.end();) if (it->second.first == n) { if (it->second.second & IN_DELETE_SELF) o->events.push_back({it->first, IN_DELETE_SELF, ""}); o->events.push_back({it->first, IN_IGNORED, ""}); wake(o, -1); it = o->watches.erase(it); } else ++it;
    changed();
}
static void release_inode(Inode*) {}  // kept until the run ends
static bool lock_conflict(Inode* n, Ofd* me, int op) { for (Ofd* o : n->locks) if (o != me && (op == LOCK_EX || o->lock == LOCK_EX)) return true; return false; }
static void unlock_ofd(Ofd* o) { if (o->lock == LOCK_UN || !o->node) return; auto& v = o->node->locks; v.erase(std::remove(v.begin(), v.end(), o), v.end()); o->lock = LOCK_UN; wake(o->node, -1); }
static void close_ofd(Ofd* o) {
    if (--o->refs) return;
    unlock_ofd(o);
    switch (o->type) {
        case OT::kFile: if ((o->flags & O_ACCMODE) != O_RDONLY && !o->path.empty()) { if (find(o->path) == o->node) notify_path(o->path, IN_CLOSE_WRITE); } break;
        case OT::kPipeR: o->rd->rclosed = true; wake(o->rd, -1); break;
        case OT::kPipeW: o->wr->wclosed = true; wake(o->wr, -1); break;
        case OT::kSock:
            if (o->inet) ++net_changes;
            if (o->connected) { if (!o->rd->buf.empty()) o->wr->reset = true; o->rd->rclosed = true; o->wr->wclosed = true; wake(o->rd, -1); wake(o->wr, -1); if (o->peer) { o->peer->peer = nullptr; } }
            if (o->listening) { auto it = k->abstract_socks.find(o->bound); if (it != k->abstract_socks.end() && it->second == o) k->abstract_socks.erase(it); while (!o->pending.empty()) { Ofd* s = o->pending.front(); o->pending.pop_front(); s->wr->reset = true; s->refs = 1; close_ofd(s); } wake(o, -1); }
            else if (!o->bound.empty()) { auto it = k->abstract_socks.find(o->bound); if (it != k->abstract_socks.end() && it->second == o) k->abstract_socks.erase(it); }
            break;
        case OT::kInotify: k->inotifies.erase(std::remove(k->inotifies.begin(), k->inotifies.end(), o), k->inotifies.end()); wake(o, -1); break;
    }
    changed();
}
void kernel_init() {
    k = new K; audit_on = false; audits.clear(); mk("/", NT::kDir, 0755, 0); mk("/tmp", NT::kDir, 01777, 0); mk("/dev", NT::kDir, 0755, 0); mk("/dev/shm", NT::kDir, 01777, 0); mk("/etc", NT::kDir, 0755, 0); mk("/var", NT::kDir, 0777, 0);
    static const std::size_t caps[] = {2048, 8192, 65536, 212992}; Rng r{mix(C.seed, 77)}; sock_cap = sock_cap_back = caps[r.below(4)];
}
void kernel_proc_died(int pid) {
    auto& m = k->procs[pid].fds; std::vector<Ofd*> v; for (auto& e : m) if (std::find(v.begin(), v.end(), e.second) == v.end()) v.push_back(e.second); m.clear(); for (Ofd* o : v) { o->refs = 1; close_ofd(o); }   // also the references of calls in progress
    for (auto& mp : k->maps) if (mp.pid == pid && mp.node) { mp.node->maps--; mp.node = nullptr; }
}
u64 canonical(u64 va) {
    if (va >= kShmLo && va < kShmHi) { const std::size_t s = (va - kShmLo) >> kShmSlotBits; if (s < slot_info.size()) return 0xF000000000000000ULL | (slot_info[s].first << 40) | (slot_info[s].second + ((va - kShmLo) & ((1ULL << kShmSlotBits) - 1))); }
    return va;
}
#define ENTER InSim sim_guard; point(0)
#define PENTER ENTER; hb_acquire(k); hb_release(k)   /* operations on names are ordered by the file system */
#define EMIT(r) do { hist("%s -> %ld", __func__, static_cast<long>(r)); return r; } while (0)
static bool interrupted() { return fault(SF_EINTR); }
}
using namespace sim;
extern "C" {
int sk_become(int u) { InSim s; const int o = uid(); cur_proc()->uid = u; return o; }
int sk_getpid() { return cur ? 1000 + cur->pid : 1000; } int sk_getuid() { return cur ? uid() : 0; } int sk_geteuid() { return sk_getuid(); } int sk_getgid() { return sk_getuid(); }
static int open_at(const std::string& p, int fl, unsigned mode, bool shm) {
    Inode* n = find(p);
    if (fault(SF_EMFILE)) return -EMFILE;
    if (n && (fl & O_CREAT) && (fl & O_EXCL)) return -EEXIST;
    if (!n) {
        if (!(fl & O_CREAT)) return -ENOENT;
        Inode* d = find(parent(p)); if (!d) return -ENOENT; if (d->type != NT::kDir) return -ENOTDIR; if (!may(d, 3)) return -EACCES;
        if (fault(SF_ENOSPC)) return -ENOSPC;
        n = mk(p, shm ? NT::kShm : NT::kFile, mode & ~022u & 07777, uid());
        if (shm) { n->memfd = memfd_create("s", 0); n->shm_id = k->next_shm++; }
        audit('c', p, n->mode, -1);
        notify(d, IN_CREATE, leaf(p));
    } else {
        const int acc = fl & O_ACCMODE; const int want = acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6;
        if (n->type == NT::kDir && acc != O_RDONLY) return -EISDIR;
        if (!may(n, want)) return -EACCES;
        if ((fl & O_TRUNC) && n->type == NT::kFile) n->data.clear();
        if ((fl & O_TRUNC) && n->type == NT::kShm) { if (ftruncate(n->memfd, 0)) {} n->size = 0; }
    }
    audit('o', p, static_cast<unsigned>(fl), -1);
    Ofd* o = new Ofd{}; o->type = OT::kFile; o->node = n; o->flags = fl; o->path = p; return put(o);
}
int sk_open(const char* path, int fl, unsigned mode) { PENTER; const int r = open_at(norm(path), fl, mode, norm(path).rfind("/dev/shm/", 0) == 0); hist("open %s %x -> %d", path, fl, r); return r; }
int sk_shm_open(const char* path, int fl, unsigned mode) { PENTER; const std::string p = "/dev/shm/" + std::string(path[0] == '/' ? path + 1 : path); const int r = open_at(p, fl, mode, true); hist("shm_open %s %x -> %d", path, fl, r); return r; }
int sk_close(int fd) { ENTER; Ofd* o = get(fd); if (!o) { hist("close of unknown descriptor %d", fd); return -EBADF; } hist("close %d", fd); kp().fds.erase(fd); close_ofd(o); return 0; }
static int unlink_path(const std::string& p) {
    Inode* n = find(p); if (!n) return -ENOENT; if (n->type == NT::kDir) return -EISDIR; Inode* d = find(parent(p));
    if (!may(d, 3)) return -EACCES; if ((d->mode & 01000) && uid() != 0 && uid() != n->uid && uid() != d->uid) return -EPERM;
    k->fs.erase(p); n->nlink = 0; notify(d, IN_DELETE, leaf(p)); drop_watches(n); release_inode(n); return 0;
}
int sk_unlink(const char* path) { PENTER; const int r = unlink_path(norm(path)); hist("unlink %s -> %d", path, r); return r; }
int sk_shm_unlink(const char* path) { PENTER; const int r = unlink_path("/dev/shm/" + std::string(path[0] == '/' ? path + 1 : path)); if (r == 0) audit('u', path, 0, -1); hist("shm_unlink %s -> %d", path, r); return r; }
int sk_remove(const char* path) {
    PENTER; const std::string p = norm(path); Inode* n = find(p); if (!n) { hist("remove %s -> none", path); return -ENOENT; }
    if (n->type != NT::kDir) { const int r = unlink_path(p); hist("remove %s -> %d", path, r); return r; }
    auto it = k->fs.upper_bound(p + "/"); if (it != k->fs.end() && it->first.compare(0, p.size() + 1, p + "/") == 0) return -ENOTEMPTY;
    Inode* d = find(parent(p)); if (!may(d, 3)) return -EACCES;
    k->fs.erase(p); notify(d, IN_DELETE | IN_ISDIR, leaf(p)); drop_watches(n); hist("rmdir %s", path); return 0;
}
int sk_mkdir(const char* path, unsigned mode) {
    PENTER; const std::string p = norm(path); if (find(p)) { hist("mkdir %s -> exists", path); return -EEXIST; } Inode* d = find(parent(p)); if (!d) return -ENOENT; if (!may(d, 3)) return -EACCES; if (fault(SF_ENOSPC)) return -ENOSPC;
    mk(p, NT::kDir, mode & ~022u & 07777, uid()); notify(d, IN_CREATE | IN_ISDIR, leaf(p)); hist("mkdir %s", path); return 0;
}
static void fill(Inode* n, struct stat* st) {
    memset(st, 0, sizeof *st); st->st_mode = n->mode | (n->type == NT::kDir ? S_IFDIR : n->type == NT::kSock ? S_IFSOCK : S_IFREG); st->st_uid = static_cast<uid_t>(n->uid); st->st_gid = static_cast<gid_t>(n->gid);
    st->st_ino = n->ino; st->st_dev = 1; st->st_nlink = static_cast<nlink_t>(n->nlink); st->st_size = static_cast<off_t>(n->type == NT::kShm ? n->size : n->data.size());
}
int sk_stat(const char* path, struct stat* st) { PENTER; Inode* n = find(norm(path)); hist("stat %s -> %d", path, n != nullptr); if (!n) return -ENOENT; fill(n, st); return 0; }
int sk_fstat(int fd, struct stat* st) { PENTER; Ofd* o = get(fd); if (!o) return -EBADF; if (!o->node) { memset(st, 0, sizeof *st); return 0; } if (fault(SF_EIO)) return -EIO; fill(o->node, st); return 0; }
int sk_chmod(const char* path, unsigned m) { PENTER; Inode* n = find(norm(path)); if (!n) return -ENOENT; if (uid() && uid() != n->uid) return -EPERM; if (fault(SF_EIO)) return -EIO; n->mode = m & 07777; audit('c', n->name, n->mode, -1); hist("chmod %s %o", path, m); return 0; }
int sk_fchmod(int fd, unsigned m) { PENTER; Ofd* o = get(fd); if (!o || !o->node) return -EBADF; if (uid() && uid() != o->node->uid) return -EPERM; o->node->mode = m & 07777; audit('c', o->node->name, o->node->mode, -1); hist("fchmod %d %o", fd, m); return 0; }
int sk_ftruncate(int fd, long len) {
    PENTER; Ofd* o = get(fd); if (!o || !o->node) return -EBADF; if ((o->flags & O_ACCMODE) == O_RDONLY) return -EINVAL; if (fault(SF_ENOSPC)) return -ENOSPC;
    if (o->node->type == NT::kShm) { if (::ftruncate(o->node->memfd, len)) return -errno; o->node->size = static_cast<u64>(len); } else o->node->data.resize(static_cast<std::size_t>(len)); hist("ftruncate %d %ld", fd, len); return 0;
}
int sk_flock(int fd, int op) {
    ENTER; Ofd* o = get(fd); if (!o || !o->node) return -EBADF; const int what = op & ~LOCK_NB;
    if (what == LOCK_UN) { hist("flock %d unlock", fd); hb_release(o->node); unlock_ofd(o); return 0; }
    if (o->lock == what) return 0;
    if (o->lock != LOCK_UN) unlock_ofd(o);
    while (lock_conflict(o->node, o, what)) { if (op & LOCK_NB) { hist("flock %d would block", fd); return -EWOULDBLOCK; } if (interrupted()) return -EINTR; block(o->node, "file lock", ~0ULL); }
    o->lock = what; o->node->locks.push_back(o); hb_acquire(o->node); hist("flock %d %s", fd, what == LOCK_EX ? "exclusive" : "shared"); return 0;
}
long sk_mmap(void*, size_t len, int prot, int flags, int fd, long off) {
    ENTER; if (fault(SF_ENOMEM)) return -ENOMEM; if (!len) return -EINVAL;
    Inode* n = nullptr; int rfd = -1;
    if (fd >= 0) {
        Ofd* o = get(fd); if (!o || !o->node) return -EBADF; n = o->node; if (n->type != NT::kShm) return -EACCES;
        const int acc = o->flags & O_ACCMODE; if (acc == O_WRONLY || ((prot & PROT_WRITE) && (flags & MAP_SHARED) && acc != O_RDWR)) return -EACCES; rfd = n->memfd;
    }
    const int slot = k->next_slot; k->next_slot += static_cast<int>((len >> kShmSlotBits) + 1); while (static_cast<int>(slot_info.size()) < k->next_slot) slot_info.push_back({n ? n->shm_id : 4000 + slot, static_cast<u64>(off) + (static_cast<u64>(slot_info.size()) - static_cast<u64>(slot) << kShmSlotBits)});
    // every mapping gets its own address, not aligned the same way
    const u64 a = kShmLo + (static_cast<u64>(slot) << kShmSlotBits) + 0;
    void* r = ::mmap(reinterpret_cast<void*>(a), len, prot, (rfd >= 0 ? flags & ~MAP_FIXED : MAP_SHARED | MAP_ANONYMOUS) | MAP_FIXED, rfd, off);
    if (r == MAP_FAILED) return -errno;
    if (n) { n->maps++; audit('m', n->name, static_cast<unsigned>(prot), -1); }
    k->maps.push_back({a, len, n, static_cast<u64>(off), cur->pid, prot}); hist("mmap fd %d len %zu prot %d slot %d", fd, len, prot, slot); return static_cast<long>(a);
}
int sk_munmap(void* addr, size_t len) {
    ENTER; const u64 a = reinterpret_cast<u64>(addr);
    for (auto& m : k->maps) if (m.lo == a && m.pid == cur->pid && m.len) { ::munmap(addr, m.len); if (m.node) m.node->maps--; m.node = nullptr; m.len = 0; hist("munmap"); return 0; }
    finish(1, "munmap of an address that is not mapped (%s)", cur_proc()->name.c_str()); (void)len;
}
int sk_pipe(int* fds) { ENTER;  /* never out of descriptors: the engine has no way to report that its own pipe is missing (DESIGN.md) */ Channel* c = new Channel{}; c->cap = 65536; Ofd* r = new Ofd{}; r->type = OT::kPipeR; r->rd = c; Ofd* w = new Ofd{}; w->type = OT::kPipeW; w->wr = c; fds[0] = put(r); fds[1] = put(w); return 0; }
static long chan_read(Ofd* o, u8* b, size_t n, bool nonblock, bool all) {
    Channel* c = o->rd; size_t got = 0;
    for (;;) {
        while (got < n && !c->buf.empty()) {
            size_t want = n - got; if (want > c->buf.size()) want = c->buf.size();
            if (!all && want > 1 && fault(SF_SHORT_READ)) want = 1 + draw(static_cast<u32>(want - 1), 0);
            for (size_t i = 0; i < want; ++i) { b[got++] = c->buf.front(); c->buf.pop_front(); }
            hb_acquire(c); changed(); wake(c, -1); if (!all) return static_cast<long>(got);
        }
        if (got == n || (got && !all)) return static_cast<long>(got);
        if (c->reset) { c->reset = false; if (!got) return -ECONNRESET; return static_cast<long>(got); }
        if (c->wclosed || c->rclosed) return static_cast<long>(got);
        if (nonblock) return got ? static_cast<long>(got) : -EAGAIN;
        if (interrupted()) return got ? static_cast<long>(got) : -EINTR;
        block(c, "read", ~0ULL);
    }
}
static long chan_write(Ofd* o, const u8* b, size_t n, bool nonblock) {
    Channel* c = o->wr; size_t put_ = 0;
    if (c->rclosed || c->wclosed) return -EPIPE;
    if (fault(SF_EAGAIN)) return nonblock ? -EAGAIN : -ENOBUFS;
    // a stream socket takes pieces of at most this size as a whole, as soon as it is below its limit; other senders get in between pieces
    if (o->type == OT::kSock) for (constexpr size_t piece = 36544;;) {
        if (c->rclosed || c->wclosed) return put_ ? static_cast<long>(put_) : -EPIPE;
        if (c->buf.size() < c->cap) { const size_t want = std::min(piece, n - put_); hb_release(c); c->buf.insert(c->buf.end(), b + put_, b + put_ + want); put_ += want; wake(c, -1); changed(); if (put_ == n) return static_cast<long>(put_); point(0); continue; }
        if (nonblock) return put_ ? static_cast<long>(put_) : -EAGAIN;
        if (interrupted()) return put_ ? static_cast<long>(put_) : -EINTR;
        block(c, "write", ~0ULL);
    }
    for (;;) {
        if (c->rclosed || c->wclosed) return put_ ? static_cast<long>(put_) : -EPIPE;
        size_t room = c->cap > c->buf.size() ? c->cap - c->buf.size() : 0; size_t want = std::min(room, n - put_);
        if (want > 1 && fault(SF_SHORT_WRITE)) { want = 1 + draw(static_cast<u32>(want - 1), 0); hb_release(c); c->buf.insert(c->buf.end(), b + put_, b + put_ + want); put_ += want; wake(c, -1); changed(); return static_cast<long>(put_); }
        if (want) { hb_release(c); c->buf.insert(c->buf.end(), b + put_, b + put_ + want); put_ += want; wake(c, -1); changed(); }
        if (put_ == n) return static_cast<long>(put_);
        if (nonblock) return put_ ? static_cast<long>(put_) : -EAGAIN;
        if (interrupted()) return put_ ? static_cast<long>(put_) : -EINTR;
        block(c, "write", ~0ULL);
    }
}
long sk_read(int fd, void* buf, size_t n) {
    ENTER; Ofd* o = get(fd); if (!o) return -EBADF;
    if (o->type == OT::kFile) { std::string& d = o->node->data; if (o->off >= d.size()) return 0; size_t want = std::min(n, d.size() - static_cast<size_t>(o->off)); if (want > 1 && fault(SF_SHORT_READ)) want = 1 + draw(static_cast<u32>(want - 1), 0); memcpy(buf, d.data() + o->off, want); o->off += want; return static_cast<long>(want); }
    if (!o->rd) return -EBADF; ++o->refs; const long r = chan_read(o, static_cast<u8*>(buf), n, o->flags & O_NONBLOCK, false); close_ofd(o); hist("read %d -> %ld", fd, r); return r;
}
long sk_write(int fd, const void* buf, size_t n) {
    ENTER; Ofd* o = get(fd); if (!o) return -EBADF;
    if (o->type == OT::kFile) { if ((o->flags & O_ACCMODE) == O_RDONLY) return -EBADF; if (fault(SF_ENOSPC)) return -ENOSPC; size_t want = n; if (n > 1 && fault(SF_SHORT_WRITE)) want = 1 + draw(static_cast<u32>(n - 1), 0); std::string& d = o->node->data; if (d.size() < o->off + want) d.resize(o->off + want); memcpy(&d[o->off], buf, want); o->off += want; return static_cast<long>(want); }
    if (!o->wr) return -EBADF; ++o->refs; const long r = chan_write(o, static_cast<const u8*>(buf), n, o->flags & O_NONBLOCK); close_ofd(o); hist("write %d -> %ld", fd, r); return r;
}
int sk_socket(int domain, int type, int) { ENTER; if (fault(SF_EMFILE)) return -EMFILE; Ofd* o = new Ofd{}; o->type = OT::kSock; o->inet = domain == AF_INET; if (type & SOCK_NONBLOCK) o->flags |= O_NONBLOCK; const int r = put(o); hist("socket -> %d", r); return r; }
static std::string saddr(const void* a, size_t n) { if (static_cast<const sockaddr*>(a)->sa_family == AF_INET) return std::string(1, 0) + "tcp:" + std::to_string(ntohs(static_cast<const sockaddr_in*>(a)->sin_port)); const sockaddr_un* u = static_cast<const sockaddr_un*>(a); const size_t l = n - offsetof(sockaddr_un, sun_path); return u->sun_path[0] ? norm(std::string(u->sun_path, strnlen(u->sun_path, l)).c_str()) : std::string(u->sun_path, l); }
int sk_bind(int fd, const void* a, size_t n) {
    PENTER; Ofd* o = get(fd); if (!o) return -EBADF; const std::string s = saddr(a, n); if (!o->bound.empty()) return -EINVAL; if (k->abstract_socks.count(s)) { hist("bind in use"); return -EADDRINUSE; }
    if (s[0]) { if (find(s)) return -EADDRINUSE; Inode* d = find(parent(s)); if (!d) return -ENOENT; mk(s, NT::kSock, 0755, uid()); notify(d, IN_CREATE, leaf(s)); }
    o->bound = s; k->abstract_socks[s] = o; hist("bind %d", fd); return 0;
}
int sk_listen(int fd, int b) { ENTER; Ofd* o = get(fd); if (!o) return -EBADF; if (o->bound.empty()) return -EINVAL; o->listening = true; o->backlog = b < 1 ? 1 : b; changed(); hist("listen %d", fd); return 0; }
int sk_accept(int fd) {
    PENTER; Ofd* o = get(fd); if (!o || !o->listening) return -EBADF;
    if (fault(SF_EMFILE)) return -EMFILE;
    while (o->pending.empty()) { if (o->flags & O_NONBLOCK) return -EAGAIN; if (interrupted()) return -EINTR; block(o, "accept", ~0ULL); }
    Ofd* s = o->pending.front(); o->pending.pop_front(); const int r = put(s); if (s->inet) ++net_changes; wake(o, -1); changed(); hist("accept %d -> %d", fd, r); return r;
}
int sk_connect(int fd, const void* a, size_t n) {
    PENTER; Ofd* o = get(fd); if (!o) return -EBADF; if (o->connected) return -EISCONN;
    const std::string s = saddr(a, n); audit('k', s[0] ? s : s.substr(1), 0, -1);
    if (fault(SF_ECONN)) { hist("connect %d refused (fault)", fd); return -ECONNREFUSED; }
    for (;;) {
        auto it = k->abstract_socks.find(s);
        if (it == k->abstract_socks.end() || !it->second->listening) { hist("connect %d refused", fd); return (s[0] && !find(s)) ? -ENOENT : -ECONNREFUSED; }
        Ofd* l = it->second;
        if (static_cast<int>(l->pending.size()) > l->backlog) { if (o->flags & O_NONBLOCK) return -EAGAIN; if (interrupted()) return -EINTR; block(l, "connect", ~0ULL); continue; }
        Channel* c1 = new Channel{}; Channel* c2 = new Channel{}; c1->cap = sock_cap_back; c2->cap = sock_cap;
        Ofd* p = new Ofd{}; p->type = OT::kSock; p->connected = o->connected = true; o->rd = c1; o->wr = c2; p->rd = c2; p->wr = c1; o->peer = p; p->peer = o; p->inet = o->inet;
        p->peer_pid = sk_getpid(); p->peer_uid = uid(); o->peer_pid = 1000 + l->owner; o->peer_uid = proc(l->owner)->uid; l->pending.push_back(p); wake(l, -1); changed(); hist("connect %d", fd); return 0;
    }
}
long sk_sendmsg(int fd, const struct msghdr* m, int fl) {
    ENTER; Ofd* o = get(fd); if (!o) return -EBADF; if (!o->connected) return -ENOTCONN;
    std::string all; for (size_t i = 0; i < m->msg_iovlen; ++i) all.append(static_cast<const char*>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
    ++o->refs; const long r = chan_write(o, reinterpret_cast<const u8*>(all.data()), all.size(), (o->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)); close_ofd(o);
    if (r == -EPIPE && o->inet && !(fl & MSG_NOSIGNAL)) { hist("sendmsg %d -> SIGPIPE", fd); abort_process("killed by SIGPIPE: a send without MSG_NOSIGNAL on a connection that is gone"); }
    u64 dg = 0; for (char ch : all) dg = dg * 131 + static_cast<u8>(ch); hist("sendmsg %d %zu -> %ld (%llx)", fd, all.size(), r, static_cast<unsigned long long>(dg)); return r;
}
long sk_recvmsg(int fd, struct msghdr* m, int fl) {
    ENTER; Ofd* o = get(fd); if (!o) return -EBADF; if (!o->connected) return -ENOTCONN;
    size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    std::string b(n, 0);
    if (fl & MSG_PEEK) { Channel* c = o->rd; if (c->buf.empty()) { if (c->wclosed) return 0; if (fl & MSG_DONTWAIT) return -EAGAIN; } while (c->buf.empty() && !c->wclosed) block(c, "peek", ~0ULL); size_t g = std::min(n, c->buf.size()); size_t at = 0; for (size_t i = 0; i < m->msg_iovlen && at < g; ++i) { u8* d = static_cast<u8*>(m->msg_iov[i].iov_base); for (size_t j = 0; j < m->msg_iov[i].iov_len && at < g; ++j) d[j] = c->buf[at++]; } return static_cast<long>(g); }
    ++o->refs; const long r = chan_read(o, reinterpret_cast<u8*>(&b[0]), n, (o->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT), fl & MSG_WAITALL); close_ofd(o);
    size_t at = 0; for (size_t i = 0; i < m->msg_iovlen && r > 0 && at < static_cast<size_t>(r); ++i) { const size_t c = std::min(m->msg_iov[i].iov_len, static_cast<size_t>(r) - at); memcpy(m->msg_iov[i].iov_base, b.data() + at, c); at += c; }
    if (r > 0) audit('r', "", static_cast<unsigned>(r), o->peer_pid); hist("recvmsg %d %zu -> %ld", fd, n, r); return r;
}
int sk_getpeercred(int fd, int* pid, int* u) { InSim s; Ofd* o = get(fd); if (!o || !o->connected) return -ENOTCONN; *pid = o->peer_pid; *u = o->peer_uid; return 0; }
int sk_setsockopt(int fd, int, int, const void*, size_t) { InSim s; return get(fd) ? 0 : -EBADF; }
int sk_getsockopt(int fd, int level, int name, void* v, size_t* n) {
    InSim s; Ofd* o = get(fd); if (!o) return -EBADF;
    if (level == SOL_SOCKET && name == SO_PEERCRED && o->connected) { struct ucred c{o->peer_pid, static_cast<uid_t>(o->peer_uid), static_cast<gid_t>(o->peer_uid)}; memcpy(v, &c, std::min(*n, sizeof c)); return 0; }
    memset(v, 0, *n); return 0;
}
int sk_shutdown(int fd, int how) { ENTER; Ofd* o = get(fd); if (!o) return -EBADF; if (!o->connected) return -ENOTCONN; if (o->inet) ++net_changes; if (how != SHUT_WR) { o->rd->rclosed = true; wake(o->rd, -1); } if (how != SHUT_RD) { o->wr->wclosed = true; wake(o->wr, -1); } changed(); hist("shutdown %d", fd); return 0; }
static short ready(int fd, short want) {
    Ofd* o = get(fd); if (!o) return POLLNVAL; short r = 0;
    if (o->listening) { if (!o->pending.empty()) r |= POLLIN; }
    else if (o->type == OT::kInotify) { if (!o->events.empty()) r |= POLLIN; }
    else if (o->type == OT::kFile) r |= POLLIN | POLLOUT;
    else {
        if (o->rd) { if (!o->rd->buf.empty() || o->rd->wclosed || o->rd->rclosed || o->rd->reset) r |= POLLIN; if (o->rd->reset) r |= POLLERR; if (o->rd->wclosed) r |= POLLHUP; }
        if (o->wr) { if (o->wr->rclosed) r |= o->type == OT::kSock ? (POLLHUP | POLLOUT) : POLLERR; else if (o->wr->buf.size() < o->wr->cap) r |= POLLOUT; }
        if (o->type == OT::kSock && !o->connected) r |= POLLHUP | POLLOUT;
    }
    return static_cast<short>(r & (want | POLLERR | POLLHUP | POLLNVAL));
}
int sk_poll(struct pollfd* fds, size_t n, int timeout_ms) {
    ENTER; const u64 d = timeout_ms < 0 ? ~0ULL : now_ns + static_cast<u64>(timeout_ms) * 1000000ULL;
    for (;;) {
        int c = 0; for (size_t i = 0; i < n; ++i) { fds[i].revents = fds[i].fd < 0 ? 0 : ready(fds[i].fd, fds[i].events); if (fds[i].revents) ++c; }
        if (c) { hist("poll -> %d", c); return c; }
        if (timeout_ms == 0 || (d != ~0ULL && now_ns >= d)) return 0;
        if (interrupted()) return -EINTR;
        block(&poll_obj, "poll", d);
    }
}
int sk_inotify_init() { ENTER; if (fault(SF_EMFILE)) return -EMFILE; Ofd* o = new Ofd{}; o->type = OT::kInotify; k->inotifies.push_back(o); return put(o); }
int sk_inotify_add(int fd, const char* path, unsigned mask) {
    PENTER; Ofd* o = get(fd); if (!o || o->type != OT::kInotify) return -EBADF; Inode* n = find(norm(path)); hist("inotify_add %s -> %d", path, n != nullptr); if (!n) return -ENOENT; if (!may(n, 4)) return -EACCES; if (fault(SF_ENOSPC)) return -ENOSPC;
    for (auto& w : o->watches) if (w.second.first == n) { w.second.second = mask; return w.first; }
    const int wd = o->next_wd++; o->watches[wd] = {n, mask}; return wd;
}
int sk_inotify_rm(int fd, int wd) { ENTER; Ofd* o = get(fd); if (!o || o->type != OT::kInotify) return -EBADF; if (!o->watches.erase(wd)) return -EINVAL; o->events.push_back({wd, IN_IGNORED, ""}); wake(o, -1); changed(); return 0; }
int sk_inotify_read(int fd, struct sk_inotify_event* ev, int max) {
    PENTER; Ofd* o = get(fd); if (!o || o->type != OT::kInotify) return -EBADF;
    while (o->events.empty()) { if (o->woken) { return -EINTR; } if (interrupted()) return -EINTR; block(o, "inotify", ~0ULL); if (get(fd) != o) return -EBADF; }
    if (o->woken) return -EINTR;
    int n = 0; while (n < max && !o->events.empty()) { auto& e = o->events.front(); ev[n].wd = e.wd; ev[n].mask = e.mask; ev[n].cookie = 0; snprintf(ev[n].name, sizeof ev[n].name, "%s", e.name.c_str()); o->events.pop_front(); ++n; if (draw(4, 0) == 3) break; }
    hb_acquire(k); hist("inotify_read -> %d", n); return n;
}
int sk_inotify_wake(int fd) { ENTER; Ofd* o = get(fd); if (!o) return -EBADF; o->woken = true; wake(o, -1); return 0; }
int sk_listdir(const char* path, char** out) {
    PENTER; const std::string p = norm(path); Inode* d = find(p); *out = nullptr; if (!d) return -ENOENT; if (d->type != NT::kDir) return -ENOTDIR; if (!may(d, 4)) return -EACCES;
    std::string s; int c = 0; const std::string pre = p == "/" ? p : p + "/";
    for (auto it = k->fs.upper_bound(pre); it != k->fs.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) { const std::string l = it->first.substr(pre.size()); if (l.find('/') == std::string::npos) { s += l; s += '\0'; ++c; } }
    *out = static_cast<char*>(__libc_malloc(s.size() + 1)); memcpy(*out, s.data(), s.size()); (*out)[s.size()] = 0; hist("listdir %s -> %d", path, c); return c;
}
int sk_acl_allow(int fd, unsigned u, int perm) { ENTER; Ofd* o = get(fd); if (!o || !o->node) return -EBADF; o->node->acl.push_back({static_cast<int>(u), perm}); audit('a', o->node->name, static_cast<unsigned>(perm), static_cast<int>(u)); hist("acl %d uid %u perm %d", fd, u, perm); return 0; }
int sk_read_file(const char* path, char** data, size_t* n) { ENTER; Inode* f = find(norm(path)); if (!f || f->type != NT::kFile) return -ENOENT; *n = f->data.size(); *data = static_cast<char*>(__libc_malloc(*n + 1)); memcpy(*data, f->data.data(), *n); (*data)[*n] = 0; return 0; }
// ---- for oracles: look at the state of the kernel without touching the schedule
void sk_set_sock_caps(size_t to_server, size_t to_client) { sock_cap = to_server; sock_cap_back = to_client; }
// the network between the processes breaks: every connection of pid over it is reset, and what was under way is lost from a drawn byte on
// whether a process has a network connection that takes no more bytes
int sk_net_full(int pid) { if (!k) return 0; for (auto& e : k->procs[pid].fds) { Ofd* o = e.second; if (o->type == OT::kSock && o->inet && o->connected && !o->wr->wclosed && !o->wr->rclosed && o->wr->buf.size() + 1100 > o->wr->cap) return 1; } return 0; }
unsigned long sk_net_changes() { return net_changes; }
int sk_cut_links(int pid) {
    InSim s; int n = 0;
    for (auto& e : k->procs[pid].fds) { Ofd* o = e.second; if (o->type != OT::kSock || !o->inet || !o->connected || o->rd->wclosed) continue;
        for (Channel* c : {o->rd, o->wr}) { if (!c->buf.empty()) c->buf.resize(draw(static_cast<u32>(c->buf.size()) + 1, 0)); c->reset = c->wclosed = c->rclosed = true; wake(c, -1); } ++n; ++net_changes; }
    changed(); return n;
}
int sk_set_nonblock(int fd, int on) { InSim s; Ofd* o = get(fd); if (!o) return -EBADF; const int was = o->flags & O_NONBLOCK; if (on >= 0) o->flags = on ? o->flags | O_NONBLOCK : o->flags & ~O_NONBLOCK; return was; }
int sk_count_fds(int pid) { InSim s; return static_cast<int>(k->procs[pid].fds.size()); }
int sk_count_maps(int pid) { InSim s; int c = 0; for (auto& m : k->maps) if (m.pid == pid && m.len) ++c; return c; }
int sk_peek_exists(const char* path) { InSim s; return find(norm(path)) != nullptr; }
int sk_peek_mode(const char* path) { InSim s; Inode* n = find(norm(path)); return n ? static_cast<int>(n->mode) : -1; }
// calls f for every path below prefix
void sk_peek_tree(const char* prefix, void (*f)(void*, const char* path, unsigned mode, unsigned uid, int locked), void* arg) { std::vector<std::pair<std::string, Inode*>> v; { InSim s; for (auto& e : k->fs) if (e.first.compare(0, strlen(prefix), prefix) == 0) v.push_back(e); } for (auto& e : v) f(arg, e.first.c_str(), e.second->mode, static_cast<unsigned>(e.second->uid), static_cast<int>(e.second->locks.size())); }
// calls f for every mapping: what, protection, owner
void sk_peek_maps(void (*f)(void*, int pid, const char* path, int prot), void* arg) { std::vector<Mapping> v; { InSim s; for (auto& m : k->maps) if (m.len && m.node) v.push_back(m); } for (auto& m : v) { std::string p = m.node ? m.node->name : "?"; f(arg, m.pid, p.c_str(), m.prot); } }
// calls f for every open descriptor of a file of the process
void sk_peek_fds(int pid, void (*f)(void*, int fd, const char* path, int lock), void* arg) { std::vector<std::pair<int, Ofd*>> v; { InSim s; for (auto& e : k->procs[pid].fds) if (e.second->node) v.push_back(e); } for (auto& e : v) f(arg, e.first, (e.second->node->name + (e.second->node->nlink > 0 ? "" : " (deleted)")).c_str(), e.second->lock); }
// r data read from a connection (other: peer), log of grants: c creation or change of the mode, o open (mode: flags), m mapping (mode: protection), a access list entry (mode: permissions, other: user), k connection attempt to a socket
void sk_audit_note(char kind, int other) { if (audit_on) audits.push_back({kind, 0, 0, other, 0, ""}); }
void sk_audit(int on) { audit_on = on != 0; audits.clear(); }
int sk_audit_next(char* kind, int* pid, int* uid, int* other, unsigned* mode, char* path, size_t n) { InSim s; if (audits.empty()) return 0; Audit a = audits.front(); audits.pop_front(); *kind = a.kind; *pid = a.pid; *uid = a.uid; *other = a.other; *mode = a.mode; snprintf(path, n, "%s", a.path.c_str()); return 1; }
}
