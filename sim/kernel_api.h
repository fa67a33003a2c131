// C interface of the simulated kernel. Results: >= 0 on success, -errno on failure. Every call is a scheduling point
// and may be delayed or failed by the fault injector.
#pragma once
#include <cstddef>
#include <cstdint>
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
extern "C" {
int sk_getpid(); int sk_getuid(); int sk_geteuid(); int sk_getgid();
int sk_become(int uid);   // changes the user of the calling process; returns the one it was
int sk_open(const char* path, int flags, unsigned mode);
int sk_close(int fd);
int sk_unlink(const char* path);
int sk_remove(const char* path);
int sk_mkdir(const char* path, unsigned mode);
int sk_stat(const char* path, struct stat* st);
int sk_fstat(int fd, struct stat* st);
int sk_chmod(const char* path, unsigned mode);
int sk_fchmod(int fd, unsigned mode);
int sk_ftruncate(int fd, long len);
int sk_flock(int fd, int op);
int sk_shm_open(const char* path, int flags, unsigned mode);
int sk_shm_unlink(const char* path);
long sk_mmap(void* addr, size_t len, int prot, int flags, int fd, long off);
int sk_munmap(void* addr, size_t len);
int sk_pipe(int* fds);
long sk_read(int fd, void* buf, size_t n);
long sk_write(int fd, const void* buf, size_t n);
int sk_socket(int domain, int type, int proto);
int sk_bind(int fd, const void* addr, size_t len);
int sk_listen(int fd, int backlog);
int sk_accept(int fd);
int sk_connect(int fd, const void* addr, size_t len);
long sk_sendmsg(int fd, const struct msghdr* m, int flags);
long sk_recvmsg(int fd, struct msghdr* m, int flags);
int sk_getpeercred(int fd, int* pid, int* uid);
int sk_setsockopt(int fd, int level, int name, const void* v, size_t n);
int sk_getsockopt(int fd, int level, int name, void* v, size_t* n);
int sk_shutdown(int fd, int how);
int sk_poll(struct pollfd* fds, size_t n, int timeout_ms);
int sk_inotify_init();
int sk_inotify_add(int fd, const char* path, unsigned mask);
int sk_inotify_rm(int fd, int wd);
// blocks; fills up to max events; returns count, or -errno. names: 256 bytes each.
struct sk_inotify_event { int wd; unsigned mask; unsigned cookie; char name[256]; };
int sk_inotify_read(int fd, struct sk_inotify_event* ev, int max);
int sk_inotify_wake(int fd);  // makes a blocked read return -EINTR/-EBADF (Close())
// directory listing: returns count, fills malloc'ed NUL separated names
int sk_listdir(const char* path, char** names_out);
int sk_acl_allow(int fd, unsigned uid, int perm);
int sk_read_file(const char* path, char** data, size_t* n);
// for oracles, no scheduling points
int sk_peek_exists(const char* path);
int sk_peek_mode(const char* path);
void sk_peek_tree(const char* prefix, void (*f)(void*, const char* path, unsigned mode, unsigned uid, int locked), void* arg);
void sk_peek_maps(void (*f)(void*, int pid, const char* path, int prot), void* arg);
void sk_peek_fds(int pid, void (*f)(void*, int fd, const char* path, int lock), void* arg);
void sk_audit(int on);
void sk_audit_note(char kind, int other);   // a record of the scenario itself, in its place
int sk_audit_next(char* kind, int* pid, int* uid, int* other, unsigned* mode, char* path, size_t n);
}
