#pragma once
#include "score/os/detail_sk.h"
#include <unistd.h>
namespace score::os {
class Unistd : public SkSingleton<Unistd> {
  public:
    virtual ~Unistd() = default;
    pid_t getpid() const noexcept { return sk_getpid(); }
    uid_t getuid() const noexcept { return static_cast<uid_t>(sk_getuid()); }
    uid_t geteuid() const noexcept { return static_cast<uid_t>(sk_geteuid()); }
    gid_t getgid() const noexcept { return static_cast<gid_t>(sk_getgid()); }
    score::cpp::expected_blank<Error> close(int fd) const noexcept { return skd::blank(sk_close(fd)); }
    score::cpp::expected_blank<Error> unlink(const char* p) const noexcept { return skd::blank(sk_unlink(p)); }
    score::cpp::expected_blank<Error> pipe(int* f) const noexcept { return skd::blank(sk_pipe(f)); }
    score::cpp::expected_blank<Error> ftruncate(int fd, off_t l) const noexcept { return skd::blank(sk_ftruncate(fd, l)); }
    score::cpp::expected<ssize_t, Error> read(int fd, void* b, size_t n) const noexcept { return skd::ret<ssize_t>(sk_read(fd, b, n)); }
    score::cpp::expected<ssize_t, Error> write(int fd, const void* b, size_t n) const noexcept { return skd::ret<ssize_t>(sk_write(fd, b, n)); }
};
namespace internal { using UnistdImpl = Unistd; }
}
