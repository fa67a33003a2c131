#pragma once
#include "score/os/detail_sk.h"
#include "score/os/stat.h"
#include <fcntl.h>
#include <sys/file.h>
namespace score::os {
class Fcntl : public SkSingleton<Fcntl> {
  public:
    enum class Open : std::uint32_t { kUnset = 0x80000000U, kReadOnly = 1, kWriteOnly = 2, kReadWrite = 4, kCreate = 8, kExclusive = 16, kTruncate = 32, kNonBlocking = 64, kCloseOnExec = 128, kSynchronized = 256, kDirectory = 512, kAppend = 1024 };
    enum class Operation : std::int32_t { kLockShared = LOCK_SH, kLockExclusive = LOCK_EX, kUnLock = LOCK_UN, kLockNB = LOCK_NB };
    static int ToFlags(Open f) { auto v = static_cast<std::uint32_t>(f); int r = 0; if (v & 4) r = O_RDWR; else if (v & 2) r = O_WRONLY; else r = O_RDONLY; if (v & 8) r |= O_CREAT; if (v & 16) r |= O_EXCL; if (v & 32) r |= O_TRUNC; if (v & 64) r |= O_NONBLOCK; if (v & 1024) r |= O_APPEND; return r; }
    score::cpp::expected<std::int32_t, Error> open(const char* p, const Open f) const noexcept { return skd::ret<std::int32_t>(sk_open(p, ToFlags(f), 0666)); }
    score::cpp::expected<std::int32_t, Error> open(const char* p, const Open f, const Stat::Mode m) const noexcept { return skd::ret<std::int32_t>(sk_open(p, ToFlags(f), ModeToInteger(m))); }
    score::cpp::expected_blank<Error> flock(std::int32_t fd, Operation op) const noexcept { long r = sk_flock(fd, static_cast<int>(op)); if (r < 0) return score::cpp::make_unexpected(Error::createFromErrnoFlockSpecific(static_cast<int>(-r))); return {}; }
};
SK_FLAG_OPS(Fcntl::Open)
SK_FLAG_OPS(Fcntl::Operation)
}
