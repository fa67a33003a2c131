#pragma once
#include "score/os/detail_sk.h"
namespace score::os {
struct StatBuffer { std::uint64_t st_dev{}; std::uint64_t st_ino{}; std::uint32_t st_mode{}; std::uint64_t st_nlink{}; std::int64_t st_uid{}; std::int64_t st_gid{}; std::int64_t st_size{}; std::int64_t st_atime_{}; std::int64_t st_mtime_{}; };
class Stat : public SkSingleton<Stat> {
  public:
    enum class Mode : std::uint32_t { kUnset = 0, kReadUser = 0400, kWriteUser = 0200, kExecUser = 0100, kReadWriteExecUser = 0700, kReadGroup = 040, kWriteGroup = 020, kExecGroup = 010, kReadWriteExecGroup = 070, kReadOthers = 04, kWriteOthers = 02, kExecOthers = 01, kReadWriteExecOthers = 07, kNone = 0 };
    static void fill(StatBuffer& b, const struct stat& s) { b.st_dev = s.st_dev; b.st_ino = s.st_ino; b.st_mode = s.st_mode; b.st_nlink = s.st_nlink; b.st_uid = s.st_uid; b.st_gid = s.st_gid; b.st_size = s.st_size; }
    score::cpp::expected_blank<Error> stat(const char* p, StatBuffer& b, bool = true) const noexcept { struct stat s {}; int r = sk_stat(p, &s); if (r >= 0) fill(b, s); return skd::blank(r); }
    score::cpp::expected_blank<Error> fstat(std::int32_t fd, StatBuffer& b) const noexcept { struct stat s {}; int r = sk_fstat(fd, &s); if (r >= 0) fill(b, s); return skd::blank(r); }
    score::cpp::expected_blank<Error> chmod(const char* p, Mode m) const noexcept { return skd::blank(sk_chmod(p, static_cast<unsigned>(m))); }
    score::cpp::expected_blank<Error> fchmod(std::int32_t fd, Mode m) const noexcept { return skd::blank(sk_fchmod(fd, static_cast<unsigned>(m))); }
    score::cpp::expected_blank<Error> mkdir(const char* p, Mode m) const noexcept { return skd::blank(sk_mkdir(p, static_cast<unsigned>(m))); }
};
SK_FLAG_OPS(Stat::Mode)
constexpr std::uint32_t ModeToInteger(Stat::Mode m) noexcept { return static_cast<std::uint32_t>(m); }
constexpr Stat::Mode IntegerToMode(std::uint32_t m) noexcept { return static_cast<Stat::Mode>(m); }
}
