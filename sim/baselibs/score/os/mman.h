#pragma once
#include "score/os/detail_sk.h"
#include "score/os/fcntl.h"
#include <sys/mman.h>
namespace score::os {
class Mman : public SkSingleton<Mman> {
  public:
    enum class Protection : std::int32_t { kNone = PROT_NONE, kRead = PROT_READ, kWrite = PROT_WRITE, kExec = PROT_EXEC };
    enum class Map : std::int32_t { kShared = MAP_SHARED, kPrivate = MAP_PRIVATE, kFixed = MAP_FIXED };
    score::cpp::expected<void*, Error> mmap(void* a, std::size_t l, Protection p, Map f, std::int32_t fd, std::int64_t o) const noexcept { long r = sk_mmap(a, l, static_cast<int>(p), static_cast<int>(f), fd, o); if (r < 0) return score::cpp::make_unexpected(Error::createFromErrno(static_cast<int>(-r))); return reinterpret_cast<void*>(r); }
    score::cpp::expected_blank<Error> munmap(void* a, std::size_t l) const noexcept { return skd::blank(sk_munmap(a, l)); }
    score::cpp::expected<std::int32_t, Error> shm_open(const char* p, Fcntl::Open f, Stat::Mode m) const noexcept { return skd::ret<std::int32_t>(sk_shm_open(p, Fcntl::ToFlags(f), ModeToInteger(m))); }
    score::cpp::expected_blank<Error> shm_unlink(const char* p) const noexcept { return skd::blank(sk_shm_unlink(p)); }
};
SK_FLAG_OPS(Mman::Protection)
SK_FLAG_OPS(Mman::Map)
}
