#pragma once
#include "score/os/detail_sk.h"
#include <poll.h>
namespace score::os {
class SysPoll : public SkSingleton<SysPoll> { public: score::cpp::expected<std::int32_t, Error> poll(pollfd* f, nfds_t n, int t) const noexcept { return skd::ret<std::int32_t>(sk_poll(f, n, t)); } };
}
