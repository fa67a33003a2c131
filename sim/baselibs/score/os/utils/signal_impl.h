#pragma once
#include "score/os/detail_sk.h"
#include <csignal>
namespace score::os {
class Signal { public: virtual ~Signal() = default;
    score::cpp::expected<std::int32_t, Error> SigEmptySet(sigset_t&) const noexcept { return 0; } score::cpp::expected<std::int32_t, Error> AddTerminationSignal(sigset_t&) const noexcept { return 0; }
    score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&, sigset_t&) const noexcept { return 0; } score::cpp::expected<std::int32_t, Error> PthreadSigMask(std::int32_t, const sigset_t&) const noexcept { return 0; } };
class SignalImpl : public Signal {};
}
