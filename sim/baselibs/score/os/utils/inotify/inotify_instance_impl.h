#pragma once
#include "score/os/unistd.h"
#include "score/os/utils/inotify/inotify_instance.h"
namespace score::os {
class InotifyInstanceImpl final : public InotifyInstance { public:
    InotifyInstanceImpl() noexcept : fd_{sk_inotify_init()} {} ~InotifyInstanceImpl() override { if (fd_ >= 0) sk_close(fd_); }
    score::cpp::expected_blank<Error> IsValid() const noexcept override { return skd::blank(fd_); }
    void Close() noexcept override { sk_inotify_wake(fd_); }
    score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view p, Inotify::EventMask m) noexcept override { int r = sk_inotify_add(fd_, std::string{p}.c_str(), static_cast<unsigned>(m)); if (r < 0) return score::cpp::make_unexpected(Error::createFromErrno(-r)); return InotifyWatchDescriptor{r}; }
    score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor w) noexcept override { return skd::blank(sk_inotify_rm(fd_, w.GetUnderlying())); }
    score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept override {
        sk_inotify_event ev[max_events]; int n = sk_inotify_read(fd_, ev, static_cast<int>(max_events)); if (n < 0) return score::cpp::make_unexpected(Error::createFromErrno(-n));
        score::cpp::static_vector<InotifyEvent, max_events> v; for (int i = 0; i < n; ++i) v.emplace_back(ev[i].wd, ev[i].mask, ev[i].cookie, std::string{ev[i].name}); return v; }
  private: int fd_; };
}
