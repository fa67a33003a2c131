#pragma once
#include "score/os/detail_sk.h"
#include "score/os/utils/inotify/inotify_watch_descriptor.h"
#include "score/static_vector.hpp"
#include <string>
#include <string_view>
#include <sys/inotify.h>
namespace score::os {
class Inotify { public: enum class EventMask : std::uint32_t { kUnset = 0, kInCreate = IN_CREATE, kInDelete = IN_DELETE, kInMovedTo = IN_MOVED_TO, kInAccess = IN_ACCESS }; };
SK_FLAG_OPS(Inotify::EventMask)
class InotifyEvent { public:
    enum class ReadMask : std::uint32_t { kUnknown = 0, kInAccess = IN_ACCESS, kInCreate = IN_CREATE, kInDelete = IN_DELETE, kInMovedTo = IN_MOVED_TO, kInIgnored = IN_IGNORED, kInQOverflow = IN_Q_OVERFLOW, kInIsDir = IN_ISDIR };
    InotifyEvent(int wd, unsigned m, unsigned c, std::string n) : wd_{wd}, m_{m}, c_{c}, n_{std::move(n)} {}
    InotifyWatchDescriptor GetWatchDescriptor() const noexcept { return wd_; } ReadMask GetMask() const noexcept { return static_cast<ReadMask>(m_); } std::uint32_t GetCookie() const noexcept { return c_; } std::string_view GetName() const noexcept { return n_; }
  private: InotifyWatchDescriptor wd_; unsigned m_; unsigned c_; std::string n_; };
constexpr InotifyEvent::ReadMask operator|(InotifyEvent::ReadMask a, InotifyEvent::ReadMask b) noexcept { return static_cast<InotifyEvent::ReadMask>(static_cast<std::uint32_t>(a) | static_cast<std::uint32_t>(b)); }
constexpr InotifyEvent::ReadMask operator&(InotifyEvent::ReadMask a, InotifyEvent::ReadMask b) noexcept { return static_cast<InotifyEvent::ReadMask>(static_cast<std::uint32_t>(a) & static_cast<std::uint32_t>(b)); }
class InotifyInstance { public: static constexpr std::size_t max_events = 10; virtual ~InotifyInstance() = default;
    virtual score::cpp::expected_blank<Error> IsValid() const noexcept = 0; virtual void Close() noexcept = 0;
    virtual score::cpp::expected<InotifyWatchDescriptor, Error> AddWatch(std::string_view, Inotify::EventMask) noexcept = 0; virtual score::cpp::expected_blank<Error> RemoveWatch(InotifyWatchDescriptor) noexcept = 0;
    virtual score::cpp::expected<score::cpp::static_vector<InotifyEvent, max_events>, Error> Read() noexcept = 0; };
}
