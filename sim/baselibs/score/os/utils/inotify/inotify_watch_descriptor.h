#pragma once
#include <cstdint>
#include <functional>
namespace score::os {
class InotifyWatchDescriptor { public: explicit InotifyWatchDescriptor(std::int32_t w) : w_{w} {} std::int32_t GetUnderlying() const noexcept { return w_; } friend bool operator==(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ == b.w_; } friend bool operator!=(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ != b.w_; } friend bool operator<(const InotifyWatchDescriptor& a, const InotifyWatchDescriptor& b) noexcept { return a.w_ < b.w_; }
  private: std::int32_t w_; };
}
namespace std { template <> struct hash<score::os::InotifyWatchDescriptor> { std::size_t operator()(const score::os::InotifyWatchDescriptor& d) const noexcept { return static_cast<std::size_t>(d.GetUnderlying()); } }; }
