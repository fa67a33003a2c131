#pragma once
#include "score/mw/log/log_types.h"
#include <cstdio>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
// Log records are dropped unless the simulator asks for them (sim_log_enabled); producing one never touches the schedule.
extern "C" int sim_log_enabled(int level);
extern "C" void sim_log_write(int level, const char* ctx, const char* text);
namespace score::mw::log {
class LogStream {
  public:
    LogStream(int lvl, std::string_view ctx) : lvl_{lvl} { if (sim_log_enabled(lvl)) { b_ = new Buf{}; b_->ctx = std::string{ctx}; } }
    LogStream(LogStream&& o) noexcept : lvl_{o.lvl_}, b_{o.b_} { o.b_ = nullptr; }
    LogStream(const LogStream&) = delete;
    ~LogStream() { if (b_ != nullptr) { sim_log_write(lvl_, b_->ctx.c_str(), b_->s.str().c_str()); delete b_; } }
    template <typename T> void Put(const T& t) { if (b_ != nullptr) { b_->s << t << ' '; } }
    bool On() const { return b_ != nullptr; }
    void Flush() {}
  private:
    struct Buf { std::ostringstream s; std::string ctx; };
    int lvl_; Buf* b_{nullptr};
};
namespace log_detail {
template <typename T, typename = void> struct printable : std::false_type {};
template <typename T> struct printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
template <typename T, typename = void> struct has_err : std::false_type {};
template <typename T> struct has_err<T, std::void_t<decltype(std::declval<const T&>().ToString())>> : std::true_type {};
}
template <typename T, std::enable_if_t<std::is_arithmetic<std::decay_t<T>>::value || std::is_convertible<T, std::string_view>::value || std::is_pointer<std::decay_t<T>>::value, int> = 0> LogStream& operator<<(LogStream& s, const T& t) {
    if constexpr (std::is_same<std::decay_t<T>, std::uint8_t>::value || std::is_same<std::decay_t<T>, std::int8_t>::value) s.Put(static_cast<int>(t));
    else if constexpr (std::is_convertible<T, std::string_view>::value && !std::is_arithmetic<std::decay_t<T>>::value) { if (s.On()) s.Put(std::string_view(t)); }
    else s.Put(t);
    return s;
}
template <typename T, std::enable_if_t<!(std::is_arithmetic<std::decay_t<T>>::value || std::is_convertible<T, std::string_view>::value || std::is_pointer<std::decay_t<T>>::value) && log_detail::printable<T>::value && !std::is_enum<T>::value, int> = 0> LogStream& operator<<(LogStream& s, const T& t) { s.Put(t); return s; }
inline LogStream& operator<<(LogStream& s, const LogHex8& v) { s.Put(+v.value); return s; }
inline LogStream& operator<<(LogStream& s, const LogHex16& v) { s.Put(v.value); return s; }
inline LogStream& operator<<(LogStream& s, const LogHex32& v) { s.Put(v.value); return s; }
inline LogStream& operator<<(LogStream& s, const LogHex64& v) { s.Put(v.value); return s; }
template <typename T> LogStream& operator<<(LogStream&& s, const T& t) { LogStream& r = s; r << t; return r; }
}
