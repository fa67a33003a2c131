#pragma once
#include <cstdint>
namespace score::mw::log {
enum class LogLevel : std::uint8_t { kOff = 0, kFatal = 1, kError = 2, kWarn = 3, kInfo = 4, kDebug = 5, kVerbose = 6 };
template <typename T> struct LogHexT { T value; };
struct LogHex8 { std::uint8_t value; }; struct LogHex16 { std::uint16_t value; }; struct LogHex32 { std::uint32_t value; }; struct LogHex64 { std::uint64_t value; };
struct LogBin8 { std::uint8_t value; }; struct LogBin16 { std::uint16_t value; }; struct LogBin32 { std::uint32_t value; }; struct LogBin64 { std::uint64_t value; };
}
