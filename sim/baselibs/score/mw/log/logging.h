#pragma once
#include "score/mw/log/log_stream.h"
namespace score::mw::log {
inline LogStream LogFatal(std::string_view c = "") noexcept { return LogStream{1, c}; }
inline LogStream LogError(std::string_view c = "") noexcept { return LogStream{2, c}; }
inline LogStream LogWarn(std::string_view c = "") noexcept { return LogStream{3, c}; }
inline LogStream LogInfo(std::string_view c = "") noexcept { return LogStream{4, c}; }
inline LogStream LogDebug(std::string_view c = "") noexcept { return LogStream{5, c}; }
inline LogStream LogVerbose(std::string_view c = "") noexcept { return LogStream{6, c}; }
class Recorder {};
inline Recorder& GetDefaultLogRecorder() noexcept { static Recorder r; return r; }
inline Recorder& GetFallbackLogRecorder() noexcept { static Recorder r; return r; }
}
