#pragma once
#include "score/result/result.h"
namespace score::analysis::tracing {
enum class ErrorCode : score::result::ErrorCode {
    kNotEnoughMemoryRecoverable = 1, kMessageSendFailedRecoverable, kRingBufferFullRecoverable, kCallbackAlreadyRegisteredRecoverable, kLastRecoverable = 99,
    kInvalidArgumentFatal = 100, kDaemonNotConnectedFatal, kDaemonConnectionFailedFatal, kInvalidAppInstanceIdFatal, kTerminalFatal = 200 };
inline bool IsErrorRecoverable(ErrorCode e) { return e >= ErrorCode::kNotEnoughMemoryRecoverable && e < ErrorCode::kLastRecoverable; }
score::result::Error MakeError(ErrorCode code, std::string_view message = "") noexcept;
}
