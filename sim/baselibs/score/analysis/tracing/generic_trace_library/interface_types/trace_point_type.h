#pragma once
#include <cstdint>
namespace score::analysis::tracing {
enum class TracePointType : std::uint8_t { kInvalid = 0, kProxyEventSub, kProxyEventUnsub, kProxyEventSubstateChange, kProxyEventSetChghdl, kProxyEventUnsetChghdl, kProxyEventChghdl,
    kProxyEventSetRechdl, kProxyEventUnsetRechdl, kProxyEventRechdl, kProxyEventGetSamples, kProxyEventSampleCb, kProxyFieldSub, kProxyFieldUnsub, kProxyFieldSubstateChange,
    kProxyFieldSetChghdl, kProxyFieldUnsetChghdl, kProxyFieldChghdl, kProxyFieldSetRechdl, kProxyFieldUnsetRechdl, kProxyFieldRechdl, kProxyFieldGetSamples, kProxyFieldSampleCb,
    kProxyFieldGet, kProxyFieldGetResult, kProxyFieldSet, kProxyFieldSetResult, kSkelEventSnd, kSkelEventSndA, kSkelFieldUpd, kSkelFieldUpdA, kSkelFieldGetCall, kSkelFieldGetCallResult,
    kSkelFieldSetCall, kSkelFieldSetCallResult };
}
