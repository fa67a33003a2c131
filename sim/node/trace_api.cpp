// Stand-in for the trace daemon's client library: forwards to the scenario, which plays the daemon. Without a scenario: no daemon.
#include "score/analysis/tracing/generic_trace_library/interface_types/generic_trace_api.h"
#include "trace_daemon.h"
namespace score::analysis::tracing {
namespace { class Dom final : public score::result::ErrorDomain { public: std::string_view MessageFor(const score::result::ErrorCode&) const noexcept override { return "tracing"; } }; const Dom kDom{}; sim_trace::Daemon* g_daemon = nullptr; }
score::result::Error MakeError(ErrorCode code, std::string_view message) noexcept { return score::result::Error{static_cast<score::result::ErrorCode>(code), kDom, message}; }
RegisterClientResult GenericTraceAPI::RegisterClient(BindingType b, const std::string& n) { if (!g_daemon) return score::MakeUnexpected(ErrorCode::kDaemonNotConnectedFatal); return g_daemon->RegisterClient(b, n); }
RegisterTraceDoneCallBackResult GenericTraceAPI::RegisterTraceDoneCB(TraceClientId c, TraceDoneCallBackType f) { if (!g_daemon) return score::MakeUnexpected(ErrorCode::kDaemonNotConnectedFatal); return g_daemon->RegisterTraceDoneCB(c, std::move(f)); }
RegisterSharedMemoryObjectResult GenericTraceAPI::RegisterShmObject(TraceClientId c, int fd) { if (!g_daemon) return score::MakeUnexpected(ErrorCode::kDaemonNotConnectedFatal); return g_daemon->RegisterShmObject(c, fd); }
UnregisterSharedMemoryObjectResult GenericTraceAPI::UnregisterShmObject(TraceClientId c, ShmObjectHandle h) { if (!g_daemon) return score::MakeUnexpected(ErrorCode::kDaemonNotConnectedFatal); return g_daemon->UnregisterShmObject(c, h); }
TraceResult GenericTraceAPI::Trace(TraceClientId c, const AraComMetaInfo& i, ShmDataChunkList& l, TraceContextId x) { if (!g_daemon) return score::MakeUnexpected(ErrorCode::kDaemonNotConnectedFatal); return g_daemon->Trace(c, i, l, x); }
TraceResult GenericTraceAPI::Trace(TraceClientId c, const AraComMetaInfo& i, LocalDataChunkList& l) { if (!g_daemon) return score::MakeUnexpected(ErrorCode::kDaemonNotConnectedFatal); return g_daemon->Trace(c, i, l); }
}
namespace sim_trace { void set_daemon(Daemon* d) { score::analysis::tracing::g_daemon = d; } }
