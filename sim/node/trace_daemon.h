#pragma once
#include "score/analysis/tracing/generic_trace_library/interface_types/generic_trace_api.h"
namespace sim_trace {
using namespace score::analysis::tracing;
struct Daemon { virtual ~Daemon() = default;
    virtual RegisterClientResult RegisterClient(BindingType, const std::string&) = 0;
    virtual RegisterTraceDoneCallBackResult RegisterTraceDoneCB(TraceClientId, TraceDoneCallBackType) = 0;
    virtual RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId, int fd) = 0;
    virtual UnregisterSharedMemoryObjectResult UnregisterShmObject(TraceClientId, ShmObjectHandle) = 0;
    virtual TraceResult Trace(TraceClientId, const AraComMetaInfo&, ShmDataChunkList&, TraceContextId) = 0;
    virtual TraceResult Trace(TraceClientId, const AraComMetaInfo&, LocalDataChunkList&) = 0; };
void set_daemon(Daemon*);   // of this process
extern int typed_memory_uid;   // user of the typed memory daemon, -1: there is none
}
