#pragma once
#include "score/analysis/tracing/generic_trace_library/interface_types/ara_com_meta_info.h"
#include <string>
namespace score::analysis::tracing {
class GenericTraceAPI {
  public:
    static RegisterClientResult RegisterClient(BindingType, const std::string&);
    static RegisterTraceDoneCallBackResult RegisterTraceDoneCB(TraceClientId, TraceDoneCallBackType);
    static RegisterSharedMemoryObjectResult RegisterShmObject(TraceClientId, int fd);
    static UnregisterSharedMemoryObjectResult UnregisterShmObject(TraceClientId, ShmObjectHandle);
    static TraceResult Trace(TraceClientId, const AraComMetaInfo&, ShmDataChunkList&, TraceContextId);
    static TraceResult Trace(TraceClientId, const AraComMetaInfo&, LocalDataChunkList&);
};
}
