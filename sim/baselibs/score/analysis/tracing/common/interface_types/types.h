#pragma once
#include "score/analysis/tracing/generic_trace_library/interface_types/error_code/error_code.h"
#include "score/analysis/tracing/generic_trace_library/interface_types/trace_point_type.h"
#include "score/language/safecpp/scoped_function/move_only_scoped_function.h"
#include "score/optional.hpp"
#include "score/result/result.h"
#include <cstddef>
#include <cstdint>
#include <variant>
#include <vector>
namespace score::analysis::tracing {
enum class BindingType : std::uint8_t { kUndefined = 0, kLoLa = 1 };
using TraceClientId = std::uint8_t;
using ShmObjectHandle = std::int32_t;
using TraceContextId = std::uint32_t;
using TraceDoneCallBackType = score::safecpp::MoveOnlyScopedFunction<void(TraceContextId)>;
using RegisterClientResult = Result<TraceClientId>;
using RegisterSharedMemoryObjectResult = Result<ShmObjectHandle>;
using RegisterTraceDoneCallBackResult = Result<void>;
using UnregisterSharedMemoryObjectResult = Result<void>;
using TraceResult = Result<void>;
struct SharedMemoryLocation { ShmObjectHandle shm_object_handle; std::size_t offset; };
struct SharedMemoryChunk { SharedMemoryLocation start; std::size_t size; };
struct LocalDataChunk { const void* start; std::size_t size; };
using ShmDataChunkList = std::vector<SharedMemoryChunk>;
using LocalDataChunkList = std::vector<LocalDataChunk>;
class ServiceInstanceElement {
  public:
    using ServiceIdType = std::uint32_t; using InstanceIdType = std::uint32_t;
    using EventIdType = std::uint32_t; using FieldIdType = std::uint32_t; using VersionType = std::uint32_t;
    struct EventId { EventIdType id; }; struct FieldId { FieldIdType id; };
    using StdVariantType = std::variant<EventId, FieldId>;
    ServiceIdType service_id; VersionType major_version; VersionType minor_version; InstanceIdType instance_id; StdVariantType element_id;
};
}
