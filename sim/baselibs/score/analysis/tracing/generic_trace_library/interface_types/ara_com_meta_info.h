#pragma once
#include "score/analysis/tracing/common/interface_types/types.h"
namespace score::analysis::tracing {
struct AraComProperties {
    using TracePointDataId = std::uint32_t;
    AraComProperties(TracePointType t, ServiceInstanceElement e, score::cpp::optional<TracePointDataId> d) : trace_point_type{t}, element{e}, data_id{d} {}
    TracePointType trace_point_type; ServiceInstanceElement element; score::cpp::optional<TracePointDataId> data_id;
};
struct AraComMetaInfo {
    explicit AraComMetaInfo(AraComProperties p) : properties{std::move(p)} {}
    void SetDataLossBit() { data_loss = true; }
    AraComProperties properties; bool data_loss{false};
};
}
