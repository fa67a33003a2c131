// Stand-in for the lookup of the typed memory daemon (only there on QNX): the scenario that plays that daemon sets its user.
#include "score/memory/shared/typedshm/utils/typed_memory_utils.h"
#include "trace_daemon.h"
namespace sim_trace { int typed_memory_uid = -1; }
namespace score::memory::shared { std::optional<uid_t> AcquireTypedMemoryDaemonUid() noexcept { return sim_trace::typed_memory_uid < 0 ? std::nullopt : std::optional<uid_t>{static_cast<uid_t>(sim_trace::typed_memory_uid)}; } }
