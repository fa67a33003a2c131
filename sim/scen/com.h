// The service of the mw::com scenarios, its configuration files, and small helpers.
#pragma once
#include "sim_api.h"
#include "kernel_api.h"
#include "score/mw/com/impl/runtime.h"
#include "score/mw/com/runtime_configuration.h"
#include "score/mw/com/types.h"
#include <fcntl.h>
#include <cstring>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <vector>
namespace com = score::mw::com;
namespace simcom {
struct Payload { std::uint64_t id; std::uint32_t from; std::uint32_t check; std::uint64_t body[4];
    void fill(std::uint64_t i, std::uint32_t f) { id = i; from = f; for (int k = 0; k < 4; ++k) body[k] = i * 1000003u + f * 97u + static_cast<unsigned>(k); check = static_cast<std::uint32_t>(i * 31u + f); }
    bool good() const { for (int k = 0; k < 4; ++k) if (body[k] != id * 1000003u + from * 97u + static_cast<unsigned>(k)) return false; return check == static_cast<std::uint32_t>(id * 31u + from); } };
template <typename Trait> class SvcInterface : public Trait::Base { public: using Trait::Base::Base;
    typename Trait::template Event<Payload> ev{*this, "ev"};
    typename Trait::template Event<Payload> ev2{*this, "ev2"};
};
template <typename Trait> class FldInterface : public Trait::Base { public: using Trait::Base::Base;
    typename Trait::template Field<Payload, com::WithNotifier, com::WithGetter, com::WithSetter> fld{*this, "fld"};
};
template <typename Trait> class MthInterface : public Trait::Base { public: using Trait::Base::Base;
    typename Trait::template Method<Payload(std::uint64_t, std::uint32_t)> call{*this, "call"};
    typename Trait::template Method<void(Payload)> push{*this, "push"};
    typename Trait::template Method<std::uint64_t()> ping{*this, "ping"};
};
using SvcProxy = com::AsProxy<SvcInterface>; using SvcSkeleton = com::AsSkeleton<SvcInterface>;
using FldProxy = com::AsProxy<FldInterface>; using FldSkeleton = com::AsSkeleton<FldInterface>;
using MthProxy = com::AsProxy<MthInterface>; using MthSkeleton = com::AsSkeleton<MthInterface>;
struct InstanceCfg { std::string specifier; int service = 0; int instance = 1; bool asil_b = false; };   // service: 0 Svc, 1 Fld, 2 Mth; instance -1: any
struct Cfg {
    unsigned slots = 5, subscribers = 3, tracing_slots = 0, queue = 1; bool asil_b = false; bool enforce = true; bool simulate_size = true; int application_id = -1; std::vector<InstanceCfg> instances; bool trace = false; std::string consumers_qm, consumers_b, providers_qm, providers_b; bool strict = false;
    std::string json() const;
};
inline std::string Cfg::json() const {
    static const char* names[] = {"/sim/Svc", "/sim/Fld", "/sim/Mth"};
    std::string s = "{\"serviceTypes\":[";
    for (int t = 0; t < 3; ++t) {
        if (t) s += ",";
        s += std::string("{\"serviceTypeName\":\"") + names[t] + "\",\"version\":{\"major\":1,\"minor\":0},\"bindings\":[{\"binding\":\"SHM\",\"serviceId\":" + std::to_string(100 + t);
        if (t == 0) s += ",\"events\":[{\"eventName\":\"ev\",\"eventId\":1},{\"eventName\":\"ev2\",\"eventId\":2}]";
        if (t == 1) s += ",\"fields\":[{\"fieldName\":\"fld\",\"fieldId\":3}]";
        if (t == 2) s += ",\"methods\":[{\"methodName\":\"call\",\"methodId\":4},{\"methodName\":\"push\",\"methodId\":5},{\"methodName\":\"ping\",\"methodId\":6}]";
        s += "}]}";
    }
    s += "],\"serviceInstances\":[";
    bool first = true;
    for (const auto& i : instances) {
        if (!first) s += ",";
        first = false;
        s += "{\"instanceSpecifier\":\"" + i.specifier + "\",\"serviceTypeName\":\"" + names[i.service] + "\",\"version\":{\"major\":1,\"minor\":0},\"instances\":[{";
        if (i.instance >= 0) s += "\"instanceId\":" + std::to_string(i.instance) + ",";
        s += std::string("\"asil-level\":\"") + (i.asil_b ? "B" : "QM") + "\",\"binding\":\"SHM\"";
        if (strict) s += ",\"permission-checks\":\"strict\"";
        if (!consumers_qm.empty() || !consumers_b.empty()) s += ",\"allowedConsumer\":{\"QM\":[" + consumers_qm + "]" + (i.asil_b ? ",\"B\":[" + consumers_b + "]" : "") + "}";
        if (!providers_qm.empty() || !providers_b.empty()) s += ",\"allowedProvider\":{\"QM\":[" + providers_qm + "]" + (i.asil_b ? ",\"B\":[" + providers_b + "]" : "") + "}";
        const std::string ev = ",\"numberOfSampleSlots\":" + std::to_string(slots) + ",\"maxSubscribers\":" + std::to_string(subscribers) + (enforce ? "" : ",\"enforceMaxSamples\":false") + (tracing_slots ? ",\"numberOfIpcTracingSlots\":" + std::to_string(tracing_slots) : "") + "}";
        if (i.service == 0) s += ",\"events\":[{\"eventName\":\"ev\"" + ev + ",{\"eventName\":\"ev2\"" + ev + "]";
        if (i.service == 1) s += ",\"fields\":[{\"fieldName\":\"fld\",\"useGetIfAvailable\":true,\"useSetIfAvailable\":true" + ev + "]";
        if (i.service == 2) { const std::string q = ",\"queueSize\":" + std::to_string(queue) + "}"; s += ",\"methods\":[{\"methodName\":\"call\"" + q + ",{\"methodName\":\"push\"" + q + ",{\"methodName\":\"ping\"" + q + "]"; }
        s += "}]}";
    }
    s += std::string("],\"global\":{\"asil-level\":\"") + (asil_b ? "B" : "QM") + "\"" + (application_id >= 0 ? ",\"applicationID\":" + std::to_string(application_id) : "") + (simulate_size ? "" : ",\"shm-size-calc-mode\":\"SIMULATION\"") + "}";
    if (trace) s += ",\"tracing\":{\"enable\":true,\"applicationInstanceID\":\"app\",\"traceFilterConfigPath\":\"/etc/trace.json\"}";
    return s + "}";
}
inline void write_file(const std::string& path, const std::string& text) {
    SimAtomic a; const int fd = sk_open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0) sim_violation("the scenario cannot write %s: %d", path.c_str(), fd);
    sk_write(fd, text.data(), text.size()); sk_close(fd);
}
// The directories exist: creating one (mkdir, chmod) is not atomic in the file system library, which is not part of this repository. insts: also those of the service discovery.
// The provider is in the middle of making its memory; a provider that dies there leaves it half-made, and if a consumer that still had a handle locks the usage marker first, the next provider takes it over (known finding).
struct Making { int& n; explicit Making(int& x) : n{x} { SimAtomic a; ++n; } ~Making() { SimAtomic a; --n; } };
struct HalfMade { int making = 0; bool yes = false; void next_provider(int pid) { if (making) yes = true; making = 0; if (yes) sim_tag_termination(pid, "half-made-memory", " at skeleton_memory_manager."); } };
inline void make_dirs(int insts) {
    SimAtomic a; auto mk = [](const std::string& d) { sk_mkdir(d.c_str(), 0777); sk_chmod(d.c_str(), 0777); };
    mk("/tmp/mw_com_lola"); mk("/tmp/mw_com_lola/partial_restart"); if (!insts) return;
    const std::string sd = "/tmp/mw_com_lola/service_discovery"; mk(sd);
    for (int t = 0; t < 3; ++t) { const std::string n = sd + "/" + std::to_string(100 + t); mk(n); for (int i = 1; i <= insts; ++i) mk(n + "/" + std::to_string(i)); }
}
inline void init_runtime(const std::string& path) { score::mw::com::impl::Runtime::Initialize(score::mw::com::runtime::RuntimeConfiguration{score::filesystem::Path{path}}); }
inline com::InstanceSpecifier spec(const std::string& s) { return com::InstanceSpecifier::Create(std::string{s}).value(); }
}
