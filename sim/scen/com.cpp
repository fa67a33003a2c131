// Scenarios that run the complete middleware: every process is a copy of the image with the real runtime in it.
#include "com.h"
namespace sd { void control(const std::string&); void process(int, int, void*); }
namespace evs { void control(const std::string&); void process(int, int, void*); }
namespace fld { void control(const std::string&); void process(int, int, void*); }
namespace trc { void control(const std::string&); void process(int, int, void*); }
namespace mth { void control(const std::string&); void process(int, int, void*); }
static std::string prop() { return sim_param("p"); }
static bool is(std::initializer_list<const char*> l) { for (auto x : l) if (prop() == x) return true; return false; }
void sim_process_main(int role, int inc, void* arg) { if (is({"C10", "C11"})) sd::process(role, inc, arg); else if (is({"C12"})) mth::process(role, inc, arg); else if (is({"C13"})) fld::process(role, inc, arg); else if (is({"C24", "C04"})) trc::process(role, inc, arg); else evs::process(role, inc, arg); }
void sim_control() { if (is({"C10", "C11"})) sd::control(prop()); else if (is({"C12"})) mth::control(prop()); else if (is({"C13"})) fld::control(prop()); else if (is({"C24", "C04"})) trc::control(prop()); else evs::control(prop()); }
