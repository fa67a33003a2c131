// Included before every source of a node image: a weak compare-exchange may fail spuriously, which the instrumentation of the compiler does not let through.
#pragma once
extern "C" int sim_cas_weak_spurious();
#define __atomic_compare_exchange_n(p, e, d, weak, s, f) (((weak) && sim_cas_weak_spurious()) ? (*(e) = __atomic_load_n(p, f), false) : __atomic_compare_exchange_n(p, e, d, weak, s, f))
