"""What each property's check runs: image(s), scenario parameter and share of the exploration time."""
SLOT_REAL = "score/memory/shared (SharedMemoryFactory, SharedMemoryResource, offset pointers, lock files), mw/com/impl/bindings/lola slot control, composite control, slot collector, slot decrementer, transaction logs, subscription control, rollback"
SIM_STUB = "kernel (files, shared memory, mmap, sockets, pipes, poll, futex level synchronisation, clocks, processes) replaced by the simulator; score/baselibs replaced by /verif/sim/baselibs"
IMAGES = {
    "future": dict(scen=["future.cpp"], defs=("-DSIM_STACK",), real="message_passing/non_allocating_future", stub="threads, mutexes, condition variables, clock of the simulator", copies=1),
    "shm": dict(scen=["shm.cpp"], node=["json_impl.cpp"], real="score/memory/shared: SharedMemoryFactory(Impl), SharedMemoryResource, LockFile, MemoryResourceRegistry", stub=SIM_STUB),
    "flock": dict(scen=["flock.cpp"], node=["json_impl.cpp"], real="score/memory/shared: LockFile, FlockMutex, ExclusiveFlockMutex, SharedFlockMutex, FlockMutexAndLock", stub=SIM_STUB),
    "trackers": dict(scen=["trackers.cpp"], real="mw/com/impl: SampleReferenceTracker, TrackerGuardFactory, SampleReferenceGuard, SampleAllocateeTracker, SampleAllocateeGuard", stub="threads, clock of the simulator; score/baselibs replaced by /verif/sim/baselibs", copies=2),
    "pidmap": dict(scen=["pidmap.cpp"], real="mw/com/impl/bindings/lola: ApplicationIdPidMapping, the registration on shared memory", stub=SIM_STUB),
    "offptr": dict(scen=["offptr.cpp"], node=["json_impl.cpp"], real="score/memory/shared: OffsetPtr, bounds checks, MemoryResourceRegistry, MemoryRegionMap, SharedMemoryFactory, SharedMemoryResource, Vector and Map in shared memory", stub=SIM_STUB),
    "tcq": dict(scen=["tcq.cpp"], real="score/message_passing: TimedCommandQueue, UnixDomainEngine (command queue, wake-up pipe, poll time-out, clean-up)", stub=SIM_STUB, copies=2),
    "msg": dict(scen=["msg.cpp"], defs=("-DSIM_STACK",), real="score/message_passing: ClientConnection, UnixDomainEngine, UnixDomainServer, factories, TimedCommandQueue, NonAllocatingFuture", stub=SIM_STUB, copies=4),
    "com": dict(scen=["com.cpp", "com_sd.cpp", "com_ev.cpp", "com_mth.cpp", "com_fld.cpp", "com_trc.cpp"], node=["json_impl.cpp", "trace_api.cpp", "typed_memory_utils.cpp"], real="the complete mw::com runtime: configuration, service discovery, skeletons, proxies, events, fields, methods, message passing, shared memory, partial restart", stub=SIM_STUB, copies=12),
    "gw": dict(scen=["gw.cpp"], node=["json_impl.cpp", "trace_api.cpp", "typed_memory_utils.cpp"], defs=("-DSIM_STACK",), copies=1, real="mw/com/gateway sample transport: BidirectionalTransport, MessageFramer, PendingRequestTracker, UniqueSocket, gateway messages and their serialization", stub=SIM_STUB + "; TCP connections are simulated"),
    "slots": dict(scen=["slots.cpp"], node=["json_impl.cpp"], real=SLOT_REAL, stub=SIM_STUB),
}
EV_RULE = "a run is non-trivial if its schedule was not seen before; each run draws processes, threads, quality levels, access lists, quotas, offers, withdrawals, destroyed skeletons and proxies, subscriptions, polling or receive handlers (also removed from themselves), crashes of provider and consumers at drawn points, and the pace of all of it"
# property: list of (image, parameters, weight), quick seconds, thorough seconds
CHECKS = {
    "C01": dict(runs=[("slots", "C01", 3), ("slots", "C07", 1), ("com", "C01", 2)], quick=45, rule="a run is non-trivial if its schedule (sequence of context switches) was not seen before in this batch; each run draws slots, consumers, quotas, payload, crash points and fault rates from its seed"),
    "C02": dict(runs=[("slots", "C02", 2), ("com", "C02", 1)], quick=45),
    "C03": dict(runs=[("slots", "C03", 2), ("com", "C03", 1)], quick=45),
    "C04": dict(runs=[("slots", "C04", 2), ("com", "C04", 1)], quick=45),
    "C05": dict(runs=[("slots", "C05", 2), ("com", "C05", 1)], quick=45),
    "C10": dict(runs=[("com", "C10", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws providers, instances (QM and ASIL-B), offers, withdrawals, destructions, provider crashes, searches for one or any instance in two threads, searches stopped or started in handlers, and the pace of all of it"),
    "C11": dict(runs=[("com", "C11", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws two to four providers that compete for one or two instances, what they create, offer, withdraw and destroy, and their crashes"),
    "C14": dict(runs=[("msg", "C14", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws clients, connections and their configuration, message sizes and kinds, socket buffer sizes, sender threads, late replies, disconnections, server kills, stops and restarts, interrupted calls and failing connects"),
    "C15": dict(runs=[("msg", "C15", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws clients, connections and their configuration, who stops, restarts and destroys a connection when and from which callback, rejections, disconnections, server kills and restarts, interrupted calls and failing connects"),
    "C16": dict(runs=[("tcq", "C16", 1)], quick=25, rule="a run is non-trivial if its schedule was not seen before; each run draws the queue alone or behind the engine, threads, commands (immediate, timed, due now, overdue, due at the same time), owners, clean-ups, commands that register again from their callback, stalls and delays"),
    "C17": dict(runs=[("future", "C17", 1)], quick=25, rule="a run is non-trivial if its schedule was not seen before; each run draws the number of futures, waiters, the way of setting and the delays"),
    "C18": dict(runs=[("shm", "C18", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws the processes and their calls (create, open, create-or-open), the sizes, the crash point, failing system calls, and when the recovery runs"),
    "C19": dict(runs=[("flock", "C19", 1)], quick=25, rule="a run is non-trivial if its schedule was not seen before; each run draws processes, threads, files, lock kinds, the way of locking and releasing, and crash points"),
    "C20": dict(runs=[("offptr", "C20", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws regions, objects, processes, threads that map and unmap, and (in 4 of 10 runs) a process that overwrites pointers in shared memory with drawn offsets"),
    "C25": dict(runs=[("pidmap", "C25", 1)], quick=25, rule="a run is non-trivial if its schedule was not seen before; each run draws capacity, applications, processes, restarts and crash points"),
    "C21": dict(runs=[("trackers", "C21", 1)], quick=25, rule="a run is non-trivial if its schedule was not seen before; each run draws the quota, threads, numbers asked for, ways of moving and giving back guards, and re-subscriptions"),
    "C31": dict(runs=[("shm", "C31", 1)], quick=25, rule="a run is non-trivial if its schedule was not seen before; each run draws processes, threads, sizes, alignments, the size of the memory and a crash"),
    "C06": dict(runs=[("com", "C06", 1)], rule=EV_RULE),
    "C12": dict(runs=[("com", "C12", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws processes, proxies, threads that call methods with and without arguments and results, values they keep, handlers that stall, offers, withdrawals and destructions in the middle of calls, crashes of provider and clients at drawn points, and the pace of all of it"),
    "C13": dict(runs=[("com", "C13", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws processes, proxies, threads that get, set and read the value, updates and set handlers that change or stall, subscriptions, offers, withdrawals and destructions in the middle of calls, crashes of provider and clients at drawn points, and the pace of all of it"),
    "C22": dict(runs=[("gw", "C22", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws two nodes with real transports or one against a peer that sends valid, damaged or cut frames, message kinds and sizes, sender threads, time limits, socket buffer sizes, slow handlers, cut connections, shutdowns and crashes"),
    "C24": dict(runs=[("com", "C24", 1)], rule="a run is non-trivial if its schedule was not seen before; each run draws trace points, trace slots, senders, updates and set calls, consumers, offers and withdrawals, how the trace daemon fails, delays, reorders or loses completions, a consumer that keeps references, provider crashes at drawn points, and the pace of all of it"),
    "C09": dict(runs=[("com", "C09", 1)], rule=EV_RULE),
    "C26": dict(runs=[("com", "C26", 1)], rule=EV_RULE),
    "C27": dict(runs=[("com", "C27", 1)], rule=EV_RULE),
    "C28": dict(runs=[("com", "C28", 1)], rule=EV_RULE),
    "C29": dict(runs=[("com", "C29", 1)], rule=EV_RULE),
    "C07": dict(runs=[("slots", "C07", 2), ("com", "C07", 1)], quick=45),
    "C08": dict(runs=[("slots", "C08", 2), ("com", "C08", 1)], quick=45),
}
DEFAULT_RULE = CHECKS["C01"]["rule"]
DEFAULT_NOTE = "A quiet run means that no explored schedule and fault sequence broke the property: strong evidence, not proof. Trusted: the simulator's model of the kernel and of threads, the stand-ins for score/baselibs, sequential consistency at scheduling points (missing ordering is looked for by happens-before race detection on payload memory)."
NOT_APPLICABLE = {
    "C23": "the part that shares the memory of a service between the two sides of the gateway is not in this tree: SampleHyperVisorTransport::ProvideService and PreCreateInterVmSharedMemory end in a failing precondition ('Missing implementation of ShmPathBuilder'), so no mirrored service can come to exist and no sample can be forwarded in any execution; only the link itself can be run, which C22 does",
    "C30": "parsing a configuration file is a pure function of its input: there is no schedule, clock, fault or interleaving it could depend on, so simulation has nothing to decide",
}
