#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py). One entry per property."""
import json, os
L = 'score/mw/com/impl/bindings/lola/'
I = 'score/mw/com/impl/'
M = 'score/message_passing/'
S = 'score/memory/shared/'
G = 'score/mw/com/gateway/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(('name','meaning','where'),s)) for s in state],
                     mechanism=[dict(zip(('name','where'),m)) for m in mech], observe_at=list(observe), hook_needed=None)))

p('C01', 'A received sample never changes while a consumer holds it',
  'While a consumer holds a received sample, its bytes are exactly those the provider passed to send, complete and unmodified, whatever the provider and other consumers do meanwhile. A slot that any consumer still references is never handed to the provider for writing, and a slot being written is never handed to a consumer.',
  ['schedules','histories','configurations'],
  'for every interleaving of allocate/send/discard by the provider with receive/release by any number of consumer threads and processes, every number of slots, and every history including timestamp progress',
  'unit tests drive the lock-free slot protocol from one thread or with a handful of timings; the guarantee is over all interleavings of atomic steps of several processes on shared memory',
  [L+'provider_event_data_control_local_view.cpp', L+'consumer_event_data_control_local_view.cpp', L+'event_slot_status.cpp', L+'sample_ptr.h', L+'slot_decrementer.cpp', L+'skeleton_event.h', L+'proxy_event.h'],
  [('slot status word claimed by compare-exchange before writing', L+'provider_event_data_control_local_view.cpp AllocateNextSlot'),
   ('reference taken by compare-exchange on an unchanged time stamp', L+'consumer_event_data_control_local_view.cpp ReferenceNextEvent')],
  [('slot status', 'timestamp and reference count packed in one atomic word', L+'event_slot_status.h')],
  ['SamplePtr contents between GetNewSamples and release', 'SampleAllocateePtr address given by Allocate'])

p('C02', 'Samples arrive in send order, at most once, newest first when limited',
  'Each consumer receives only samples that were really sent on that event, in the order of sending, and never the same sample twice within one subscription. When more samples are available than the consumer asks for, it is given the most recent ones, and a sample that was sent and is among the newest that the consumer has not yet seen is never skipped in favour of an older one.',
  ['schedules','histories'],
  'for every interleaving of sends with any number of concurrently polling consumers, and every sequence of limits given to the receive call',
  'tests check a few fixed sequences without concurrent sends between the scan of the slots and the taking of the references',
  [L+'slot_collector.cpp', L+'consumer_event_data_control_local_view.cpp', L+'proxy_event_common.cpp', L+'skeleton_event.h'],
  [('monotone time stamp per send', L+'skeleton_event.h Send'), ('collect newest first, deliver oldest first, remember last time stamp', L+'slot_collector.cpp')],
  [('last time stamp seen', 'newest sample already delivered', L+'slot_collector.h')],
  ['callback arguments of GetNewSamples'])

p('C03', 'Slots are conserved: configured consumers can never starve the provider',
  'As long as the consumers together hold no more samples than the provider configured slots for, allocating a sample for sending succeeds whatever the interleaving. Once every consumer has released its samples, every slot is reusable again: no reference is leaked or released twice, and a discarded allocation leaves no trace for consumers.',
  ['schedules','histories'],
  'for every interleaving of allocation, sending, discarding, receiving and releasing, over arbitrarily long runs',
  'leaks and double releases of lock-free reference counts only appear under particular interleavings (retry paths, lost races) that the tests do not schedule',
  [L+'provider_event_data_control_local_view.cpp', L+'consumer_event_data_control_local_view.cpp', L+'slot_decrementer.cpp', L+'transaction_log_local_view.cpp', L+'sample_allocatee_ptr.h'],
  [('reference count per slot', L+'event_slot_status.h'), ('release exactly once through the owning sample object', L+'slot_decrementer.cpp')],
  (), ['result of Allocate', 'slot reference counts at quiescence'])

p('C04', 'A misbehaving QM consumer cannot disturb ASIL-B consumers',
  'Whatever a QM consumer does to the part of shared memory it may write, ASIL-B consumers keep receiving every sample intact and in order and the provider keeps being able to send to them. Once QM consumers are found to block sending they are cut off: from then on sending no longer depends on their state.',
  ['schedules','fault_sequences','inputs'],
  'for every content a QM process may write into the QM control data at any time, interleaved with allocation, sending and ASIL-B receiving',
  'tests set up one or two hand-made contents of the QM slots before the call; they cannot change them between two atomic steps of the provider',
  [L+'event_data_control_composite.cpp', L+'event_data_control_composite.h', L+'skeleton_event_common.cpp'],
  [('ASIL-B control authoritative, QM control ignored after violation', L+'event_data_control_composite.cpp AllocateNextSlot')],
  [('qm control disconnected', 'QM control no longer consulted', L+'event_data_control_composite.h')],
  ['result of Allocate', 'samples seen by ASIL-B consumers'])

p('C05', 'Concurrent subscriptions never exceed the configured quotas',
  'The number of accepted subscriptions and the sum of samples they reserved never exceed what the provider configured, whatever subscribes and unsubscribes concurrently. A subscription is refused only if accepting it together with those in progress could exceed a quota, and unsubscribing gives back exactly what was reserved.',
  ['schedules','histories'],
  'for every interleaving of subscribe and unsubscribe calls from any number of processes',
  'the tests use a fixed number of threads and let the operating system choose timings; over-admission by one needs a particular race',
  [L+'event_subscription_control.cpp', L+'event_subscription_control.h', L+'subscription_helpers.cpp'],
  [('subscriber count and slot count updated in one compare-exchange', L+'event_subscription_control.cpp Subscribe/Unsubscribe')],
  [('subscription word', 'subscribers and reserved slots', L+'event_subscription_control.h')],
  ['Subscribe result', 'sum of reservations of live subscribers'])

p('C06', 'Subscription follows the offer: re-established after the provider returns',
  'A subscribed consumer goes to pending when its provider withdraws or dies and back to subscribed, receiving new samples, once the service is offered again, without a new call by the application. Receive handlers and reserved sample count given once stay in force over any number of such cycles, and unsubscribing in any state ends it for good.',
  ['histories','schedules','crash_points'],
  'for every order of subscribe, unsubscribe, set/unset handler, offer, stop-offer and provider crash-restart, and every interleaving with the service discovery thread',
  'state machine tests walk single transitions with mocks; the guarantee is about histories across processes with discovery callbacks arriving at any time',
  [L+'subscription_state_machine.cpp', L+'subscription_state_machine_states.cpp', L+'subscription_not_subscribed_states.cpp', L+'subscription_subscription_pending_states.cpp', L+'subscription_subscribed_states.cpp', L+'proxy.cpp', L+'proxy_event_common.cpp'],
  [('state machine driven by offer events', L+'subscription_state_machine.cpp'), ('proxy reacts to discovery of its own instance', L+'proxy.cpp ServiceAvailabilityChangeHandler')],
  (), ['GetSubscriptionState', 'samples received after re-offer'])

p('C07', 'After a consumer dies, exactly its own references are given back',
  'When a consumer process dies at any instruction and is started again, the restart gives back exactly the slot references and subscriptions of the dead instance, or reports that it could not, and never touches references of any living consumer. Afterwards the provider can use all slots again up to those still held by living consumers.',
  ['crash_points','schedules','histories'],
  'for every instruction boundary at which the consumer can be killed, every interleaving with provider and other consumers, and repeated crashes including one during the clean-up itself',
  'tests construct a few transaction logs by hand; they do not kill a real consumer between the log write and the counter update, nor race a restart with other consumers',
  [L+'transaction_log.cpp', L+'transaction_log_set.cpp', L+'transaction_log_local_view.cpp', L+'transaction_log_rollback_executor.cpp', L+'consumer_event_data_control_local_view.cpp'],
  [('begin/commit marks around every shared update', L+'transaction_log_local_view.cpp'), ('rollback on proxy creation', L+'transaction_log_rollback_executor.cpp RollbackTransactionLogs')],
  [('transaction log', 'per consumer record of held references', L+'transaction_log.h')],
  ['Proxy creation result after restart', 'Allocate result of provider', 'slot reference counts'])

p('C08', 'A provider can crash and restart under running consumers',
  'When a provider process dies at any instruction and is restarted, samples still held by consumers stay intact, slots it was writing become usable again without ever having been shown, and its new samples are ordered after all earlier ones. Consumers reconnect and receive them, and no consumer crashes or hangs.',
  ['crash_points','schedules','histories'],
  'for every instruction boundary at which the provider can be killed, every set of samples then held by consumers, and every interleaving of its restart with consumer calls',
  'tests rebuild a skeleton on prepared memory; no test kills a provider between atomic steps of a send or in the middle of offering',
  [L+'skeleton.cpp', L+'skeleton_memory_manager.cpp', L+'skeleton_event_common.cpp', L+'provider_event_data_control_local_view.cpp', L+'partial_restart_path_builder.cpp'],
  [('usage marker files decide between re-opening and re-creating shared memory', L+'skeleton.cpp PrepareOffer'), ('in-writing slots reclaimed', L+'provider_event_data_control_local_view.cpp RemoveAllocationsForWriting')],
  (), ['OfferService result after restart', 'samples received by surviving consumers'])

p('C09', 'Receive handlers miss no sample and never fire after they are removed',
  'After a sample has been sent, every receive handler registered for that event in any process is called at least once afterwards, so that a consumer which reads in its handler always ends up with the newest sample. After removing a handler has returned, that handler is not running and is never called again.',
  ['schedules','histories','fault_sequences'],
  'for every interleaving of send, register, unregister and notification delivery between processes, including consumers that register while a send is going on',
  'handlers are tested with mocked messaging in one thread; lost wake-ups and calls after removal are races between processes and threads',
  [L+'messaging/i_message_passing_service.h', L+'messaging/message_passing_service_instance.cpp', L+'skeleton_event_common.cpp', I+'scoped_event_receive_handler.cpp'],
  [('registration messages to provider node, notification messages back', L+'messaging/message_passing_service_instance.cpp'), ('handler copied and invoked under scope', L+'messaging/message_passing_service_instance.cpp')],
  (), ['handler invocations', 'newest sample seen at quiescence'])

p('C10', 'Service search reports exactly the offered instances',
  'A running search ends up reporting exactly the instances currently offered, for any timing of offers, withdrawals and provider deaths while the search starts; one-shot search returns every instance that is offered throughout the call and none that is withdrawn throughout it. After a search has been stopped its handler is not called any more, and searches may be started and stopped from inside handlers.',
  ['schedules','histories','fault_sequences'],
  'for every interleaving of offers and withdrawals with start/stop of searches and with the watcher thread, for specific and any-instance searches with several searches sharing watched directories',
  'the file watching is mocked in tests and events are delivered one at a time; the gap between scanning a directory and watching it is not exercised',
  [L+'service_discovery/client/service_discovery_client.cpp', L+'service_discovery/flag_file.cpp', L+'service_discovery/flag_file_crawler.cpp', L+'service_discovery/known_instances_container.cpp', I+'service_discovery.cpp'],
  [('watch installed before directory is crawled', L+'service_discovery/flag_file_crawler.cpp'), ('events from watcher thread update the known set and call handlers', L+'service_discovery/client/service_discovery_client.cpp')],
  (), ['handler arguments', 'FindService result'])

p('C11', 'One service instance is offered by at most one provider at a time',
  'Of several processes offering the same service instance at the same time at most one succeeds, and the others get an error and leave the running offer undisturbed. When an offering process withdraws or dies, a later offer succeeds.',
  ['schedules','crash_points','histories'],
  'for every interleaving of concurrent offers, withdrawals and crashes of several processes',
  'single process tests with a mocked lock; exclusivity depends on operations of several processes on the file system interleaving',
  [L+'skeleton.cpp', L+'partial_restart_path_builder.cpp', S+'flock/flock_mutex.cpp', S+'flock/flock_mutex_and_lock.cpp', L+'service_discovery/flag_file.cpp'],
  [('exclusive file lock on the existence marker', L+'skeleton.cpp CreateOrOpenServiceInstanceExistenceMarkerFile')],
  (), ['OfferService results', 'number of simultaneous providers'])

p('C12', 'A method call runs at most once and returns its own result',
  'Every successful method call returned the value which the provider handler computed from exactly the arguments of that call, and the handler ran exactly once for it. A call that fails ran its handler at most once, every call ends, also when the provider withdraws or dies, and concurrent calls from several clients never see the arguments or results of each other.',
  ['schedules','crash_points','histories','fault_sequences'],
  'for every interleaving of calls from several client threads and processes, and every point at which the provider withdraws or dies',
  'tests use mocked messaging so that a reply can never be late, mixed up or lost; exactly-once needs real concurrent calls and faults',
  [L+'methods/', L+'proxy_method.cpp', L+'skeleton_method.cpp', L+'messaging/message_passing_service_instance.cpp', I+'methods/'],
  [('call queue position in shared memory plus message with reply', L+'proxy_method.cpp DoCall'), ('handler dispatch under scope', L+'skeleton_method.cpp')],
  (), ['method results', 'handler invocations'])

p('C13', 'A field always has a value and consumers converge to the latest',
  'A service with fields can only be offered once every field has a value, and a consumer that subscribes at any time gets the value current at that time without waiting for the next change. After changes stop, every consumer and every get returns the last value set.',
  ['schedules','histories'],
  'for every interleaving of updates, offers, subscriptions, gets and sets',
  'tests check one subscribe after one update without concurrency',
  [I+'skeleton_field.h', I+'skeleton_field_base.cpp', I+'proxy_field.h', L+'skeleton_event.h'],
  [('initial value stored and sent on prepare offer', I+'skeleton_field_base.cpp PrepareOffer'), ('set handler updates and notifies', I+'skeleton_field.h')],
  (), ['field values received', 'OfferService result'])

p('C14', 'Messages between processes arrive once, in order and unchanged',
  'On each connection every message accepted for sending is delivered to the other side exactly once, in the order of sending, with the same bytes, until the connection ends; what was lost at that point is a suffix. Every request with a reply gets either its own reply or an error, exactly once, and no other.',
  ['schedules','fault_sequences','histories'],
  'for every interleaving of senders, both connection directions, full socket buffers, short transfers, signals and abrupt connection loss',
  'tests send a few small messages over an undisturbed local socket; partial transfers and peers dying mid-message do not occur there',
  [M+'client_connection.cpp', M+'unix_domain/unix_domain_engine.cpp', M+'unix_domain/unix_domain_server.cpp'],
  [('length prefixed frames, waiting reads', M+'unix_domain/unix_domain_engine.cpp SendProtocolMessage/ReceiveProtocolMessage'), ('send queue', M+'client_connection.cpp')],
  (), ['message callbacks on both sides', 'reply callbacks'])

p('C15', 'Connections report their life cycle truthfully and stop cleanly',
  'A client connection reports its states in a legal order, ends in stopped with the real reason after a stop, refusal or peer loss, and calls nothing of the user after it has reported stopped or after its destruction. Stopping or destroying clients, servers and connections from any thread, also from inside callbacks where allowed, never deadlocks and releases every endpoint.',
  ['schedules','fault_sequences','histories'],
  'for every interleaving of start, stop, restart, destruction and peer behaviour (absent, refusing, dying), from user threads and callbacks',
  'tests exercise each transition once and rely on timing for the rest; use after destruction and deadlocks depend on the schedule',
  [M+'client_connection.cpp', M+'unix_domain/unix_domain_server.cpp', M+'unix_domain/unix_domain_engine.cpp'],
  [('state machine of client connection', M+'client_connection.cpp'), ('clean-up of an owner waits for the engine thread', M+'unix_domain/unix_domain_engine.cpp CleanUpOwner')],
  (), ['state callbacks', 'termination of Stop and destructors'])

p('C16', 'Timed commands run once, on time and never after their owner is gone',
  'Every command put in the timed queue runs at most once, never before its due time, in order of due time, and exactly once if its owner is not cleaned up. After cleaning up an owner no command of that owner runs, and other commands are unaffected.',
  ['histories','schedules','inputs'],
  'for every sequence of registrations with any due times, including from running commands, clean-ups and clock progress',
  'the tests use a few fixed entries and real clocks',
  [M+'timed_command_queue.cpp', M+'timed_command_queue_entry.h'],
  [('sorted intrusive list', M+'timed_command_queue.cpp')], (), ['command invocations and their times'])

p('C17', 'A waiter on a non allocating future wakes exactly when the value is set',
  'A thread waiting on the future returns only after the value was set, sees that value completely, and always returns once it was set. Setting never touches the future any more after the waiter may have destroyed it.',
  ['schedules'],
  'for every interleaving of waiter and setter including destruction directly after waking',
  'the tests have no control of the race between the wake-up and the destruction',
  [M+'non_allocating_future/non_allocating_future.h', M+'non_allocating_future/non_allocating_future.cpp'],
  [('mutex and condition variable held while marking and notifying', M+'non_allocating_future/non_allocating_future.h')], (), ['return of Wait', 'accesses after destruction'])

p('C18', 'Shared memory is initialised by exactly one creator and seen only complete',
  'Of several processes that create or open the same named shared memory concurrently at most one initialises it (exactly one if only creators compete), and every other either sees the completely initialised memory of the right size or gets an error. A creator or opener that dies at any point never lets another process see half initialised memory, not even while its remains are being removed, and never keeps later processes from using the memory for ever: openers give up in bounded time, and after the remains were removed the memory can be created and opened again. Failing system calls leave no lock file behind.',
  ['schedules','crash_points','fault_sequences'],
  'for every interleaving of concurrent create, open and create-or-open calls, every crash point of the creator, and failing system calls at any step',
  'tests mock the operating system calls one at a time and cannot interleave two processes inside the procedure',
  [S+'shared_memory_resource.cpp', S+'lock_file.cpp', S+'shared_memory_factory_impl.cpp'],
  [('lock file taken exclusively while creating', S+'shared_memory_resource.cpp CreateLockFileForNamedSharedMemory'), ('openers wait for the lock file', S+'shared_memory_resource.cpp waitForFreeLockFile')],
  (), ['content seen right after opening', 'number of initialisation callbacks run'])

p('C19', 'File based locks exclude each other and die with their owner',
  'An exclusive lock on a marker file is never held together with any other lock on it, a shared one only with shared ones, in whatever processes and threads. A lock is gone when it is released or its process dies, and try-lock fails only if a conflicting lock is held.',
  ['schedules','crash_points'],
  'for every interleaving of lock, try-lock, unlock, move and destruction by several threads and processes, with crashes',
  'tests mock the flock call',
  [S+'flock/flock_mutex.cpp', S+'flock/exclusive_flock_mutex.cpp', S+'flock/shared_flock_mutex.cpp', S+'flock/flock_mutex_and_lock.cpp'],
  [('flock on a private file descriptor', S+'flock/flock_mutex.cpp')], (), ['set of concurrent holders'])

p('C20', 'Pointers into shared memory never lead outside their memory region',
  'Dereferencing a relative pointer stored in shared memory yields the object it was made for in every process, whatever address the memory is mapped at, and a corrupted pointer that would leave its region ends the process instead of touching other memory. This holds while other threads map and unmap regions.',
  ['schedules','inputs','histories'],
  'for every interleaving of pointer use with regions being added and removed by other threads, every mapping address, and every corrupted offset',
  'the concurrent region table is tested with real threads for a few milliseconds; its reference counted versions need specific races to fail',
  [S+'offset_ptr.h', S+'offset_ptr_bounds_check.cpp', S+'memory_region_map.cpp', S+'memory_resource_registry.cpp', S+'polymorphic_offset_ptr_allocator.h'],
  [('versioned region map read without locks', S+'memory_region_map.cpp'), ('bounds check on dereference', S+'offset_ptr_bounds_check.cpp')],
  (), ['dereferenced object', 'process termination on corrupted pointer'])

p('C21', 'A consumer never holds more samples than it reserved',
  'However threads of a consumer receive, keep and release samples concurrently, it never holds more samples of an event than its subscription reserved, and can always receive up to that number again once it has released some. Likewise a provider never has more unsent allocations than it may have.',
  ['schedules','histories'],
  'for every interleaving of receiving and releasing from several threads',
  'tests use a single thread or unsynchronised real threads',
  [I+'sample_reference_tracker.cpp', I+'sample_allocatee_tracker.cpp', I+'proxy_event.h', I+'sample_allocatee_guard.cpp'],
  [('atomic count of available samples', I+'sample_reference_tracker.cpp')], (), ['number of live sample objects', 'GetFreeSampleCount'])

p('C31', 'Allocations in shared memory never overlap',
  'Whatever processes and threads allocate from one shared memory at the same time, every allocation is aligned as asked, lies inside the memory and overlaps no other, the number of allocated bytes is exact, and an allocation that does not fit ends the process instead of returning memory outside. A process that dies while allocating costs at most its own block.',
  ['schedules','crash_points','inputs'],
  'for every interleaving of concurrent allocations with any sizes and alignments up to exhaustion, spurious failures of the atomic exchange, and crashes',
  'tests force one failed exchange with a mock; they run no concurrent allocations from several processes',
  [S+'shared_memory_resource.cpp', S+'managed_memory_resource.h'],
  [('bump pointer advanced by compare and exchange', S+'shared_memory_resource.cpp do_allocate_with_indirector')], (), ['address ranges returned', 'GetUserAllocatedBytes'])

p('C22', 'The gateway link frames, matches and times out requests correctly',
  'Every message passed to the gateway link is delivered to the other side unchanged and in order however the byte stream is cut into pieces, and a malformed stream is reported and never delivered as a message. Every request completes exactly once, with the response to that very request or with an error on time-out or loss of the link.',
  ['schedules','fault_sequences','inputs'],
  'for every segmentation of the stream, every interleaving of requests, responses and notifications, and link loss at any byte',
  'tests feed whole frames through mocks',
  [G+'transport_layer/sample/message_framer.cpp', G+'transport_layer/sample/pending_request_tracker.cpp', G+'transport_layer/sample/bidirectional_transport.cpp', G+'transport_layer/sample/messages/serialization.cpp'],
  [('length prefix framing', G+'transport_layer/sample/message_framer.cpp'), ('pending requests by id', G+'transport_layer/sample/pending_request_tracker.cpp')],
  (), ['received messages', 'request completions'])

p('C23', 'The gateway mirrors remote services faithfully',
  'A service that is offered on one side of the gateway and configured for forwarding becomes available on the other side, and stops being available there when it is withdrawn or the link is lost. Samples forwarded arrive unchanged and in order.',
  ['schedules','histories','fault_sequences'],
  'for every interleaving of offers, withdrawals, subscriptions, samples and link loss on both sides',
  'tests use mocked transport and services with a single scripted order',
  [G+'gateway_application/gateway_core.cpp', G+'gateway_application/gateway_application.cpp', G+'transport_layer/sample/sample_hypervisor_transport.cpp'],
  [('forwarding state per service instance', G+'gateway_application/gateway_core.cpp')], (), ['services seen on the other side', 'forwarded samples'])

p('C24', 'A traced sample stays intact until the trace client is done with it',
  'When sample tracing is on, the bytes the trace client reads for a sample are those that were sent, until it reports completion; only then may the slot be reused. Tracing that is slow, fails or never completes does not block or corrupt normal communication.',
  ['schedules','fault_sequences'],
  'for every delay, loss and order of trace completions relative to sends and receives, and every recoverable or fatal tracing error',
  'tests mock the trace library and complete synchronously',
  [L+'tracing/tracing_runtime.cpp', I+'tracing/tracing_runtime.cpp', I+'tracing/skeleton_event_tracing.cpp', L+'skeleton_event.h'],
  [('sample reference kept in a tracing slot until trace done', L+'tracing/tracing_runtime.cpp')], (), ['bytes at trace address', 'Send/Allocate results'])

p('C25', 'Each living application has one stable process entry',
  'Concurrent registrations of applications in the shared table of process ids give every application its own single entry, return the previously registered process id when it restarts, and never lose or duplicate entries. Registration fails only if the table is full.',
  ['schedules','crash_points'],
  'for every interleaving of registrations from several processes, with restarts and processes dying while registering',
  'tests use one thread plus a hand-made concurrent modification in a mock',
  [L+'application_id_pid_mapping.cpp', L+'application_id_pid_mapping.h', L+'application_id_pid_mapping_entry.cpp'],
  [('entry state claimed by compare-exchange', L+'application_id_pid_mapping.h RegisterPid')], (), ['returned pid', 'table content'])

p('C26', 'Message senders recover after a peer process restarts',
  'When a peer process has died and come back under a new process id, notifications to it reach the new instance and are no longer sent to the old one. State kept for the old process is dropped once and never applied to the new one.',
  ['schedules','crash_points','histories'],
  'for every interleaving of peer death, restart, outdated-node announcements and ongoing notifications',
  'tests call the outdated-node handler directly in one thread',
  [L+'messaging/message_passing_service_instance.cpp', L+'messaging/message_passing_client_cache.cpp', L+'transaction_log_rollback_executor.cpp'],
  [('outdated node message removes registrations and cached client', L+'messaging/message_passing_service_instance.cpp')], (), ['notifications reaching the restarted peer'])

p('C27', 'Nothing is left behind after orderly shutdown',
  'After a provider has withdrawn its service and all consumers are gone, no flag file, shared memory, lock file, file lock, open descriptor or mapping of that service is left behind. While any consumer still uses the shared memory it stays usable for that consumer and for a returning provider.',
  ['histories','schedules','configurations'],
  'for every order of withdrawing, destroying and re-offering by provider and consumers',
  'tests check removal with mocks call by call',
  [L+'skeleton.cpp', L+'skeleton_memory_manager.cpp', L+'service_discovery/flag_file.cpp', S+'shared_memory_resource.cpp'],
  [('shared memory removed only if no consumer holds the usage marker', L+'skeleton.cpp PrepareStopOffer')], (), ['file system, descriptors and mappings at quiescence'])

p('C28', 'Consumers get read access to data and write access only where needed',
  'A consumer process never maps sample data writable, a QM process never gets write access to ASIL-B control data, and only users in the configured lists may open a restricted service. No access right is granted at any moment, including during creation, that is not configured.',
  ['configurations','histories','schedules'],
  'for every configuration of allowed users and quality levels, and every moment during creation and re-creation',
  'tests check the final arguments with mocks, not the rights in force at every moment as seen by other processes',
  [L+'skeleton_memory_manager.cpp', L+'proxy.cpp', S+'shared_memory_resource.cpp', S+'user_permission.h'],
  [('permissions applied on creation', S+'shared_memory_resource.cpp'), ('read-only open by proxies', L+'proxy.cpp')], (), ['mode and ACL of every shared object at every step', 'mmap protection'])

p('C29', 'Communication never deadlocks and makes progress once faults stop',
  'No combination of concurrent API calls from user threads, handlers and middleware threads of living processes leaves them waiting for each other for ever. Once crashes and system call failures stop, each pending call finishes within a bounded time.',
  ['schedules','fault_sequences','histories'],
  'for every interleaving of public calls including calls from inside handlers, with transient faults',
  'deadlocks need two threads at particular points; tests seldom run two API calls at once',
  [L+'messaging/', L+'service_discovery/', L+'subscription_state_machine.cpp', M+'client_connection.cpp', I+'service_discovery.cpp'],
  [('lock ordering and recursive locks', L+'service_discovery/client/service_discovery_client.cpp')], (), ['completion of every call'])

p('C30', 'Configuration is parsed into exactly the deployment that was written',
  'A valid configuration file yields the deployment it describes, and an invalid one is rejected instead of being used partially.',
  ['inputs'],
  'for every configuration document',
  'tests use a finite set of documents',
  [I+'configuration/config_parser.cpp', I+'configuration/configuration.cpp'],
  [('structural checks while parsing', I+'configuration/config_parser.cpp')], (), ['parsed configuration'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for e in P:
        assert len(e['title']) <= 80, (e['id'], len(e['title']))
        f.write(json.dumps(e) + '\n')
