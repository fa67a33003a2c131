// Interface between a scenario (workload, oracle, controller; compiled into the node image) and the simulator.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// ---- entry points the image provides
void sim_control();                                             // controller of the run; the run ends when it returns
void sim_process_main(int role, int incarnation, void* arg);    // main() of a simulated process
// ---- randomness of the workload (own stream per fiber: independent of the schedule)
std::uint64_t sim_rand64();
std::uint32_t sim_below(std::uint32_t n);                       // 0..n-1
int sim_chance(unsigned per_mille);
// ---- verdicts and records
[[noreturn]] void sim_violation(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // into the history (hashed, kept for the report)
void sim_count(const char* name, long n);                       // named counter reported in the evidence
void sim_cover(std::uint64_t state);                            // an abstract state that was reached
void sim_atomic_begin();                                        // no scheduling point until sim_atomic_end
void sim_atomic_end();
void sim_yield();                                               // explicit scheduling point
// ---- processes
// own_image != 0: a fresh copy of the whole image (own globals and singletons)
int sim_spawn(const char* name, int role, int incarnation, int uid, int own_image, void* arg);
int sim_self();                                                 // pid of the current process
int sim_alive(int pid);                                         // 1 while any thread of it lives
int sim_exit_kind(int pid);                                     // 0 running, 1 returned, 2 killed by the injector, 3 terminated itself
const char* sim_exit_text(int pid);
void sim_expect_abort(int pid, int on);                         // a self termination is not a violation for this process
void sim_tag_termination(int pid, const char* finding, const char* text);   // a termination whose report contains text is this finding; text "": no more
void sim_watch_log(int pid, const char* text);   // remember whether process pid logs a warning or an error with this text
int sim_log_seen(int pid, const char* text);
void sim_mutual_send(const char* finding);         // a violation while two processes have been blocked in a socket write for seconds is this finding
void sim_kill(int pid);
void sim_crash_after(int pid, unsigned steps);                  // kill after so many further scheduling points of it
int sim_wait_exit(int pid, std::uint64_t timeout_ns);           // 1 if it ended
// what the controller may wait for
void sim_sleep_ns(std::uint64_t ns);
std::uint64_t sim_now_ns();
std::uint64_t sim_steps();
int sim_wait_idle(std::uint64_t timeout_ns);                    // until every other thread is blocked without a time limit; 1 if reached
// ---- faults
enum SimFault {
    SF_CRASH = 0, SF_CAS_SPURIOUS, SF_COND_SPURIOUS, SF_EINTR, SF_EAGAIN, SF_SHORT_READ, SF_SHORT_WRITE, SF_ENOMEM, SF_ENOSPC, SF_EMFILE, SF_ECONN, SF_STALL,
    SF_TIME_LEAP, SF_DELAY, SF_EIO, SF_USER0, SF_USER1, SF_USER2, SF_USER3, SF_COUNT };
void sim_allow_fault(int kind, unsigned max_per_mille);         // the run draws its own rate in 0..max
void sim_faults(int on);                                        // global switch
int sim_fault(int kind);                                        // a fault point of the scenario: 1 if the fault fires
void sim_calm();                                                // faults off, fair scheduling from here on
void sim_max_steps(std::uint64_t n);
void sim_budget_ok(int on);                                     // exceeding the step budget ends the run without verdict (default) or is a violation (0)
const char* sim_param(const char* key);                         // parameter of the check, "" if absent
void sim_give_up(const char* why);                              // ends the run without verdict
void sim_race_check(int on, int heap);                          // happens-before race detection on shared (and heap) memory
void sim_race_region(const void* p, std::size_t n);              // restricts race detection to the given regions (same for all mappings)
void sim_race_forget(const void* p, std::size_t n);
// memory
long sim_live_blocks();
int sim_heap_state(const void* p);                              // 1 live, 2 freed, 0 unknown
void sim_track_region(const void* p, std::size_t n);            // accesses here are always scheduling points (shared memory)
}
struct SimAtomic { SimAtomic() { sim_atomic_begin(); } ~SimAtomic() { sim_atomic_end(); } SimAtomic(const SimAtomic&) = delete; };
