// Interface between the simulator (the executable "simrun") and the code that
// runs inside a simulated process image (the scenario shared objects).
// Every source of nondeterminism and every fault goes through these calls.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

extern "C" {
// ---- decisions: the only randomness of a run -------------------------------
// 0 <= result < n; 0 is always the "plainest" alternative (used for shrinking).
uint32_t sim_choose(uint32_t n, const char* tag);
// true with probability num/den; false is the plain alternative.
int sim_coin(uint32_t num, uint32_t den, const char* tag);

// ---- identity ---------------------------------------------------------------
int sim_rank();
int sim_size();
int sim_incarnation();          // how often this rank was restarted in this run
const char* sim_param(const char* key, const char* fallback); // command line -p key=value

// ---- history ------------------------------------------------------------------
void sim_event(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // logged and hashed
void sim_hash(const void* data, size_t length);                             // hashed only
void sim_count(const char* counter, uint64_t increment);                    // measured coverage
void sim_fault(const char* kind);                                           // a fault of this kind really fired
[[noreturn]] void sim_fail(const char* violation_class, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_discard(const char* why); // the run says nothing (precondition not met)
void sim_nontrivial();                          // this run exercised the property
uint64_t sim_now();                             // simulated nanoseconds
void sim_advance(uint64_t ns);
uint64_t sim_seq(); // global event sequence number

// ---- scheduling ------------------------------------------------------------------
void sim_yield(const char* where); // another rank may run here
// Blocks the calling rank until every live rank called it (harness rendezvous, no MPI involved)
void sim_sync();

// Every rank's process dies here and the whole job starts again; only the simulated disk survives.
[[noreturn]] void sim_restart_world();
// The same with another number of ranks (0: as before); planned: the job had ended normally, this is no fault.
[[noreturn]] void sim_restart_world_with(int ranks, int planned);
// When sim_main has returned, run the static destructors of this rank's image (normal process exit).
void sim_request_unload();

// ---- simulated MPI: what the transport saw ------------------------------------------
int sim_mpi_inits();
int sim_mpi_finalizes();
int sim_mpi_is_finalized();
int sim_mpi_residual(); // messages sent and never received

// ---- allocation seam ---------------------------------------------------------------
void sim_alloc_arm(uint64_t nth, uint64_t every); // nth allocation from now fails (1-based); with every!=0 also all later ones spaced by it
uint64_t sim_alloc_disarm();                      // returns how many allocations were attempted since arming
int sim_alloc_fired();                            // how many injected failures since arming
uint64_t sim_alloc_live_blocks();
uint64_t sim_alloc_live_bytes();
void sim_alloc_check();      // verify all heap guards now
void sim_alloc_mode(int m);  // 0 reuse last freed first, 1 delayed reuse (quarantine), 2 never reuse
void sim_alloc_fill(int pattern); // what fresh memory holds from now on
void sim_alloc_limit(uint64_t bytes); // a single request above this throws bad_alloc (like an exhausted machine)
uint64_t sim_alloc_denied();         // requests refused because of the limit

// ---- clock seam ------------------------------------------------------------------
void sim_clock_set_rate(uint64_t ns_per_read); // simulated cost of one clock read
void sim_clock_jump(int64_t ns);

// ---- entropy seam -----------------------------------------------------------------
uint64_t sim_entropy_reads();

// ---- simulated durable storage --------------------------------------------------------
void sim_disk_write(const char* name, const void* data, size_t length);
void sim_disk_append(const char* name, const void* data, size_t length);
size_t sim_disk_size(const char* name); // (size_t)-1 if absent
size_t sim_disk_read(const char* name, size_t offset, void* data, size_t length);
void sim_disk_remove(const char* name);

// ---- shared blackboard of the oracle (not visible to the code under test) ----------
void sim_board_put(const char* key, const void* data, size_t length);
size_t sim_board_size(const char* key);
size_t sim_board_get(const char* key, void* data, size_t length);

// ---- captured output ----------------------------------------------------------------
// which: 0 stdout, 1 clog, 2 cerr. Chunks are recorded with the rank that wrote them.
size_t sim_output_size(int which);
const char* sim_output_data(int which);
void sim_output_clear();
}

// entry point every scenario exports
extern "C" void sim_main(const char* scenario);
