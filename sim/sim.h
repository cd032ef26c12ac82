// Interface between the simulator (executable) and the simulated node (shared object that contains
// the stenos sources plus the workload code).
#pragma once
#include <stddef.h>
#include <stdint.h>
#include "plan.h"

#ifdef __cplusplus
extern "C" {
#endif

// ---- threads -----------------------------------------------------------------------------------
int sim_spawn(void (*fn)(void*), void* arg); // start a simulated client thread
void sim_join(int tid);
void sim_yield(void); // a scheduling point of the workload itself
int sim_tid(void);

// ---- calls into the system under test ----------------------------------------------------------
// Between enter and leave, allocation faults armed for operation `op` apply, and allocations are
// attributed to the system under test.
void sim_enter(int op);
void sim_leave(void);
uint64_t sim_faults_fired(void); // faults fired since sim_enter (all threads)
void sim_heal(void); // disarm all remaining allocation faults (faults stop)

struct SutPause // used by callbacks from the system under test into the harness
{
	int d;
};
int sim_pause(void);
void sim_resume(int d);

// ---- verdicts ----------------------------------------------------------------------------------
void sim_fail(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_probe(const char* name);	     // reach probe: counted per run
void sim_fault(const char* name);	     // fault that actually fired
void sim_register_lib(void* addr_in_lib);
void sim_hash(uint64_t v);		     // add to the event hash
void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace only

// ---- memory ------------------------------------------------------------------------------------
void* sim_buf(size_t n);   // client buffer, exact bounds checked
void sim_buf_free(void* p); // checks the surroundings were not written
void sim_touch(const void* p, size_t n, int write); // client access, for the race detector
size_t sim_live_blocks(void); // blocks owned by the system under test
size_t sim_live_bytes(void);
size_t sim_block_size(const void* p); // size of a block of the system under test, or -1
size_t sim_live_cctx(void); // live zstd contexts
uint64_t sim_alloc_count(void);

// ---- time --------------------------------------------------------------------------------------
uint64_t sim_now(void);
void sim_set_now(uint64_t ns);
void sim_advance(uint64_t ns);
uint64_t sim_last_clock(void); // last clock reading returned to the calling thread
// record when each granule of a client buffer is first accessed (for the budget oracle)
void sim_region(const void* p, size_t n, size_t gran);
uint64_t sim_region_time(size_t granule);
uint64_t sim_zstd_calls(void);	       // number of zstd compression calls so far
uint64_t sim_zstd_bytes_after(uint64_t t); // zstd input bytes of compressions started at or after simulated time t
uint64_t sim_zstd_calls_after(uint64_t t);

#ifdef __cplusplus
}
#endif
