// Public interface of the deterministic simulator (libsim.so).
// Scenario code (instrumented, linked with the real gul14 sources) and oracle code
// (uninstrumented, inside libsim.so) both include this header.
#ifndef SIM_H_
#define SIM_H_
#include <stdint.h>
#include <stddef.h>

extern "C" {

// ---- workload generation (only before concurrency starts; flat, shrinkable to 0) ----
uint64_t sim_gen(uint64_t n);                 // uniform in [0,n); 0 is the "simplest" value

// ---- recording ----
uint64_t sim_rec(int type, int64_t a, int64_t b, int64_t c, int64_t d); // returns global seq
void sim_rec_str(int type, int64_t a, const char* s, size_t n);
void sim_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- identity and time ----
int sim_tid(void);
int64_t sim_mono(void);                       // simulated steady clock, ns
int64_t sim_real(void);                       // simulated system clock, ns
void sim_clock_jump(int64_t ns);              // wall clock adjustment by the scenario

// ---- scheduling helpers for scenarios ----
void sim_point(void);                         // a plain switch point
void sim_sleep(int64_t ns);                   // block for ns of simulated time (no faults)
int sim_quiesce(void);                        // run when no other thread can run now
int sim_wait_flag(int64_t flag, int64_t ns);  // wait for sim_set_flag(); 1=set, 0=timeout (no happens-before)
void sim_set_flag(int64_t flag);
int sim_flag(int64_t flag);
int64_t sim_counter_add(int64_t counter, int64_t d); // returns new value; no happens-before
void sim_hb_release(int64_t key);             // explicit happens-before edges for harness use
void sim_hb_acquire(int64_t key);

// ---- faults ----
void sim_faults(int on);                      // scheduler/time faults: global on/off (default on)
int sim_alloc_faults(int on);                 // allocation failures in the calling thread (inherited by threads it creates); returns the old value
int sim_fault(int site);                      // scenario fault point (throwing element etc.)
uint64_t sim_faults_injected(void);
void sim_step_limit(uint64_t steps);          // raise the step limit of this run (long histories)
void sim_count_fault(int kind);               // count a fault the scenario injects itself

// ---- verdict ----
void sim_fail(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_probe(int id);                       // "this rare condition was hit"

void sim_mark(int64_t v);                      // step of a sequential scenario: part of the history hash

// ---- heap bookkeeping ----
int64_t sim_live_blocks(void);
int64_t sim_live_bytes(void);
uint64_t sim_alloc_count(void);
void sim_harness_enter(void);                 // allocations in between are the harness's own
void sim_harness_leave(void);
int sim_live_threads(void);                   // simulated threads not yet finished, incl. main
int sim_is_live(const void* p);               // points into a live simulated heap block

// ---- registration ----
struct SimScenario {
    const char* name;
    void (*run)(void);
    unsigned fault_mask;      // FM_* allowed
    int race_check;           // report data races
    int64_t cfg;              // free for the scenario
    const char* oracle;       // name of the oracle in libsim.so, or null
};
void sim_register(const struct SimScenario*);
int sim_main(int argc, char** argv);
int64_t sim_cfg(void);
}

enum SimFaultMask : unsigned {
    FM_SPUR = 1u << 0,    // spurious condition variable wake-ups
    FM_SKIP = 1u << 1,    // time skips (whole machine stalls, timers expire late)
    FM_JUMP = 1u << 2,    // wall clock jumps
    FM_STALL = 1u << 3,   // a single thread is stalled
    FM_ALLOC = 1u << 4,   // operator new throws bad_alloc
    FM_CREATE = 1u << 5,  // pthread_create fails with EAGAIN
    FM_EINTR = 1u << 6,   // interrupted sleeps
    FM_USER = 1u << 7,    // sim_fault() sites
    FM_WAKE = 1u << 8,    // non-FIFO wake order
};

enum SimEvKind {
    EK_PRE_M, EK_PRE_S, EK_STALL, EK_SKIP, EK_JUMP, EK_PICK, EK_WAKE, EK_SPUR, EK_ALLOC,
    EK_CREATE, EK_EINTR, EK_USER, EK_N
};

#ifdef __cplusplus
struct SimNoAllocFaults {
    int old;
    SimNoAllocFaults() : old(sim_alloc_faults(0)) {}
    ~SimNoAllocFaults() { sim_alloc_faults(old); }
    SimNoAllocFaults(const SimNoAllocFaults&) = delete;
};
struct SimHarness { // RAII: allocations inside are harness-owned (not counted, never fail)
    SimHarness() { sim_harness_enter(); }
    ~SimHarness() { sim_harness_leave(); }
    SimHarness(const SimHarness&) = delete;
};
#endif
#endif
