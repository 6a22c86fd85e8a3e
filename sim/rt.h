// Internal: shared between runtime, driver and oracles (all inside libsim.so).
#ifndef SIM_RT_H_
#define SIM_RT_H_
#include "sim.h"
#include <string>
#include <vector>

namespace sim {

constexpr int MAXT = 48;
constexpr int MAXGEN = 8192;
constexpr int MAXEV = 400000;

struct Ev { uint8_t kind, tid; uint16_t pad; uint32_t step; int64_t val; };

enum Status : int { ST_NONE, ST_OK, ST_VIOLATION, ST_ERROR };

struct Shm { // one per worker, survives the child
    // --- input ---
    int mode;            // 0 = record, 1 = replay
    int scen;
    uint64_t gen_seed, sched_seed;
    int64_t tick;        // ns per sync point (replay: given; record: chosen by the run)
    int gen_fixed;       // 1: take gens[] as given (also in record mode)
    int nofaults;        // 1: no faults in record mode
    int trace;           // 1: keep a textual trace in log
    int ngens; int ngens_in;
    uint64_t gens[MAXGEN];
    uint32_t gen_n[MAXGEN];
    int nevs;
    Ev evs[MAXEV];
    // --- output ---
    int status;
    char cls[128];
    char msg[6000];
    uint64_t hash;
    uint64_t steps, ssteps, switches;
    int64_t vtime;
    int threads;
    uint64_t nfault[EK_N];
    uint64_t probes[64];
    int strat;
    int nontrivial;
    size_t loglen;
    char log[1 << 20];
};

struct Rec { uint64_t seq; int type; int tid; int64_t mono, real; int64_t a, b, c, d; std::string s; };

struct ClockSeg { uint64_t seq; int64_t mono; int64_t off; }; // wall offset history

struct History {
    std::vector<Rec> recs;
    int64_t fault_time = 0;      // total of injected time skips and stalls
    std::vector<ClockSeg> clock; // offset changes, first entry at start
    struct Gap { uint64_t seq; int64_t from, to; };
    std::vector<Gap> gaps;       // steady-clock values that never existed (time skips)
    std::vector<Gap> idle;       // time that passed because no thread could run (and none was stalled)
    int64_t idle_between(int64_t from, int64_t to) const; // how much of the steady-clock interval was idle
    // smallest wall-clock value >= v that existed between two records (no offset changes in between: exact up to gaps)
    int64_t earliest_real(uint64_t s0, uint64_t s1, int64_t v) const;
    int64_t max_real(uint64_t s0, uint64_t s1) const; // max/min wall clock between two seqs
    int64_t min_real(uint64_t s0, uint64_t s1) const;
};

using OracleFn = void (*)(History&);
void register_oracle(const char* name, OracleFn fn);
OracleFn find_oracle(const char* name);
struct OracleReg { OracleReg(const char* n, OracleFn f) { register_oracle(n, f); } };

extern std::vector<SimScenario> g_scens; // pointer-stable not required
[[noreturn]] void run_child(Shm* shm);    // executes one run and _exit()s
void rt_init();                           // once per process, before any fork

} // namespace sim
#endif
