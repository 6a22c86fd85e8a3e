// The deterministic simulator: scheduler, virtual time, faults, heap, race detection.
// Exactly one simulated thread runs at any moment, so nothing here needs locking.
#include "rt.h"
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <unordered_map>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// Overrides glibc's variable for the executable and libstdc++: never take the
// single-threaded shortcuts (they would depend on real thread timing).
EXPORT char __libc_single_threaded;
char __libc_single_threaded = 0;

namespace sim {

std::vector<SimScenario> g_scens;

// ------------------------------------------------------------------ small helpers

static inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s = 1;
    void seed(uint64_t x) { s = mix(x) | 1; }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
    double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool p(double pr) { return u() < pr; }
    // geometric: number of trials until (and including) success
    uint64_t geo(double pr)
    {
        if (pr <= 0) return UINT64_MAX / 4;
        if (pr >= 1) return 1;
        double x = u();
        double l = __builtin_log(1.0 - x) / __builtin_log(1.0 - pr);
        return 1 + (uint64_t)l;
    }
    int64_t logu(int64_t lo, int64_t hi)
    {
        double l = __builtin_log((double)lo), h = __builtin_log((double)hi);
        return (int64_t)__builtin_exp(l + (h - l) * u());
    }
};

static long raw_futex(uint32_t* a, int op, uint32_t v)
{
    long r;
    register long r10 __asm__("r10") = 0;
    register long r8 __asm__("r8") = 0;
    register long r9 __asm__("r9") = 0;
    __asm__ volatile("syscall" : "=a"(r)
                     : "a"((long)SYS_futex), "D"(a), "S"((long)op), "d"((long)v), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

struct VC {
    uint32_t c[MAXT];
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) c[i] = c[i] > o.c[i] ? c[i] : o.c[i]; }
    void clear() { memset(c, 0, sizeof c); }
};

// ------------------------------------------------------------------ state

enum TS : uint8_t { T_RUN, T_MUTEX, T_COND, T_SLEEP, T_FUTEX, T_JOIN, T_OBJ, T_QUIESCE, T_STALL, T_FLAG, T_DONE };

struct Obj;

struct TlsDtor { void (*fn)(void*); void* arg; };

struct Thr {
    int id = 0;
    TS st = T_RUN;
    uint32_t tok = 0;
    Obj* obj = nullptr;       // what it waits for
    Obj* mtx = nullptr;       // mutex to reacquire after a cond wait
    int64_t deadline = -1;    // -1 none
    int dclock = 0;           // 0 mono, 1 real
    int64_t spur_at = -1;     // spurious wake-up (mono)
    bool timed_out = false, woken = false, detached = false, joined = false;
    void* fut = nullptr;      // futex address
    uint32_t futbits = 0;
    int64_t flag = 0;
    int jointgt = -1;
    VC vc, acqp, relf;
    bool has_relf = false;
    uint64_t mstep = 0, sstep = 0, picks = 0, wakes = 0, waits = 0, allocs = 0, creates = 0, sleeps = 0, users = 0;
    uint64_t next_m = UINT64_MAX; // replay: next EK_PRE_M
    int alloc_faults = 0;
    int in_rt = 0;
    int harness = 0; // nested sim_harness_enter()
    int prio = 0;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    pthread_t pt{};
    std::vector<TlsDtor> dtors;
    const char* what = "";
};

struct Obj { // mutex, condvar, once, guard, atomic: keyed by address
    uintptr_t addr = 0;
    int id = 0;
    int owner = -1;  // mutex owner / once or guard runner / writer
    int count = 0;   // recursion / readers / semaphore value
    int state = 0;
    bool init = false;
    std::vector<int> waiters; // cond waiters in FIFO order
    VC vc;
    bool has_vc = false;
};

static __thread Thr* t_me __attribute__((tls_model("initial-exec"))) = nullptr;
static __thread int t_pre_rt __attribute__((tls_model("initial-exec"))) = 0; // before/outside a run

struct Sched {
    bool active = false;
    Shm* shm = nullptr;
    bool replay = false;
    Thr* th[MAXT];
    int nth = 0;
    int64_t mono = 0, off = 0, spin = 0;
    int64_t tick = 100;
    int64_t next_dl = INT64_MAX; // earliest mono deadline over all timed waits (conservative)
    uint64_t seq = 0;
    uint64_t steps = 0, ssteps = 0, switches = 0, runlen = 0, preempts = 0;
    uint64_t hash = 0;
    Rng gen, rs, rf;
    int ngen = 0;
    bool faults = true;
    unsigned fmask = 0;
    uint64_t nfaults = 0, fbudget = 0;
    int race = 0;
    // strategy
    int strat = 0;
    double pS = 0, pM = 0, pPick = 1.0;
    uint64_t mem_cd = UINT64_MAX / 4, sync_cd = UINT64_MAX / 4, fault_cd = UINT64_MAX / 4;
    double pF = 0;
    uint64_t pct_next[16]; int npct = 0; int pct_low = 0;
    double pSpur = 0, pAlloc = 0, pCreate = 0, pEintr = 0, pUser = 0, pWake = 0;
    uint64_t alloc_at = 0, user_at = 0; // targeted: fail the k-th
    int64_t tick_choice = 0;
    uint64_t cap = 3000000;
    int64_t spin_max = 1000000000000000ll;
    bool fair = false;  // the step limit was reached once
    bool quiet = false; // no further decisions: no faults, round robin
    std::vector<Ev> rep[MAXT][EK_N];
    size_t rpos[MAXT][EK_N];
    std::unordered_map<uintptr_t, Obj*> objs;
    int nobj = 0;
    History hist;
    std::map<int64_t, int64_t> counters;
    std::map<int64_t, bool> flags;
    std::map<int64_t, VC> hbkeys;
    const SimScenario* scen = nullptr;
    bool ending = false;
};
static Sched S;

struct RtGuard { // we are inside the runtime: no instrumentation, no arena
    Thr* t;
    RtGuard() : t(t_me) { if (t) t->in_rt++; else t_pre_rt++; }
    ~RtGuard() { if (t) t->in_rt--; else t_pre_rt--; }
};

static inline bool live() { return S.active && t_me && t_me->in_rt == 0; }

static inline void h(uint64_t x) { S.hash = (S.hash ^ x) * 0x100000001b3ull; S.hash ^= S.hash >> 29; }

// ------------------------------------------------------------------ verdicts

static void logf_(const char* fmt, ...)
{
    if (!S.shm || !S.shm->trace) return;
    va_list ap;
    va_start(ap, fmt);
    size_t room = sizeof(S.shm->log) - S.shm->loglen;
    if (room > 300) {
        int n = vsnprintf(S.shm->log + S.shm->loglen, room, fmt, ap);
        if (n > 0) S.shm->loglen += std::min((size_t)n, room - 1);
    }
    va_end(ap);
}
#define LOG(...) do { if (UNLIKELY(S.shm && S.shm->trace)) logf_(__VA_ARGS__); } while (0)

[[noreturn]] static void finish(Status st, const char* cls, const char* msg)
{
    Shm* m = S.shm;
    S.active = false;
    if (m->status == ST_NONE) {
        snprintf(m->cls, sizeof m->cls, "%s", cls);
        snprintf(m->msg, sizeof m->msg, "%s", msg);
        m->hash = S.hash;
        m->steps = S.steps;
        m->ssteps = S.ssteps;
        m->switches = S.switches;
        m->vtime = S.mono - 1000000000000ll;
        m->threads = S.nth;
        m->ngens = S.ngen;
        m->strat = S.strat;
        m->tick = S.tick;
        m->nontrivial = (S.preempts + S.nfaults) > 0;
        __sync_synchronize();
        m->status = st;
    }
    syscall(SYS_exit_group, 0);
    for (;;) ;
}

[[noreturn]] static void vfail(const char* cls, const char* fmt, va_list ap)
{
    char buf[3000];
    vsnprintf(buf, sizeof buf, fmt, ap);
    finish(ST_VIOLATION, cls, buf);
}

[[noreturn]] static void fail(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
}

[[noreturn]] static void internal_error(const char* fmt, ...)
{
    char buf[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    finish(ST_ERROR, "sim-internal", buf);
}

static const char* const ts_name[] = { "runnable", "mutex", "condvar", "sleep", "futex", "join", "object", "quiesce", "stalled", "flag", "done" };

static std::string thread_dump()
{
    std::string s;
    for (int i = 0; i < S.nth; i++) {
        Thr* t = S.th[i];
        char b[120];
        snprintf(b, sizeof b, " T%d:%s%s", i, ts_name[t->st], t->deadline >= 0 ? "(timed)" : "");
        s += b;
    }
    return s;
}

// ------------------------------------------------------------------ events (decisions)

static void add_ev(int kind, int tid, uint64_t step, int64_t val)
{
    Shm* m = S.shm;
    if (m->nevs >= MAXEV) internal_error("event buffer full");
    if (m->nevs >= MAXEV - 4096) S.quiet = true; // a very long history goes on without further decisions
    m->evs[m->nevs++] = Ev{ (uint8_t)kind, (uint8_t)tid, 0, (uint32_t)step, val };
}

// replay lookup: the event of this kind for (tid, step), if any
static bool rep_ev(int kind, int tid, uint64_t step, int64_t& val)
{
    auto& v = S.rep[tid][kind];
    size_t& p = S.rpos[tid][kind];
    while (p < v.size() && v[p].step < step) p++;
    if (p < v.size() && v[p].step == step) { val = v[p].val; p++; return true; }
    return false;
}

static void rep_next_m(Thr* t)
{
    auto& v = S.rep[t->id][EK_PRE_M];
    size_t& p = S.rpos[t->id][EK_PRE_M];
    while (p < v.size() && v[p].step <= t->mstep) p++;
    t->next_m = p < v.size() ? v[p].step : UINT64_MAX;
}

static void did_fault(int kind)
{
    S.shm->nfault[kind]++;
    S.nfaults++;
    h(0xfa0000 + kind);
}

static bool may_fault(unsigned bit)
{
    return S.faults && !S.quiet && (S.fmask & bit) && S.nfaults < S.fbudget;
}

// ------------------------------------------------------------------ time and runnability

static int64_t eff_deadline(const Thr* t)
{
    if (t->deadline < 0) return INT64_MAX;
    if (t->dclock == 0) return t->deadline;
    return t->deadline - S.off; // may be in the past
}

static void recompute_next_dl()
{
    int64_t m = INT64_MAX;
    for (int i = 0; i < S.nth; i++) {
        Thr* t = S.th[i];
        if (t->st == T_RUN || t->st == T_DONE) continue;
        if (t->deadline >= 0) m = std::min(m, eff_deadline(t));
        if (t->spur_at >= 0) m = std::min(m, t->spur_at);
    }
    S.next_dl = m;
}

static void cond_remove(Obj* c, int tid)
{
    auto& w = c->waiters;
    w.erase(std::remove(w.begin(), w.end(), tid), w.end());
}

static void wake_from_cond(Thr* t)
{
    cond_remove(t->obj, t->id);
    t->obj = nullptr;
    t->st = T_MUTEX;
    t->deadline = -1;
    t->spur_at = -1;
}

static void fire_timers()
{
    for (int i = 0; i < S.nth; i++) {
        Thr* t = S.th[i];
        if (t->st == T_RUN || t->st == T_DONE) continue;
        if (t->spur_at >= 0 && t->spur_at <= S.mono) {
            t->spur_at = -1;
            did_fault(EK_SPUR);
            LOG("  [spurious wake-up of T%d]\n", t->id);
            if (t->st == T_COND) { wake_from_cond(t); continue; }
            if (t->st == T_FUTEX) { t->st = T_RUN; t->deadline = -1; t->woken = true; continue; }
        }
        if (t->deadline >= 0 && eff_deadline(t) <= S.mono) {
            switch (t->st) {
            case T_COND: t->timed_out = true; wake_from_cond(t); break;
            case T_SLEEP: case T_STALL: t->st = T_RUN; t->deadline = -1; break;
            case T_FUTEX: case T_FLAG: case T_OBJ: t->timed_out = true; t->st = T_RUN; t->deadline = -1; break;
            case T_MUTEX: t->timed_out = true; t->st = T_RUN; t->deadline = -1; break;
            default: break;
            }
        }
    }
    recompute_next_dl();
}

static inline void tick(int64_t d)
{
    S.mono += d;
    if (UNLIKELY(S.mono >= S.next_dl)) fire_timers();
}

static bool runnable(const Thr* t)
{
    if (t->st == T_RUN) return true;
    if (t->st == T_MUTEX) return t->mtx->owner < 0;
    return false;
}

static void set_offset(int64_t off)
{
    S.off = off;
    S.hist.clock.push_back({ S.seq++, S.mono, off });
    recompute_next_dl();
    if (S.mono >= S.next_dl) fire_timers();
}

static void skip_time(int64_t d)
{
    if (d <= 0) return;
    S.hist.fault_time += d;
    S.hist.gaps.push_back({ S.seq++, S.mono, S.mono + d });
    S.mono += d;
    if (S.mono >= S.next_dl) fire_timers();
}

// ------------------------------------------------------------------ switching

static void transfer(Thr* me, Thr* to)
{
    if (to == me) return;
    S.switches++;
    S.runlen = 0;
    S.spin = 0;
    h(0x5117c4 + (uint64_t)to->id * 64 + me->id);
    h(me->mstep);
    LOG("  -> T%d\n", to->id);
    __atomic_store_n(&to->tok, 1, __ATOMIC_RELEASE);
    raw_futex(&to->tok, FUTEX_WAKE_PRIVATE, 1);
    if (me->st == T_DONE) return;
    while (!__atomic_load_n(&me->tok, __ATOMIC_ACQUIRE)) raw_futex(&me->tok, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&me->tok, 0, __ATOMIC_RELAXED);
}

static Thr* default_pick(const Thr* me)
{
    for (int k = 1; k <= S.nth; k++) {
        Thr* t = S.th[(me->id + k) % S.nth];
        if (runnable(t)) return t;
    }
    return nullptr;
}

// Make sure at least one thread is runnable, advancing simulated time if necessary.
static void ensure_runnable()
{
    for (;;) {
        bool any = false, stalled = false, quiesce = false, timers = false;
        for (int i = 0; i < S.nth; i++) {
            Thr* t = S.th[i];
            if (runnable(t)) any = true;
            if (t->st == T_STALL) stalled = true;
            if (t->st == T_QUIESCE) quiesce = true;
            if (t->st != T_RUN && t->st != T_DONE && (t->deadline >= 0 || t->spur_at >= 0)) timers = true;
        }
        if (any) return;
        if (quiesce && !stalled) {
            for (int i = 0; i < S.nth; i++) if (S.th[i]->st == T_QUIESCE) S.th[i]->st = T_RUN;
            continue;
        }
        if (timers) {
            recompute_next_dl();
            if (S.next_dl > 3000000000000000000ll) // about a century away: never
                fail("deadlock", "no thread can run within a century:%s", thread_dump().c_str());
            if (S.next_dl > S.mono) {
                if (!stalled) S.hist.idle.push_back({ S.seq++, S.mono, S.next_dl });
                S.mono = S.next_dl;
            }
            S.steps += 50; // an endless chain of timers must hit the cap, too
            if (S.steps > S.cap * 3) fail("livelock", "no progress:%s", thread_dump().c_str());
            fire_timers();
            continue;
        }
        fail("deadlock", "no thread can ever run again:%s", thread_dump().c_str());
    }
}

// The current thread cannot continue (blocked, finished): choose the next one.
static Thr* pick_next(Thr* me)
{
    ensure_runnable();
    Thr* def = default_pick(me);
    Thr* res = def;
    uint64_t step = ++me->picks;
    int64_t v;
    if (S.replay) {
        if (rep_ev(EK_PICK, me->id, step, v) && v >= 0 && v < S.nth && runnable(S.th[v])) res = S.th[v];
    } else if (!S.quiet) {
        int c[MAXT], n = 0;
        for (int i = 0; i < S.nth; i++) if (runnable(S.th[i])) c[n++] = i;
        if (n > 1) {
            if (S.strat == 1) {
                Thr* b = S.th[c[0]];
                for (int i = 1; i < n; i++) if (S.th[c[i]]->prio > b->prio) b = S.th[c[i]];
                res = b;
            } else if (S.rs.p(S.pPick))
                res = S.th[c[S.rs.below(n)]];
        }
        if (res != def) { add_ev(EK_PICK, me->id, step, res->id); S.preempts++; }
    }
    return res;
}

static void acquire_pending_mutex(Thr* me)
{
    // entered when a thread in T_MUTEX has been given the token
    if (me->st == T_MUTEX) {
        Obj* m = me->mtx;
        m->owner = me->id;
        m->count = 1;
        if (m->has_vc) me->vc.join(m->vc);
        me->st = T_RUN;
        me->deadline = -1;
        me->mtx = nullptr;
    }
}

static void block(Thr* me) // me->st != T_RUN
{
    recompute_next_dl();
    if (S.mono >= S.next_dl) fire_timers();
    Thr* n = pick_next(me);
    transfer(me, n);
    acquire_pending_mutex(me);
    recompute_next_dl();
}

static void switch_to(Thr* me, Thr* to)
{
    transfer(me, to);
    acquire_pending_mutex(me);
}

static void over_cap()
{
    if (!S.fair) {
        S.fair = S.quiet = true; // from now on: no faults, round robin only
        S.cap *= 2;
        LOG("  [step cap reached: fair mode]\n");
    } else
        fail("livelock", "step limit exceeded under fair scheduling:%s", thread_dump().c_str());
}

// A thread spins (or yields) while nobody else can run: let time pass, slowly at first.
static void lonely()
{
    recompute_next_dl();
    S.spin = S.spin ? std::min<int64_t>(S.spin * 2, S.spin_max) : 1000;
    if (S.next_dl != INT64_MAX && S.next_dl > S.mono) S.mono = std::min(S.next_dl, S.mono + S.spin);
    fire_timers();
}

static void long_run(Thr* me) // a thread has run for very long without a switch
{
    S.runlen = 0;
    if (S.steps > S.cap) over_cap();
    Thr* n = default_pick(me);
    if (n && n != me) { switch_to(me, n); return; }
    lonely();
}

constexpr uint64_t QUANTUM = 20000;

static int random_other(Thr* me)
{
    int c[MAXT], n = 0;
    for (int i = 0; i < S.nth; i++) if (i != me->id && runnable(S.th[i])) c[n++] = i;
    return n ? c[S.rs.below(n)] : -1;
}

static void stall_me(Thr* me, int64_t d)
{
    me->st = T_STALL;
    S.hist.fault_time += d;
    me->deadline = S.mono + d;
    me->dclock = 0;
    LOG("  [stall T%d %lld ns]\n", me->id, (long long)d);
    block(me);
}

static int64_t pick_skip()
{
    recompute_next_dl();
    if (S.next_dl != INT64_MAX && S.next_dl > S.mono && S.next_dl - S.mono < 100000000000000ll && S.rf.p(0.6)) {
        int64_t d = S.next_dl - S.mono;
        switch (S.rf.below(4)) {
        case 0: return d;
        case 1: return d > 1 ? d - 1 : d;
        case 2: return d + 1;
        default: return d + S.rf.logu(1000, 10000000000ll);
        }
    }
    return S.rf.logu(1000, 10000000000ll);
}

static int64_t pick_jump()
{
    int64_t d;
    recompute_next_dl();
    int64_t dl = INT64_MAX;
    for (int i = 0; i < S.nth; i++) {
        Thr* t = S.th[i];
        if (t->st != T_RUN && t->st != T_DONE && t->deadline >= 0 && t->dclock == 1) dl = std::min(dl, eff_deadline(t));
    }
    if (dl != INT64_MAX && dl > S.mono && dl - S.mono < 100000000000000ll && S.rf.p(0.4)) d = dl - S.mono + (int64_t)S.rf.below(3) - 1;
    else d = S.rf.logu(1000, 40000000000000ll); // 1 us .. 11 h
    if (S.rf.p(0.5)) d = -d;
    return d;
}

static void sync_point(Thr* me, int op, int objid)
{
    me->sstep++;
    S.ssteps++;
    S.steps++;
    S.runlen++;
    h(((uint64_t)op << 32) ^ ((uint64_t)objid << 8) ^ me->id);
    LOG("T%d s%llu op%d obj%d t=%lld\n", me->id, (unsigned long long)me->sstep, op, objid, (long long)(S.mono - 1000000000000ll));
    tick(S.tick);
    int64_t v;
    uint64_t st = me->sstep;
    if (S.replay) {
        if (rep_ev(EK_JUMP, me->id, st, v)) { did_fault(EK_JUMP); set_offset(S.off + v); }
        if (rep_ev(EK_SKIP, me->id, st, v)) { did_fault(EK_SKIP); skip_time(v); }
        if (rep_ev(EK_STALL, me->id, st, v)) { did_fault(EK_STALL); stall_me(me, v); }
        if (rep_ev(EK_PRE_S, me->id, st, v) && v >= 0 && v < S.nth && v != me->id && runnable(S.th[v])) {
            S.preempts++;
            switch_to(me, S.th[v]);
        }
    } else if (!S.quiet) {
        if (UNLIKELY(--S.fault_cd == 0)) {
            S.fault_cd = S.rf.geo(S.pF);
            unsigned opts[3]; int n = 0;
            if (may_fault(FM_JUMP)) opts[n++] = FM_JUMP;
            if (may_fault(FM_SKIP)) opts[n++] = FM_SKIP;
            if (may_fault(FM_STALL)) opts[n++] = FM_STALL;
            if (n) {
                unsigned f = opts[S.rf.below(n)];
                if (f == FM_JUMP) { v = pick_jump(); add_ev(EK_JUMP, me->id, st, v); did_fault(EK_JUMP); set_offset(S.off + v); }
                else if (f == FM_SKIP) { v = pick_skip(); add_ev(EK_SKIP, me->id, st, v); did_fault(EK_SKIP); skip_time(v); }
                else { v = S.rf.logu(100, 5000000000ll); add_ev(EK_STALL, me->id, st, v); did_fault(EK_STALL); stall_me(me, v); }
            }
        }
        int tgt = -1;
        if (S.strat == 1) { // PCT
            if (S.npct && S.ssteps >= S.pct_next[S.npct - 1]) {
                S.npct--;
                me->prio = --S.pct_low;
            }
            Thr* b = me;
            for (int i = 0; i < S.nth; i++) if (runnable(S.th[i]) && S.th[i]->prio > b->prio) b = S.th[i];
            if (b != me) tgt = b->id;
        } else if (UNLIKELY(--S.sync_cd == 0)) {
            S.sync_cd = S.rs.geo(S.pS);
            tgt = random_other(me);
        }
        if (tgt >= 0) {
            add_ev(EK_PRE_S, me->id, st, tgt);
            S.preempts++;
            switch_to(me, S.th[tgt]);
        }
    }
    if (UNLIKELY(S.runlen > QUANTUM)) long_run(me);
    if (UNLIKELY(S.steps > S.cap)) over_cap();
}

static void mem_slow(Thr* me)
{
    RtGuard g;
    int64_t v;
    if (S.replay) {
        if (rep_ev(EK_PRE_M, me->id, me->mstep, v) && v >= 0 && v < S.nth && v != me->id && runnable(S.th[v])) {
            S.preempts++;
            rep_next_m(me);
            switch_to(me, S.th[v]);
        } else
            rep_next_m(me);
    } else {
        S.mem_cd = S.rs.geo(S.pM);
        if (S.quiet) return;
        int tgt = -1;
        if (S.strat == 1) {
            me->prio = --S.pct_low;
            Thr* b = me;
            for (int i = 0; i < S.nth; i++) if (runnable(S.th[i]) && S.th[i]->prio > b->prio) b = S.th[i];
            if (b != me) tgt = b->id;
        } else
            tgt = random_other(me);
        if (tgt >= 0) {
            add_ev(EK_PRE_M, me->id, me->mstep, tgt);
            S.preempts++;
            switch_to(me, S.th[tgt]);
        }
    }
}

static inline void mem_point(Thr* me)
{
    me->mstep++;
    S.steps++;
    tick(2);
    if (UNLIKELY(S.replay ? me->mstep >= me->next_m : --S.mem_cd == 0)) mem_slow(me);
    if (UNLIKELY(++S.runlen > QUANTUM)) { RtGuard g; long_run(me); }
}

// ------------------------------------------------------------------ sync objects

static Obj* obj(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    auto it = S.objs.find(a);
    if (it != S.objs.end()) return it->second;
    Obj* o = new (malloc(sizeof(Obj))) Obj();
    o->addr = a;
    o->id = ++S.nobj;
    S.objs[a] = o;
    return o;
}

static Obj* find_obj(const void* p)
{
    auto it = S.objs.find((uintptr_t)p);
    return it == S.objs.end() ? nullptr : it->second;
}

static void vc_release(Thr* me, Obj* o)
{
    if (!o->has_vc) { o->vc = me->vc; o->has_vc = true; }
    else o->vc.join(me->vc);
    me->vc.c[me->id]++;
}
static void vc_set(Thr* me, Obj* o)
{
    o->vc = me->vc;
    o->has_vc = true;
    me->vc.c[me->id]++;
}
static void vc_acquire(Thr* me, Obj* o) { if (o->has_vc) me->vc.join(o->vc); }

// ------------------------------------------------------------------ heap

constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t ARENA_SZ = 1ull << 29;
constexpr uintptr_t HSH = 0x110000000000ull;  // heap shadow: 1 byte per 8 bytes
constexpr uintptr_t RSH = 0x120000000000ull;  // race shadow of the arena
constexpr int SLOTS = 4;
struct Cell { uint64_t e[SLOTS]; uint32_t pc[SLOTS]; uint32_t rr; uint32_t pad; };
struct BlkHdr { uint64_t size; uint32_t kind; uint32_t freed; uint64_t id; uint64_t magic; }; // 32 bytes
static uintptr_t g_brk;
static int64_t g_live_blocks, g_live_bytes;
static uint64_t g_allocs;

static void heap_map()
{
    auto m = [](uintptr_t a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { fprintf(stderr, "sim: cannot map arena at %#lx\n", (long)a); _exit(3); }
    };
    m(ARENA, ARENA_SZ);
    m(HSH, ARENA_SZ / 8);
    m(RSH, ARENA_SZ / 8 * sizeof(Cell));
    g_brk = ARENA + 64;
}

static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
static inline uint8_t* hsh(uintptr_t a) { return (uint8_t*)(HSH + ((a - ARENA) >> 3)); }

static void* arena_alloc(size_t n, size_t align, uint32_t kind)
{
    if (align < 16) align = 16;
    uintptr_t user = (g_brk + sizeof(BlkHdr) + 16 + align - 1) & ~(uintptr_t)(align - 1);
    uintptr_t end = (user + n + 7) & ~7ull;
    if (n > ARENA_SZ || end + 64 > ARENA + ARENA_SZ) return nullptr;
    BlkHdr* hd = (BlkHdr*)(user - sizeof(BlkHdr));
    hd->size = n; hd->kind = kind; hd->freed = 0; hd->id = ++g_allocs; hd->magic = 0x51b10c51b10cull;
    // shadow: everything up to user is red, user accessible, tail red
    memset(hsh(g_brk & ~7ull), 0xfa, (user - (g_brk & ~7ull)) / 8);
    memset(hsh(user), 0, (end - user) / 8);
    if (n & 7) *hsh(user + (n & ~7ull)) = (uint8_t)(n & 7);
    memset(hsh(end), 0xfa, 4);
    memset((void*)user, 0xbe, n);
    g_brk = end + 32;
    g_live_blocks++;
    g_live_bytes += n;
    return (void*)user;
}

static void heap_report(const char* what, uintptr_t a, size_t n, uintptr_t pc)
{
    fail(what, "%s: access to %zu bytes, block offset unknown, pc=0x%lx, thread T%d", what, n, (long)pc, t_me ? t_me->id : -1);
}

static void check_heap_slow(uintptr_t a, size_t n, uintptr_t pc)
{
    RtGuard g;
    for (uintptr_t x = a & ~7ull; x < a + n; x += 8) {
        uint8_t s = *hsh(x);
        if (s == 0) continue;
        if (s == 0xfd) heap_report("use-after-free", a, n, pc);
        if (s == 0xfa) heap_report("heap-buffer-overflow", a, n, pc);
        uintptr_t last = std::min(a + n, x + 8) - 1;
        if (s < 8 && (last & 7) >= s && last >= x) heap_report("heap-buffer-overflow", a, n, pc);
    }
}

static inline void check_heap(uintptr_t a, size_t n, uintptr_t pc)
{
    if (in_arena(a)) {
        if (LIKELY(n <= 8 && (a & 7) + n <= 8)) {
            uint8_t s = *hsh(a);
            if (LIKELY(s == 0)) return;
            if (s < 8 && (a & 7) + n <= s) return;
        } else if (n == 0)
            return;
        check_heap_slow(a, n, pc);
    }
}

static void arena_free(void* p, uint32_t kind, size_t size, bool sized)
{
    uintptr_t a = (uintptr_t)p;
    BlkHdr* hd = (BlkHdr*)(a - sizeof(BlkHdr));
    if (hd->magic != 0x51b10c51b10cull) fail("bad-free", "delete of a pointer that was never allocated");
    if (hd->freed) fail("double-free", "block #%llu deleted twice", (unsigned long long)hd->id);
    if (hd->kind != kind) fail("alloc-dealloc-mismatch", "new/delete form mismatch");
    if (sized && size != hd->size) fail("alloc-dealloc-mismatch", "sized delete with %zu instead of %zu bytes", size, (size_t)hd->size);
    hd->freed = 1;
    g_live_blocks--;
    g_live_bytes -= hd->size;
    memset(hsh(a), 0xfd, (hd->size + 7) / 8);
    if (hd->size == 0) *hsh(a) = 0xfd;
    memset(p, 0xdd, std::min<size_t>(hd->size, 4096)); // stale reads by uninstrumented code see garbage
}

// ------------------------------------------------------------------ race detection

struct ShPage { Cell c[512]; };
static std::unordered_map<uintptr_t, ShPage*>* g_pages;
static uintptr_t g_last_page; static ShPage* g_last_sp;

static inline Cell* cell(uintptr_t a)
{
    if (in_arena(a)) return (Cell*)(RSH + ((a - ARENA) >> 3) * sizeof(Cell));
    uintptr_t pg = a >> 12;
    if (UNLIKELY(pg != g_last_page)) {
        RtGuard g;
        auto& sp = (*g_pages)[pg];
        if (!sp) {
            sp = (ShPage*)mmap(nullptr, sizeof(ShPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        }
        g_last_page = pg;
        g_last_sp = sp;
    }
    return &g_last_sp->c[(a >> 3) & 511];
}

// slot: clk:32 | tid:8 | mask:8 | flags:8 (1 = write, 2 = atomic, 4 = valid)
static inline uint64_t mk(uint32_t clk, int tid, uint32_t mask, uint32_t fl) { return ((uint64_t)clk << 32) | ((uint64_t)tid << 16) | (mask << 8) | fl | 4; }

static void race_granule(Thr* me, uintptr_t a, uint32_t mask, bool w, bool at, uintptr_t pc)
{
    Cell* c = cell(a);
    uint32_t fl = (w ? 1 : 0) | (at ? 2 : 0);
    uint64_t mine = mk(me->vc.c[me->id], me->id, mask, fl);
    int free_slot = -1;
    for (int i = 0; i < SLOTS; i++) {
        uint64_t e = c->e[i];
        if (!e) { if (free_slot < 0) free_slot = i; continue; }
        if (e == mine) return;
        int tid = (e >> 16) & 0xff;
        uint32_t em = (e >> 8) & 0xff;
        uint32_t clk = e >> 32;
        bool hb = tid == me->id || clk <= me->vc.c[tid];
        if (!hb && (em & mask) && ((e & 1) || w) && !((e & 2) && at)) {
            RtGuard g;
            fail("data-race", "T%d %s%s pc=0x%x  vs  T%d %s%s pc=0x%lx", tid, e & 2 ? "atomic " : "", e & 1 ? "write" : "read",
                 c->pc[i], me->id, at ? "atomic " : "", w ? "write" : "read", (long)pc);
        }
        // replace an entry that is superseded by ours
        if (hb && (em & ~mask) == 0 && (w || !(e & 1)) && (!at || (e & 2))) { if (free_slot < 0) free_slot = i; else c->e[i] = 0; }
        else if (tid == me->id && (em & ~mask) == 0 && (e & 3) == fl) { if (free_slot < 0) free_slot = i; }
    }
    if (free_slot < 0) { free_slot = c->rr++ % SLOTS; }
    c->e[free_slot] = mine;
    c->pc[free_slot] = (uint32_t)pc;
}

static inline void race_access(Thr* me, uintptr_t a, size_t n, bool w, bool at, uintptr_t pc)
{
    if (!S.race) return;
    uintptr_t x = a & ~7ull;
    while (x < a + n) {
        uint32_t lo = a > x ? (uint32_t)(a - x) : 0;
        uint32_t hi = a + n < x + 8 ? (uint32_t)(a + n - x) : 8;
        race_granule(me, x, ((1u << hi) - 1) & ~((1u << lo) - 1), w, at, pc);
        x += 8;
    }
}

static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    if (!live()) return;
    Thr* me = t_me;
    mem_point(me);
    check_heap(a, n, pc);
    race_access(me, a, n, w, false, pc);
}

static void access_range(uintptr_t a, size_t n, bool w, uintptr_t pc)
{
    if (!live() || n == 0) return;
    Thr* me = t_me;
    mem_point(me);
    check_heap(a, n, pc);
    if (n <= 65536) race_access(me, a, n, w, false, pc);
}

} // namespace sim

using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))

// ------------------------------------------------------------------ tsan interface: plain accesses

#define RW(n) \
    EXPORT void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    EXPORT void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    EXPORT void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    EXPORT void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    EXPORT void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    EXPORT void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_read_range(void* p, size_t n) { access_range((uintptr_t)p, n, false, PC); }
EXPORT void __tsan_write_range(void* p, size_t n) { access_range((uintptr_t)p, n, true, PC); }
EXPORT void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, PC); }
EXPORT void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }

EXPORT void* __wrap_memcpy(void* d, const void* s, size_t n)
{ access_range((uintptr_t)s, n, false, PC); access_range((uintptr_t)d, n, true, PC); return memcpy(d, s, n); }
EXPORT void* __wrap_memmove(void* d, const void* s, size_t n)
{ access_range((uintptr_t)s, n, false, PC); access_range((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
EXPORT void* __wrap_memset(void* d, int c, size_t n)
{ access_range((uintptr_t)d, n, true, PC); return memset(d, c, n); }
EXPORT int __wrap_memcmp(const void* a, const void* b, size_t n)
{ access_range((uintptr_t)a, n, false, PC); access_range((uintptr_t)b, n, false, PC); return memcmp(a, b, n); }
EXPORT size_t __wrap_strlen(const char* s)
{ size_t n = strlen(s); access_range((uintptr_t)s, n + 1, false, PC); return n; }

// ------------------------------------------------------------------ tsan interface: atomics

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

enum { OP_LOCK = 1, OP_TRYLOCK, OP_UNLOCK, OP_WAIT, OP_SIGNAL, OP_BCAST, OP_CREATE, OP_JOIN, OP_ATOMIC, OP_CLOCK, OP_SLEEP, OP_YIELD, OP_FUTEX, OP_ONCE, OP_GUARD, OP_POINT, OP_EXIT, OP_RW, OP_SEM, OP_ALLOCF, OP_FLAG };

static void atomic_pre(volatile void* p, size_t n, bool w, uintptr_t pc)
{
    Thr* me = t_me;
    RtGuard g;
    Obj* o = find_obj((const void*)p);
    sync_point(me, OP_ATOMIC, o ? o->id : 0);
    check_heap((uintptr_t)p, n, pc);
    race_access(me, (uintptr_t)p, n, w, true, pc);
}
static void atomic_load_post(volatile void* p, int mo)
{
    Thr* me = t_me;
    RtGuard g;
    Obj* o = find_obj((const void*)p);
    if (o && o->has_vc) { if (is_acq(mo)) me->vc.join(o->vc); else me->acqp.join(o->vc); }
}
static void atomic_store_post(volatile void* p, int mo)
{
    Thr* me = t_me;
    RtGuard g;
    Obj* o = obj((const void*)p);
    if (is_rel(mo)) vc_set(me, o);
    else if (me->has_relf) { o->vc = me->relf; o->has_vc = true; }
    else o->has_vc = false;
}
static void atomic_rmw_post(volatile void* p, int mo)
{
    Thr* me = t_me;
    RtGuard g;
    Obj* o = obj((const void*)p);
    if (o->has_vc) { if (is_acq(mo)) me->vc.join(o->vc); else me->acqp.join(o->vc); }
    if (is_rel(mo)) vc_release(me, o);
    else if (me->has_relf) { if (o->has_vc) o->vc.join(me->relf); else { o->vc = me->relf; o->has_vc = true; } }
}

#define ATOMICS(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T* p, int mo) { \
        bool l = live(); if (l) atomic_pre((volatile void*)p, sizeof(T), false, PC); \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (l) atomic_load_post((volatile void*)p, mo); return v; } \
    EXPORT void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { \
        bool l = live(); if (l) atomic_pre(p, sizeof(T), true, PC); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); if (l) atomic_store_post(p, mo); } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { \
        bool l = live(); if (l) atomic_pre(p, sizeof(T), true, PC); \
        T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); if (l) atomic_rmw_post(p, mo); return r; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
        bool l = live(); if (l) atomic_pre(p, sizeof(T), true, PC); \
        T ex = *e; bool r = __atomic_compare_exchange_n(p, &ex, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); *e = ex; \
        if (l) { if (r) atomic_rmw_post(p, mo); else atomic_load_post(p, fmo); } return r; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { \
        bool l = live(); if (l) atomic_pre(p, sizeof(T), true, PC); \
        T ex = *e; bool r = __atomic_compare_exchange_n(p, &ex, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); *e = ex; \
        if (l) { if (r) atomic_rmw_post(p, mo); else atomic_load_post(p, fmo); } return r; } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { \
        bool l = live(); if (l) atomic_pre(p, sizeof(T), true, PC); \
        T ex = e; bool r = __atomic_compare_exchange_n(p, &ex, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (l) { if (r) atomic_rmw_post(p, mo); else atomic_load_post(p, fmo); } return ex; }
#define ATOMIC_OP(bits, T, name) \
    EXPORT T __tsan_atomic##bits##_fetch_##name(volatile T* p, T v, int mo) { \
        bool l = live(); if (l) atomic_pre(p, sizeof(T), true, PC); \
        T r = __atomic_fetch_##name(p, v, __ATOMIC_SEQ_CST); if (l) atomic_rmw_post(p, mo); return r; }
#define ATOMIC_ALL(bits, T) ATOMICS(bits, T) ATOMIC_OP(bits, T, add) ATOMIC_OP(bits, T, sub) ATOMIC_OP(bits, T, and) \
    ATOMIC_OP(bits, T, or) ATOMIC_OP(bits, T, xor) ATOMIC_OP(bits, T, nand)
ATOMIC_ALL(8, uint8_t)
ATOMIC_ALL(16, uint16_t)
ATOMIC_ALL(32, uint32_t)
ATOMIC_ALL(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (!live()) return;
    Thr* me = t_me;
    RtGuard g;
    sync_point(me, OP_ATOMIC, 0);
    if (is_acq(mo)) me->vc.join(me->acqp);
    if (is_rel(mo)) { me->relf = me->vc; me->has_relf = true; me->vc.c[me->id]++; }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ operator new / delete

static void forget(void* p, size_t n)
{
    static int depth; // the shadow itself allocates
    if (depth) return;
    RtGuard g;
    depth++;
    for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + n; a += 8) memset(cell(a), 0, sizeof(Cell));
    depth--;
}

static void* do_new(size_t n, size_t align, uint32_t kind, bool nothrow)
{
    if (!live()) {
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
        if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        if (S.active && S.race) forget(p, n); // harness memory is reused
        return p;
    }
    Thr* me = t_me;
    bool bad = false;
    {
        RtGuard g;
        if (me->alloc_faults > 0) {
            uint64_t st = ++me->allocs;
            int64_t v;
            if (S.replay) bad = rep_ev(EK_ALLOC, me->id, st, v);
            else if (may_fault(FM_ALLOC) && (S.alloc_at ? --S.alloc_at == 0 : S.rf.p(S.pAlloc))) { bad = true; add_ev(EK_ALLOC, me->id, st, 1); }
            if (bad) { did_fault(EK_ALLOC); LOG("T%d  [allocation of %zu bytes fails]\n", me->id, n); }
        }
        if (!bad) {
            void* p = arena_alloc(n, align, kind);
            if (p) return p;
        }
    }
    if (nothrow) return nullptr;
    throw std::bad_alloc();
}
static void do_delete(void* p, uint32_t kind, size_t size, bool sized)
{
    if (!p) return;
    if (in_arena((uintptr_t)p)) {
        if (!S.active) return; // after the run
        RtGuard g;
        arena_free(p, kind, size, sized);
    } else
        free(p);
}
#define ALLOC_EXPORT __attribute__((visibility("default")))
ALLOC_EXPORT void* operator new(size_t n) { return do_new(n, 16, 0, false); }
ALLOC_EXPORT void* operator new[](size_t n) { return do_new(n, 16, 1, false); }
ALLOC_EXPORT void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 0, true); }
ALLOC_EXPORT void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, 1, true); }
ALLOC_EXPORT void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 0, false); }
ALLOC_EXPORT void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, 1, false); }
ALLOC_EXPORT void operator delete(void* p) noexcept { do_delete(p, 0, 0, false); }
ALLOC_EXPORT void operator delete[](void* p) noexcept { do_delete(p, 1, 0, false); }
ALLOC_EXPORT void operator delete(void* p, size_t n) noexcept { do_delete(p, 0, n, true); }
ALLOC_EXPORT void operator delete[](void* p, size_t n) noexcept { do_delete(p, 1, n, true); }
ALLOC_EXPORT void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0, 0, false); }
ALLOC_EXPORT void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 1, 0, false); }
ALLOC_EXPORT void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, 0, 0, false); }
ALLOC_EXPORT void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, 1, 0, false); }
ALLOC_EXPORT void operator delete(void* p, size_t n, std::align_val_t) noexcept { do_delete(p, 0, n, true); }
ALLOC_EXPORT void operator delete[](void* p, size_t n, std::align_val_t) noexcept { do_delete(p, 1, n, true); }

// ------------------------------------------------------------------ libc interposition

template <class F> static F real_fn(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) static auto real = real_fn<decltype(&name)>(#name)

static int64_t ts_ns(const struct timespec* t) {
    if (t->tv_sec > 9000000000ll) return INT64_MAX / 2;
    if (t->tv_sec < 0) return t->tv_sec < -9000000000ll ? 0 : (t->tv_sec * 1000000000ll + t->tv_nsec < 0 ? 0 : t->tv_sec * 1000000000ll + t->tv_nsec);
    return t->tv_sec * 1000000000ll + t->tv_nsec;
}
static struct timespec ns_ts(int64_t n) { struct timespec t; t.tv_sec = n / 1000000000ll; t.tv_nsec = n % 1000000000ll; if (t.tv_nsec < 0) { t.tv_nsec += 1000000000ll; t.tv_sec--; } return t; }

// --- mutexes
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool is_errcheck(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }

static int lock_mutex(Thr* me, void* addr, bool recursive, bool errcheck, int64_t deadline, int dclock, bool point)
{
    Obj* m = obj(addr);
    if (point) sync_point(me, OP_LOCK, m->id);
    if (m->owner == me->id) {
        if (recursive) { m->count++; return 0; }
        if (errcheck) return EDEADLK;
        // a thread waiting for itself: blocks for ever (deadlock detection reports it)
    }
    if (m->owner < 0) {
        m->owner = me->id;
        m->count = 1;
        vc_acquire(me, m);
        return 0;
    }
    if (deadline >= 0 && S.mono >= (dclock ? deadline - S.off : deadline)) return ETIMEDOUT;
    me->st = T_MUTEX;
    me->mtx = m;
    me->deadline = deadline;
    me->dclock = dclock;
    me->timed_out = false;
    block(me);
    if (me->timed_out) { me->timed_out = false; me->mtx = nullptr; return ETIMEDOUT; }
    return 0;
}

static int unlock_mutex(Thr* me, void* addr, bool point)
{
    Obj* m = obj(addr);
    if (point) sync_point(me, OP_UNLOCK, m->id);
    if (m->owner != me->id) fail("bad-unlock", "T%d unlocks a mutex it does not hold", me->id);
    if (--m->count > 0) return 0;
    vc_release(me, m);
    m->owner = -1;
    return 0;
}

EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!live()) {
        if (S.active && t_me && t_me->harness && t_me->in_rt == t_me->harness) { t_me->harness = t_me->in_rt = 0; sim_fail("harness-error", "code of the library ran inside a section reserved for the harness"); }
        REAL(pthread_mutex_lock); return S.shm ? 0 : real(m);
    }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)m, sizeof *m, PC);
    return lock_mutex(me, m, is_recursive(m), is_errcheck(m), -1, 0, true);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!live()) { REAL(pthread_mutex_trylock); return S.shm ? 0 : real(m); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)m, sizeof *m, PC);
    Obj* o = obj(m);
    sync_point(me, OP_TRYLOCK, o->id);
    if (o->owner == me->id && is_recursive(m)) { o->count++; return 0; }
    if (o->owner >= 0) return EBUSY;
    o->owner = me->id; o->count = 1;
    vc_acquire(me, o);
    return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t)
{
    if (!live()) { REAL(pthread_mutex_timedlock); return S.shm ? 0 : real(m, t); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)m, sizeof *m, PC);
    return lock_mutex(me, m, is_recursive(m), is_errcheck(m), ts_ns(t), 1, true);
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t)
{
    if (!live()) { REAL(pthread_mutex_clocklock); return S.shm ? 0 : real(m, c, t); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)m, sizeof *m, PC);
    return lock_mutex(me, m, is_recursive(m), is_errcheck(m), ts_ns(t), c == CLOCK_REALTIME, true);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!live()) { REAL(pthread_mutex_unlock); return S.shm ? 0 : real(m); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)m, sizeof *m, PC);
    return unlock_mutex(me, m, true);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!live()) return 0;
    RtGuard g;
    Obj* o = find_obj(m);
    if (o && o->owner >= 0) return EBUSY;
    return 0;
}

// --- condition variables
static int cond_wait(Thr* me, pthread_cond_t* c, void* maddr, int64_t deadline, int dclock)
{
    Obj* o = obj(c);
    Obj* m = obj(maddr);
    sync_point(me, OP_WAIT, o->id);
    if (m->owner != me->id) fail("bad-wait", "T%d waits on a condition variable without holding the mutex", me->id);
    if (deadline >= 0 && (dclock ? S.mono + S.off : S.mono) >= deadline) {
        // glibc still releases and reacquires the mutex
        unlock_mutex(me, maddr, false);
        sync_point(me, OP_UNLOCK, m->id);
        lock_mutex(me, maddr, false, false, -1, 0, false);
        return ETIMEDOUT;
    }
    me->waits++;
    me->spur_at = -1;
    int64_t v;
    if (S.replay) { if (rep_ev(EK_SPUR, me->id, me->waits, v)) me->spur_at = S.mono + v; }
    else if (may_fault(FM_SPUR) && S.rf.p(S.pSpur)) {
        v = S.rf.p(0.5) ? (int64_t)S.rf.below(300) : S.rf.logu(100, 20000000000ll);
        me->spur_at = S.mono + v;
        add_ev(EK_SPUR, me->id, me->waits, v);
    }
    m->count = 0; vc_release(me, m); m->owner = -1;
    me->st = T_COND;
    me->obj = o;
    me->mtx = m;
    me->deadline = deadline;
    me->dclock = dclock;
    me->timed_out = false;
    o->waiters.push_back(me->id);
    block(me);
    bool to = me->timed_out;
    me->timed_out = false;
    return to ? ETIMEDOUT : 0;
}

EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!live()) { if (S.shm) return 0; REAL(pthread_cond_wait); return real(c, m); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)c, sizeof *c, PC);
    return cond_wait(me, c, m, -1, 0);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    if (!live()) { if (S.shm) return 0; REAL(pthread_cond_timedwait); return real(c, m, t); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)c, sizeof *c, PC);
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    return cond_wait(me, c, m, ts_ns(t), (c->__data.__wrefs & 2) ? 0 : 1);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t cl, const struct timespec* t)
{
    if (!live()) { if (S.shm) return 0; REAL(pthread_cond_clockwait); return real(c, m, cl, t); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)c, sizeof *c, PC);
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL;
    return cond_wait(me, c, m, ts_ns(t), cl == CLOCK_REALTIME);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
    if (!live()) { if (S.shm) return 0; REAL(pthread_cond_signal); return real(c); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)c, sizeof *c, PC);
    Obj* o = obj(c);
    sync_point(me, OP_SIGNAL, o->id);
    if (!o->waiters.empty()) {
        int k = 0;
        uint64_t st = ++me->wakes;
        int64_t v;
        int n = (int)o->waiters.size();
        if (S.replay) { if (rep_ev(EK_WAKE, me->id, st, v) && v < n) k = (int)v; }
        else if (n > 1 && (S.fmask & FM_WAKE) && !S.quiet && S.rs.p(S.pWake)) {
            k = (int)S.rs.below(n);
            if (k) { add_ev(EK_WAKE, me->id, st, k); S.shm->nfault[EK_WAKE]++; }
        }
        h(k);
        wake_from_cond(S.th[o->waiters[k]]);
    }
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!live()) { if (S.shm) return 0; REAL(pthread_cond_broadcast); return real(c); }
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)c, sizeof *c, PC);
    Obj* o = obj(c);
    sync_point(me, OP_BCAST, o->id);
    auto w = o->waiters;
    for (int t : w) wake_from_cond(S.th[t]);
    return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!live()) return 0;
    RtGuard g;
    check_heap((uintptr_t)c, sizeof *c, PC);
    Obj* o = find_obj(c);
    if (o && !o->waiters.empty()) fail("cond-destroyed-with-waiters", "T%d destroys a condition variable while T%d waits on it", t_me->id, o->waiters[0]);
    return 0;
}

// --- rwlocks (std::shared_timed_mutex)
static int rw_lock(pthread_rwlock_t* l, bool write, bool tryit, int64_t deadline, int dclock, uintptr_t pc)
{
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)l, sizeof *l, pc);
    Obj* o = obj(l);
    sync_point(me, OP_RW, o->id);
    for (;;) {
        bool ok = write ? (o->owner < 0 && o->count == 0) : (o->owner < 0);
        if (ok) {
            if (write) o->owner = me->id; else o->count++;
            vc_acquire(me, o);
            return 0;
        }
        if (tryit) return EBUSY;
        if (deadline >= 0 && S.mono >= (dclock ? deadline - S.off : deadline)) return ETIMEDOUT;
        me->st = T_OBJ; me->obj = o; me->deadline = deadline; me->dclock = dclock; me->timed_out = false;
        o->waiters.push_back(me->id);
        block(me);
        cond_remove(o, me->id);
        if (me->timed_out) { me->timed_out = false; return ETIMEDOUT; }
    }
}
static void wake_obj(Obj* o)
{
    for (int t : o->waiters) { Thr* x = S.th[t]; if (x->st == T_OBJ) { x->st = T_RUN; x->deadline = -1; } }
    o->waiters.clear();
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!live()) return 0; return rw_lock(l, false, false, -1, 0, PC); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!live()) return 0; return rw_lock(l, true, false, -1, 0, PC); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!live()) return 0; return rw_lock(l, false, true, -1, 0, PC); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!live()) return 0; return rw_lock(l, true, true, -1, 0, PC); }
EXPORT int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { if (!live()) return 0; return rw_lock(l, false, false, ts_ns(t), 1, PC); }
EXPORT int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { if (!live()) return 0; return rw_lock(l, true, false, ts_ns(t), 1, PC); }
EXPORT int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { if (!live()) return 0; return rw_lock(l, false, false, ts_ns(t), c == CLOCK_REALTIME, PC); }
EXPORT int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { if (!live()) return 0; return rw_lock(l, true, false, ts_ns(t), c == CLOCK_REALTIME, PC); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!live()) return 0;
    Thr* me = t_me; RtGuard g;
    check_heap((uintptr_t)l, sizeof *l, PC);
    Obj* o = obj(l);
    sync_point(me, OP_RW, o->id);
    vc_release(me, o);
    if (o->owner == me->id) o->owner = -1; else o->count--;
    wake_obj(o);
    return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

// --- spin locks
EXPORT int pthread_spin_lock(pthread_spinlock_t* l) { if (!live()) return 0; Thr* me = t_me; RtGuard g; return lock_mutex(me, (void*)l, false, false, -1, 0, true); }
EXPORT int pthread_spin_unlock(pthread_spinlock_t* l) { if (!live()) return 0; Thr* me = t_me; RtGuard g; return unlock_mutex(me, (void*)l, true); }

// --- semaphores
static int sem_take(sem_t* s, bool tryit, int64_t deadline, int dclock)
{
    Thr* me = t_me; RtGuard g;
    Obj* o = obj(s);
    if (!o->init) { int v = 0; v = (int)*(unsigned*)s; o->init = true; o->count = v; }
    sync_point(me, OP_SEM, o->id);
    while (o->count == 0) {
        if (tryit) { errno = EAGAIN; return -1; }
        if (deadline >= 0 && S.mono >= (dclock ? deadline - S.off : deadline)) { errno = ETIMEDOUT; return -1; }
        me->st = T_OBJ; me->obj = o; me->deadline = deadline; me->dclock = dclock; me->timed_out = false;
        o->waiters.push_back(me->id);
        block(me);
        cond_remove(o, me->id);
        if (me->timed_out) { me->timed_out = false; errno = ETIMEDOUT; return -1; }
    }
    o->count--;
    vc_acquire(me, o);
    return 0;
}
EXPORT int sem_wait(sem_t* s) { if (!live()) return 0; return sem_take(s, false, -1, 0); }
EXPORT int sem_trywait(sem_t* s) { if (!live()) return 0; return sem_take(s, true, -1, 0); }
EXPORT int sem_timedwait(sem_t* s, const struct timespec* t) { if (!live()) return 0; return sem_take(s, false, ts_ns(t), 1); }
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { if (!live()) return 0; return sem_take(s, false, ts_ns(t), c == CLOCK_REALTIME); }
EXPORT int sem_post(sem_t* s)
{
    if (!live()) return 0;
    Thr* me = t_me; RtGuard g;
    Obj* o = obj(s);
    if (!o->init) { o->init = true; o->count = (int)*(unsigned*)s; }
    sync_point(me, OP_SEM, o->id);
    vc_release(me, o);
    o->count++;
    wake_obj(o);
    return 0;
}

// --- once and static guards
EXPORT int pthread_once(pthread_once_t* ctl, void (*fn)(void))
{
    if (!live()) {
        if (*ctl == 2) return 0;
        if (S.shm) { *ctl = 2; fn(); return 0; }
        REAL(pthread_once); return real(ctl, fn);
    }
    Thr* me = t_me;
    Obj* o;
    {
        RtGuard g;
        check_heap((uintptr_t)ctl, sizeof *ctl, PC);
        o = obj(ctl);
        sync_point(me, OP_ONCE, o->id);
        for (;;) {
            if (*ctl == 2) { vc_acquire(me, o); return 0; }
            if (o->owner < 0) { o->owner = me->id; break; }
            me->st = T_OBJ; me->obj = o; me->deadline = -1;
            o->waiters.push_back(me->id);
            block(me);
        }
    }
    try { fn(); }
    catch (...) {
        RtGuard g;
        o->owner = -1;
        wake_obj(o);
        throw;
    }
    RtGuard g;
    *ctl = 2;
    o->owner = -1;
    vc_release(me, o);
    wake_obj(o);
    return 0;
}
EXPORT int __cxa_guard_acquire(long long* gd)
{
    uint8_t* b = (uint8_t*)gd;
    if (b[0]) { if (live()) { RtGuard g; Obj* o = find_obj(gd); if (o) vc_acquire(t_me, o); } return 0; }
    if (!live()) { b[1] = 1; return 1; }
    Thr* me = t_me; RtGuard g;
    Obj* o = obj(gd);
    sync_point(me, OP_GUARD, o->id);
    for (;;) {
        if (b[0]) { vc_acquire(me, o); return 0; }
        if (o->owner < 0) { o->owner = me->id; return 1; }
        if (o->owner == me->id) fail("recursive-init", "recursive initialisation of a function-local static");
        me->st = T_OBJ; me->obj = o; me->deadline = -1;
        o->waiters.push_back(me->id);
        block(me);
    }
}
EXPORT void __cxa_guard_release(long long* gd)
{
    uint8_t* b = (uint8_t*)gd;
    if (!live()) { b[0] = 1; return; }
    Thr* me = t_me; RtGuard g;
    Obj* o = obj(gd);
    b[0] = 1;
    vc_release(me, o);
    o->owner = -1;
    wake_obj(o);
}
EXPORT void __cxa_guard_abort(long long* gd)
{
    if (!live()) return;
    RtGuard g;
    Obj* o = obj(gd);
    o->owner = -1;
    wake_obj(o);
}

// --- threads
static uint8_t* g_stacks;
constexpr size_t STACK_SZ = 1 << 19;

static void finish_thread(Thr* me)
{
    RtGuard g;
    sync_point(me, OP_EXIT, 0);
    me->vc.c[me->id]++;
    me->st = T_DONE;
    for (int i = 0; i < S.nth; i++) {
        Thr* t = S.th[i];
        if (t->st == T_JOIN && t->jointgt == me->id) t->st = T_RUN;
    }
    Thr* n = pick_next(me);
    transfer(me, n); // returns at once: we are done
}

static void* trampoline(void* a)
{
    Thr* me = (Thr*)a;
    t_me = me;
    while (!__atomic_load_n(&me->tok, __ATOMIC_ACQUIRE)) raw_futex(&me->tok, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&me->tok, 0, __ATOMIC_RELAXED);
    me->ret = me->fn(me->arg);
    while (!me->dtors.empty()) {
        TlsDtor d = me->dtors.back();
        { RtGuard g; me->dtors.pop_back(); }
        d.fn(d.arg);
    }
    finish_thread(me);
    t_me = nullptr;
    return nullptr;
}

EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    static auto real = real_fn<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!live()) return real(out, attr, fn, arg);
    Thr* me = t_me; RtGuard g;
    sync_point(me, OP_CREATE, S.nth);
    uint64_t st = ++me->creates;
    int64_t v;
    bool bad = false;
    if (S.replay) bad = rep_ev(EK_CREATE, me->id, st, v);
    else if (me->alloc_faults > 0 && may_fault(FM_CREATE) && S.rf.p(S.pCreate)) { bad = true; add_ev(EK_CREATE, me->id, st, 1); }
    if (bad) { did_fault(EK_CREATE); LOG("  [pthread_create fails]\n"); return EAGAIN; }
    if (S.nth >= MAXT) return EAGAIN;
    Thr* t = new (malloc(sizeof(Thr))) Thr();
    t->id = S.nth;
    t->fn = fn;
    t->arg = arg;
    t->alloc_faults = me->alloc_faults; // inherited
    t->vc = me->vc;
    t->vc.c[t->id] = 1;
    me->vc.c[me->id]++;
    if (S.strat == 1) t->prio = 1 + (int)S.rs.below(1000000);
    if (attr) { int ds; if (pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) t->detached = true; }
    if (S.replay) rep_next_m(t);
    S.th[S.nth++] = t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, g_stacks + (size_t)t->id * STACK_SZ + 4096, STACK_SZ - 4096);
    pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    int r = real(&t->pt, &at, trampoline, t);
    pthread_attr_destroy(&at);
    if (r) internal_error("real pthread_create failed: %d", r);
    *out = t->pt;
    return 0;
}
static Thr* by_pt(pthread_t p)
{
    for (int i = S.nth - 1; i >= 0; i--) if (pthread_equal(S.th[i]->pt, p)) return S.th[i];
    return nullptr;
}
static int do_join(pthread_t p, void** ret, int64_t deadline, int dclock)
{
    Thr* me = t_me; RtGuard g;
    Thr* t = by_pt(p);
    sync_point(me, OP_JOIN, t ? t->id : 99);
    if (!t) return ESRCH;
    if (t == me) return EDEADLK;
    if (t->detached || t->joined) return EINVAL;
    if (t->st == T_JOIN && t->jointgt == me->id) return EDEADLK;
    t->joined = true;
    while (t->st != T_DONE) {
        me->st = T_JOIN;
        me->jointgt = t->id;
        me->deadline = -1;
        block(me);
    }
    me->vc.join(t->vc);
    if (ret) *ret = t->ret;
    return 0;
}
EXPORT int pthread_join(pthread_t p, void** ret)
{
    if (!live()) { REAL(pthread_join); return real(p, ret); }
    return do_join(p, ret, -1, 0);
}
EXPORT int pthread_detach(pthread_t p)
{
    if (!live()) { REAL(pthread_detach); return real(p); }
    RtGuard g;
    Thr* t = by_pt(p);
    if (!t) return ESRCH;
    if (t->detached || t->joined) return EINVAL;
    t->detached = true;
    return 0;
}
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* arg, void* dso)
{
    static auto real = real_fn<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit");
    Thr* me = t_me;
    if (!S.active || !me || me->id == 0) return real(fn, arg, dso);
    RtGuard g;
    me->dtors.push_back({ fn, arg });
    return 0;
}
EXPORT int sched_yield(void)
{
    if (!live()) { return 0; }
    Thr* me = t_me; RtGuard g;
    sync_point(me, OP_YIELD, 0);
    S.runlen += 200;
    Thr* n = default_pick(me);
    if (n && n != me) switch_to(me, n);
    else lonely();
    return 0;
}

// Exception objects live in malloc memory, which is reused: forget old accesses.
EXPORT void* __cxa_allocate_exception(size_t n) noexcept
{
    static auto real = real_fn<void* (*)(size_t)>("__cxa_allocate_exception");
    void* p = real(n);
    if (S.active && S.race) forget((char*)p - 128, n + 128);
    return p;
}

// --- clocks
static int sim_clock(clockid_t c, struct timespec* t)
{
    Thr* me = t_me; RtGuard g;
    sync_point(me, OP_CLOCK, (int)c);
    bool rt = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
    *t = ns_ts(rt ? S.mono + S.off : S.mono);
    return 0;
}
EXPORT int clock_gettime(clockid_t c, struct timespec* t)
{
    if (!live() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) { REAL(clock_gettime); return real(c, t); }
    return sim_clock(c, t);
}
EXPORT int gettimeofday(struct timeval* tv, void* tz) noexcept
{
    if (!live()) { static auto real = real_fn<int (*)(struct timeval*, void*)>("gettimeofday"); return real(tv, tz); }
    struct timespec t;
    sim_clock(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
EXPORT time_t time(time_t* p) noexcept
{
    if (!live()) { static auto real = real_fn<time_t (*)(time_t*)>("time"); return real(p); }
    struct timespec t;
    sim_clock(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}

static int do_sleep(int64_t deadline, int dclock, int64_t* remain)
{
    Thr* me = t_me; RtGuard g;
    sync_point(me, OP_SLEEP, 0);
    int64_t now = dclock ? S.mono + S.off : S.mono;
    if (deadline <= now) return 0;
    uint64_t st = ++me->sleeps;
    int64_t v = -1, cut = -1;
    if (S.replay) { if (rep_ev(EK_EINTR, me->id, st, v)) cut = v; }
    else if (may_fault(FM_EINTR) && S.rf.p(S.pEintr)) { cut = (int64_t)S.rf.below(1000); add_ev(EK_EINTR, me->id, st, cut); }
    int64_t until = deadline;
    if (cut >= 0) { did_fault(EK_EINTR); until = now + (int64_t)((__int128)(deadline - now) * cut / 1000); }
    me->st = T_SLEEP;
    me->deadline = until;
    me->dclock = dclock;
    block(me);
    if (cut >= 0) {
        int64_t r = deadline - (dclock ? S.mono + S.off : S.mono);
        if (remain) *remain = r > 0 ? r : 0;
        return EINTR;
    }
    return 0;
}
EXPORT int nanosleep(const struct timespec* rq, struct timespec* rem)
{
    if (!live()) { REAL(nanosleep); return real(rq, rem); }
    if (rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000 || rq->tv_sec < 0) { errno = EINVAL; return -1; }
    int64_t r = 0, d = ts_ns(rq);
    int e = do_sleep(d > INT64_MAX / 2 - S.mono ? INT64_MAX / 2 : S.mono + d, 0, &r);
    if (e) { if (rem) *rem = ns_ts(r); errno = e; return -1; }
    return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* rq, struct timespec* rem)
{
    if (!live()) { REAL(clock_nanosleep); return real(c, flags, rq, rem); }
    int64_t r = 0;
    int e = (flags & TIMER_ABSTIME) ? do_sleep(ts_ns(rq), c == CLOCK_REALTIME, nullptr) : do_sleep(S.mono + ts_ns(rq), 0, &r);
    if (e && rem && !(flags & TIMER_ABSTIME)) *rem = ns_ts(r);
    return e;
}
EXPORT int usleep(useconds_t us)
{
    struct timespec t = ns_ts((int64_t)us * 1000);
    return nanosleep(&t, nullptr);
}
EXPORT unsigned sleep(unsigned s)
{
    struct timespec t{ (time_t)s, 0 }, r{ 0, 0 };
    if (nanosleep(&t, &r) == 0) return 0;
    return (unsigned)(r.tv_sec + (r.tv_nsec ? 1 : 0));
}

// --- futex (std::future, std::atomic wait)
static long do_futex(uint32_t* a, int op, uint32_t val, const struct timespec* ts, uint32_t bits)
{
    Thr* me = t_me; RtGuard g;
    int cmd = op & FUTEX_CMD_MASK;
    check_heap((uintptr_t)a, 4, 0);
    Obj* o = obj(a);
    sync_point(me, OP_FUTEX, o->id);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        int64_t dl = -1; int dc = 0;
        if (ts) {
            if (cmd == FUTEX_WAIT) { dl = S.mono + ts_ns(ts); dc = 0; }
            else { dl = ts_ns(ts); dc = (op & FUTEX_CLOCK_REALTIME) ? 1 : 0; }
            if ((dc ? S.mono + S.off : S.mono) >= dl) { errno = ETIMEDOUT; return -1; }
        }
        me->waits++;
        me->spur_at = -1;
        int64_t v;
        if (S.replay) { if (rep_ev(EK_SPUR, me->id, me->waits, v)) me->spur_at = S.mono + v; }
        else if (may_fault(FM_SPUR) && S.rf.p(S.pSpur)) { v = S.rf.logu(100, 20000000000ll); me->spur_at = S.mono + v; add_ev(EK_SPUR, me->id, me->waits, v); }
        me->st = T_FUTEX; me->fut = a; me->futbits = cmd == FUTEX_WAIT ? 0xffffffff : bits;
        me->deadline = dl; me->dclock = dc; me->timed_out = false; me->woken = false;
        block(me);
        if (me->timed_out) { me->timed_out = false; errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t b = cmd == FUTEX_WAKE ? 0xffffffff : bits;
        long n = 0;
        for (int i = 0; i < S.nth && n < (long)(int)val; i++) {
            Thr* t = S.th[i];
            if (t->st == T_FUTEX && t->fut == a && (t->futbits & b)) { t->st = T_RUN; t->deadline = -1; t->spur_at = -1; t->woken = true; n++; }
        }
        return n;
    }
    errno = ENOSYS;
    return -1;
}
EXPORT long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && live()) return do_futex((uint32_t*)a, (int)b, (uint32_t)c, (const struct timespec*)d, (uint32_t)f);
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ------------------------------------------------------------------ scenario API

EXPORT uint64_t sim_gen(uint64_t n)
{
    RtGuard g;
    Shm* m = S.shm;
    if (S.ngen >= MAXGEN) internal_error("too many generated values");
    uint64_t v;
    if (S.replay || m->gen_fixed) v = S.ngen < m->ngens_in ? (n ? m->gens[S.ngen] % n : 0) : 0;
    else v = S.gen.below(n);
    m->gens[S.ngen] = v;
    m->gen_n[S.ngen] = (uint32_t)std::min<uint64_t>(n, UINT32_MAX);
    S.ngen++;
    return v;
}
EXPORT uint64_t sim_rec(int type, int64_t a, int64_t b, int64_t c, int64_t d)
{
    RtGuard g;
    uint64_t s = S.seq++;
    S.hist.recs.push_back(Rec{ s, type, t_me ? t_me->id : -1, S.mono, S.mono + S.off, a, b, c, d, {} });
    h(0x3ec000 + type); h(a); h(b); h(c); h(d);
    LOG("T%d REC type=%d a=%lld b=%lld c=%lld d=%lld seq=%llu\n", t_me ? t_me->id : -1, type, (long long)a, (long long)b, (long long)c, (long long)d, (unsigned long long)s);
    return s;
}
EXPORT void sim_rec_str(int type, int64_t a, const char* p, size_t n)
{
    RtGuard g;
    uint64_t s = S.seq++;
    S.hist.recs.push_back(Rec{ s, type, t_me ? t_me->id : -1, S.mono, S.mono + S.off, a, 0, 0, 0, std::string(p, n) });
    h(0x3ec000 + type); h(a);
    for (size_t i = 0; i < n; i++) h((uint8_t)p[i]);
    LOG("T%d RECS type=%d a=%lld '%.*s'\n", t_me ? t_me->id : -1, type, (long long)a, (int)std::min<size_t>(n, 80), p);
}
EXPORT void sim_note(const char* fmt, ...)
{
    RtGuard g;
    if (!S.shm->trace) return;
    char b[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    LOG("T%d NOTE %s\n", t_me ? t_me->id : -1, b);
}
EXPORT int sim_tid(void) { return t_me ? t_me->id : -1; }
EXPORT int64_t sim_mono(void) { return S.mono; }
EXPORT int64_t sim_real(void) { return S.mono + S.off; }
EXPORT void sim_clock_jump(int64_t ns) { RtGuard g; set_offset(S.off + ns); h(ns); }
EXPORT void sim_point(void) { if (!live()) return; Thr* me = t_me; RtGuard g; sync_point(me, OP_POINT, 0); }
EXPORT void sim_sleep(int64_t ns)
{
    Thr* me = t_me; RtGuard g;
    sync_point(me, OP_SLEEP, 1);
    if (ns <= 0) return;
    me->st = T_SLEEP; me->deadline = S.mono + ns; me->dclock = 0;
    block(me);
}
EXPORT int sim_quiesce(void)
{
    Thr* me = t_me; RtGuard g;
    me->st = T_QUIESCE; me->deadline = -1;
    block(me);
    return 0;
}
EXPORT int sim_wait_flag(int64_t f, int64_t ns)
{
    Thr* me = t_me; RtGuard g;
    sync_point(me, OP_FLAG, (int)f);
    if (S.flags.count(f)) return 1;
    me->st = T_FLAG; me->flag = f; me->deadline = ns >= 0 ? S.mono + ns : -1; me->dclock = 0; me->timed_out = false;
    block(me);
    me->timed_out = false;
    return S.flags.count(f) ? 1 : 0;
}
EXPORT void sim_set_flag(int64_t f)
{
    RtGuard g;
    S.flags[f] = true;
    for (int i = 0; i < S.nth; i++) { Thr* t = S.th[i]; if (t->st == T_FLAG && t->flag == f) { t->st = T_RUN; t->deadline = -1; } }
}
EXPORT int sim_flag(int64_t f) { RtGuard g; return S.flags.count(f) ? 1 : 0; }
EXPORT int64_t sim_counter_add(int64_t c, int64_t d) { RtGuard g; return S.counters[c] += d; }
EXPORT void sim_hb_release(int64_t k)
{
    RtGuard g; Thr* me = t_me;
    auto& v = S.hbkeys[k];
    v.join(me->vc);
    me->vc.c[me->id]++;
}
EXPORT void sim_hb_acquire(int64_t k) { RtGuard g; auto it = S.hbkeys.find(k); if (it != S.hbkeys.end()) t_me->vc.join(it->second); }
EXPORT void sim_faults(int on) { S.faults = on; if (!on) { RtGuard g; for (int i = 0; i < S.nth; i++) S.th[i]->spur_at = -1; recompute_next_dl(); } }
EXPORT int sim_alloc_faults(int on) { int o = t_me ? t_me->alloc_faults : 0; if (t_me) t_me->alloc_faults = on; return o; }
EXPORT int sim_fault(int site)
{
    if (!live()) return 0;
    Thr* me = t_me; RtGuard g;
    uint64_t st = ++me->users;
    int64_t v;
    bool bad = false;
    if (S.replay) bad = rep_ev(EK_USER, me->id, st, v);
    else if (may_fault(FM_USER) && (S.user_at ? --S.user_at == 0 : S.rf.p(S.pUser))) { bad = true; add_ev(EK_USER, me->id, st, 1); }
    if (bad) { did_fault(EK_USER); h(site); LOG("T%d  [fault at site %d]\n", me->id, site); }
    return bad;
}
EXPORT uint64_t sim_faults_injected(void) { return S.nfaults; }
EXPORT void sim_step_limit(uint64_t n) { if (n > S.cap) { S.cap = n; S.spin_max = 1000000000; } } // long computations are no spinning
EXPORT void sim_count_fault(int kind) { RtGuard g; did_fault(kind); }
EXPORT void sim_fail(const char* cls, const char* fmt, ...)
{
    RtGuard g;
    va_list ap;
    va_start(ap, fmt);
    vfail(cls, fmt, ap);
}
EXPORT void sim_probe(int id) { if (id >= 0 && id < 64) S.shm->probes[id]++; }
EXPORT void sim_mark(int64_t v) { h((uint64_t)v + 77); }
EXPORT int64_t sim_live_blocks(void) { return g_live_blocks; }
EXPORT int64_t sim_live_bytes(void) { return g_live_bytes; }
EXPORT uint64_t sim_alloc_count(void) { return g_allocs; }
EXPORT void sim_harness_enter(void) { if (t_me) t_me->in_rt++, t_me->harness++; else t_pre_rt++; }
EXPORT void sim_harness_leave(void) { if (t_me) t_me->in_rt--, t_me->harness--; else t_pre_rt--; }
EXPORT int sim_live_threads(void) { int n = 0; for (int i = 0; i < S.nth; i++) n += S.th[i]->st != T_DONE; return n; }
EXPORT int sim_is_live(const void* p) { return in_arena((uintptr_t)p) && *hsh((uintptr_t)p) < 8; }
EXPORT int64_t sim_cfg(void) { return S.scen ? S.scen->cfg : 0; }
EXPORT void sim_register(const SimScenario* s) { g_scens.push_back(*s); }

// ------------------------------------------------------------------ running

namespace sim {

int64_t History::max_real(uint64_t s0, uint64_t s1) const
{
    // wall clock = mono + off; between two offset changes it only grows
    int64_t best = INT64_MIN;
    auto at = [&](uint64_t s) { const Rec* r = nullptr; for (auto& x : recs) if (x.seq == s) r = &x; return r; };
    const Rec* a = at(s0); const Rec* b = at(s1);
    if (a) best = std::max(best, a->real);
    if (b) best = std::max(best, b->real);
    for (size_t i = 1; i < clock.size(); i++)
        if (clock[i].seq > s0 && clock[i].seq < s1) {
            best = std::max(best, clock[i].mono + clock[i].off);
            best = std::max(best, clock[i].mono + clock[i - 1].off);
        }
    return best;
}
int64_t History::idle_between(int64_t from, int64_t to) const
{
    int64_t sum = 0;
    for (auto& g : idle) sum += std::max<int64_t>(0, std::min(g.to, to) - std::max(g.from, from));
    return sum;
}
int64_t History::earliest_real(uint64_t s0, uint64_t s1, int64_t v) const
{
    for (size_t i = 1; i < clock.size(); i++) if (clock[i].seq > s0 && clock[i].seq < s1) return v;
    int64_t off = 0;
    for (auto& c : clock) if (c.seq <= s0) off = c.off;
    for (auto& x : recs) if (x.seq == s0) v = std::max(v, x.real);
    for (auto& g : gaps) if (g.seq > s0 && g.seq < s1 && g.from + off < v && v <= g.to + off) v = g.to + off;
    return v;
}
int64_t History::min_real(uint64_t s0, uint64_t s1) const
{
    int64_t best = INT64_MAX;
    for (auto& x : recs) if (x.seq == s0 || x.seq == s1) best = std::min(best, x.real);
    for (size_t i = 1; i < clock.size(); i++)
        if (clock[i].seq > s0 && clock[i].seq < s1) best = std::min(best, clock[i].mono + clock[i].off);
    return best;
}

static std::map<std::string, OracleFn>& oracles() { static auto* m = new std::map<std::string, OracleFn>; return *m; }
void register_oracle(const char* n, OracleFn f) { oracles()[n] = f; }
OracleFn find_oracle(const char* n) { auto it = oracles().find(n); return it == oracles().end() ? nullptr : it->second; }

static void on_terminate()
{
    RtGuard g;
    const char* what = "unknown";
    char b[256] = "";
    if (auto* t = abi::__cxa_current_exception_type()) {
        int st = 0;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        snprintf(b, sizeof b, "%s", d ? d : t->name());
        what = b;
    }
    fail("terminate", "std::terminate() called in T%d (exception: %s)", t_me ? t_me->id : -1, what);
}

static void choose_strategy()
{
    Rng& r = S.rs;
    r.seed(S.shm->sched_seed * 3 + 1);
    S.rf.seed(S.shm->sched_seed * 3 + 2);
    static const int64_t ticks[] = { 100, 100, 100, 100, 1000, 20000, 1000000 };
    S.tick = ticks[r.below(7)];
    int k = (int)r.below(10);
    static const double ps[] = { 0.01, 0.03, 0.1, 0.2, 0.4, 0.7 };
    static const double pm[] = { 0, 0, 0.0005, 0.003, 0.02, 0.1 };
    if (k < 5) { S.strat = 0; S.pS = ps[r.below(6)]; S.pM = pm[r.below(6)]; S.pPick = r.p(0.3) ? 0.2 : 1.0; }
    else if (k < 8) {
        S.strat = 1;
        int d = (int)r.below(6);
        uint64_t len = (uint64_t)r.logu(20, 1500);
        for (int i = 0; i < d; i++) S.pct_next[i] = 1 + r.below(len);
        std::sort(S.pct_next, S.pct_next + d, std::greater<uint64_t>());
        S.npct = d;
        S.pM = r.p(0.5) ? 0 : 1.0 / (double)r.logu(50, 20000);
        S.th[0]->prio = 1 + (int)r.below(1000000);
    } else { S.strat = 2; S.pS = 1.0 / (double)r.logu(10, 400); S.pM = r.p(0.5) ? 1.0 / (double)r.logu(100, 10000) : 0; S.pPick = r.p(0.5) ? 0.0 : 0.5; }
    S.mem_cd = r.geo(S.pM);
    S.sync_cd = r.geo(S.pS);
    // faults: a random subset of what the scenario allows
    unsigned allowed = S.scen->fault_mask;
    if (S.shm->nofaults) allowed &= FM_WAKE;
    unsigned m = 0;
    for (int b = 0; b < 16; b++) if ((allowed >> b & 1) && S.rf.p(0.6)) m |= 1u << b;
    if (S.rf.p(0.2)) m &= FM_WAKE; // a share of fault-free runs
    S.fmask = m;
    S.fbudget = m ? 1 + S.rf.below(S.rf.p(0.3) ? 20 : 5) : 0;
    S.pF = (m & (FM_SKIP | FM_JUMP | FM_STALL)) ? 1.0 / (double)S.rf.logu(5, 300) : 0;
    S.fault_cd = S.rf.geo(S.pF);
    S.pSpur = S.rf.p(0.5) ? 0.1 : 0.5;
    S.pEintr = S.rf.p(0.5) ? 0.3 : 0.8;
    S.pWake = S.rf.p(0.5) ? 0.3 : 1.0;
    S.pCreate = S.rf.p(0.5) ? 0.15 : 0.5;
    if (m & FM_ALLOC) {
        if (S.rf.p(0.7)) { S.alloc_at = (uint64_t)S.rf.logu(1, 120); }
        S.pAlloc = 1.0 / (double)S.rf.logu(2, 100);
    }
    if (m & FM_USER) {
        if (S.rf.p(0.7)) S.user_at = (uint64_t)S.rf.logu(1, 120);
        S.pUser = 1.0 / (double)S.rf.logu(2, 100);
    }
}

void rt_init()
{
    heap_map();
    g_pages = new std::unordered_map<uintptr_t, ShPage*>();
    size_t n = (size_t)MAXT * STACK_SZ;
    g_stacks = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_stacks == MAP_FAILED) { fprintf(stderr, "sim: no memory for stacks\n"); _exit(3); }
    // resolve lazily bound real functions now, outside any run
    real_fn<void*>("pthread_create");
}

[[noreturn]] void run_child(Shm* shm)
{
    S.shm = shm;
    S.scen = &g_scens[shm->scen];
    S.replay = shm->mode == 1;
    S.race = S.scen->race_check;
    S.mono = 1000000000000ll;
    S.off = 1700000000000000000ll - S.mono;
    S.hist.clock.push_back({ 0, S.mono, S.off });
    S.hist.recs.reserve(256);
    S.objs.reserve(256);
    S.seq = 1;
    S.hash = 0xcbf29ce484222325ull;
    S.gen.seed(shm->gen_seed * 3);
    Thr* me = new (malloc(sizeof(Thr))) Thr();
    S.th[0] = me;
    S.nth = 1;
    me->pt = pthread_self();
    me->vc.c[0] = 1;
    if (S.replay) {
        S.tick = shm->tick;
        for (int i = 0; i < shm->nevs; i++) { Ev& e = shm->evs[i]; if (e.tid < MAXT && e.kind < EK_N) S.rep[e.tid][e.kind].push_back(e); }
        for (auto& a : S.rep) for (auto& v : a) std::sort(v.begin(), v.end(), [](const Ev& x, const Ev& y) { return x.step < y.step; });
        rep_next_m(me);
        S.fmask = ~0u;
        S.fbudget = UINT64_MAX;
    } else {
        shm->nevs = 0;
        choose_strategy();
    }
    memset(shm->nfault, 0, sizeof shm->nfault);
    memset(shm->probes, 0, sizeof shm->probes);
    shm->loglen = 0;
    shm->status = ST_NONE;
    std::set_terminate(on_terminate);
    t_me = me;
    S.active = true;
    try {
        S.scen->run();
    } catch (std::exception& e) {
        RtGuard g;
        fail("uncaught", "scenario ended with exception: %s", e.what());
    } catch (...) {
        RtGuard g;
        fail("uncaught", "scenario ended with an unknown exception");
    }
    RtGuard g;
    if (S.scen->oracle) {
        OracleFn f = find_oracle(S.scen->oracle);
        if (!f) internal_error("no oracle %s", S.scen->oracle);
        f(S.hist);
    }
    finish(ST_OK, "", "");
}

} // namespace sim
