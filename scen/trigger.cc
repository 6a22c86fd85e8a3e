// Trigger, sleep() and tic()/toc() scenarios on the real code, simulated clocks and threads.
#include "sim.h"
#include "recs.h"
#include <gul14/Trigger.h>
#include <gul14/time_util.h>
#include <chrono>
#include <cmath>
#include <memory>
#include <ratio>
#include <thread>
#include <vector>

using gul14::Trigger;
namespace chr = std::chrono;

namespace {

constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000ll, HOUR = 3600 * SEC;

int64_t opid() { return sim_counter_add(1, 1); }

template <class F> void rec_op(int op, int64_t arg, int64_t kind, F f)
{
    const int64_t id = opid();
    sim_rec(R_INV, id, op, arg, kind);
    const int64_t r = f();
    sim_rec(R_RET, id, r, 0, 0);
}

// durations used by waits and sleeps, in ns
const int64_t DUR[] = { 0, 1, 100, 1 * US, 500 * US, 1 * MS, 3 * MS, 10 * MS, 100 * MS, 1 * SEC, 90 * SEC, HOUR, -1 * MS, 1500 * MS, 1999999,
    25 * HOUR, 25 * 24 * HOUR, 50 * 24 * HOUR, 400 * 24 * HOUR, 10 * 8766 * HOUR };
constexpr int NALL = sizeof DUR / sizeof *DUR; // the long ones are for waits that may really last
constexpr int NDUR = NALL - 5;

// A steady clock of the user's own: half as fast, and with another epoch
struct SlowClock {
    using duration = chr::nanoseconds; using rep = duration::rep; using period = duration::period;
    using time_point = chr::time_point<SlowClock>;
    static constexpr bool is_steady = true;
    static constexpr int64_t EPOCH = -5 * SEC;
    static time_point now() { return time_point(duration(chr::steady_clock::now().time_since_epoch().count() / 2 + EPOCH)); }
};

void set_op(Trigger& t, int how)
{
    rec_op(TR_SET, 0, how, [&] {
        if (how % 3 == 0) t.trigger();
        else if (how % 3 == 1) t = true;
        else { Trigger& r = (t = true); return (int64_t)(&r == &t); }
        return (int64_t)1;
    });
}
void reset_op(Trigger& t, int how)
{
    rec_op(TR_RESET, 0, how, [&] {
        if (how % 3 == 0) t.reset();
        else if (how % 3 == 1) t = false;
        else { Trigger& r = (t = false); return (int64_t)(&r == &t); }
        return (int64_t)1;
    });
}
void read_op(const Trigger& t)
{
    rec_op(TR_READ, 0, 0, [&] { const bool b = t; return (int64_t)b; });
}
// kind: 0 ns, 1 us (integer), 2 double seconds, 3 ms (integer), 4 s, 5 float ms
int64_t wait_for_ns(const Trigger& t, int64_t ns, int kind)
{
    switch (kind) {
    case 1: return t.wait_for(chr::microseconds(ns / US));
    case 2: return t.wait_for(chr::duration<double>((double)ns * 1e-9));
    case 3: return t.wait_for(chr::milliseconds(ns / MS));
    case 4: return t.wait_for(chr::seconds(ns / SEC));
    case 5: return t.wait_for(chr::duration<long double, std::milli>((long double)ns / 1000000.0L));
    default: return t.wait_for(chr::nanoseconds(ns));
    }
}
int64_t kind_ns(int64_t ns, int kind) // what is really asked for (lower bound)
{
    switch (kind) {
    case 1: return ns / US * US;
    case 3: return ns / MS * MS;
    case 4: return ns / SEC * SEC;
    case 2: case 5: return ns > 2 ? ns - (ns >> 50) - 1 : ns;
    default: return ns;
    }
}
void wait_for_op(const Trigger& t, int64_t ns, int kind) { rec_op(TR_WAIT_FOR, kind_ns(ns, kind), kind, [&] { return wait_for_ns(t, ns, kind); }); }
void wait_steady_op(const Trigger& t, int64_t ns, int kind)
{
    const int64_t at = sim_mono() + ns;
    switch (kind % 4) {
    case 3: { const int64_t c = at / 2 + SlowClock::EPOCH; rec_op(TR_WAIT_STEADY, (c - SlowClock::EPOCH) * 2, kind, [&] { return (int64_t)t.wait_until(SlowClock::time_point(chr::nanoseconds(c))); }); break; }
    case 1: { const int64_t ms = at / MS; rec_op(TR_WAIT_STEADY, ms * MS, kind, [&] { return (int64_t)t.wait_until(chr::time_point<chr::steady_clock, chr::milliseconds>(chr::milliseconds(ms))); }); break; }
    case 2: { const int64_t s = at / SEC; rec_op(TR_WAIT_STEADY, s * SEC, kind, [&] { return (int64_t)t.wait_until(chr::time_point<chr::steady_clock, chr::seconds>(chr::seconds(s))); }); break; }
    default: rec_op(TR_WAIT_STEADY, at, kind, [&] { return (int64_t)t.wait_until(chr::steady_clock::time_point(chr::nanoseconds(at))); });
    }
}
void wait_system_op(const Trigger& t, int64_t ns, int kind)
{
    const int64_t at = sim_real() + ns;
    switch (kind % 3) {
    case 1: { const int64_t ms = at / MS; rec_op(TR_WAIT_SYSTEM, ms * MS, kind, [&] { return (int64_t)t.wait_until(chr::time_point<chr::system_clock, chr::milliseconds>(chr::milliseconds(ms))); }); break; }
    case 2: { const int64_t s = at / SEC; rec_op(TR_WAIT_SYSTEM, s * SEC, kind, [&] { return (int64_t)t.wait_until(chr::time_point<chr::system_clock, chr::seconds>(chr::seconds(s))); }); break; }
    default: rec_op(TR_WAIT_SYSTEM, at, kind, [&] { return (int64_t)t.wait_until(chr::system_clock::time_point(chr::nanoseconds(at))); });
    }
}
void wait_op(const Trigger& t) { rec_op(TR_WAIT, 0, 0, [&] { t.wait(); return (int64_t)1; }); }
void sleep_op(int64_t ns, int kind)
{
    rec_op(TR_SLEEP, kind_ns(ns, kind), kind, [&]() -> int64_t {
        switch (kind) {
        case 1: return gul14::sleep(chr::microseconds(ns / US));
        case 2: return gul14::sleep((double)ns * 1e-9);
        case 3: return gul14::sleep(chr::milliseconds(ns / MS));
        case 4: return gul14::sleep(chr::seconds(ns / SEC));
        case 5: return gul14::sleep(chr::duration<long double, std::milli>((long double)ns / 1000000.0L));
        default: return gul14::sleep(chr::nanoseconds(ns));
        }
    });
}
void sleep_trg_op(const Trigger& t, int64_t ns, int kind)
{
    rec_op(TR_SLEEP_TRG, kind_ns(ns, kind), kind, [&]() -> int64_t {
        switch (kind) {
        case 1: return gul14::sleep(chr::microseconds(ns / US), t);
        case 2: return gul14::sleep((double)ns * 1e-9, t);
        case 3: return gul14::sleep(chr::milliseconds(ns / MS), t);
        case 4: return gul14::sleep(chr::seconds(ns / SEC), t);
        case 5: return gul14::sleep(chr::duration<long double, std::milli>((long double)ns / 1000000.0L), t);
        default: return gul14::sleep(chr::nanoseconds(ns), t);
        }
    });
}

struct Op { int op, dur, kind, a; };

struct Th { std::vector<Op> ops; Trigger* t = nullptr; int id = 0; };

void run_op(Trigger& t, const Op& o)
{
    switch (o.op) {
    case 1: case 2: set_op(t, o.a); break;
    case 3: case 4: reset_op(t, o.a); break;
    case 5: read_op(t); break;
    case 6: case 7: wait_for_op(t, DUR[o.dur], o.kind); break;
    case 8: wait_steady_op(t, DUR[o.dur], o.kind); break;
    case 9: wait_system_op(t, DUR[o.dur], o.kind); break;
    case 10: wait_op(t); break;
    case 11: { static const int64_t d[] = { 100, 1 * US, 1 * MS, 10 * MS, 1 * SEC, 89 * SEC }; sim_sleep(d[o.a % 6]); break; }
    case 12: sim_point(); break;
    case 13: sleep_op(DUR[o.dur], o.kind); break;
    case 14: case 15: sleep_trg_op(t, DUR[o.dur], o.kind); break;
    case 16: { static const int64_t d[] = { SEC, -SEC, 61 * SEC, -HOUR, HOUR, 9 * MS, -9 * MS, 25 * HOUR, 400 * 24 * HOUR, -26 * HOUR, -40 * 24 * HOUR, 30 * SEC }; sim_clock_jump(d[o.a % 12]); sim_count_fault(EK_JUMP); break; }
    default: break;
    }
}

void th_main(Th* t) { for (auto& o : t->ops) run_op(*t->t, o); sim_rec(R_USER + 1, t->id, 0, 0, 0); sim_counter_add(7, 1); }

Op gen_op(std::initializer_list<int> ops, int ndur = NDUR)
{
    Op o;
    o.op = ops.begin()[sim_gen(ops.size())];
    o.dur = (int)sim_gen(ndur);
    o.kind = (int)sim_gen(6);
    o.a = (int)sim_gen(24);
    return o;
}

std::vector<Th> gen_threads(int maxth, int maxops, std::initializer_list<int> ops, int ndur = NDUR, int many = 0)
{
    std::vector<Th> v(1 + sim_gen(maxth));
    if (many && sim_gen(16) == 15) v.resize(v.size() + sim_gen((uint64_t)many));
    int id = 0;
    for (auto& t : v) {
        t.id = id++;
        const int n = 1 + (int)sim_gen(maxops);
        for (int i = 0; i < n; i++) t.ops.push_back(gen_op(ops, ndur));
    }
    return v;
}

// ---------------------------------------------------------------- C15 / C11: atomic level

void level_run()
{
    std::vector<Th> v;
    int init, final_how;
    bool has_wait = false;
    {
        SimHarness hs;
        v = gen_threads(4, 6, { 0, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 5, 3, 1, 14 });
        init = (int)sim_gen(2);
        final_how = (int)sim_gen(3);
    }
    const int64_t blocks = sim_live_blocks();
    sim_rec(R_INV, opid(), TR_INIT, init, 0);
    auto t = init ? std::make_unique<Trigger>(true) : std::make_unique<Trigger>();
    std::vector<std::thread> th;
    { SimHarness hs; th.reserve(8); }
    for (auto& x : v) { x.t = t.get(); th.emplace_back(th_main, &x); for (auto& o : x.ops) has_wait |= o.op == 10; }
    // threads in an unconditional wait need a final set; repeat because others may reset
    if (has_wait)
        for (int i = 0; i < 200 && sim_counter_add(7, 0) < (int64_t)v.size(); i++) {
            sim_sleep(2 * HOUR);
            sim_quiesce();
            if (sim_counter_add(7, 0) < (int64_t)v.size()) { set_op(*t, final_how); sim_sleep(SEC); }
        }
    for (auto& x : th) x.join();
    read_op(*t);
    t.reset();
    { SimHarness hs; th = std::vector<std::thread>(); v = std::vector<Th>(); }
    if (sim_live_blocks() != blocks) sim_fail("leak", "memory leaked");
}

// ---------------------------------------------------------------- C16: everybody is released

void wake_run()
{
    std::vector<Th> v, w;
    int final_how, late, nap, setter_thread;
    {
        SimHarness hs;
        v = gen_threads(3, 4, { 0, 1, 3, 3, 4, 5, 11, 12, 1 });           // disturbers, done before the final set
        w = gen_threads(4, 1, { 10, 6, 8, 9, 10, 14 }, NDUR, 30);          // waiters
        final_how = (int)sim_gen(3);
        late = (int)sim_gen(3);
        nap = (int)sim_gen(6);
        setter_thread = (int)sim_gen(2);
        for (auto& x : w) for (auto& o : x.ops) { o.dur = 11; o.kind = o.kind == 2 || o.kind == 5 ? 0 : o.kind; } // an hour
        for (auto& x : w) if (x.ops.size() == 1 && x.ops[0].a % 3 == 0) { Op o{}; o.op = 11; o.a = x.ops[0].a / 3; if (o.a % 6 == 5) o.a = 0; x.ops.insert(x.ops.begin(), o); }
    }
    auto t = std::make_unique<Trigger>();
    std::vector<std::thread> th, wt;
    { SimHarness hs; th.reserve(8); wt.reserve(48); }
    for (auto& x : w) { x.t = t.get(); x.id += 100; wt.emplace_back(th_main, &x); }
    for (auto& x : v) { x.t = t.get(); th.emplace_back(th_main, &x); }
    for (auto& x : th) x.join();
    { static const int64_t d[] = { 0, 100, 1 * US, 1 * MS, 1 * SEC, 30 * SEC }; if (nap) sim_sleep(d[nap]); }
    // from here on nobody resets the trigger
    if (setter_thread) { std::thread s([&] { set_op(*t, final_how); }); s.join(); }
    else set_op(*t, final_how);
    sim_rec(R_USER + 2, 0, 0, 0, 0);
    std::vector<Th> lw;
    { SimHarness hs; lw = std::vector<Th>(late); int k = 0; for (auto& x : lw) { x.id = 200 + k++; Op o{}; o.op = k == 1 ? 10 : 6; o.dur = 11; x.ops.push_back(o); x.t = t.get(); } }
    for (auto& x : lw) wt.emplace_back(th_main, &x);
    sim_faults(0);
    // waiters that nap first may still be on their way; nobody needs more than a few seconds
    sim_sleep(20 * SEC);
    sim_quiesce();
    sim_rec(R_QUIESCE, 0, 0, 0, 0);
    if (!*t) sim_fail("trigger-lost", "the trigger is low although it was set and never reset");
    const int64_t done = sim_counter_add(7, 0), want = (int64_t)(v.size() + w.size() + lw.size());
    if (done != want) sim_fail("waiter-not-released", "%lld threads are still waiting although the trigger is high", (long long)(want - done));
    for (auto& x : wt) x.join();
    SimHarness hs;
    th = std::vector<std::thread>(); wt = std::vector<std::thread>(); v = w = lw = std::vector<Th>();
}

// ---------------------------------------------------------------- C17: timed waits

void timed_run()
{
    std::vector<Th> v;
    int setter, when;
    {
        SimHarness hs;
        v = gen_threads(3, 3, { 6, 7, 8, 9, 6, 8, 9, 11, 16 }, NALL, 20);
        setter = (int)sim_gen(4);
        when = (int)sim_gen(NALL);
    }
    auto t = std::make_unique<Trigger>();
    std::vector<std::thread> th;
    { SimHarness hs; th.reserve(32); }
    for (auto& x : v) { x.t = t.get(); th.emplace_back(th_main, &x); }
    if (setter == 1) { if (DUR[when] > 0) sim_sleep(DUR[when] + 50 * US); set_op(*t, when); }
    // no more disturbances: all deadlines (and the hour that the clock may have jumped) pass
    sim_sleep(60 * SEC);
    sim_faults(0);
    for (int i = 0; i < 100 && sim_counter_add(7, 0) < (int64_t)v.size(); i++) sim_sleep(i < 20 ? 30 * HOUR : 9000 * HOUR);
    sim_quiesce();
    if (sim_counter_add(7, 0) != (int64_t)v.size()) sim_fail("wait-never-ends", "a timed wait has not returned long after its end");
    for (auto& x : th) x.join();
    SimHarness hs;
    th = std::vector<std::thread>(); v = std::vector<Th>();
}

// ---------------------------------------------------------------- C18: destruction with waiters

void destroy_run()
{
    std::vector<Th> w;
    int nap, pre;
    {
        SimHarness hs;
        w = gen_threads(4, 1, { 10, 6, 8, 9, 10, 14 }, NALL, 16);
        nap = (int)sim_gen(NDUR);
        pre = (int)sim_gen(4);
    }
    const int64_t blocks = sim_live_blocks();
    auto t = std::make_unique<Trigger>();
    std::vector<std::thread> wt;
    { SimHarness hs; wt.reserve(48); }
    for (auto& x : w) { x.t = t.get(); wt.emplace_back(th_main, &x); }
    sim_quiesce(); // every waiter is inside its wait now (or has already timed out)
    if (pre == 1) read_op(*t);
    if (DUR[nap] > 0 && DUR[nap] < 100 * SEC) sim_sleep(DUR[nap] - (pre == 2 ? 1 * US : 0) + (pre == 3 ? 500 : 0));
    sim_rec(R_DTOR_INV, 0, 0, 0, 0);
    t.reset();
    sim_rec(R_DTOR_RET, 0, 0, 0, 0);
    sim_faults(0);
    sim_sleep(20 * SEC);
    sim_quiesce();
    if (sim_counter_add(7, 0) != (int64_t)w.size()) sim_fail("waiter-not-released", "a thread is still waiting on a destroyed trigger");
    for (auto& x : wt) x.join();
    { SimHarness hs; wt = std::vector<std::thread>(); w = std::vector<Th>(); }
    if (sim_live_blocks() != blocks) sim_fail("leak", "memory leaked");
}

// ---------------------------------------------------------------- C19: sleep

void sleep_run()
{
    std::vector<Th> v, s;
    {
        SimHarness hs;
        v = gen_threads(3, 4, { 13, 14, 15, 13, 14, 11, 16 }, NALL);
        s = gen_threads(2, 4, { 0, 0, 1, 1, 3, 11, 11, 12, 16 });
    }
    auto t = std::make_unique<Trigger>();
    std::vector<std::thread> th;
    { SimHarness hs; th.reserve(8); }
    for (auto& x : v) { x.t = t.get(); th.emplace_back(th_main, &x); }
    for (auto& x : s) { x.t = t.get(); x.id += 10; th.emplace_back(th_main, &x); }
    for (auto& x : th) x.join();
    SimHarness hs;
    th = std::vector<std::thread>(); v = s = std::vector<Th>();
}

// ---------------------------------------------------------------- C20: tic and toc

template <class Unit, class Rep> void check_toc(const char* name, chr::steady_clock::time_point t0, int64_t a0, int64_t b0, long double unit_ns)
{
    const int64_t a = sim_mono();
    const auto v = gul14::toc<Unit>(t0);
    const int64_t b = sim_mono();
    static_assert(std::is_same<std::decay_t<decltype(v)>, Rep>::value, "toc() has the wrong result type");
    const int64_t lo = a - b0, hi = b - a0; // elapsed time is within [lo, hi]
    if (std::is_integral<Rep>::value) {
        const long long l = (long long)(lo / (int64_t)unit_ns), h = (long long)(hi / (int64_t)unit_ns);
        if ((long long)v < l || (long long)v > h) sim_fail("wrong-elapsed-time", "toc<%s> returned %lld, but %lld to %lld ns have passed", name, (long long)v, (long long)lo, (long long)hi);
    } else {
        const long double eps = std::is_same<Rep, float>::value ? 1e-6L : 1e-14L;
        const long double x = (long double)v * unit_ns;
        if (!(x >= lo - 1 - lo * eps) || !(x <= hi + 1 + hi * eps)) sim_fail("wrong-elapsed-time", "toc<%s> returned %.12Lg units, but %lld to %lld ns have passed", name, (long double)v, (long long)lo, (long long)hi);
    }
    if (v < 0) sim_fail("negative-elapsed-time", "toc<%s> is negative", name);
}

void tictoc_thread(int seed, const std::vector<Op>* ops)
{
    (void)seed;
    const int64_t a0 = sim_mono();
    const auto t0 = gul14::tic();
    const int64_t b0 = sim_mono();
    int64_t last = 0;
    for (auto& o : *ops) {
        switch (o.op) {
        case 1: sim_sleep(DUR[o.dur] > 0 ? DUR[o.dur] : 1); break;
        case 2: { static const int64_t d[] = { SEC, -SEC, 61 * SEC, -HOUR, HOUR, 9 * MS, -9 * MS, 25 * HOUR, 8760 * HOUR, -8760 * HOUR, 1, -1 }; sim_clock_jump(d[o.a % 12]); sim_count_fault(EK_JUMP); break; }
        case 3: { static const int64_t d[] = { HOUR, 24 * HOUR, 8760 * HOUR, 15 * 8760 * HOUR, 4294967296ll, 2147483648ll * MS / 1000, 4294968 * MS, 30 * HOUR }; sim_sleep(d[o.a % 8]); break; }
        case 4: sim_point(); break;
        default: break;
        }
        switch (o.kind + 6 * (o.a % 2)) {
        case 0: check_toc<chr::duration<double>, double>("duration<double>", t0, a0, b0, 1e9L); break;
        case 1: check_toc<chr::nanoseconds, chr::nanoseconds::rep>("nanoseconds", t0, a0, b0, 1); break;
        case 2: check_toc<chr::microseconds, chr::microseconds::rep>("microseconds", t0, a0, b0, 1e3L); break;
        case 3: check_toc<chr::milliseconds, chr::milliseconds::rep>("milliseconds", t0, a0, b0, 1e6L); break;
        case 4: check_toc<chr::seconds, chr::seconds::rep>("seconds", t0, a0, b0, 1e9L); break;
        case 5: check_toc<chr::minutes, chr::minutes::rep>("minutes", t0, a0, b0, 60e9L); break;
        case 6: check_toc<chr::hours, chr::hours::rep>("hours", t0, a0, b0, 3600e9L); break;
        case 7: check_toc<chr::duration<float, std::milli>, float>("duration<float, milli>", t0, a0, b0, 1e6L); break;
        case 8: check_toc<chr::duration<long double, std::micro>, long double>("duration<long double, micro>", t0, a0, b0, 1e3L); break;
        case 9: check_toc<chr::duration<int64_t, std::ratio<1, 4>>, int64_t>("duration<int64_t, 1/4>", t0, a0, b0, 25e7L); break;
        default: {
            const int64_t a = sim_mono();
            const double d = gul14::toc(t0);
            const int64_t b = sim_mono();
            if (!(d >= (double)(a - b0) * 1e-9 * (1 - 1e-14) - 1e-9) || !(d <= (double)(b - a0) * 1e-9 * (1 + 1e-14) + 1e-9)) sim_fail("wrong-elapsed-time", "toc() returned %.12g s, but %lld to %lld ns have passed", d, (long long)(a - b0), (long long)(b - a0));
        }
        }
        const int64_t n = gul14::toc<chr::nanoseconds>(t0);
        if (n < last) sim_fail("elapsed-time-decreased", "toc<nanoseconds> went from %lld to %lld", (long long)last, (long long)n);
        last = n;
    }
}

void tictoc_run()
{
    std::vector<std::vector<Op>> v;
    {
        SimHarness hs;
        v.resize(1 + sim_gen(3));
        for (auto& x : v) { const int n = 1 + (int)sim_gen(8); for (int i = 0; i < n; i++) x.push_back(gen_op({ 4, 1, 2, 3, 1, 2 })); }
    }
    std::vector<std::thread> th;
    { SimHarness hs; th.reserve(8); }
    for (size_t i = 1; i < v.size(); i++) th.emplace_back(tictoc_thread, (int)i, &v[i]);
    tictoc_thread(0, &v[0]);
    for (auto& x : th) x.join();
    SimHarness hs;
    th = std::vector<std::thread>(); v = {};
}

constexpr unsigned FM_SCHED = FM_SPUR | FM_SKIP | FM_STALL | FM_WAKE;
SimScenario scens[] = {
    { "trig_level", level_run, FM_SCHED | FM_JUMP, 0, TP_LEVEL, "trig_level" },
    { "trig_race", level_run, FM_SCHED | FM_JUMP, 1, TP_RACE, nullptr },
    { "trig_wake", wake_run, FM_SCHED, 0, TP_WAKE, "trig_wake" },
    { "trig_timed", timed_run, FM_SCHED | FM_JUMP, 0, TP_TIMED, "trig_timed" },
    { "trig_destroy", destroy_run, FM_SCHED, 1, TP_DESTROY, "trig_destroy" },
    { "sleep", sleep_run, FM_SCHED | FM_JUMP | FM_EINTR, 0, TP_SLEEP, "sleep" },
    { "tictoc", tictoc_run, FM_SKIP | FM_STALL | FM_JUMP | FM_WAKE, 0, TP_TICTOC, nullptr },
};
struct Reg { Reg() { for (auto& s : scens) sim_register(&s); } } reg;

} // namespace
