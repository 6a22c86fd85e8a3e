// ThreadPool scenarios: generated multi-threaded programs over the public API of the real
// pool. All generated values are drawn before any concurrency starts; 0 is always "nothing".
#include "sim.h"
#include "recs.h"
#include <gul14/ThreadPool.h>
#include <gul14/finalizer.h>
#include <gul14/time_util.h>
#include <chrono>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <signal.h>

using gul14::ThreadPool;
using gul14::TaskState;
using Clock = std::chrono::system_clock;

namespace {

constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000ll, HOUR = 3600 * SEC;
constexpr int MAXTASK = 400;

struct TaskSpec {
    int id = 0, overload = 0, time = 0, name = 0, body = 0, rtype = 0, thr = 0, nop = 0, npar = 0, nh = 0;
    int64_t due_real = INT64_MIN; // set when added (for settling only)
};

struct OpSpec { int op = 0; int a = 0; TaskSpec t; int rep = 1; };

struct HBase {
    int task = 0;
    virtual ~HBase() {}
    virtual bool cancel() = 0;
    virtual int state() = 0;
    virtual bool complete() = 0;
    virtual int result() = 0; // ResCode
};

struct Client { std::vector<OpSpec> ops; std::vector<std::unique_ptr<HBase>> handles; std::shared_ptr<ThreadPool> pool; int id = 0; };

struct Ctx {
    int profile = 0;
    int threads = 1;
    size_t capacity = 200;
    TaskSpec spec[MAXTASK];
    int inst[MAXTASK];      // live instances of the function object
    int* side[MAXTASK];     // plain memory written by the task, read after get_result()
    int ntask = 0;
    int64_t total_body = 0;
    ThreadPool* raw = nullptr;
    bool dtor_calls_pool = false;
    int barrier_n = 0;
};
Ctx* C; // harness memory; written before concurrency starts, per-task slots afterwards

#define HARNESS __attribute__((no_sanitize_thread, noinline))

// ---------------------------------------------------------------- function objects

HARNESS void inst_add(int id, int d) { C->inst[id] += d; if (C->inst[id] == 0) sim_rec(R_FN_DEAD, id, 0, 0, 0); }
HARNESS bool inst_last(int id) { return C->inst[id] == 1; }

void dtor_hook(int id);

thread_local bool t_move_may_fail; // moving a function object may throw in this thread
struct MoveError : std::bad_alloc {};

struct Tok { // tracks the life of a function object; owns simulated heap memory
    int id;
    int* mem;
    explicit Tok(int i) : id(i), mem(new int(i)) { inst_add(id, 1); }
    Tok(const Tok& o) : id(o.id), mem(o.mem ? new int(*o.mem) : nullptr) { if (mem) inst_add(id, 1); }
    Tok(Tok&& o) : id(o.id), mem(nullptr)
    {
        if (t_move_may_fail && o.mem && sim_fault(20)) throw MoveError{};
        std::swap(mem, o.mem);
    }
    Tok& operator=(const Tok&) = delete;
    ~Tok()
    {
        if (!mem) return;
        if (*mem != id) sim_fail("function-object-corrupt", "function object of task %d damaged", id);
        if (C->dtor_calls_pool && inst_last(id)) dtor_hook(id);
        delete mem;
        mem = nullptr;
        inst_add(id, -1);
    }
};

struct MyExc { int id; };

void nested_ops(ThreadPool* pool, const TaskSpec& s);

HARNESS void check_mask(int id)
{
    sigset_t m;
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    static const int sigs[] = { SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1, SIGUSR2 };
    int missing = 0;
    for (int i = 0; i < 7; i++) if (!sigismember(&m, sigs[i])) missing |= 1 << i;
    sim_rec(R_MASK, id, missing, 0, 0);
}

void run_body(const Tok& t, ThreadPool* pool)
{
    const TaskSpec& s = C->spec[t.id];
    if (!t.mem || *t.mem != t.id) sim_fail("function-object-corrupt", "task %d runs with a destroyed or moved-from function object", t.id);
    sim_rec(R_START, t.id, 0, 0, 0);
    if (C->profile == PF_SIGNAL) check_mask(t.id);
    switch (s.body) {
    case 1: sim_point(); break;
    case 2: sim_point(); sim_point(); sim_point(); break;
    case 3: sim_sleep(1 * US); break;
    case 4: sim_sleep(1 * MS); break;
    case 5: sim_sleep(20 * MS); break;
    case 6: gul14::sleep(std::chrono::milliseconds(3)); break;
    case 7: sim_sleep(1 * SEC); break;
    case 8: sim_sleep(100 * SEC); break;
    case 9: // stay until shutdown is requested (at most an hour)
        if (pool)
            for (int i = 0; i < 3600; i++) {
                if (pool->is_shutdown_requested()) { sim_rec(R_SHUT_SEEN, t.id, 0, 0, 0); break; }
                sim_sleep(SEC);
            }
        break;
    case 10: std::this_thread::yield(); break;
    default: break;
    }
    if (s.nop) nested_ops(pool, s);
    if (C->side[t.id]) *C->side[t.id] = 1000 + t.id;
    if (C->profile == PF_SIGNAL) check_mask(t.id);
    sim_counter_add(30, 1);
    sim_rec(R_END, t.id, s.thr ? 1 : 0, 0, 0);
    switch (s.thr) {
    case 1: throw std::runtime_error("task " + std::to_string(t.id));
    case 2: throw MyExc{ t.id };
    case 3: throw t.id;
    case 4: throw std::logic_error("task " + std::to_string(t.id));
    case 5: throw std::bad_alloc();
    case 6: throw std::string("a rather long exception payload of task ") + std::to_string(t.id);
    default: break;
    }
}

std::string long_string(int id) { return "result string of task number " + std::to_string(id) + " which does not fit any small buffer"; }

template <int R> struct Result;
template <> struct Result<0> { using T = int; static T make(int id) { return id * 7 + 1; } };
template <> struct Result<1> { using T = void; static void make(int) {} };
template <> struct Result<2> { using T = std::unique_ptr<int>; static T make(int id) { return std::make_unique<int>(id); } };
template <> struct Result<3> { using T = std::string; static T make(int id) { return long_string(id); } };
struct Big { long v[20]; };
template <> struct Result<4> { using T = Big; static T make(int id) { Big b; for (int i = 0; i < 20; i++) b.v[i] = id * 100 + i; return b; } };

template <> struct Result<5> { using T = std::vector<std::string>; static T make(int id) { return T(3, long_string(id)); } };
template <> struct Result<6> { using T = std::shared_ptr<const int>; static T make(int id) { return std::make_shared<const int>(id); } };
bool right(int id, const std::vector<std::string>& v) { return v.size() == 3 && v[0] == long_string(id) && v[1] == v[0] && v[2] == v[0]; }
bool right(int id, const std::shared_ptr<const int>& v) { return v && *v == id && v.use_count() == 1; }
bool right(int id, const int& v) { return v == id * 7 + 1; }
bool right(int id, const std::unique_ptr<int>& v) { return v && *v == id; }
bool right(int id, const std::string& v) { return v == long_string(id); }
bool right(int id, const Big& b) { for (int i = 0; i < 20; i++) if (b.v[i] != id * 100 + i) return false; return true; }

template <int R> struct Fn0 { Tok t; typename Result<R>::T operator()() const { SimNoAllocFaults na; run_body(t, nullptr); return Result<R>::make(t.id); } };
template <int R> struct FnP { Tok t; typename Result<R>::T operator()(ThreadPool& p) const { SimNoAllocFaults na; run_body(t, &p); return Result<R>::make(t.id); } };

struct FnRef { Tok t; int& operator()(ThreadPool& p) const { SimNoAllocFaults na; run_body(t, &p); return C->inst[t.id]; } }; // delivers a reference

// ---------------------------------------------------------------- handles

int side_ok(int id) { return !C->side[id] || *C->side[id] == 1000 + id; }

template <class T, class H> int fetch(H& h, int id, T*) { T v = h.get_result(); if (!right(id, v)) return RES_WRONG; return side_ok(id) ? RES_OK : RES_SIDE_WRONG; }
template <class H> int fetch_ref(H& h, int id) { int& v = h.get_result(); if (&v != &C->inst[id]) return RES_WRONG; return side_ok(id) ? RES_OK : RES_SIDE_WRONG; }
template <class H> int fetch(H& h, int id, void*) { h.get_result(); return side_ok(id) ? RES_OK : RES_SIDE_WRONG; }

template <class T> struct H : HBase {
    ThreadPool::TaskHandle<T> h;
    explicit H(ThreadPool::TaskHandle<T> x) : h(std::move(x)) {}
    void around() // some handles are moved about between calls
    {
        if (C->spec[task].npar % 4 != 3) return;
        ThreadPool::TaskHandle<T> a(std::move(h)), b;
        b = std::move(a);
        h = std::move(b);
    }
    bool cancel() override { around(); return h.cancel(); }
    int state() override { around(); return (int)h.get_state(); }
    bool complete() override { around(); return h.is_complete(); }
    template <class U> int get(U& u, std::true_type) { return fetch_ref(u, task); }
    template <class U> int get(U& u, std::false_type) { return fetch(u, task, (T*)nullptr); }
    int result() override
    {
        const TaskSpec& s = C->spec[task];
        const std::string want = "task " + std::to_string(task);
        around();
        try {
            int r = get(h, std::is_reference<T>());
            return s.thr && r == RES_OK ? RES_WRONG : r;
        }
        catch (const std::runtime_error& e) { return s.thr == 1 && want == e.what() ? (side_ok(task) ? RES_EXC_RIGHT : RES_SIDE_WRONG) : RES_EXC_WRONG; }
        catch (const MyExc& e) { return s.thr == 2 && e.id == task ? RES_EXC_RIGHT : RES_EXC_WRONG; }
        catch (int e) { return s.thr == 3 && e == task ? RES_EXC_RIGHT : RES_EXC_WRONG; }
        catch (const std::logic_error& e) { return s.thr == 4 && want == e.what() ? RES_EXC_RIGHT : RES_LOGIC; }
        catch (const std::bad_alloc&) { return s.thr == 5 ? RES_EXC_RIGHT : RES_BADALLOC; }
        catch (const std::string& e) { return s.thr == 6 && e == "a rather long exception payload of task " + std::to_string(task) ? RES_EXC_RIGHT : RES_EXC_WRONG; }
        catch (...) { return RES_OTHER; }
    }
};

template <class T> std::unique_ptr<HBase> wrap(ThreadPool::TaskHandle<T> h, int id)
{
    void* mem;
    { SimHarness hs; mem = ::operator new(sizeof(H<T>)); } // the wrapper object is ours
    std::unique_ptr<HBase> p(new (mem) H<T>(std::move(h)));
    p->task = id;
    return p;
}

// ---------------------------------------------------------------- operations

struct TimeSpec { int kind; int64_t v; }; // kind 0 none, 1 absolute, 2 delay
TimeSpec time_spec(int i)
{
    switch (i) {
    case 1: return { 1, 1 * SEC };                 // long ago
    case 2: return { 1, sim_real() - SEC };
    case 3: return { 1, sim_real() };
    case 4: return { 2, 0 };
    case 5: return { 2, 1 * US };
    case 6: return { 2, 1 * MS };
    case 7: return { 2, 10 * MS };
    case 8: return { 2, 1 * SEC };
    case 9: return { 1, sim_real() + 10 * MS };
    case 10: return { 1, sim_real() + 1 * SEC };
    case 11: return { 2, 60 * SEC };
    case 12: return { 1, sim_real() + HOUR };
    case 13: return { 2, 24 * HOUR };
    case 14: return { 2, -5 * SEC };
    case 15: return { 1, INT64_MAX };              // TimePoint::max()
    case 16: return { 1, INT64_MIN };              // TimePoint::min()
    case 17: return { 2, 3 * SEC };
    case 18: return { 2, 2 * MS };
    case 19: return { 2, 24 * 40 * HOUR };
    case 20: return { 2, 24 * 400 * HOUR };
    case 21: return { 1, sim_real() + 24 * 3650 * HOUR };
    default: return { 0, 0 };
    }
}

std::string make_name(const TaskSpec& s)
{
    switch (s.name) {
    case 0: return {};
    case 1: return "t" + std::to_string(s.id);
    case 2: return "a long task name that is not stored in place #" + std::to_string(s.id);
    case 3: return "same";
    default: return std::string(1, 'x');
    }
}

template <class F> auto add_with(ThreadPool& p, F f, const TimeSpec& ts, const TaskSpec& s, bool named)
{
    const auto tp = ThreadPool::TimePoint(ThreadPool::Duration(ts.v));
    const auto du = ThreadPool::Duration(ts.v);
    switch (ts.kind) {
    case 1: return named ? p.add_task(std::move(f), tp, make_name(s)) : p.add_task(std::move(f), tp);
    case 2: return named ? p.add_task(std::move(f), du, make_name(s)) : p.add_task(std::move(f), du);
    default: return named ? p.add_task(std::move(f), make_name(s)) : p.add_task(std::move(f));
    }
}

std::unique_ptr<HBase> add_other(ThreadPool& p, const TaskSpec& s, const TimeSpec& ts)
{
    const bool named = s.name != 0;
    switch (s.overload / 2) {
    case 1: { const Fn0<0> f{ Tok(s.id) }; return wrap(add_with(p, f, ts, s, named), s.id); }                                        // copied
    case 2: { const FnP<0> f{ Tok(s.id) }; return wrap(add_with(p, f, ts, s, named), s.id); }
    case 3: { std::function<int(ThreadPool&)> f = FnP<0>{ Tok(s.id) }; return wrap(add_with(p, std::move(f), ts, s, named), s.id); }
    case 4: { std::function<int()> f = Fn0<0>{ Tok(s.id) }; return wrap(add_with(p, f, ts, s, named), s.id); }
    default: return wrap(add_with(p, FnRef{ Tok(s.id) }, ts, s, named), s.id);
    }
}

template <int R> std::unique_ptr<HBase> add_typed(ThreadPool& p, const TaskSpec& s, const TimeSpec& ts)
{
    const bool named = s.name != 0;
    if (s.overload & 1) return wrap(add_with(p, FnP<R>{ Tok(s.id) }, ts, s, named), s.id);
    return wrap(add_with(p, Fn0<R>{ Tok(s.id) }, ts, s, named), s.id);
}

std::unique_ptr<HBase> do_add(ThreadPool& p, int id, int64_t opid)
{
    TaskSpec& s = C->spec[id];
    TimeSpec ts = time_spec(s.time);
    if (s.name) { SimHarness hs; std::string n = make_name(s); sim_rec_str(R_NAME, id, n.data(), n.size()); }
    s.due_real = ts.kind == 1 ? ts.v : ts.kind == 2 ? sim_real() + ts.v : INT64_MIN;
    sim_rec(R_ADD_INV, id, ts.kind, ts.v, opid);
    std::unique_ptr<HBase> h;
    int res = 1;
    try {
        if (s.overload > 1 && s.rtype == 0) h = add_other(p, s, ts);
        else switch (s.rtype) {
        case 1: h = add_typed<1>(p, s, ts); break;
        case 5: h = add_typed<5>(p, s, ts); break;
        case 6: h = add_typed<6>(p, s, ts); break;
        case 2: h = add_typed<2>(p, s, ts); break;
        case 3: h = add_typed<3>(p, s, ts); break;
        case 4: h = add_typed<4>(p, s, ts); break;
        default: h = add_typed<0>(p, s, ts); break;
        }
    }
    catch (const std::runtime_error&) { res = 0; }
    catch (const std::bad_alloc&) { res = 2; }
    catch (...) { res = 3; }
    if (res == 1 && ts.kind == 2 && sim_real() + ts.v > s.due_real) s.due_real = sim_real() + ts.v; // later bound
    sim_rec(R_ADD_RET, id, res, 0, opid);
    return h;
}

template <class F> void record(int op, int task, F f)
{
    const int64_t id = sim_counter_add(1, 1);
    sim_rec(R_INV, id, op, task, 0);
    int64_t r = -1;
    int x = X_NONE;
    try { r = f(id); }
    catch (const std::logic_error&) { x = X_LOGIC; }
    catch (const std::bad_alloc&) { x = X_BADALLOC; }
    catch (...) { x = X_OTHER; }
    sim_rec(R_RET, id, r, x, task);
}

void rec_names(int64_t id, const std::vector<std::string>& v)
{
    SimHarness hs;
    std::string s;
    for (auto& n : v) { s += n; s += '\n'; }
    sim_rec_str(R_NAMES, id, s.data(), s.size());
}

void pool_query(ThreadPool& p, int op)
{
    switch (op) {
    case OP_CANCEL_ALL: { SimNoAllocFaults na; record(op, -1, [&](int64_t) { return (int64_t)p.cancel_pending_tasks(); }); break; }
    case OP_COUNT: record(op, -1, [&](int64_t) { return (int64_t)p.count_pending(); }); break;
    case OP_FULL: record(op, -1, [&](int64_t) { return (int64_t)p.is_full(); }); break;
    case OP_IDLE: record(op, -1, [&](int64_t) { return (int64_t)p.is_idle(); }); break;
    case OP_PNAMES: record(op, -1, [&](int64_t id) { auto v = p.get_pending_task_names(); rec_names(id, v); return (int64_t)v.size(); }); break;
    case OP_RNAMES: record(op, -1, [&](int64_t id) { auto v = p.get_running_task_names(); rec_names(id, v); return (int64_t)v.size(); }); break;
    case OP_SHUT: record(op, -1, [&](int64_t) { return (int64_t)p.is_shutdown_requested(); }); break;
    case OP_CONST: record(op, -1, [&](int64_t) { return (int64_t)(p.capacity() * 1000 + p.count_threads()); }); break;
    default: break;
    }
}

void nested_ops(ThreadPool* pool, const TaskSpec& s)
{
    ThreadPool* p = pool ? pool : C->raw;
    if (!p) return;
    if (s.nop == OP_ADD) {
        for (int k = 0; k <= s.npar % 2; k++) {
            int id;
            { SimHarness hs; if (C->ntask >= MAXTASK) return; id = C->ntask++; C->spec[id] = TaskSpec(); C->spec[id].id = id; C->spec[id].time = s.npar % 5 == 4 ? 6 : 0; C->spec[id].name = s.npar % 3; C->spec[id].overload = s.npar & 1; }
            auto h = do_add(*p, id, 0);
            // Only where the pool outlives its tasks for sure: a handle must not be the last owner of the pool inside a task.
            if (h && (C->profile == PF_REENTRANT || C->profile == PF_ONCE || C->profile == PF_CAPACITY || C->profile == PF_FIFO || C->profile == PF_PROGRESS)) {
                HBase* hp = h.get();
                switch (s.nh) {
                case 1: record(OP_CANCEL, id, [&](int64_t) { return (int64_t)hp->cancel(); }); break;
                case 2: record(OP_STATE, id, [&](int64_t) { return (int64_t)hp->state(); }); record(OP_COMPLETE, id, [&](int64_t) { return (int64_t)hp->complete(); }); break;
                case 3: if (s.npar & 4) { record(OP_COMPLETE, id, [&](int64_t) { return (int64_t)hp->complete(); }); record(OP_CANCEL, id, [&](int64_t) { return (int64_t)hp->cancel(); }); } break;
                default: break;
                }
            }
            h.reset(); // may destroy the function object: not harness code
        }
    } else
        pool_query(*p, s.nop);
}

void dtor_hook(int id)
{
    ThreadPool* p = C->raw;
    if (!p) return;
    switch (id % 5) {
    case 0: (void)p->count_pending(); break;
    case 1: (void)p->is_idle(); break;
    case 2: { // another thread must be able to use the pool while we are in here
        sim_counter_add(20, 1);
        sim_set_flag(5000 + id);
        sim_set_flag(4999);
        bool ok = !sim_flag(4998);
        for (int i = 0; i < 25 && !ok; i++) ok = sim_wait_flag(6000 + id, 100 * SEC); // more rounds than faults in a run
        if (!ok) sim_fail("pool-blocked-during-user-code", "no other thread could use the pool while the destructor of function object %d was running", id);
        break;
    }
    case 3: if (!p->is_full()) { int n; { SimHarness hs; if (C->ntask >= MAXTASK) return; n = C->ntask++; C->spec[n] = TaskSpec(); C->spec[n].id = n; } auto h = do_add(*p, n, 0); h.reset(); } break;
    default: (void)p->get_running_task_names(); break;
    }
}

void exec(Client& c, const OpSpec& o)
{
    auto target = [&]() -> HBase* {
        // the a-th last handle of this client
        const int n = (int)c.handles.size();
        if (n == 0) return nullptr;
        return c.handles[n - 1 - o.a % n].get();
    };
    switch (o.op) {
    case OP_ADD:
        if (!c.pool) break;
        for (int k = 0; k < o.rep; k++) {
            int id;
            { SimHarness hs; if (C->ntask >= MAXTASK) return; id = C->ntask++; C->spec[id] = o.t; C->spec[id].id = id; }
            auto h = do_add(*c.pool, id, 0);
            SimHarness hs;
            if (h) c.handles.push_back(std::move(h));
        }
        break;
    case OP_CANCEL: if (HBase* h = target()) { SimNoAllocFaults na; record(o.op, h->task, [&](int64_t) { return (int64_t)h->cancel(); }); } break;
    case OP_STATE: if (HBase* h = target()) record(o.op, h->task, [&](int64_t) { return (int64_t)h->state(); }); break;
    case OP_COMPLETE: if (HBase* h = target()) record(o.op, h->task, [&](int64_t) { return (int64_t)h->complete(); }); break;
    case OP_RESULT:
        if (HBase* h = target()) {
            if (C->spec[h->task].time == 15) break; // would block for ever by definition
            record(o.op, h->task, [&](int64_t) { return (int64_t)h->result(); });
        }
        break;
    case OP_DROP: // throw a handle away
        if (!c.handles.empty()) { const size_t i = c.handles.size() - 1 - o.a % c.handles.size(); auto h = std::move(c.handles[i]); { SimHarness hs; c.handles.erase(c.handles.begin() + i); } h.reset(); }
        break;
    case OP_SLEEP: { static const int64_t d[] = { 1 * US, 100 * US, 1 * MS, 11 * MS, 1 * SEC, 61 * SEC }; sim_sleep(d[o.a % 6]); break; }
    case OP_POINT: sim_point(); break;
    case OP_JUMP: { static const int64_t d[] = { SEC, -SEC, 61 * SEC, -HOUR, HOUR, 9 * MS, -9 * MS, 25 * HOUR }; sim_clock_jump(d[o.a % 8]); sim_count_fault(EK_JUMP); break; }
    case OP_RELEASE:
        if (c.pool) { sim_rec(R_DTOR_INV, c.id, 0, 0, 0); c.pool.reset(); sim_rec(R_DTOR_RET, c.id, sim_live_threads(), 0, 0); }
        break;
    default: if (c.pool) pool_query(*c.pool, o.op); break;
    }
}

// ---------------------------------------------------------------- profiles

struct Prof {
    int id, max_threads, max_clients, max_ops, max_rep;
    std::vector<int> ops, times, bodies, nested, caps;
    int rtypes, throws, names;
};

std::vector<int> rep(std::initializer_list<std::pair<int, int>> l)
{
    std::vector<int> v;
    v.push_back(0);
    for (auto& p : l) for (int i = 0; i < p.second; i++) v.push_back(p.first);
    return v;
}

Prof profile(int id)
{
    Prof p{ id, 3, 3, 6, 1, rep({ { OP_ADD, 10 }, { OP_SLEEP, 2 }, { OP_POINT, 1 } }), { 0 }, { 0, 1, 3, 4, 5 }, { 0 }, { 200 }, 7, 1, 5 };
    switch (id) {
    case PF_ONCE:
        p.max_threads = 4; p.max_ops = 7; p.max_rep = 4;
        p.ops = rep({ { OP_ADD, 10 }, { OP_CANCEL, 3 }, { OP_CANCEL_ALL, 1 }, { OP_SLEEP, 3 }, { OP_POINT, 1 }, { OP_DROP, 1 }, { OP_JUMP, 1 }, { OP_COUNT, 1 } });
        p.times = { 0, 0, 0, 0, 2, 4, 5, 6, 7, 8, 9, 11, 12, 14, 16, 19, 20 };
        p.bodies = { 0, 0, 1, 2, 3, 4, 5, 6, 10 };
        p.nested = { 0, 0, 0, 0, OP_ADD };
        p.caps = { 200, 200, 1, 2, 3, 5 };
        p.throws = 7;
        break;
    case PF_FIFO:
        p.max_threads = 3; p.max_ops = 8; p.max_rep = 5;
        p.ops = rep({ { OP_ADD, 10 }, { OP_CANCEL, 2 }, { OP_SLEEP, 3 }, { OP_POINT, 1 }, { OP_PNAMES, 2 }, { OP_STATE, 2 } });
        p.times = { 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 14, 16, 18 };
        p.bodies = { 0, 0, 1, 2, 3, 4, 5 };
        p.nested = { 0, 0, 0, OP_PNAMES, OP_PNAMES, OP_ADD };
        p.names = 2;
        break;
    case PF_EARLY:
        p.ops = rep({ { OP_ADD, 10 }, { OP_SLEEP, 3 }, { OP_JUMP, 3 }, { OP_CANCEL, 1 }, { OP_CANCEL_ALL, 1 } });
        p.times = { 0, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 3, 4, 19, 20, 21 };
        p.nested = { 0, 0, 0, OP_ADD };
        break;
    case PF_PROGRESS:
        p.max_threads = 4; p.max_ops = 7; p.max_rep = 4;
        p.ops = rep({ { OP_ADD, 12 }, { OP_SLEEP, 3 }, { OP_POINT, 1 }, { OP_CANCEL, 2 }, { OP_CANCEL_ALL, 1 } });
        p.times = { 0, 0, 0, 5, 6, 7, 8, 9, 10, 11, 12, 17, 18, 19, 21 };
        p.bodies = { 0, 1, 3, 4, 7, 8, 8 };
        p.nested = { 0, 0, 0, OP_ADD };
        break;
    case PF_CAPACITY:
        p.max_threads = 2; p.max_ops = 6; p.max_rep = 3;
        p.ops = rep({ { OP_ADD, 10 }, { OP_COUNT, 3 }, { OP_FULL, 3 }, { OP_CANCEL, 2 }, { OP_CANCEL_ALL, 1 }, { OP_SLEEP, 2 }, { OP_CONST, 1 } });
        p.times = { 0, 0, 7, 11, 6 };
        p.bodies = { 0, 0, 1, 1, 3, 3, 4, 4, 5, 5, 7 };
        p.caps = { 1, 1, 2, 3, 4, 6 };
        p.nested = { 0, 0, OP_ADD, OP_FULL, OP_COUNT };
        break;
    case PF_RESULT:
        p.max_ops = 6; p.max_rep = 2;
        p.ops = rep({ { OP_ADD, 8 }, { OP_RESULT, 6 }, { OP_COMPLETE, 1 }, { OP_SLEEP, 1 }, { OP_DROP, 1 } });
        p.times = { 0, 0, 0, 5, 6, 7 };
        p.throws = 7;
        break;
    case PF_STATUS:
        p.max_threads = 2; p.max_clients = 3; p.max_ops = 6;
        p.ops = rep({ { OP_ADD, 8 }, { OP_STATE, 5 }, { OP_COMPLETE, 3 }, { OP_COUNT, 2 }, { OP_IDLE, 3 }, { OP_PNAMES, 2 }, { OP_RNAMES, 3 }, { OP_CANCEL, 2 }, { OP_CANCEL_ALL, 2 }, { OP_RESULT, 2 }, { OP_SLEEP, 2 }, { OP_SHUT, 1 } });
        p.times = { 0, 0, 0, 6, 7, 11 };
        p.nested = { 0, 0, OP_IDLE, OP_RNAMES, OP_PNAMES, OP_COUNT };
        p.bodies = { 0, 0, 1, 1, 3, 3, 4, 4, 5, 5, 7 };
        p.throws = 3;
        break;
    case PF_CANCEL:
        p.max_threads = 2; p.max_ops = 6;
        p.ops = rep({ { OP_ADD, 8 }, { OP_CANCEL, 7 }, { OP_CANCEL_ALL, 3 }, { OP_RESULT, 2 }, { OP_SLEEP, 2 }, { OP_POINT, 1 } });
        p.times = { 0, 0, 0, 5, 6, 7, 11, 12 };
        p.bodies = { 0, 0, 1, 1, 3, 3, 4, 4, 5, 5, 7 };
        p.throws = 3;
        p.nested = { 0, 0, 0, OP_CANCEL_ALL };
        break;
    case PF_SHUTDOWN:
        p.max_threads = 4; p.max_ops = 6; p.max_rep = 3;
        p.ops = rep({ { OP_ADD, 8 }, { OP_SLEEP, 3 }, { OP_POINT, 2 }, { OP_RELEASE, 2 } });
        p.times = { 0, 0, 0, 6, 7, 8, 12, 13, 15, 20 };
        p.bodies = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 9 };
        p.nested = { 0, 0, 0, OP_SHUT, OP_COUNT, OP_ADD };
        break;
    case PF_HANDLES:
        p.max_threads = 2; p.max_ops = 7;
        p.ops = rep({ { OP_ADD, 5 }, { OP_STATE, 3 }, { OP_COMPLETE, 2 }, { OP_CANCEL, 3 }, { OP_RESULT, 3 }, { OP_RELEASE, 3 }, { OP_SLEEP, 2 }, { OP_POINT, 1 } });
        p.times = { 0, 0, 0, 6, 7, 12 };
        p.throws = 3;
        break;
    case PF_RACE:
        p.max_threads = 3; p.max_ops = 6; p.max_rep = 2;
        p.ops = rep({ { OP_ADD, 8 }, { OP_STATE, 2 }, { OP_COMPLETE, 2 }, { OP_COUNT, 1 }, { OP_FULL, 1 }, { OP_IDLE, 1 }, { OP_PNAMES, 2 }, { OP_RNAMES, 2 }, { OP_CANCEL, 2 }, { OP_CANCEL_ALL, 1 }, { OP_RESULT, 2 }, { OP_SHUT, 1 }, { OP_CONST, 1 }, { OP_SLEEP, 2 }, { OP_RELEASE, 1 }, { OP_DROP, 1 } });
        p.times = { 0, 0, 0, 0, 5, 6, 7, 9 };
        p.nested = { 0, 0, OP_ADD, OP_COUNT, OP_PNAMES, OP_RNAMES, OP_IDLE, OP_SHUT, OP_CANCEL_ALL, OP_FULL, OP_CONST };
        p.caps = { 200, 2, 4 };
        p.throws = 7;
        break;
    case PF_REENTRANT:
        p.max_threads = 3; p.max_ops = 6;
        p.ops = rep({ { OP_ADD, 10 }, { OP_CANCEL, 3 }, { OP_CANCEL_ALL, 2 }, { OP_SLEEP, 2 }, { OP_COUNT, 1 }, { OP_STATE, 1 } });
        p.times = { 0, 0, 0, 6, 7, 11 };
        p.nested = { 0, OP_ADD, OP_ADD, OP_COUNT, OP_PNAMES, OP_RNAMES, OP_IDLE, OP_SHUT, OP_CANCEL_ALL, OP_FULL, OP_CONST };
        p.caps = { 200, 3 };
        break;
    case PF_RESOURCE: case PF_ONCEMEM:
        p.max_threads = 4; p.max_ops = 6;
        p.ops = rep({ { OP_ADD, 10 }, { OP_CANCEL, 1 }, { OP_PNAMES, 1 }, { OP_RNAMES, 1 }, { OP_COUNT, 1 }, { OP_STATE, 1 }, { OP_SLEEP, 2 }, { OP_CANCEL_ALL, 1 } });
        p.times = { 0, 0, 0, 6, 7 };
        p.bodies = { 0, 1, 3, 4 };
        p.caps = { 200, 200, 2 };
        break;
    case PF_SIGNAL:
        p.max_threads = 4; p.max_clients = 2; p.max_rep = 4;
        p.times = { 0, 0, 0, 6 };
        p.bodies = { 0, 1, 4 };
        p.throws = 3;
        break;
    default: break;
    }
    return p;
}

int pickv(const std::vector<int>& v) { return v[sim_gen(v.size())]; }

OpSpec gen_op(const Prof& p)
{
    OpSpec o;
    o.op = pickv(p.ops);
    o.a = (int)sim_gen(24);
    o.t.overload = (int)sim_gen(2);
    const int other = (int)sim_gen(6);
    o.t.time = pickv(p.times);
    o.t.name = (int)sim_gen(p.names);
    o.t.body = pickv(p.bodies);
    o.t.rtype = (int)sim_gen(p.rtypes);
    int th = (int)sim_gen(2 * p.throws);
    o.t.thr = p.throws > 1 && th < p.throws ? th : 0;
    int nn = pickv(p.nested);
    o.t.nop = sim_gen(2) ? nn : 0;
    o.t.npar = (int)sim_gen(12);
    o.rep = 1 + (int)sim_gen(p.max_rep);
    if (o.t.body == 9) o.t.overload = 1;
    if (o.t.nop) o.t.overload = 1;
    else if (o.t.body != 9) o.t.overload += 2 * other; // only used with int results
    o.t.nh = (int)sim_gen(4);
    return o;
}

// Most runs are small; some use many workers, large queues or long bursts of tasks.
void size_up(Prof& p, int& fill)
{
    static const int caps[] = { 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200 };
    switch (sim_gen(24)) {
    case 18: case 19: case 20: case 21: // more workers
        C->threads = 1 + (int)sim_gen(8);
        if (p.max_rep < 3) p.max_rep = 3;
        break;
    case 22: { // large queue, filled
        const int c = caps[sim_gen(20)];
        if (C->capacity != 200) C->capacity = (size_t)c;
        fill = c - 3 + (int)sim_gen(C->threads + 6);
        break;
    }
    case 23: // many workers
        C->threads = 1 + (int)sim_gen(C->profile == PF_RESOURCE || C->profile == PF_ONCEMEM ? 10 : 40); // failed constructions use up simulated threads
        fill = (int)sim_gen(2 * C->threads);
        if (p.max_rep < 8) p.max_rep = 8;
        break;
    default: break;
    }
    if (fill < 0) fill = 0;
}

void client_main(Client* c)
{
    if (C->profile == PF_RESOURCE || C->profile == PF_ONCEMEM) { sim_alloc_faults(1); t_move_may_fail = true; }
    for (auto& o : c->ops) exec(*c, o);
    sim_alloc_faults(0);
    t_move_may_fail = false;
}

// After all clients are done and disturbances have stopped: quiescent checkpoints around
// every due time (for the progress property).
void checkpoints(const std::vector<int64_t>& dues)
{
    sim_quiesce();
    sim_rec(R_CHECK, 0, 0, 0, 0);
    sim_sleep(2 * SEC);
    sim_quiesce();
    sim_rec(R_CHECK, 0, 0, 0, 0);
    for (int64_t d : dues) {
        const int64_t now = sim_real();
        if (d > now) sim_sleep(d - now + 1 * MS);
        sim_quiesce();
        sim_rec(R_CHECK, 0, 0, 0, 0);
        sim_sleep(2 * SEC);
        sim_quiesce();
        sim_rec(R_CHECK, 0, 0, 0, 0);
    }
}

// Pools with illegal arguments cannot be created; a refused creation leaves nothing behind.
void bad_pools(int k)
{
    constexpr size_t mt = ThreadPool::max_threads, mc = ThreadPool::max_capacity;
    static const size_t A[][2] = { { 1, 0 }, { 0, 5 }, { 0, 0 }, { mt + 1, 5 }, { 2, mc + 1 }, { SIZE_MAX, 5 }, { 3, SIZE_MAX } };
    const auto& a = A[(k - 1) % 7];
    const int64_t blocks = sim_live_blocks();
    try {
        gul14::make_thread_pool(a[0], a[1]);
        sim_fail("illegal-pool", "a pool with %zu threads and capacity %zu was created", a[0], a[1]);
    }
    catch (const std::invalid_argument&) {}
    if (sim_live_blocks() != blocks) sim_fail("leak", "refusing to create a pool leaked memory");
    auto big = gul14::make_thread_pool(1, mc); // the largest legal capacity
    if (big->is_full() || big->count_pending()) sim_fail("illegal-pool", "a new pool with maximum capacity is not empty");
}

void pool_run()
{
    const int pf = (int)sim_cfg();
    std::vector<Client> cl;
    Prof p;
    int sigblock = 0, bad_args = 0;
    {
        SimHarness hs;
        C = new Ctx();
        C->profile = pf;
        p = profile(pf);
        C->threads = 1 + (int)sim_gen(p.max_threads);
        C->capacity = (size_t)pickv(p.caps);
        const int n = 1 + (int)sim_gen(p.max_clients);
        int fill = 0;
        size_up(p, fill);
        sigblock = pf == PF_SIGNAL ? (int)sim_gen(256) : 0;
        cl.resize(n);
        for (int i = 0; i < n; i++) {
            cl[i].id = i;
            const int k = (int)sim_gen(p.max_ops) + 1;
            for (int j = 0; j < k; j++) cl[i].ops.push_back(gen_op(p));
            if (i == 0 && fill) { // first fill workers or queue with the same kind of task
                OpSpec o = gen_op(p);
                o.op = OP_ADD;
                o.rep = fill;
                o.t.nop = 0;
                cl[i].ops.insert(cl[i].ops.begin() + (int)sim_gen(cl[i].ops.size() + 1), o);
            }
        }
        if (pf == PF_REENTRANT) C->dtor_calls_pool = true;
        if (pf == PF_CAPACITY && sim_gen(12) == 11) bad_args = 1 + (int)sim_gen(7);
        sim_rec(R_CFG, C->threads, (int64_t)C->capacity, pf, 0);
    }
    const int64_t base_blocks = sim_live_blocks();
    if (pf == PF_RACE || pf == PF_RESULT)
        for (int i = 0; i < 40; i++) { SimHarness hs; C->side[i] = new int(0); }

    sigset_t oldmask;
    if (pf == PF_SIGNAL) { // the creating thread's own mask varies; workers must not depend on it
        sigset_t m;
        sigemptyset(&m);
        static const int sigs[] = { SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1, SIGUSR2, SIGHUP };
        for (int i = 0; i < 8; i++) if (sigblock & (1 << i)) sigaddset(&m, sigs[i]);
        pthread_sigmask(SIG_SETMASK, &m, &oldmask);
    }

    std::shared_ptr<ThreadPool> pool;
    if (pf == PF_RESOURCE) {
        for (int attempt = 0; attempt < 4 && !pool; attempt++) {
            if (attempt == 3) sim_faults(0);
            const int64_t before = sim_live_blocks();
            const uint64_t nf = sim_faults_injected();
            sim_alloc_faults(1);
            try { pool = gul14::make_thread_pool(C->threads, C->capacity); }
            catch (const std::bad_alloc&) { sim_probe(1); }
            catch (const std::system_error&) { sim_probe(2); }
            sim_alloc_faults(0);
            if (!pool) {
                if (sim_faults_injected() == nf) sim_fail("construction-failed", "pool construction threw although nothing failed");
                if (sim_live_threads() != 1) sim_fail("thread-leak", "failed pool construction left %d worker threads behind", sim_live_threads() - 1);
                if (sim_live_blocks() != before) sim_fail("leak", "failed pool construction leaked %lld blocks", (long long)(sim_live_blocks() - before));
            }
        }
        if (!pool) sim_fail("construction-failed", "pool construction fails although nothing fails any more");
    } else {
        if (bad_args) bad_pools(bad_args);
        pool = gul14::make_thread_pool(C->threads, C->capacity);
    }

    if (pool->count_threads() != (size_t)C->threads) sim_fail("wrong-thread-count", "count_threads() is wrong");
    if (pool->capacity() != C->capacity) sim_fail("wrong-capacity", "capacity() is wrong");
    C->raw = pool.get();
    for (auto& c : cl) c.pool = pool;
    const bool early_release = pf == PF_SHUTDOWN || pf == PF_HANDLES || pf == PF_RACE;
    std::weak_ptr<ThreadPool> weak = pool;
    if (early_release) pool.reset();

    std::vector<std::thread> th;
    { SimHarness hs; th.reserve(16); }
    for (size_t i = 1; i < cl.size(); i++) th.emplace_back(client_main, &cl[i]);

    std::thread watcher;
    if (pf == PF_REENTRANT) {
        // Uses the pool whenever the destructor of a function object asks for it.
        sim_set_flag(4998);
        ThreadPool* raw = pool.get();
        watcher = std::thread([raw] {
            for (int i = 0; !sim_flag(4997); i++) {
                bool any = false;
                for (int id = 2; id < MAXTASK; id += 5)
                    if (sim_flag(5000 + id) && !sim_flag(6000 + id)) { (void)raw->count_pending(); sim_set_flag(6000 + id); any = true; }
                if (!any && !sim_flag(4997)) { if (i < 50) sim_sleep(10 * MS); else sim_sleep(5 * SEC); }
            }
        });
    }

    client_main(&cl[0]);
    for (auto& t : th) t.join();
    sim_rec(R_FAULTS_OFF, 0, 0, 0, 0);
    sim_faults(0);

    if (early_release) {
        for (auto& c : cl)
            if (c.pool) { sim_rec(R_DTOR_INV, c.id, 0, 0, 0); c.pool.reset(); sim_rec(R_DTOR_RET, c.id, sim_live_threads(), 0, 0); }
        if (!weak.expired()) sim_fail("pool-not-destroyed", "the pool still exists although all owners released it");
    } else {
        // let everything that can happen happen
        int64_t last = 0, work = 0;
        std::vector<int64_t> dues;
        {
            SimHarness hs;
            static const int64_t dur[] = { 0, 0, 0, US, MS, 20 * MS, 3 * MS, SEC, 100 * SEC, HOUR, 0 };
            for (int i = 0; i < C->ntask; i++) {
                const int64_t d = C->spec[i].due_real;
                if (d != INT64_MAX && d > last) last = d;
                if (d != INT64_MAX && d > sim_real()) dues.push_back(d);
                work += dur[C->spec[i].body];
            }
            for (size_t i = 0; i < dues.size(); i++) for (size_t j = i + 1; j < dues.size(); j++) if (dues[j] < dues[i]) std::swap(dues[i], dues[j]);
        }
        if (pf == PF_PROGRESS) checkpoints(dues);
        const int64_t wait = (last > sim_real() ? last - sim_real() : 0) + work + 60 * SEC;
        sim_sleep(wait);
        for (int64_t before = -1, now; (now = sim_counter_add(30, 0)) != before; before = now) sim_sleep(200 * SEC); // every step takes time, too
        sim_quiesce();
        sim_rec(R_SETTLED, 0, 0, 0, 0);
        // quiescent queries
        for (int op : { OP_COUNT, OP_IDLE, OP_FULL, OP_PNAMES, OP_RNAMES }) pool_query(*pool, op);
        for (auto& c : cl)
            for (auto& h : c.handles) {
                HBase* hp = h.get();
                record(OP_STATE, hp->task, [&](int64_t) { return (int64_t)hp->state(); });
                record(OP_COMPLETE, hp->task, [&](int64_t) { return (int64_t)hp->complete(); });
                if (pf == PF_CANCEL || pf == PF_STATUS || pf == PF_ONCE || pf == PF_RESULT) {
                    bool pending = false;
                    try { pending = hp->state() == (int)TaskState::pending; } catch (...) {}
                    if (!pending) record(OP_RESULT, hp->task, [&](int64_t) { return (int64_t)hp->result(); });
                    record(OP_STATE, hp->task, [&](int64_t) { return (int64_t)hp->state(); });
                    record(OP_COMPLETE, hp->task, [&](int64_t) { return (int64_t)hp->complete(); });
                }
            }
        for (auto& c : cl) c.pool.reset();
        if (pf == PF_REENTRANT) { sim_set_flag(4997); watcher.join(); C->raw = nullptr; }
        sim_rec(R_DTOR_INV, 99, 0, 0, 0);
        pool.reset();
        sim_rec(R_DTOR_RET, 99, sim_live_threads(), 0, 0);
    }
    C->raw = nullptr;
    // handles without a pool
    if (pf == PF_HANDLES || pf == PF_STATUS || pf == PF_CANCEL)
        for (auto& c : cl)
            for (auto& h : c.handles) {
                HBase* hp = h.get();
                record(OP_COMPLETE, hp->task, [&](int64_t) { return (int64_t)hp->complete(); });
                record(OP_STATE, hp->task, [&](int64_t) { return (int64_t)hp->state(); });
                record(OP_CANCEL, hp->task, [&](int64_t) { return (int64_t)hp->cancel(); });
                if (pf == PF_HANDLES) {
                    record(OP_RESULT, hp->task, [&](int64_t) { return (int64_t)hp->result(); });
                    record(OP_COMPLETE, hp->task, [&](int64_t) { return (int64_t)hp->complete(); });
                }
            }
    for (auto& c : cl) while (!c.handles.empty()) { auto h = std::move(c.handles.back()); { SimHarness hs; c.handles.pop_back(); } h.reset(); }
    if (pf == PF_HANDLES) { // a handle that never belonged to a task
        ThreadPool::TaskHandle<int> h;
        auto logic = [&](auto f) { try { f(); } catch (const std::logic_error&) { return true; } catch (...) {} return false; };
        if (h.is_complete()) sim_fail("complete-but-not-run", "a default-constructed handle claims to be complete");
        if (!logic([&] { h.cancel(); }) || !logic([&] { (void)h.get_state(); }) || !logic([&] { (void)h.get_result(); })) sim_fail("handle-wrong-exception", "a default-constructed handle does not throw logic_error");
    }
    weak.reset();
    if (pf == PF_SIGNAL) {
        sigset_t m;
        pthread_sigmask(SIG_SETMASK, &oldmask, &m);
        static const int sigs[] = { SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1, SIGUSR2, SIGHUP };
        for (int i = 0; i < 8; i++)
            if (!!(sigblock & (1 << i)) != !!sigismember(&m, sigs[i])) sim_fail("caller-mask-changed", "the signal mask of the calling thread was changed (signal %d)", sigs[i]);
    }
    { SimHarness hs; th = std::vector<std::thread>(); }
    if (sim_live_threads() != 1) sim_fail("thread-leak", "%d worker threads still exist after the pool was destroyed", sim_live_threads() - 1);
    if (sim_live_blocks() != base_blocks)
        sim_fail("leak", "%lld memory blocks leaked after pool and handles were destroyed", (long long)(sim_live_blocks() - base_blocks));
    { SimHarness hs; cl = std::vector<Client>(); p = Prof(); }
}

// A handle is used inside a task while the owner lets go of the pool.
void pool_selfjoin()
{
    const int n = 1 + (int)sim_gen(2), op = (int)sim_gen(3), pause = (int)sim_gen(3);
    auto pool = gul14::make_thread_pool((size_t)n);
    auto h = std::make_shared<ThreadPool::TaskHandle<void>>(pool->add_task([] {}, std::chrono::hours(1)));
    auto r = pool->add_task([h, op, pause] {
        if (pause) sim_sleep(pause * MS);
        try {
            switch (op) {
            case 0: (void)h->get_state(); break;
            case 1: (void)h->cancel(); break;
            default: (void)h->is_complete(); break;
            }
        }
        catch (const std::logic_error&) {}
    });
    if (pause) sim_sleep(MS);
    sim_point();
    pool.reset();
    if (sim_live_threads() > 1 + n) sim_fail("thread-leak", "too many threads");
    sim_faults(0);
    sim_sleep(10 * SEC);
    if (sim_live_threads() != 1) sim_fail("thread-leak", "%d worker threads still exist after the pool was destroyed", sim_live_threads() - 1);
}

// Long histories: handles keep meaning the same task after very many others.
void pool_many()
{
    static const int N[] = { 3, 60, 254, 255, 256, 257, 300, 513 };
    int n = N[sim_gen(8)];
    if (sim_gen(400) == 399) n = 65534 + (int)sim_gen(4), sim_step_limit(400000000);
    const int F = n > 1000 ? 1000 : 1; // every step takes time: long histories need later deadlines
    const int threads = 1 + (int)sim_gen(3);
    const bool busy = sim_gen(2) && threads > 1; // one worker is occupied by an early task
    const int wave = 1 + (int)sim_gen(n > 1000 ? 1000 : 100);
    const int nlate = 1 + (int)sim_gen(3);
    const int order = (int)sim_gen(3);
    const bool drop = sim_gen(2);
    auto pool = gul14::make_thread_pool((size_t)threads, 1000 + 100);
    using Hd = ThreadPool::TaskHandle<int>;
    int ran_early = 0;
    Hd run;
    if (busy) { run = pool->add_task([F] { sim_sleep(F * 200 * HOUR); return 77; }, "busy"); while (run.get_state() == TaskState::pending) sim_sleep(MS); }
    std::vector<Hd> early, late;
    for (int i = 0; i < 2; i++) early.push_back(pool->add_task([&ran_early, i] { ran_early++; return i; }, std::chrono::hours(F * (48 + i)), "early"));
    int64_t sum = 0, want = 0;
    for (int done = 0; done < n;) {
        const int k = std::min(wave, n - done);
        std::vector<Hd> h;
        for (int i = 0; i < k; i++) { const int v = done + i; h.push_back(pool->add_task([v] { return v; })); want += v; }
        for (auto& x : h) sum += x.get_result();
        done += k;
    }
    sim_faults(0);
    if (sum != want) sim_fail("wrong-result", "%d tasks delivered wrong results", n);
    sim_quiesce();
    for (int i = 0; i < nlate; i++) late.push_back(pool->add_task([i] { return 100 + i; }, std::chrono::hours(F * 60), "late"));
    auto all_pending = [&](const char* when) {
        for (auto& h : early) if (h.get_state() != TaskState::pending) sim_fail("wrong-state", "%s, after %d other tasks: an early task is in state %d instead of pending", when, n, (int)h.get_state());
        for (auto& h : late) if (h.get_state() != TaskState::pending || h.is_complete()) sim_fail("wrong-state", "%s, after %d other tasks: a late task is in state %d instead of pending", when, n, (int)h.get_state());
        if (busy && run.get_state() != TaskState::running) sim_fail("wrong-state", "%s, after %d other tasks: a running task is in state %d", when, n, (int)run.get_state());
        if (pool->count_pending() != early.size() + late.size()) sim_fail("wrong-count", "%s, after %d other tasks: %zu tasks pending, expected %zu", when, n, pool->count_pending(), early.size() + late.size());
    };
    all_pending("with all tasks queued");
    auto cancel_one = [&](std::vector<Hd>& v, const char* what) {
        if (v.empty()) return;
        Hd h = std::move(v.back());
        v.pop_back();
        if (!h.cancel()) sim_fail("cancel-failed", "after %d other tasks: cancelling a waiting task failed", n);
        if (h.get_state() != TaskState::canceled || h.is_complete()) sim_fail("wrong-state", "a cancelled task is not reported as cancelled");
        if (h.cancel()) sim_fail("cancel-twice", "a task could be cancelled twice");
        all_pending(what);
    };
    for (int i = 0; i < 2; i++) {
        if (order != 1) cancel_one(late, "after cancelling a late task");
        if (order != 0) cancel_one(early, "after cancelling an early task");
    }
    const size_t rest = early.size() + late.size(), eleft = early.size();
    if (drop) { if (pool->cancel_pending_tasks() != rest) sim_fail("wrong-count", "cancel_pending_tasks() does not report %zu tasks", rest); if (ran_early) sim_fail("unexpected-run", "an early task ran too soon"); }
    else {
        for (size_t i = 0; i < early.size(); i++) if (early[i].get_result() != (int)i) sim_fail("wrong-result", "wrong result of an early task");
        for (size_t i = 0; i < late.size(); i++) if (late[i].get_result() != 100 + (int)i) sim_fail("wrong-result", "wrong result of a late task");
        if (ran_early != (int)eleft) sim_fail("not-once", "%d early tasks ran, expected %zu", ran_early, eleft);
    }
    if (busy && run.get_result() != 77) sim_fail("wrong-result", "wrong result of the long-running task");
}

// The parts working together: tasks that wait on a trigger, sleep, measure time, guard their scope and resubmit
// themselves; the trigger is set, results are collected or the pool is destroyed.
struct SysTask { int kind = 0, dur = 0, delay = 0; };
struct SysSlot { int left = 0, rounds = 0; };
struct SysError : std::runtime_error { using std::runtime_error::runtime_error; int code = 0; };

struct SysChain {
    gul14::Trigger* stop;
    SysSlot* slot;
    int64_t d;
    void operator()(ThreadPool& p) const
    {
        slot->rounds++;
        if (*stop || slot->rounds > 12 || p.is_shutdown_requested()) return;
        p.add_task(SysChain(*this), std::chrono::nanoseconds(d), "chain");
    }
};

void pool_system()
{
    static const int64_t D[] = { 0, 1000, MS, 20 * MS, SEC, 5 * SEC, 40 * SEC, HOUR, 30 * 24 * HOUR };
    static const int64_t DELAY[] = { 0, 0, 1000, MS, SEC, 3 * SEC };
    const size_t threads = 1 + sim_gen(4);
    const int n = 1 + (int)sim_gen(8);
    std::vector<SysTask> spec((size_t)n);
    for (auto& t : spec) { t.kind = (int)sim_gen(6); t.dur = (int)sim_gen(9); t.delay = (int)sim_gen(6); }
    const int64_t nap = DELAY[sim_gen(6)];
    const int how = (int)sim_gen(4), finish = (int)sim_gen(3), extra = (int)sim_gen(3);
    const int64_t blocks = sim_live_blocks();
    {
        auto stop = std::make_unique<gul14::Trigger>();
        gul14::Trigger* const st = stop.get();
        std::vector<SysSlot> slot((size_t)n);
        auto pool = gul14::make_thread_pool(threads, 40);
        using Hd = ThreadPool::TaskHandle<int>;
        std::vector<Hd> h;
        bool lies = false; // written by tasks under a lock of its own
        std::mutex lm;
        auto lie = [&] { std::lock_guard<std::mutex> l(lm); lies = true; };
        for (int i = 0; i < n; i++) {
            SysSlot* const sl = &slot[(size_t)i];
            const auto d = std::chrono::nanoseconds(D[spec[(size_t)i].dur]);
            const auto delay = std::chrono::nanoseconds(DELAY[spec[(size_t)i].delay]);
            switch (spec[(size_t)i].kind) {
            case 0: h.push_back(pool->add_task([st, sl, i] { auto f = gul14::finally([sl] { sl->left++; }); st->wait(); return i; }, delay, "wait")); break;
            case 1: h.push_back(pool->add_task([st, sl, i, d] { auto f = gul14::finally([sl] { sl->left++; }); while (!st->wait_for(std::max(d, std::chrono::nanoseconds(50 * MS)))) sl->rounds++; return i; }, delay)); break;
            case 2: h.push_back(pool->add_task([st, sl, i, d, &lie] {
                    auto f = gul14::finally([sl] { sl->left++; });
                    const auto t0 = gul14::tic();
                    const bool whole = gul14::sleep(d, *st);
                    if (whole ? gul14::toc<std::chrono::nanoseconds>(t0) < d.count() : !*st) lie();
                    return i; }, delay, "sleep")); break;
            case 3: h.push_back(pool->add_task([st, sl, i, d](ThreadPool& p) { auto f = gul14::finally([sl] { sl->left++; }); SysChain{ st, sl, std::max<int64_t>(d.count(), MS) }(p); return i; }, delay)); break;
            case 4: h.push_back(pool->add_task([sl, i]() -> int { auto f = gul14::finally([sl] { sl->left++; }); SysError e("task " + std::to_string(i)); e.code = i; throw e; }, delay)); break;
            default: h.push_back(pool->add_task([st, sl, i, d] { auto f = gul14::finally([sl] { sl->left++; }); return st->wait_until(std::chrono::steady_clock::now() + d) ? i : i + 1000; }, delay)); break;
            }
        }
        if (nap) sim_sleep(nap);
        std::thread other;
        switch (how) {
        case 0: st->trigger(); break;
        case 1: *st = true; break;
        case 2: other = std::thread([st] { gul14::sleep(std::chrono::milliseconds(7)); st->trigger(); }); break;
        default: other = std::thread([st] { st->reset(); *st = true; }); break;
        }
        auto check = [&](int i, bool must) {
            Hd& x = h[(size_t)i];
            const int k = spec[(size_t)i].kind;
            bool ran = true;
            try {
                const int v = x.get_result();
                if (k == 4 || !(v == i || (k == 5 && v == i + 1000))) sim_fail("wrong-result", "task %d (kind %d) delivered %d", i, k, v);
            }
            catch (const SysError& e) { if (k != 4 || e.code != i || e.what() != "task " + std::to_string(i)) sim_fail("wrong-exception", "task %d (kind %d) delivered exception %d", i, k, e.code); }
            catch (const std::logic_error&) { ran = false; if (must) sim_fail("task-lost", "task %d was not executed", i); }
            if (slot[(size_t)i].left != (ran ? 1 : 0)) sim_fail("guard-count", "the scope guard of task %d ran %d times", i, slot[(size_t)i].left);
            if (ran != x.is_complete()) sim_fail("wrong-state", "task %d: wrong completion flag", i);
        };
        if (finish == 0) { // collect everything
            for (int i = 0; i < n; i++) check(i, true);
            if (other.joinable()) other.join();
        }
        else if (finish == 1) { // everything has to come to an end by itself
            if (other.joinable()) other.join();
            sim_faults(0);
            sim_sleep(30 * SEC);
            sim_quiesce();
            for (int i = 0; i < n; i++) if (!h[(size_t)i].is_complete()) sim_fail("not-finished", "task %d (kind %d) has not finished although the trigger is high", i, spec[(size_t)i].kind);
            for (int i = 0; i < n; i++) check(i, true);
        }
        if (extra == 1) pool->cancel_pending_tasks();
        if (extra == 2) pool->add_task([] {}, std::chrono::hours(5));
        pool.reset(); // no call is in progress: this is the last owner
        if (other.joinable()) other.join();
        if (finish == 2) for (int i = 0; i < n; i++) check(i, false);
        if (lies) sim_fail("wrong-sleep", "a sleep gave the wrong answer");
        for (auto& sl : slot) if (sl.left > 1) sim_fail("guard-count", "a scope guard ran %d times", sl.left);
    }
    if (sim_live_blocks() != blocks) sim_fail("leak", "memory leaked");
    if (sim_live_threads() != 1) sim_fail("thread-left", "a thread is left");
}

// Function objects whose destructors use the pool, while memory runs out: wherever a
// submission fails, no function object is destroyed while the pool is locked.
ThreadPool* mem_pool;
std::atomic<int> mem_left;
struct MemFn {
    int* mem;          // runs so far; nullptr after moving
    int* dead;
    bool other;        // another thread uses the pool
    MemFn(int* m, int* d, bool o) : mem(m), dead(d), other(o) { mem_left++; }
    MemFn(MemFn&& o) noexcept : mem(o.mem), dead(o.dead), other(o.other) { o.mem = nullptr; }
    MemFn(const MemFn&) = delete;
    int operator()(ThreadPool& p) const { SimNoAllocFaults na; (void)p.count_pending(); return ++*mem; }
    ~MemFn()
    {
        if (!mem) return;
        SimNoAllocFaults na;
        ++*dead;
        if (ThreadPool* p = mem_pool) {
            const size_t n = p->count_pending();
            if (n > p->capacity()) sim_fail("wrong-count", "more tasks than the capacity");
            if (other) { std::thread t([p] { (void)p->is_full(); (void)p->get_pending_task_names(); }); t.join(); }
        }
        mem_left--;
    }
};
void pool_reentrant_mem()
{
    const int64_t blocks = sim_live_blocks();
    {
        const int cap = 1 + (int)sim_gen(6), threads = 1 + (int)sim_gen(2), nclient = 1 + (int)sim_gen(2);
        auto pool = gul14::make_thread_pool((size_t)threads, (size_t)cap);
        mem_pool = pool.get();
        mem_left = 0;
        struct Slot { int runs = 0, dead = 0, adds = 0; bool ok = false; };
        Slot slot[2][8];
        struct Plan { int how, other, cancel; };
        Plan plan[2][8];
        int n[2];
        for (int c = 0; c < nclient; c++) { n[c] = 1 + (int)sim_gen(8); for (int i = 0; i < n[c]; i++) plan[c][i] = { (int)sim_gen(6), (int)sim_gen(2), (int)sim_gen(8) }; }
        auto client = [&](int c) {
            for (int i = 0; i < n[c]; i++) {
                Slot& s = slot[c][i];
                const Plan& pl = plan[c][i];
                const char* op = "add_task()";
                try {
                    ThreadPool::TaskHandle<int> h;
                    sim_alloc_faults(1);
                    MemFn fn(&s.runs, &s.dead, pl.other != 0);
                    s.adds++;
                    switch (pl.how) {
                    case 0: h = pool->add_task(std::move(fn)); break;
                    case 1: h = pool->add_task(std::move(fn), "a name that is too long for the small string optimisation"); break;
                    case 2: h = pool->add_task(std::move(fn), std::chrono::milliseconds(3)); break;
                    case 3: h = pool->add_task(std::move(fn), std::chrono::hours(1), "late"); break;
                    case 4: h = pool->add_task(std::move(fn), ThreadPool::TimePoint{}, "another name that is too long for the small string optimisation"); break;
                    default: h = pool->add_task([f = std::move(fn)](ThreadPool& p) { return f(p); }); break;
                    }
                    s.ok = true;
                    op = "cancel";
                    sim_alloc_faults(0); // (abandoning a promise needs memory)
                    if (pl.cancel == 0) pool->cancel_pending_tasks(); else if (pl.cancel == 1) h.cancel();
                }
                catch (const std::bad_alloc&) { sim_alloc_faults(0); sim_probe(1); }
                catch (const std::runtime_error&) { sim_alloc_faults(0); if (s.ok) sim_fail("wrong-exception", "%s threw runtime_error", op); }
                if (s.adds && !s.ok && (s.runs || s.dead != 1)) sim_fail("wrong-life", "after a failed add_task(), the function ran %d times and was destroyed %d times", s.runs, s.dead);
            }
        };
        std::thread t;
        if (nclient == 2) t = std::thread(client, 1);
        client(0);
        if (t.joinable()) t.join();
        sim_faults(0);
        sim_sleep(10 * MS);
        pool->cancel_pending_tasks();
        for (int i = 0; !pool->is_idle(); i++) { if (i > 1000) sim_fail("not-idle", "the pool does not become idle"); sim_sleep(1 * MS); }
        for (int i = 0; mem_left != 0; i++) { if (i > 1000) sim_fail("function-object-leak", "%d function objects are still alive in an idle pool", mem_left.load()); sim_sleep(1 * MS); }
        for (int c = 0; c < nclient; c++) for (int i = 0; i < n[c]; i++) {
            const Slot& s = slot[c][i];
            if (s.runs > 1 || s.dead != s.adds || (!s.ok && s.runs)) sim_fail("wrong-life", "a function ran %d times and was destroyed %d times", s.runs, s.dead);
        }
        mem_pool = nullptr;
    }
    if (sim_live_blocks() != blocks) sim_fail("leak", "memory leaked");
}

constexpr unsigned FM_SCHED = FM_SPUR | FM_SKIP | FM_STALL | FM_WAKE;
SimScenario scens[] = {
    { "pool_once", pool_run, FM_SCHED | FM_JUMP | FM_EINTR, 0, PF_ONCE, "pool_once" },
    { "pool_fifo", pool_run, FM_SCHED, 0, PF_FIFO, "pool_fifo" },
    { "pool_early", pool_run, FM_SCHED | FM_JUMP, 0, PF_EARLY, "pool_early" },
    { "pool_progress", pool_run, FM_SCHED, 0, PF_PROGRESS, "pool_progress" },
    { "pool_capacity", pool_run, FM_SCHED, 0, PF_CAPACITY, "pool_capacity" },
    { "pool_result", pool_run, FM_SCHED, 1, PF_RESULT, "pool_result" },
    { "pool_status", pool_run, FM_SCHED, 0, PF_STATUS, "pool_status" },
    { "pool_cancel", pool_run, FM_SCHED, 0, PF_CANCEL, "pool_cancel" },
    { "pool_shutdown", pool_run, FM_SCHED, 0, PF_SHUTDOWN, "pool_shutdown" },
    { "pool_handles", pool_run, FM_SCHED, 0, PF_HANDLES, "pool_handles" },
    { "pool_race", pool_run, FM_SCHED, 1, PF_RACE, nullptr },
    { "pool_reentrant", pool_run, FM_SCHED, 0, PF_REENTRANT, "pool_reentrant" },
    { "pool_reentrant_mem", pool_reentrant_mem, FM_ALLOC | FM_WAKE | FM_SPUR, 0, PF_SELFJOIN, nullptr },
    { "pool_resource", pool_run, FM_ALLOC | FM_CREATE | FM_USER | FM_WAKE | FM_SPUR, 0, PF_RESOURCE, "pool_resource" },
    { "pool_once_mem", pool_run, FM_ALLOC | FM_USER | FM_WAKE | FM_SPUR, 0, PF_ONCEMEM, "pool_once_mem" },
    { "pool_signal", pool_run, FM_SCHED, 0, PF_SIGNAL, "pool_signal" },
    { "pool_selfjoin", pool_selfjoin, FM_SCHED, 0, PF_SELFJOIN, nullptr },
    { "pool_many", pool_many, FM_SCHED, 0, PF_SELFJOIN, nullptr },
    { "pool_system", pool_system, FM_SCHED | FM_EINTR, 1, PF_SELFJOIN, nullptr },
};
struct Reg { Reg() { for (auto& s : scens) sim_register(&s); } } reg;

} // namespace
