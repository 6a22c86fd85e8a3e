// Oracles over recorded Trigger and sleep() histories.
#include "rt.h"
#include "recs.h"
#include <algorithm>
#include <map>
#include <set>

using namespace sim;
namespace {

constexpr int64_t SEC = 1000000000ll;
constexpr int64_t SLACK = 5 * SEC;
constexpr int64_t IDLE_SLACK = 20 * 1000000; // idle time that may pass while something is overdue

struct Op {
    int64_t id; int op; int64_t arg; int kind; int tid;
    uint64_t inv = 0, ret = 0; int64_t inv_mono = 0, ret_mono = 0, inv_real = 0, ret_real = 0; int64_t r = 0;
};
const char* name(int op)
{
    static const char* n[] = { "?", "trigger", "reset", "read", "wait", "wait_for", "wait_until(steady)", "wait_until(system)", "sleep", "sleep(trigger)", "init" };
    return n[op];
}
bool is_timed(int op) { return op == TR_WAIT_FOR || op == TR_WAIT_STEADY || op == TR_WAIT_SYSTEM || op == TR_SLEEP_TRG; }
// did the operation report that the trigger is high?
bool reported(const Op& o) { return o.op == TR_SLEEP_TRG ? !o.r : o.r != 0; }

struct Hist { std::vector<Op> ops; bool init = false; uint64_t final_set = 0, quiesce = 0, dinv = 0; int64_t dinv_mono = 0; bool jumps = false; };

Hist parse(History& h)
{
    Hist r;
    std::map<int64_t, size_t> ix;
    for (auto& x : h.recs) switch (x.type) {
        case R_INV:
            if (x.b == TR_INIT) { r.init = x.c; break; }
            { Op o; o.id = x.a; o.op = (int)x.b; o.arg = x.c; o.kind = (int)x.d; o.tid = x.tid; o.inv = x.seq; o.inv_mono = x.mono; o.inv_real = x.real; ix[x.a] = r.ops.size(); r.ops.push_back(o); }
            break;
        case R_RET: { Op& o = r.ops[ix[x.a]]; o.ret = x.seq; o.ret_mono = x.mono; o.ret_real = x.real; o.r = x.b; break; }
        case R_USER + 2: r.final_set = x.seq; break;
        case R_QUIESCE: r.quiesce = x.seq; break;
        case R_DTOR_INV: r.dinv = x.seq; r.dinv_mono = x.mono; break;
        default: break;
    }
    r.jumps = h.clock.size() > 1;
    for (auto& o : r.ops) {
        if (!o.ret) sim_fail("operation-never-returned", "%s did not return", name(o.op));
        if ((o.op == TR_SET || o.op == TR_RESET) && o.r != 1) sim_fail("assignment-wrong-reference", "assignment returned a reference to another object");
    }
    return r;
}

// ---- linearizability as an atomic boolean ----
bool linearizable(const Hist& x)
{
    std::map<int, std::vector<const Op*>> th;
    for (auto& o : x.ops) if (o.op != TR_SLEEP) th[o.tid].push_back(&o);
    std::vector<std::vector<const Op*>> t;
    for (auto& kv : th) t.push_back(kv.second);
    std::set<std::vector<uint16_t>> seen;
    std::vector<std::vector<uint16_t>> st;
    std::vector<uint16_t> s0(t.size() + 1, 0);
    s0.back() = x.init;
    st.push_back(s0);
    seen.insert(s0);
    while (!st.empty()) {
        auto s = st.back();
        st.pop_back();
        uint64_t min_ret = UINT64_MAX;
        bool done = true;
        for (size_t i = 0; i < t.size(); i++) if (s[i] < t[i].size()) { done = false; min_ret = std::min(min_ret, t[i][s[i]]->ret); }
        if (done) return true;
        for (size_t i = 0; i < t.size(); i++) {
            if (s[i] >= t[i].size()) continue;
            const Op& o = *t[i][s[i]];
            if (o.inv > min_ret) continue;
            int v = s.back();
            if (o.op == TR_SET) v = 1;
            else if (o.op == TR_RESET) v = 0;
            else if (reported(o) != (v != 0)) continue;
            auto n = s;
            n[i]++;
            n.back() = (uint16_t)v;
            if (seen.insert(n).second) st.push_back(n);
            if (seen.size() > 400000) return true; // give up (does not occur with the workloads used)
        }
    }
    return false;
}

// bounds on the time a wait must have covered before it may report "not triggered"
void rule_not_early(History& h, const Op& o)
{
    if (o.op == TR_SLEEP || ((o.op == TR_WAIT_FOR || o.op == TR_SLEEP_TRG) && !reported(o))) {
        if (o.ret_mono - o.inv_mono < o.arg) sim_fail("ended-early", "%s ended after %lld ns, asked for were %lld ns", name(o.op), (long long)(o.ret_mono - o.inv_mono), (long long)o.arg);
    } else if (o.op == TR_WAIT_STEADY && !reported(o)) {
        if (o.ret_mono < o.arg) sim_fail("ended-early", "%s gave up %lld ns before its end", name(o.op), (long long)(o.arg - o.ret_mono));
    } else if (o.op == TR_WAIT_SYSTEM && !reported(o)) {
        const int64_t m = h.max_real(o.inv, o.ret);
        if (m < o.arg) sim_fail("ended-early", "%s gave up %lld ns before its end", name(o.op), (long long)(o.arg - m));
    }
}
// time of the end on the steady clock, if it can be known
bool deadline(const Hist& x, const Op& o, int64_t& d)
{
    switch (o.op) {
    case TR_SLEEP: case TR_WAIT_FOR: case TR_SLEEP_TRG: d = o.inv_mono + std::max<int64_t>(o.arg, 0); return true;
    case TR_WAIT_STEADY: d = o.arg; return true;
    case TR_WAIT_SYSTEM: if (x.jumps) return false; d = o.arg - (o.inv_real - o.inv_mono); return true;
    default: return false;
    }
}
void rule_not_late(History& h, const Hist& x, const Op& o)
{
    int64_t d;
    if (!deadline(x, o, d)) return;
    d = std::max(d, o.inv_mono);
    const int64_t lim = d + SLACK + h.fault_time;
    // Time in which something runs, and skipped time, may pass before the wait begins; all else is idle time.
    const int64_t all = h.idle_between(o.inv_mono, o.ret_mono), busy = o.ret_mono - o.inv_mono - all;
    const bool rel = o.op == TR_SLEEP || o.op == TR_WAIT_FOR || o.op == TR_SLEEP_TRG;
    const bool idled = rel ? all > std::max<int64_t>(o.arg, 0) + IDLE_SLACK : h.idle_between(d, o.ret_mono) > IDLE_SLACK + busy;
    if (o.ret_mono > lim || idled) sim_fail("ended-late", "%s ended %lld ns after its end although the machine was responsive", name(o.op), (long long)(o.ret_mono - d));
}
bool set_before(const Hist& x, const Op& o) // some instant within o at which the trigger may have been high
{
    if (x.init) return true;
    for (auto& s : x.ops) if (s.op == TR_SET && s.inv < o.ret) {
        // is it certainly reset before o starts?
        bool gone = false;
        for (auto& r : x.ops) if (r.op == TR_RESET && s.ret < r.inv && r.ret < o.inv) gone = true;
        if (!gone) return true;
    }
    return false;
}
// A set that is certainly not undone by any reset. Returns null if there is none.
const Op* lasting_set(const Hist& x)
{
    const Op* best = nullptr;
    for (auto& s : x.ops) if (s.op == TR_SET) {
        bool ok = true;
        for (auto& r : x.ops) if (r.op == TR_RESET && !(r.ret < s.inv)) ok = false;
        if (ok && (!best || s.ret < best->ret)) best = &s;
    }
    return best;
}
void rule_answer(History& h, const Hist& x)
{
    const Op* s = lasting_set(x);
    for (auto& o : x.ops) {
        if (!is_timed(o.op) && o.op != TR_WAIT) continue;
        if (reported(o) && !x.dinv && !set_before(x, o)) sim_fail("false-trigger", "%s reports a trigger that was never set", name(o.op));
        if (!s) continue;
        if (!reported(o)) {
            // the trigger was high for good before the wait could end: it must have been noticed
            if (s->ret < o.inv) sim_fail("trigger-missed", "%s reports no trigger although it was high all the time", name(o.op));
            int64_t d;
            if (o.op == TR_WAIT_SYSTEM) {
                if (s->ret < o.ret && h.max_real(o.inv, s->ret) < o.arg) sim_fail("trigger-missed", "%s reports no trigger although it was set before the end", name(o.op));
            } else if (deadline(x, o, d) && s->ret < o.ret && s->ret_mono < d)
                sim_fail("trigger-missed", "%s reports no trigger although it was set %lld ns before the end", name(o.op), (long long)(d - s->ret_mono));
        }
        const int64_t from = std::max(s->ret_mono, o.inv_mono);
        if (o.ret_mono > from + SLACK + h.fault_time || h.idle_between(from, o.ret_mono) > IDLE_SLACK) sim_fail("released-late", "%s returned %lld ns after the trigger was set for good", name(o.op), (long long)(o.ret_mono - from));
    }
}

void o_level(History& h)
{
    Hist x = parse(h);
    if (!linearizable(x)) sim_fail("not-linearizable", "no order of the %zu operations explains the results as those of one shared boolean", x.ops.size());
    for (auto& o : x.ops) rule_not_early(h, o);
}
void o_wake(History& h)
{
    Hist x = parse(h);
    rule_answer(h, x);
}
void o_timed(History& h)
{
    Hist x = parse(h);
    for (auto& o : x.ops) { rule_not_early(h, o); rule_not_late(h, x, o); }
    rule_answer(h, x);
}
void o_destroy(History& h)
{
    Hist x = parse(h);
    for (auto& o : x.ops) {
        if (!is_timed(o.op) && o.op != TR_WAIT) continue;
        rule_not_early(h, o);
        rule_not_late(h, x, o);
        if (reported(o) && o.ret < x.dinv) sim_fail("false-trigger", "%s reports a trigger before it is destroyed", name(o.op));
        if (x.dinv && o.inv < x.dinv) {
            const int64_t from = std::max(x.dinv_mono, o.inv_mono);
            if (o.ret_mono > from + SLACK + h.fault_time || h.idle_between(from, o.ret_mono) > IDLE_SLACK) sim_fail("released-late", "%s returned %lld ns after the trigger was destroyed", name(o.op), (long long)(o.ret_mono - from));
            int64_t d;
            if (!reported(o) && deadline(x, o, d) && x.dinv_mono < d - SLACK - h.fault_time)
                sim_fail("trigger-missed", "%s reports no trigger although the trigger was destroyed before the end", name(o.op));
        }
    }
}
void o_sleep(History& h)
{
    Hist x = parse(h);
    for (auto& o : x.ops) {
        if (o.op == TR_SLEEP && o.r != 1) sim_fail("sleep-wrong-result", "sleep() without a trigger returned false");
        rule_not_early(h, o);
        rule_not_late(h, x, o);
    }
    rule_answer(h, x);
    if (!linearizable(x)) sim_fail("not-linearizable", "no order of the operations explains the results");
}

OracleReg r1("trig_level", o_level), r2("trig_wake", o_wake), r3("trig_timed", o_timed), r4("trig_destroy", o_destroy), r5("sleep", o_sleep);
}
