// Oracles over recorded ThreadPool histories.
#include "rt.h"
#include "recs.h"
#include <algorithm>
#include <bitset>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>

using namespace sim;
namespace {

constexpr int64_t SEC = 1000000000ll;
constexpr int64_t IDLE_SLACK = 50 * 1000000; // idle time that may pass while something is overdue

struct Task {
    int id = -1;
    std::string name;
    uint64_t inv = 0, ret = 0, start = 0, end = 0, dead = 0; // seqs, 0 = none
    int64_t start_mono = 0, end_mono = 0, start_real = 0, inv_mono = 0, ret_mono = 0;
    int res = -1;       // add result
    int tkind = 0;
    int64_t tval = 0;
    int starts = 0, ends = 0, deads = 0, tid = -1, threw = 0;
    int64_t due_lo = INT64_MIN, due_hi = INT64_MIN; // bounds of the start time (wall clock)
    bool accepted() const { return res == 1; }
};

struct Op { int64_t id; int op; int task; uint64_t inv = 0, ret = 0; int64_t inv_mono = 0, ret_mono = 0, r = 0; int x = 0; std::string names; int tid; bool nested = false; };

struct Pool {
    int threads = 0; int64_t cap = 0; int pf = 0;
    std::map<int, Task> t;
    std::vector<Op> ops;
    std::vector<Rec> checks;
    std::vector<Rec> shut_seen, dinv, dret, masks;
    uint64_t settled = 0, faults_off = 0;
    int64_t settled_real = 0;
};

Pool parse(History& h)
{
    Pool p;
    std::map<int64_t, size_t> byid;
    for (auto& r : h.recs) {
        switch (r.type) {
        case R_CFG: p.threads = (int)r.a; p.cap = r.b; p.pf = (int)r.c; break;
        case R_NAME: p.t[(int)r.a].name = r.s; break;
        case R_ADD_INV: { Task& t = p.t[(int)r.a]; t.id = (int)r.a; t.inv = r.seq; t.inv_mono = r.mono; t.tkind = (int)r.b; t.tval = r.c; break; }
        case R_ADD_RET: { Task& t = p.t[(int)r.a]; t.ret = r.seq; t.res = (int)r.b; t.ret_mono = r.mono; break; }
        case R_START: { Task& t = p.t[(int)r.a]; t.id = (int)r.a; t.starts++; if (t.starts == 1) { t.start = r.seq; t.start_mono = r.mono; t.start_real = r.real; t.tid = r.tid; } break; }
        case R_END: { Task& t = p.t[(int)r.a]; t.ends++; t.end = r.seq; t.end_mono = r.mono; t.threw = (int)r.b; break; }
        case R_FN_DEAD: { Task& t = p.t[(int)r.a]; t.deads++; t.dead = r.seq; break; }
        case R_INV: { Op o; o.id = r.a; o.op = (int)r.b; o.task = (int)r.c; o.inv = r.seq; o.inv_mono = r.mono; o.tid = r.tid; byid[r.a] = p.ops.size(); p.ops.push_back(o); break; }
        case R_RET: { Op& o = p.ops[byid[r.a]]; o.ret = r.seq; o.ret_mono = r.mono; o.r = r.b; o.x = (int)r.c; break; }
        case R_NAMES: p.ops[byid[r.a]].names = r.s; break;
        case R_CHECK: p.checks.push_back(r); break;
        case R_SETTLED: p.settled = r.seq; p.settled_real = r.real; break;
        case R_FAULTS_OFF: p.faults_off = r.seq; break;
        case R_SHUT_SEEN: p.shut_seen.push_back(r); break;
        case R_DTOR_INV: p.dinv.push_back(r); break;
        case R_DTOR_RET: p.dret.push_back(r); break;
        case R_MASK: p.masks.push_back(r); break;
        default: break;
        }
    }
    for (auto& kv : p.t) {
        Task& t = kv.second;
        if (t.tkind == 1) t.due_lo = t.due_hi = t.tval;
        else if (t.tkind == 2) { t.due_lo = h.min_real(t.inv, t.ret) + t.tval; t.due_hi = h.max_real(t.inv, t.ret) + t.tval; }
    }
    return p;
}

// Was a certainly due when b was taken by a worker? b was taken between its submission and its
// start, at an instant at which b itself was due; a must have been due at any such instant.
bool due_when_taken(History& h, const Task& a, const Task& b)
{
    if (a.tkind == 0) return true;
    if (h.min_real(b.inv, b.start) >= a.due_hi) return true;
    return b.tkind != 0 && h.earliest_real(b.inv, b.start, b.due_lo) >= a.due_hi;
}


// ---------------------------------------------------------------- rules

void rule_once(Pool& p, bool settled)
{
    std::map<int, bool> cancelled; // cancelled for sure
    bool any_cancel_all = false;
    for (auto& o : p.ops) {
        if (o.op == OP_CANCEL && o.x == X_NONE && o.r == 1) cancelled[o.task] = true;
        if (o.op == OP_CANCEL_ALL && o.r > 0) any_cancel_all = true;
    }
    int64_t removed_all = 0, not_run = 0;
    for (auto& o : p.ops) if (o.op == OP_CANCEL_ALL && o.r > 0) removed_all += o.r;
    for (auto& kv : p.t) {
        Task& t = kv.second;
        if (t.starts > 1) sim_fail("task-ran-twice", "task %d was executed %d times", t.id, t.starts);
        if (t.res != 1 && t.starts) sim_fail("rejected-task-ran", "task %d ran although its submission failed", t.id);
        if (cancelled.count(t.id) && t.starts) sim_fail("cancelled-task-ran", "task %d ran although it was cancelled", t.id);
        if (settled && t.accepted() && !t.starts && !cancelled.count(t.id)) {
            if (p.settled_real >= t.due_hi) {
                not_run++;
                if (!any_cancel_all) sim_fail("task-lost", "task %d was accepted and is due but never ran", t.id);
            } else if (t.due_hi != INT64_MAX) // not due yet: cancelled by cancel_all or still waiting
                ;
        }
        if (t.starts && t.ends != t.starts && settled) sim_fail("task-unfinished", "task %d started but did not finish", t.id);
    }
    if (not_run > removed_all) sim_fail("task-lost", "%lld accepted and due tasks never ran, but only %lld were removed", (long long)not_run, (long long)removed_all);
    // function objects: all dead at the end, each exactly once
    for (auto& kv : p.t) {
        Task& t = kv.second;
        if (t.inv && t.deads != 1 && !(t.res == 2 && t.deads == 0)) sim_fail("function-object-leaked", "function object of task %d was destroyed %d times", t.id, t.deads);
        if (t.end && t.dead && t.dead < t.end) sim_fail("function-object-died-early", "function object of task %d was destroyed while it was running", t.id);
    }
}

void rule_fifo(History& h, Pool& p)
{
    // B must not be taken while an earlier-added, due task A is waiting.
    std::vector<const Task*> v;
    for (auto& kv : p.t) if (kv.second.accepted()) v.push_back(&kv.second);
    for (auto* b : v) {
        if (!b->start) continue;
        // tasks certainly added before b, due all the time since b was added at the latest,
        // not started at b's start, and started or still waiting later (not cancelled)
        int k = 0, busy = 0;
        const Task* ex = nullptr;
        for (auto* a : v) {
            if (a == b) continue;
            if (a->start && a->start < b->start && !(a->end && a->end < b->start)) busy++;
            if (!(a->ret < b->inv)) continue;
            if (!due_when_taken(h, *a, *b)) continue;
            if (a->start && a->start < b->start) continue;
            if (!a->start) continue; // cancelled or never run: handled via status queries
            k++;
            ex = a;
        }
        int others = p.threads - 1 - busy;
        if (k > others)
            sim_fail("started-out-of-order", "task %d started although %d earlier due tasks (e.g. task %d) had not been started and only %d other workers were free", b->id, k, ex->id, others < 0 ? 0 : others);
        // direct observation: a is reported as waiting after b has started
        for (auto& o : p.ops) {
            if (o.inv < b->start || o.x) continue;
            if (o.op == OP_STATE && o.r == 0) {
                auto it = p.t.find(o.task);
                if (it == p.t.end() || &it->second == b || !it->second.accepted()) continue;
                Task& a = it->second;
                if (a.ret < b->inv && due_when_taken(h, a, *b)) sim_fail("started-out-of-order", "task %d started while the earlier due task %d is still waiting (status query)", b->id, a.id);
            }
            if (o.op == OP_PNAMES && !o.names.empty()) {
                size_t i = 0;
                while (i < o.names.size()) {
                    size_t j = o.names.find('\n', i);
                    std::string n = o.names.substr(i, j - i);
                    i = j + 1;
                    if (n.size() > 1 && n[0] == 't') {
                        auto it = p.t.find(atoi(n.c_str() + 1));
                        if (it == p.t.end() || &it->second == b || it->second.name != n || !it->second.accepted()) continue;
                        Task& a = it->second;
                        if (a.ret < b->inv && due_when_taken(h, a, *b)) sim_fail("started-out-of-order", "task %d started while the earlier due task %d is still waiting (name list)", b->id, a.id);
                    }
                }
            }
        }
    }
    if (p.threads == 1) {
        std::vector<const Task*> s;
        for (auto* t : v) if (t->start) s.push_back(t);
        std::sort(s.begin(), s.end(), [](auto* a, auto* b) { return a->start < b->start; });
        for (size_t i = 1; i < s.size(); i++)
            if (!s[i - 1]->end || s[i - 1]->end > s[i]->start) sim_fail("serial-queue-overlap", "tasks %d and %d overlap in a pool with one thread", s[i - 1]->id, s[i]->id);
    }
}

void rule_early(History& h, Pool& p)
{
    for (auto& kv : p.t) {
        Task& t = kv.second;
        if (!t.start || t.tkind == 0) continue;
        if (h.max_real(t.inv, t.start) < t.due_lo)
            sim_fail("started-early", "task %d started %.9f s before its start time", t.id, (double)(t.due_lo - h.max_real(t.inv, t.start)) / 1e9);
    }
}

int running_at(const Pool& p, uint64_t seq)
{
    int n = 0;
    for (auto& kv : p.t) { auto& t = kv.second; if (t.start && t.start < seq && !(t.end && t.end < seq)) n++; }
    return n;
}

void rule_parallel_bound(Pool& p)
{
    for (auto& kv : p.t)
        if (kv.second.start && running_at(p, kv.second.start + 1) > p.threads)
            sim_fail("too-many-running", "more than %d tasks run at the same time", p.threads);
}

void rule_progress(History& h, Pool& p)
{
    for (size_t i = 0; i + 1 < p.checks.size(); i++) {
        const Rec& c1 = p.checks[i];
        const Rec& c2 = p.checks[i + 1];
        if (c2.mono - c1.mono < 2 * SEC) continue;
        // at least one worker idle throughout [c1, c2]?
        bool idle = running_at(p, c1.seq) < p.threads && running_at(p, c2.seq) < p.threads;
        for (auto& kv : p.t) if (kv.second.start > c1.seq && kv.second.start < c2.seq && running_at(p, kv.second.start + 1) >= p.threads) idle = false;
        if (!idle) continue;
        for (auto& kv : p.t) {
            Task& t = kv.second;
            if (!t.accepted() || t.ret > c1.seq) continue;
            if (t.start && t.start < c2.seq) continue;
            if (t.tkind != 0 && c1.real < t.due_hi) continue;
            bool canc = t.start == 0; // never ran: may have been cancelled before
            if (canc) {
                bool c = false;
                for (auto& o : p.ops) if ((o.op == OP_CANCEL && o.task == t.id && o.r == 1) || (o.op == OP_CANCEL_ALL && o.r > 0)) c = true;
                if (c) continue;
            }
            sim_fail("due-task-not-started", "task %d is due and at least one of %d workers is idle, but it is not started (%d running)", t.id, p.threads, running_at(p, c1.seq));
        }
    }
    // At no time may the machine be idle while a due task waits and a worker has nothing to do
    uint64_t stop = UINT64_MAX;
    for (auto& r : p.dinv) stop = std::min(stop, r.seq);
    std::map<int, uint64_t> gone; // first moment at which the task may have been cancelled
    uint64_t all_gone = UINT64_MAX;
    for (auto& o : p.ops) {
        if (o.op == OP_CANCEL && o.r == 1) { auto it = gone.emplace(o.task, o.inv).first; it->second = std::min(it->second, o.inv); }
        if (o.op == OP_CANCEL_ALL && o.r > 0) all_gone = std::min(all_gone, o.inv);
    }
    std::vector<std::pair<uint64_t, int>> run; // seq -> change of the number of running bodies
    for (auto& kv : p.t) { if (kv.second.start) run.push_back({ kv.second.start, 1 }); if (kv.second.end) run.push_back({ kv.second.end, -1 }); }
    std::sort(run.begin(), run.end());
    size_t ri = 0, ci = 0;
    int running = 0;
    std::map<int, int64_t> late;
    for (auto& g : h.idle) {
        while (ri < run.size() && run[ri].first < g.seq) running += run[ri++].second;
        while (ci + 1 < h.clock.size() && h.clock[ci + 1].seq < g.seq) ci++;
        if (g.seq > stop) break;
        if (running >= p.threads) continue;
        const int64_t off = h.clock[ci].off;
        for (auto& kv : p.t) {
            Task& t = kv.second;
            if (!t.accepted() || t.ret > g.seq || (t.start && t.start < g.seq)) continue;
            if (!t.start) {
                auto it = gone.find(t.id);
                if ((it != gone.end() && it->second < g.seq) || all_gone < g.seq) continue;
            }
            const int64_t from = t.tkind == 0 ? g.from : std::max(g.from, std::max(std::min(t.due_hi, INT64_MAX / 2), INT64_MIN / 2) - off);
            if (from >= g.to) continue;
            if ((late[t.id] += g.to - from) > IDLE_SLACK + h.fault_time)
                sim_fail("due-task-not-started", "task %d is due and at least one of %d workers is idle, but nothing happens (%d running)", t.id, p.threads, running);
        }
    }
    rule_parallel_bound(p);
}

// ---------------------------------------------------------------- linearizability

struct LinOp {
    int kind;       // PoolOp, or 100 = start (dequeue), 101 = finished flag visible, 102 = removed from running list
    int task;       // bit index
    uint64_t inv, ret;
    int64_t r = 0;
    const Op* op = nullptr;
    std::multiset<std::string> names;
};

struct Lin {
    Pool& p;
    std::vector<LinOp> o;
    std::vector<std::string> names;
    int64_t cap;
    std::vector<int> ids;          // bit -> task id
    std::map<int, int> bit;
    uint64_t nodes = 0;
    bool gave_up = false;
    std::vector<int> best;         // longest prefix (for the message)
    std::vector<int> cur;

    static constexpr int NB = 256;
    using Set = std::bitset<NB>;
    struct St { Set P, R, F, X; }; // pending, running, flag set, cancelled

    explicit Lin(Pool& pp) : p(pp), cap(pp.cap) {}

    bool build()
    {
        for (auto& kv : p.t) {
            Task& t = kv.second;
            if (!t.inv || t.res < 0) continue;
            if (t.res == 2 || t.res == 3) continue; // failed for other reasons: no effect
            int b = (int)ids.size();
            if (b >= NB) return false;
            ids.push_back(t.id);
            bit[t.id] = b;
            names.push_back(t.name);
            LinOp a{ OP_ADD, b, t.inv, t.ret, t.res, nullptr, {} };
            o.push_back(a);
            if (t.start) { // taken from the queue by its worker, which was done with its previous task
                uint64_t from = t.inv;
                for (auto& k2 : p.t) if (k2.second.end && k2.second.end < t.start && k2.second.tid == t.tid) from = std::max(from, k2.second.end);
                o.push_back({ 100, b, from, t.start, 0, nullptr, {} });
            }
            if (t.end) {
                uint64_t lim = UINT64_MAX;
                for (auto& k2 : p.t) if (k2.second.start > t.end && k2.second.tid == t.tid) lim = std::min(lim, k2.second.start);
                if (p.settled) lim = std::min(lim, p.settled);
                if (!p.dret.empty()) lim = std::min(lim, p.dret.back().seq);
                o.push_back({ 101, b, t.end, lim, 0, nullptr, {} });
                o.push_back({ 102, b, t.end, lim, 0, nullptr, {} });
            }
        }
        for (auto& q : p.ops) {
            if (!q.ret || q.x != X_NONE) continue;
            LinOp l{ q.op, -1, q.inv, q.ret, q.r, &q, {} };
            if (q.task >= 0) { auto it = bit.find(q.task); if (it == bit.end()) continue; l.task = it->second; }
            switch (q.op) {
            case OP_CANCEL: case OP_CANCEL_ALL: case OP_COUNT: case OP_FULL: case OP_IDLE: case OP_STATE: case OP_COMPLETE: break;
            case OP_PNAMES: case OP_RNAMES: {
                size_t i = 0;
                while (i < q.names.size()) { size_t j = q.names.find('\n', i); l.names.insert(q.names.substr(i, j - i)); i = j + 1; }
                break;
            }
            default: continue;
            }
            o.push_back(l);
        }
        std::sort(o.begin(), o.end(), [](const LinOp& a, const LinOp& b) { return a.inv < b.inv; });
        return o.size() <= 1500;
    }

    bool names_match(const LinOp& l, const Set& set)
    {
        std::multiset<std::string> m;
        for (size_t i = 0; i < ids.size(); i++) if (set[i]) m.insert(names[i]);
        return m == l.names;
    }

    bool apply(const LinOp& l, St& s)
    {
        const int b = l.task;
        switch (l.kind) {
        case OP_ADD:
            if (l.r == 1) { if ((int64_t)s.P.count() >= cap) return false; s.P[b] = 1; return true; }
            return (int64_t)s.P.count() >= cap;
        case 100: if (!s.P[b]) return false; s.P[b] = 0; s.R[b] = 1; return true;
        case 101: if (!s.R[b]) return false; s.F[b] = 1; return true;
        case 102: if (!s.R[b] || !s.F[b]) return false; s.R[b] = 0; return true;
        case OP_CANCEL: if (l.r) { if (!s.P[b]) return false; s.P[b] = 0; s.X[b] = 1; return true; } return !s.P[b];
        case OP_CANCEL_ALL: if ((int64_t)s.P.count() != l.r) return false; s.X |= s.P; s.P.reset(); return true;
        case OP_COUNT: return (int64_t)s.P.count() == l.r;
        case OP_FULL: return ((int64_t)s.P.count() >= cap) == (l.r != 0);
        case OP_IDLE: return (s.P.none() && s.R.none()) == (l.r != 0);
        case OP_PNAMES: return names_match(l, s.P);
        case OP_RNAMES: return names_match(l, s.R);
        case OP_COMPLETE: return s.F[b] == (l.r != 0);
        case OP_STATE:
            switch (l.r) {
            case 0: return s.P[b];
            case 1: return s.R[b] && !s.F[b];
            case 2: return s.F[b];
            case 3: return s.X[b];
            }
            return false;
        }
        return true;
    }

    static bool read_only(const LinOp& l)
    {
        switch (l.kind) {
        case OP_ADD: case OP_CANCEL: return l.r != 1;
        case OP_CANCEL_ALL: return l.r == 0;
        case 100: case 101: case 102: return false;
        default: return true;
        }
    }

    using Key = std::pair<uint64_t, uint64_t>;
    struct KeyHash { size_t operator()(const Key& k) const { return k.first; } };
    std::unordered_set<Key, KeyHash> seen;
    Key key_of(const std::vector<uint64_t>& done, const St& s)
    {
        Key k{ 1469598103934665603ull, 88172645463325252ull };
        auto mix = [&](uint64_t x) { k.first = (k.first ^ x) * 0x9e3779b97f4a7c15ull; k.first ^= k.first >> 29; k.second = (k.second + x) * 0xbf58476d1ce4e5b9ull; k.second ^= k.second >> 31; };
        for (uint64_t d : done) mix(d);
        uint64_t w[sizeof s.X / 8];
        memcpy(w, &s.X, sizeof w);
        for (uint64_t x : w) mix(x);
        return k;
    }

    // lo: all operations before this one are placed
    bool dfs(std::vector<uint64_t>& done, St s, size_t ndone, size_t lo)
    {
        auto is_done = [&](size_t i) { return done[i / 64] >> (i % 64) & 1; };
        const size_t cur0 = cur.size();
        auto undo = [&] { while (cur.size() > cur0) { const size_t i = (size_t)cur.back(); done[i / 64] &= ~(1ull << (i % 64)); cur.pop_back(); } };
        uint64_t minret;
        for (;;) {
            while (lo < o.size() && is_done(lo)) lo++;
            if (lo == o.size()) return true;
            minret = UINT64_MAX;
            for (size_t i = lo; i < o.size() && o[i].inv <= minret; i++) if (!is_done(i)) minret = std::min(minret, o[i].ret);
            // an operation that changes nothing and fits here may as well be placed here
            bool placed = false;
            for (size_t i = lo; i < o.size() && o[i].inv <= minret; i++) {
                if (is_done(i) || !read_only(o[i])) continue;
                St n = s;
                if (!apply(o[i], n)) continue;
                done[i / 64] |= 1ull << (i % 64);
                cur.push_back((int)i);
                ndone++;
                placed = true;
            }
            if (!placed) break;
        }
        if (++nodes > 300000) { gave_up = true; return true; }
        if (cur.size() > best.size()) best = cur;
        if (!seen.insert(key_of(done, s)).second) { undo(); return false; }
        for (size_t i = lo; i < o.size() && o[i].inv <= minret; i++) {
            if (is_done(i) || read_only(o[i])) continue;
            St n = s;
            if (!apply(o[i], n)) continue;
            done[i / 64] |= 1ull << (i % 64);
            cur.push_back((int)i);
            if (dfs(done, n, ndone + 1, lo)) return true;
            cur.pop_back();
            done[i / 64] &= ~(1ull << (i % 64));
        }
        undo();
        return false;
    }

    std::string show(const LinOp& l)
    {
        static const char* n[] = { "nop", "add", "cancel", "cancel_all", "get_state", "is_complete", "get_result", "count_pending", "is_full", "is_idle", "pending_names", "running_names" };
        char b[200];
        const char* k = l.kind == 100 ? "(task starts)" : l.kind == 101 ? "(task completes)" : l.kind == 102 ? "(task leaves running list)" : l.kind < 12 ? n[l.kind] : "?";
        snprintf(b, sizeof b, "%s%s%s -> %lld", k, l.task >= 0 ? " t" : "", l.task >= 0 ? std::to_string(ids[l.task]).c_str() : "", (long long)l.r);
        return b;
    }

    void check(const char* cls)
    {
        if (!build()) { sim_probe(60); return; }
        std::vector<uint64_t> done((o.size() + 63) / 64, 0);
        bool ok = dfs(done, St(), 0, 0);
        if (gave_up) { sim_probe(61); return; }
        if (!ok) {
            std::string m = "no consistent order of events explains the observed results; stuck after: ";
            std::set<int> in(best.begin(), best.end());
            size_t from = best.size() > 6 ? best.size() - 6 : 0;
            for (size_t i = from; i < best.size(); i++) m += show(o[best[i]]) + "; ";
            m += "could not place: ";
            int c = 0;
            for (size_t i = 0; i < o.size() && c < 5; i++) if (!in.count((int)i)) { m += show(o[i]) + "; "; c++; }
            sim_fail(cls, "%s", m.c_str());
        }
    }
};

// A handle that said "complete" or "canceled" keeps saying so.
void rule_monotone(Pool& p)
{
    for (auto& a : p.ops)
        for (auto& b : p.ops) {
            if (a.task < 0 || a.task != b.task || !a.ret || !b.ret || b.inv < a.ret || a.x || b.x) continue;
            bool acomp = (a.op == OP_STATE && a.r == 2) || (a.op == OP_COMPLETE && a.r == 1);
            if (acomp && ((b.op == OP_STATE && b.r != 2) || (b.op == OP_COMPLETE && b.r != 1)))
                sim_fail("status-regressed", "task %d was reported complete and later is not (state %lld)", a.task, (long long)b.r);
            bool acanc = (a.op == OP_STATE && a.r == 3);
            if (acanc && ((b.op == OP_STATE && b.r != 3) || (b.op == OP_COMPLETE && b.r == 1)))
                sim_fail("status-regressed", "task %d was reported cancelled and later is not", a.task);
        }
}

void rule_results(Pool& p, bool pool_alive_required)
{
    std::map<int, int> fetched; // successful fetches
    std::vector<const Op*> v;
    for (auto& o : p.ops) if (o.op == OP_RESULT && o.ret) v.push_back(&o);
    std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return a->inv < b->inv; });
    for (auto* o : v) {
        Task& t = p.t[o->task];
        if (o->x != X_NONE) sim_fail("result-call-failed", "get_result() of task %d failed in the harness", o->task);
        switch (o->r) {
        case RES_OK: case RES_EXC_RIGHT:
            if (!t.end || t.end > o->ret) sim_fail("result-before-end", "get_result() of task %d returned before the task ended", t.id);
            if (fetched[t.id]++) sim_fail("result-delivered-twice", "the result of task %d was delivered twice", t.id);
            break;
        case RES_WRONG: sim_fail("wrong-result", "get_result() of task %d returned a wrong value", t.id);
        case RES_EXC_WRONG: case RES_OTHER: sim_fail("wrong-exception", "get_result() of task %d threw the wrong exception", t.id);
        case RES_SIDE_WRONG: sim_fail("side-effect-invisible", "side effects of task %d are not visible after get_result()", t.id);
        case RES_BADALLOC: sim_fail("wrong-exception", "get_result() of task %d threw bad_alloc", t.id);
        case RES_LOGIC: {
            // legitimate if the result was already fetched, or the task never ran
            if (fetched.count(t.id) && fetched[t.id]) break;
            if (t.start && t.start < o->inv) sim_fail("result-lost", "task %d ran, but its result was not delivered", t.id);
            if (t.start) sim_fail("result-lost", "task %d ran later, but get_result() gave up", t.id);
            bool removed = !p.dinv.empty();
            for (auto& c : p.ops) if ((c.op == OP_CANCEL && c.task == t.id && c.r == 1) || (c.op == OP_CANCEL_ALL && c.r > 0)) removed = true;
            if (!removed) sim_fail("result-lost", "get_result() of task %d gave up although the task was not cancelled", t.id);
            break;
        }
        }
    }
    (void)pool_alive_required;
}

// every task that ended must have a result obtainable from the final fetch
void rule_final_results(Pool& p)
{
    std::map<int, int> got;
    for (auto& o : p.ops) if (o.op == OP_RESULT && (o.r == RES_OK || o.r == RES_EXC_RIGHT)) got[o.task]++;
    for (auto& o : p.ops)
        if (o.op == OP_RESULT && p.t[o.task].end && p.t[o.task].end < o.inv && !got.count(o.task))
            sim_fail("result-lost", "task %d ended, but its result could never be fetched", o.task);
}

void rule_cancel(Pool& p)
{
    for (auto& o : p.ops) {
        if (o.op != OP_CANCEL || o.x != X_NONE) continue;
        Task& t = p.t[o.task];
        if (o.r == 1) {
            if (t.starts) sim_fail("cancelled-task-ran", "cancel() of task %d returned true, but the task ran", t.id);
            for (auto& q : p.ops)
                if (q.op == OP_RESULT && q.task == o.task && q.inv > o.ret && q.r != RES_LOGIC) sim_fail("cancelled-task-has-result", "cancelled task %d delivered something other than logic_error", t.id);
        }
    }
}

// ---------------------------------------------------------------- shutdown

void rule_shutdown(History& h, Pool& p)
{
    // the last release is the destruction; it returned when all threads but clients are gone
    uint64_t dret = 0, dinv = 0;
    int64_t dret_mono = 0, dinv_mono = 0;
    for (auto& r : p.dret) if (r.seq > dret) { dret = r.seq; dret_mono = r.mono; }
    for (auto& r : p.dinv) if (r.seq > dinv) { dinv = r.seq; dinv_mono = r.mono; }
    int64_t last_end = dinv_mono;
    for (auto& kv : p.t) {
        Task& t = kv.second;
        if (t.start && !t.end) sim_fail("task-not-finished", "task %d was still running after the pool was destroyed", t.id);
        if (t.start && t.start > dret) sim_fail("task-after-destruction", "task %d started after the pool was destroyed", t.id);
        if (t.end && t.end > dret) sim_fail("task-after-destruction", "task %d ended after the pool was destroyed", t.id);
        if (t.end) last_end = std::max(last_end, t.end_mono);
        if (t.starts > 1) sim_fail("task-ran-twice", "task %d was executed twice", t.id);
    }
    if (dret_mono - last_end > 300 * SEC + h.fault_time || h.idle_between(last_end, dret_mono) > IDLE_SLACK) sim_fail("slow-shutdown", "the destructor needed %.0f s although no task was running", (double)(dret_mono - last_end) / 1e9);
    // once the shutdown request is visible no waiting task is started any more
    for (auto& s : p.shut_seen) {
        std::map<int, int> after;
        for (auto& kv : p.t) {
            Task& t = kv.second;
            if (!t.start || t.start < s.seq) continue;
            bool in_body = false;
            for (auto& k2 : p.t) if (k2.second.tid == t.tid && k2.second.start && k2.second.start < s.seq && (!k2.second.end || k2.second.end > s.seq)) in_body = true;
            if (in_body || ++after[t.tid] > 1) sim_fail("started-after-shutdown", "task %d was started after the shutdown request was visible", t.id);
            // it must have been taken before: in particular, added before
            if (t.inv > s.seq) sim_fail("started-after-shutdown", "task %d was added and started after the shutdown request was visible", t.id);
        }
    }
    for (auto& o : p.ops)
        if (o.op == OP_SHUT && o.r == 1 && dinv && o.ret < p.dinv.front().seq) sim_fail("shutdown-flag-wrong", "is_shutdown_requested() is true before the pool was released");
}

void rule_handles(Pool& p)
{
    uint64_t gone = 0, first_inv = UINT64_MAX;
    for (auto& r : p.dret) gone = std::max(gone, r.seq);
    // a call in progress keeps the pool alive until it returns
    for (bool again = true; again;) {
        again = false;
        for (auto& o : p.ops) if ((o.op == OP_STATE || o.op == OP_CANCEL) && o.inv < gone && o.ret > gone) { gone = o.ret; again = true; }
    }
    // destruction can only start when the last owner is being released
    std::vector<uint64_t> inv;
    for (auto& r : p.dinv) inv.push_back(r.seq);
    for (auto s : inv) first_inv = std::min(first_inv, s);
    uint64_t last_inv = 0;
    for (auto s : inv) last_inv = std::max(last_inv, s);
    for (auto& o : p.ops) {
        if (!o.ret) continue;
        bool needs = o.op == OP_STATE || o.op == OP_CANCEL;
        if (needs && o.inv > gone && o.x != X_LOGIC) sim_fail("handle-after-pool", "op %d on a handle did not throw logic_error after the pool was destroyed", o.op);
        if (needs && o.x != X_NONE && o.x != X_LOGIC) sim_fail("handle-wrong-exception", "op %d on a handle threw something else than logic_error", o.op);
        if (needs && o.ret < last_inv && o.x != X_NONE) sim_fail("handle-failed-early", "op %d on a handle threw although the pool still existed", o.op);
        if (o.op == OP_COMPLETE) {
            Task& t = p.t[o.task];
            if (o.x) sim_fail("handle-wrong-exception", "is_complete() threw");
            if (o.r && (!t.end || t.end > o.ret)) sim_fail("complete-but-not-run", "task %d is reported complete but its body has not ended", t.id);
            if (!o.r && t.end && o.inv > gone) sim_fail("complete-forgotten", "task %d has finished but is not reported complete after the pool was destroyed", t.id);
        }
        if (o.op == OP_STATE && o.x == X_NONE && o.r == 2) { Task& t = p.t[o.task]; if (!t.end || t.end > o.ret) sim_fail("complete-but-not-run", "task %d is reported complete but its body has not ended", t.id); }
    }
    rule_results(p, false);
    rule_final_results(p);
}

// ---------------------------------------------------------------- registration

Pool keep(const Pool& p, std::initializer_list<int> ops)
{
    Pool q = p;
    q.ops.clear();
    for (auto& o : p.ops) if (std::find(ops.begin(), ops.end(), o.op) != ops.end()) q.ops.push_back(o);
    return q;
}

// Submitting, cancelling and asking never wait for a task, a point in time or anything else.
void rule_no_wait(History& h, Pool& p)
{
    for (auto& o : p.ops)
        if (o.ret && o.op != OP_RESULT && o.op != OP_SLEEP && o.op != OP_RELEASE && o.op != OP_DROP && o.op != OP_NOP && h.idle_between(o.inv_mono, o.ret_mono) > IDLE_SLACK)
            sim_fail("call-blocked", "operation %d took %.3f s in which nothing happened", o.op, (double)(o.ret_mono - o.inv_mono) / 1e9);
    for (auto& kv : p.t)
        if (kv.second.inv && kv.second.ret && h.idle_between(kv.second.inv_mono, kv.second.ret_mono) > IDLE_SLACK) sim_fail("call-blocked", "adding task %d took %.3f s in which nothing happened", kv.first, (double)(kv.second.ret_mono - kv.second.inv_mono) / 1e9);
}

void o_once(History& h) { Pool p = parse(h); rule_once(p, p.settled != 0); }
void o_fifo(History& h) { Pool p = parse(h); rule_fifo(h, p); }
void o_early(History& h) { Pool p = parse(h); rule_early(h, p); }
void o_progress(History& h)
{
    Pool p = parse(h);
    rule_progress(h, p);
    for (auto& kv : p.t) {
        Task& t = kv.second;
        bool c = false;
        for (auto& o : p.ops) if ((o.op == OP_CANCEL && o.task == t.id && o.r == 1) || (o.op == OP_CANCEL_ALL && o.r > 0)) c = true;
        if (t.accepted() && !t.start && !c && p.settled && p.settled_real >= t.due_hi) sim_fail("due-task-not-started", "task %d is due but was never started", t.id);
    }
}
void o_capacity(History& h)
{
    Pool p = parse(h);
    rule_no_wait(h, p);
    for (auto& kv : p.t) if (kv.second.res == 3) sim_fail("wrong-rejection", "submission of task %d was rejected with an exception that is not a runtime_error", kv.second.id);
    for (auto& o : p.ops) if (o.op == OP_CONST && o.r != p.cap * 1000 + p.threads) sim_fail("wrong-capacity", "capacity() or count_threads() changed");
    Pool q = keep(p, { OP_CANCEL, OP_CANCEL_ALL, OP_COUNT, OP_FULL });
    Lin(q).check("capacity-not-linearizable");
}
void o_result(History& h) { Pool p = parse(h); rule_results(p, true); rule_final_results(p); for (auto& kv : p.t) if (kv.second.accepted() && !kv.second.start) sim_fail("pool-damaged", "task %d never ran", kv.second.id); }
void o_status(History& h) { Pool p = parse(h); rule_monotone(p); rule_no_wait(h, p); Lin(p).check("status-not-linearizable"); }
void o_cancel(History& h)
{
    Pool p = parse(h);
    rule_no_wait(h, p);
    rule_cancel(p);
    rule_results(p, true);
    rule_final_results(p);
    Pool q = keep(p, { OP_CANCEL, OP_CANCEL_ALL, OP_COUNT }); // only what cancellation is about
    q.cap = 1 << 30;
    for (auto it = q.t.begin(); it != q.t.end();) if (it->second.res == 0) it = q.t.erase(it); else ++it;
    Lin(q).check("cancel-not-linearizable");
    rule_once(p, p.settled != 0);
}
void o_shutdown(History& h) { Pool p = parse(h); rule_shutdown(h, p); }
void o_handles(History& h) { Pool p = parse(h); rule_handles(p); }
void o_reentrant(History& h)
{
    Pool p = parse(h);
    rule_once(p, p.settled != 0);
    for (auto& kv : p.t) if (kv.second.res == 3) sim_fail("reentrant-add-failed", "adding task %d from user code failed with an unexpected exception", kv.second.id);
    for (auto& o : p.ops) if (o.x != X_NONE && o.op != OP_STATE && o.op != OP_CANCEL) sim_fail("reentrant-call-failed", "op %d failed", o.op);
    Pool q = keep(p, { OP_CANCEL, OP_CANCEL_ALL, OP_COUNT, OP_FULL, OP_IDLE, OP_PNAMES, OP_RNAMES });
    Lin(q).check("reentrant-not-linearizable");
}
void o_resource(History& h)
{
    Pool p = parse(h);
    rule_once(p, p.settled != 0);
    for (auto& kv : p.t) if (kv.second.res == 3) sim_fail("wrong-exception", "submission of task %d failed with an unexpected exception", kv.second.id);
    for (auto& o : p.ops) if (o.x == X_OTHER || (o.x == X_LOGIC)) sim_fail("wrong-exception", "op %d failed with an unexpected exception", o.op);
    Lin(p).check("resource-not-linearizable");
    rule_monotone(p);
}
void o_once_mem(History& h) { Pool p = parse(h); rule_once(p, p.settled != 0); }
void o_signal(History& h)
{
    Pool p = parse(h);
    for (auto& r : p.masks) if (r.b) sim_fail("signal-not-blocked", "signals with mask %lld (bit order ALRM INT PIPE TERM URG USR1 USR2) are not blocked in task %lld", (long long)r.b, (long long)r.a);
}

OracleReg r1("pool_once", o_once), r2("pool_fifo", o_fifo), r3("pool_early", o_early), r4("pool_progress", o_progress), r5("pool_capacity", o_capacity),
    r6("pool_result", o_result), r7("pool_status", o_status), r8("pool_cancel", o_cancel), r9("pool_shutdown", o_shutdown), r10("pool_handles", o_handles),
    r11("pool_reentrant", o_reentrant), r12("pool_resource", o_resource), r13("pool_signal", o_signal), r14("pool_once_mem", o_once_mem);

} // namespace
