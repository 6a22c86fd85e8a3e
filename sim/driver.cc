// Driver: explores seeds in parallel worker processes (one forked child per simulated run),
// confirms, minimises and writes replay files, replays them.
#include "rt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <sched.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {

static const char* const ev_name[EK_N] = { "preempt_memory", "preempt_sync", "thread_stall", "time_skip", "clock_jump", "pick",
    "wake_order", "spurious_wakeup", "alloc_failure", "thread_create_failure", "eintr", "user_fault" };

static uint64_t mix3(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t x = a * 0x9e3779b97f4a7c15ull + b * 0xc2b2ae3d27d4eb4full + c * 0x165667b19e3779f9ull + 0x27d4eb2f165667c5ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

static double now_s()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

template <class T> static T* shared_alloc(size_t n = 1)
{
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (T*)p;
}

static void on_alarm(int) {}

// A run may not take more than 2 GB on top of what is mapped at the start.
static rlim_t g_as_limit;
static void init_as_limit()
{
    unsigned long pages = 0;
    if (FILE* f = fopen("/proc/self/statm", "r")) {
        if (fscanf(f, "%lu", &pages) != 1) pages = 0;
        fclose(f);
    }
    g_as_limit = pages ? (rlim_t)pages * (rlim_t)sysconf(_SC_PAGESIZE) + (2ull << 30) : RLIM_INFINITY;
}
// A run that uses this much processor time hangs (normal: some milliseconds). Real time is
// only a last resort, because the machine may be busy with something else.
static double g_hang_s = 20;
static const double g_hang_factor = 15;

// Runs one simulation in a forked child. Afterwards shm holds the outcome.
static void run_one(Shm* shm)
{
    if (!g_as_limit) init_as_limit();
    shm->status = ST_NONE;
    shm->cls[0] = shm->msg[0] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGALRM, SIG_DFL);
        struct rlimit rl{ g_as_limit, g_as_limit };
        setrlimit(RLIMIT_AS, &rl);
        struct rlimit cpu{ (rlim_t)g_hang_s, (rlim_t)g_hang_s + 5 };
        setrlimit(RLIMIT_CPU, &cpu);
        signal(SIGXCPU, SIG_DFL);
        run_child(shm);
    }
    struct itimerval it{};
    it.it_value.tv_sec = (time_t)(g_hang_s * g_hang_factor);
    setitimer(ITIMER_REAL, &it, nullptr);
    int st = 0;
    bool hung = false;
    while (waitpid(pid, &st, 0) < 0) {
        if (errno == EINTR) { if (!hung) { hung = true; kill(pid, SIGKILL); } continue; }
        perror("waitpid");
        _exit(3);
    }
    it.it_value.tv_sec = 0;
    setitimer(ITIMER_REAL, &it, nullptr);
    if (shm->status == ST_NONE) {
        if (hung || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)) {
            shm->status = ST_VIOLATION;
            snprintf(shm->cls, sizeof shm->cls, "hang");
            snprintf(shm->msg, sizeof shm->msg, "the run did not end within %.0f s of processor time (endless loop without any synchronisation)", g_hang_s);
        } else if (WIFSIGNALED(st)) {
            shm->status = ST_VIOLATION;
            snprintf(shm->cls, sizeof shm->cls, "crash-signal-%d", WTERMSIG(st));
            snprintf(shm->msg, sizeof shm->msg, "the simulated process died from signal %d", WTERMSIG(st));
        } else {
            shm->status = ST_ERROR;
            snprintf(shm->cls, sizeof shm->cls, "child-exit-%d", WEXITSTATUS(st));
        }
        shm->hash = 0;
        shm->ngens = 0;
        while (shm->ngens < MAXGEN && shm->gen_n[shm->ngens]) shm->ngens++;
    }
}

static void prep_record(Shm* m, int scen, uint64_t seed, uint64_t idx)
{
    m->mode = 0;
    m->scen = scen;
    m->gen_fixed = 0;
    m->gen_seed = mix3(seed, idx, 11 + scen * 1000);
    m->sched_seed = mix3(seed, idx, 12 + scen * 1000);
    memset(m->gen_n, 0, sizeof m->gen_n);
}

struct Trace {
    int scen = 0;
    int64_t tick = 100;
    std::vector<uint64_t> gens;
    std::vector<Ev> evs;
    std::string cls, msg;
    uint64_t hash = 0;
};

static Trace capture(const Shm* m)
{
    Trace t;
    t.scen = m->scen;
    t.tick = m->tick;
    t.gens.assign(m->gens, m->gens + m->ngens);
    t.evs.assign(m->evs, m->evs + m->nevs);
    t.cls = m->cls;
    t.msg = m->msg;
    t.hash = m->hash;
    return t;
}

static void run_replay(Shm* m, const Trace& t)
{
    m->mode = 1;
    m->scen = t.scen;
    m->gen_fixed = 1;
    m->tick = t.tick;
    m->ngens_in = (int)t.gens.size();
    std::copy(t.gens.begin(), t.gens.end(), m->gens);
    m->nevs = (int)t.evs.size();
    std::copy(t.evs.begin(), t.evs.end(), m->evs);
    run_one(m);
}

static bool same(const Shm* m, const std::string& cls) { return m->status == ST_VIOLATION && cls == m->cls; }

// ------------------------------------------------------------------ minimisation

static Trace minimise(Shm* m, Trace t, double budget, uint64_t seed, uint64_t& runs)
{
    double t0 = now_s();
    auto over = [&] { return now_s() - t0 > budget; };
    uint64_t salt = 1;
    // candidate workload: try with the known schedule first, then search for another one
    auto try_gens = [&](const std::vector<uint64_t>& g, int searches) {
        Trace c = t;
        c.gens = g;
        run_replay(m, c);
        runs++;
        if (same(m, t.cls)) { c.msg = m->msg; c.hash = m->hash; t = c; return true; }
        for (int i = 0; i < searches && !over(); i++) {
            m->mode = 0;
            m->scen = t.scen;
            m->gen_fixed = 1;
            m->ngens_in = (int)g.size();
            std::copy(g.begin(), g.end(), m->gens);
            m->sched_seed = mix3(seed, salt++, 77);
            run_one(m);
            runs++;
            if (same(m, t.cls) && m->status == ST_VIOLATION && m->hash) {
                Trace n = capture(m);
                n.gens = g;
                run_replay(m, n);
                runs++;
                if (same(m, t.cls)) { n.msg = m->msg; n.hash = m->hash; t = n; return true; }
            }
        }
        return false;
    };
    bool changed = true;
    while (changed && !over()) {
        changed = false;
        for (size_t len = std::max<size_t>(1, t.gens.size() / 2); len >= 1 && !over(); len /= 2) {
            for (size_t i = 0; i < t.gens.size() && !over(); i += len) {
                auto g = t.gens;
                bool any = false;
                for (size_t k = i; k < std::min(g.size(), i + len); k++) { if (g[k]) any = true; g[k] = 0; }
                if (any && try_gens(g, len == 1 ? 15 : 40)) changed = true;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < t.gens.size() && !over(); i++)
            while (t.gens[i] > 1 && !over()) {
                auto g = t.gens;
                g[i] /= 2;
                if (!try_gens(g, 5)) break;
                changed = true;
            }
    }
    while (!t.gens.empty() && t.gens.back() == 0) t.gens.pop_back();
    // events: ddmin
    double t1 = now_s();
    auto over2 = [&] { return now_s() - t1 > budget; };
    for (size_t len = std::max<size_t>(1, t.evs.size() / 2); len >= 1 && !over2();) {
        bool ch = false;
        for (size_t i = 0; i < t.evs.size() && !over2();) {
            Trace c = t;
            c.evs.erase(c.evs.begin() + i, c.evs.begin() + std::min(c.evs.size(), i + len));
            run_replay(m, c);
            runs++;
            if (same(m, t.cls)) { c.msg = m->msg; c.hash = m->hash; t = c; ch = true; }
            else i += len;
        }
        if (len == 1) { if (!ch) break; }
        else len = (len + 1) / 2;
    }
    return t;
}

// ------------------------------------------------------------------ replay files

static void write_replay(const std::string& path, const std::string& prop, const Trace& t, uint64_t seed, uint64_t idx, const std::string& note)
{
    std::ofstream f(path);
    f << "gul14-sim-replay 1\nproperty " << prop << "\nscenario " << g_scens[t.scen].name << "\nclass " << t.cls << "\ntick " << t.tick
      << "\nhash " << t.hash << "\nverif_seed " << seed << "\nrun " << idx << "\ngens " << t.gens.size();
    for (auto g : t.gens) f << ' ' << g;
    f << "\nevents " << t.evs.size() << "\n";
    for (auto& e : t.evs) f << "ev " << ev_name[e.kind] << ' ' << (int)e.tid << ' ' << e.step << ' ' << e.val << "\n";
    f << "end\n";
    std::istringstream is(t.msg);
    std::string l;
    while (std::getline(is, l)) f << "# " << l << "\n";
    f << "# " << note << "\n";
}

static bool read_replay(const std::string& path, Trace& t, std::string& prop)
{
    std::ifstream f(path);
    std::string w;
    if (!(f >> w) || w != "gul14-sim-replay") return false;
    int ver;
    f >> ver;
    size_t n;
    while (f >> w) {
        if (w == "property") f >> prop;
        else if (w == "scenario") {
            f >> w;
            t.scen = -1;
            for (size_t i = 0; i < g_scens.size(); i++) if (w == g_scens[i].name) t.scen = (int)i;
            if (t.scen < 0) return false;
        } else if (w == "class") { std::getline(f, t.cls); t.cls.erase(0, 1); }
        else if (w == "tick") f >> t.tick;
        else if (w == "hash") f >> t.hash;
        else if (w == "verif_seed" || w == "run") f >> w;
        else if (w == "gens") { f >> n; t.gens.resize(n); for (auto& g : t.gens) f >> g; }
        else if (w == "events") f >> n;
        else if (w == "ev") {
            std::string k; int tid; Ev e{};
            f >> k >> tid >> e.step >> e.val;
            e.tid = (uint8_t)tid;
            for (int i = 0; i < EK_N; i++) if (k == ev_name[i]) e.kind = (uint8_t)i;
            t.evs.push_back(e);
        } else if (w == "end") return true;
    }
    return false;
}

// ------------------------------------------------------------------ exploration

constexpr size_t TABLE = 1 << 23;
struct Global {
    std::atomic<uint64_t> runs, steps, ssteps, switches, nontrivial, distinct, distinct_nt, errors, known, unstable;
    std::atomic<int64_t> vtime;
    std::atomic<uint64_t> fault[EK_N], fault_runs[EK_N], probes[64], strat[4];
    std::atomic<uint64_t> scen_runs[256];
    std::atomic<int> stop;
    std::atomic<int> nfound;
    struct { int scen; uint64_t idx; char cls[128]; } found[64];
    std::atomic<int> nknown;
    struct { char cls[128]; char msg[1000]; int scen; uint64_t idx; } knownhit[64];
    char err[4000];
    std::atomic<uint64_t> table[TABLE];
};

static bool insert_hash(Global* g, uint64_t hsh)
{
    if (!hsh) hsh = 1;
    size_t i = hsh % TABLE;
    for (int k = 0; k < 64; k++, i = (i + 1) % TABLE) {
        uint64_t cur = g->table[i].load(std::memory_order_relaxed);
        if (cur == hsh) return false;
        if (cur == 0) {
            if (g->table[i].compare_exchange_strong(cur, hsh)) return true;
            if (cur == hsh) return false;
        }
    }
    return false; // table crowded: not counted
}

struct Known { std::string scen, cls, contains; }; // a listed finding

struct Opts {
    std::vector<int> scens;
    uint64_t seed = 1, runs = UINT64_MAX;
    double time = 10, mintime = 25;
    int workers = 8;
    std::string out, replay_dir = ".", prop = "X";
    std::vector<Known> known;
    std::vector<int> cpus;
};

static bool is_known(const Opts& o, const Shm* m)
{
    for (auto& k : o.known)
        if ((k.scen == "*" || k.scen == g_scens[m->scen].name) && k.cls == m->cls && (k.contains.empty() || strstr(m->msg, k.contains.c_str()))) return true;
    return false;
}

static void pin(const Opts& o, int w)
{
    if (o.cpus.empty()) return;
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(o.cpus[w % o.cpus.size()], &cs);
    sched_setaffinity(0, sizeof cs, &cs);
}

// The kernel frees exited processes with a delay; slow down before that eats up the memory.
static void memory_guard()
{
    for (int i = 0; i < 200; i++) {
        unsigned long total = 0, avail = 0;
        char line[160];
        FILE* f = fopen("/proc/meminfo", "r");
        if (!f) return;
        while (fgets(line, sizeof line, f)) {
            sscanf(line, "MemTotal: %lu", &total);
            if (sscanf(line, "MemAvailable: %lu", &avail) == 1) break;
        }
        fclose(f);
        if (!total || avail > total / 2) return;
        usleep(50000);
    }
}

static void worker(const Opts& o, Global* g, Shm* m, int w, double tend)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    pin(o, w);
    size_t ns = o.scens.size();
    uint64_t count = 0;
    for (uint64_t i = w; i < o.runs && !g->stop.load(); i += o.workers) {
        if (now_s() > tend) break;
        if (++count % 512 == 0) memory_guard();
        int scen = o.scens[i % ns];
        uint64_t idx = i / ns;
        prep_record(m, scen, o.seed, idx);
        run_one(m);
        // killed from outside or starved by other processes? Only a second time counts.
        if (m->status == ST_VIOLATION && (!strcmp(m->cls, "crash-signal-9") || !strcmp(m->cls, "hang"))) {
            prep_record(m, scen, o.seed, idx);
            run_one(m);
        }
        if (m->status == ST_ERROR) {
            g->errors++;
            snprintf(g->err, sizeof g->err, "scenario %s run %llu: %s: %s", g_scens[scen].name, (unsigned long long)idx, m->cls, m->msg);
            g->stop = 1;
            break;
        }
        g->runs++;
        g->steps += m->steps;
        g->ssteps += m->ssteps;
        g->switches += m->switches;
        g->vtime += m->vtime / 1000;
        g->scen_runs[scen & 255]++;
        g->strat[m->strat & 3]++;
        for (int k = 0; k < EK_N; k++) if (m->nfault[k]) { g->fault[k] += m->nfault[k]; g->fault_runs[k]++; }
        for (int k = 0; k < 64; k++) if (m->probes[k]) g->probes[k] += 1;
        bool nw = m->hash && insert_hash(g, m->hash);
        if (nw) g->distinct++;
        if (m->nontrivial) { g->nontrivial++; if (nw) g->distinct_nt++; }
        if (m->status == ST_VIOLATION) {
            if (is_known(o, m)) {
                g->known++;
                int k = g->nknown++;
                if (k < 64) {
                    snprintf(g->knownhit[k].cls, 128, "%s", m->cls);
                    snprintf(g->knownhit[k].msg, 1000, "%s", m->msg);
                    g->knownhit[k].scen = scen;
                    g->knownhit[k].idx = idx;
                }
                continue;
            }
            {   // only executions that repeat exactly count
                Trace a = capture(m);
                prep_record(m, scen, o.seed, idx);
                run_one(m);
                Trace b = capture(m);
                bool ok = m->status == ST_VIOLATION && a.cls == b.cls && a.hash == b.hash;
                if (ok) { run_replay(m, a); ok = same(m, a.cls); }
                if (!ok) {
                    g->unstable++;
                    snprintf(g->err, sizeof g->err, "scenario %s run %llu: violation does not repeat: %s / %s / %s: %s", g_scens[scen].name, (unsigned long long)idx, a.cls.c_str(), b.cls.c_str(), m->cls, a.msg.c_str());
                    if (g->unstable > 20) { g->stop = 1; break; }
                    continue;
                }
                snprintf(m->cls, sizeof m->cls, "%s", a.cls.c_str());
            }
            int k = g->nfound++;
            if (k < 64) { g->found[k].scen = scen; g->found[k].idx = idx; snprintf(g->found[k].cls, 128, "%s", m->cls); }
            g->stop = 1;
            break;
        }
    }
    _exit(0);
}

static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

static std::string describe(const Trace& t)
{
    std::ostringstream s;
    s << "scenario " << g_scens[t.scen].name << ", workload [";
    for (size_t i = 0; i < t.gens.size() && i < 60; i++) s << (i ? " " : "") << t.gens[i];
    s << (t.gens.size() > 60 ? " ..." : "") << "], " << t.evs.size() << " decisions:";
    for (size_t i = 0; i < t.evs.size() && i < 12; i++) s << " " << ev_name[t.evs[i].kind] << "(T" << (int)t.evs[i].tid << "@" << t.evs[i].step << "=" << t.evs[i].val << ")";
    if (t.evs.size() > 12) s << " ...";
    return s.str();
}

static int explore(Opts o)
{
    Global* g = shared_alloc<Global>();
    std::vector<Shm*> shm;
    for (int w = 0; w < o.workers; w++) shm.push_back(shared_alloc<Shm>());
    double t0 = now_s();
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < o.workers; w++) {
        pid_t p = fork();
        if (p == 0) worker(o, g, shm[w], w, t0 + o.time);
        pids.push_back(p);
    }
    bool bad = false;
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    double texp = now_s() - t0;
    // samples: the first runs again, written out
    std::vector<std::string> samples;
    Shm* m = shm[0];
    for (int i = 0; i < 3 && g->runs > 0; i++) {
        prep_record(m, o.scens[i % o.scens.size()], o.seed, i / o.scens.size());
        run_one(m);
        samples.push_back(describe(capture(m)));
    }
    int rc = 0;
    std::string viol = "null", err;
    if (bad) { rc = 2; err = "a worker process failed"; }
    if (g->errors) { rc = 2; err = g->err; }
    if (!rc && g->unstable && !g->nfound) { rc = 2; err = g->err; }
    if (!rc && g->nfound) {
        int n = std::min<int>(g->nfound, 64), b = 0;
        for (int i = 1; i < n; i++)
            if (std::make_pair(g->found[i].idx, g->found[i].scen) < std::make_pair(g->found[b].idx, g->found[b].scen)) b = i;
        int scen = g->found[b].scen;
        uint64_t idx = g->found[b].idx;
        // gate: the same seed twice gives the same execution
        prep_record(m, scen, o.seed, idx);
        run_one(m);
        Trace a = capture(m);
        int sa = m->status;
        prep_record(m, scen, o.seed, idx);
        run_one(m);
        Trace c = capture(m);
        if (sa != ST_VIOLATION || m->status != ST_VIOLATION || a.cls != c.cls || a.hash != c.hash || a.cls != g->found[b].cls) {
            rc = 2;
            err = std::string("violation not reproducible from its seed: ") + g->found[b].cls + " / " + a.cls + " / " + c.cls + " " + a.msg;
        } else {
            run_replay(m, a);
            uint64_t mruns = 0;
            Trace t = a;
            std::string note = "not minimised";
            bool ok = same(m, a.cls);
            if (!ok) { rc = 2; err = "recorded trace does not replay: " + a.cls + " vs " + m->cls; }
            else {
                a.hash = m->hash;
                t = minimise(m, a, o.mintime, o.seed, mruns);
                std::ostringstream s;
                s << "minimised from " << a.gens.size() << " workload values and " << a.evs.size() << " decisions in " << mruns << " runs";
                note = s.str();
                run_replay(m, t);
                if (!same(m, t.cls) || m->hash != t.hash) { t = a; note = "minimised trace unstable; original kept"; }
                std::string path = o.replay_dir + "/" + o.prop + "-" + std::to_string(o.seed) + ".replay";
                write_replay(path, o.prop, t, o.seed, idx, note);
                std::ostringstream v;
                v << "{\"class\":" << jstr(t.cls) << ",\"message\":" << jstr(t.msg) << ",\"replay\":" << jstr(path) << ",\"scenario\":" << jstr(g_scens[t.scen].name)
                  << ",\"run\":" << idx << ",\"hash\":\"" << t.hash << "\",\"note\":" << jstr(note) << ",\"trace\":" << jstr(describe(t)) << "}";
                viol = v.str();
                rc = 1;
            }
        }
    }
    std::ostringstream s;
    s << "{\"rc\":" << rc << ",\"error\":" << jstr(err) << ",\"runs\":" << g->runs << ",\"steps\":" << g->steps << ",\"sync_steps\":" << g->ssteps
      << ",\"switches\":" << g->switches << ",\"nontrivial\":" << g->nontrivial << ",\"distinct\":" << g->distinct << ",\"distinct_nontrivial\":" << g->distinct_nt
      << ",\"sim_seconds\":" << (double)g->vtime / 1e6 << ",\"explore_s\":" << texp << ",\"workers\":" << o.workers << ",\"known\":" << g->known << ",\"faults\":{";
    for (int k = 0; k < EK_N; k++) s << (k ? "," : "") << "\"" << ev_name[k] << "\":[" << g->fault[k] << "," << g->fault_runs[k] << "]";
    s << "},\"probes\":{";
    bool first = true;
    for (int k = 0; k < 64; k++) if (g->probes[k]) { s << (first ? "" : ",") << "\"" << k << "\":" << g->probes[k]; first = false; }
    s << "},\"strategies\":[" << g->strat[0] << "," << g->strat[1] << "," << g->strat[2] << "],\"scenarios\":{";
    for (size_t i = 0; i < o.scens.size(); i++) s << (i ? "," : "") << jstr(g_scens[o.scens[i]].name) << ":" << g->scen_runs[o.scens[i] & 255];
    s << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) s << (i ? "," : "") << jstr(samples[i]);
    s << "],\"known_hits\":[";
    for (int i = 0; i < std::min<int>(g->nknown, 64); i++)
        s << (i ? "," : "") << "{\"class\":" << jstr(g->knownhit[i].cls) << ",\"message\":" << jstr(g->knownhit[i].msg) << ",\"scenario\":" << jstr(g_scens[g->knownhit[i].scen].name) << ",\"run\":" << g->knownhit[i].idx << "}";
    s << "],\"violation\":" << viol << "}\n";
    if (o.out.empty()) fputs(s.str().c_str(), stdout);
    else { std::ofstream f(o.out); f << s.str(); }
    return rc;
}

static int do_replay(const std::string& path, bool trace)
{
    Trace t;
    std::string prop;
    if (!read_replay(path, t, prop)) { fprintf(stderr, "cannot read replay file %s\n", path.c_str()); return 2; }
    Shm* m = shared_alloc<Shm>();
    m->trace = trace;
    run_replay(m, t);
    if (trace) fwrite(m->log, 1, m->loglen, stdout);
    printf("status=%d class=%s hash=%llu\n%s\n", m->status, m->cls, (unsigned long long)m->hash, m->msg);
    if (m->status == ST_VIOLATION && t.cls == m->cls) {
        if (m->hash != t.hash) { printf("WARNING: hash differs from the file (%llu)\n", (unsigned long long)t.hash); return 3; }
        return 1;
    }
    return m->status == ST_OK ? 0 : 2;
}

// prints one hash per run (order independent of the worker count)
static int det(Opts o)
{
    size_t n = (size_t)o.runs;
    uint64_t* hs = shared_alloc<uint64_t>(n);
    fflush(nullptr);
    std::vector<pid_t> pids;
    for (int w = 0; w < o.workers; w++) {
        pid_t p = fork();
        if (p == 0) {
            pin(o, w);
            Shm* m = shared_alloc<Shm>();
            for (size_t i = w; i < n; i += o.workers) {
                prep_record(m, o.scens[i % o.scens.size()], o.seed, i / o.scens.size());
                run_one(m);
                uint64_t x = m->hash * 31 + m->status;
                for (int k = 0; k < m->nevs; k++) x = mix3(x, m->evs[k].step, m->evs[k].val + m->evs[k].kind * 1000003ull + m->evs[k].tid * 77ull);
                // the recorded decisions must replay to the same execution
                Trace t = capture(m);
                int st = m->status;
                run_replay(m, t);
                if (m->status != st || m->hash != t.hash) x = mix3(x, 0xdead, m->hash);
                hs[i] = (m->status != st || m->hash != t.hash) ? 0xdead : x;
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) waitpid(p, nullptr, 0);
    size_t mism = 0;
    for (size_t i = 0; i < n; i++) { printf("%zu %016llx\n", i, (unsigned long long)hs[i]); mism += hs[i] == 0xdead; }
    fprintf(stderr, "%zu runs, %zu record/replay mismatches\n", n, mism);
    return mism ? 1 : 0;
}

} // namespace sim

using namespace sim;

extern "C" __attribute__((visibility("default"))) int sim_main(int argc, char** argv)
{
    struct sigaction sa{};
    sa.sa_handler = on_alarm;
    sigaction(SIGALRM, &sa, nullptr);
    std::sort(g_scens.begin(), g_scens.end(), [](const SimScenario& a, const SimScenario& b) { return strcmp(a.name, b.name) < 0; });
    rt_init();
    std::string mode = argc > 1 ? argv[1] : "list";
    Opts o;
    cpu_set_t cs;
    if (sched_getaffinity(0, sizeof cs, &cs) == 0) for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs)) o.cpus.push_back(i);
    o.workers = o.cpus.empty() ? 1 : (int)o.cpus.size();
    bool trace = false;
    std::string pos;
    uint64_t idx = 0;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--scen") {
            std::stringstream ss(nxt());
            std::string x;
            while (std::getline(ss, x, ',')) {
                bool ok = false;
                for (size_t k = 0; k < g_scens.size(); k++) if (x == g_scens[k].name) { o.scens.push_back((int)k); ok = true; }
                if (!ok) { fprintf(stderr, "unknown scenario %s\n", x.c_str()); return 2; }
            }
        } else if (a == "--seed") o.seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--runs") o.runs = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--time") o.time = atof(nxt().c_str());
        else if (a == "--mintime") o.mintime = atof(nxt().c_str());
        else if (a == "--workers") o.workers = atoi(nxt().c_str());
        else if (a == "--out") o.out = nxt();
        else if (a == "--replay-dir") o.replay_dir = nxt();
        else if (a == "--prop") o.prop = nxt();
        else if (a == "--known") { // scen|class|contains
            std::string x = nxt();
            size_t p = x.find('|'), q = x.find('|', p + 1);
            o.known.push_back({ x.substr(0, p), x.substr(p + 1, q - p - 1), x.substr(q + 1) });
        }
        else if (a == "--idx") idx = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--trace") trace = true;
        else if (a == "--hang") g_hang_s = atof(nxt().c_str());
        else pos = a;
    }
    if (mode == "list") { for (auto& s : g_scens) printf("%s\n", s.name); return 0; }
    if (mode == "replay") return do_replay(pos, trace);
    if (o.scens.empty()) { fprintf(stderr, "no scenario\n"); return 2; }
    if (mode == "explore") return explore(o);
    if (mode == "det") return det(o);
    if (mode == "one") {
        Shm* m = shared_alloc<Shm>();
        m->trace = trace;
        prep_record(m, o.scens[0], o.seed, idx);
        run_one(m);
        fwrite(m->log, 1, m->loglen, stdout);
        printf("status=%d class=%s hash=%llu steps=%llu sync=%llu switches=%llu threads=%d vtime=%.6f strat=%d tick=%lld nevs=%d\n%s\n", m->status, m->cls, (unsigned long long)m->hash,
               (unsigned long long)m->steps, (unsigned long long)m->ssteps, (unsigned long long)m->switches, m->threads, m->vtime / 1e9, m->strat, (long long)m->tick, m->nevs, m->msg);
        return 0;
    }
    return 2;
}
