// Free functions of gul14: concurrent first and later calls, failing allocations and failing output streams.
#include "sim.h"
#include "elem.h"
#include <gul14/gul.h>
#include <gul14/date.h>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <list>
#include <locale>
#include <regex>
#include <set>
#include <sstream>
#include <streambuf>
#include <thread>
#include <vector>

namespace {

using gul14::string_view;
using Str = std::string;

// ------------------------------------------------------------------ arguments
struct Args {
    int kind = 0;
    Str a, b, c;              // texts
    std::vector<Str> parts;
    std::vector<int> ints;
    std::vector<double> dbls;
    long n = 0;
    int m = 0, h = 0;         // sub-choice, hour
};

// Objects shared by all threads; nobody modifies them
struct Shared {
    gul14::SmallVector<int, 4> sv;
    gul14::SlidingBuffer<int> sb{ 4 };
    gul14::SlidingBuffer<int, 3> sbf;
    gul14::optional<Str> opt;
    gul14::variant<int, Str> var{ 0 };
    gul14::expected<Str, int> exp{ Str() };
    std::regex re{ "[,;]" };
    Str dump;
};

const char* const TEXT[] = { "", "a", " ", "\\", "\"", "\n", "\t", "\r", "\x01", "\xc3\xa4", ",", ";", "ab", "BA", "\\n", "\\x41", "\\xg1", "\\\\", "n", "x", "  ", "Hello", "0123456789", ",,", "aa" };
constexpr int NTEXT = sizeof TEXT / sizeof *TEXT;

Str gen_text(int maxparts)
{
    Str s;
    const int n = (int)sim_gen((uint64_t)maxparts + 1);
    for (int i = 0; i < n; i++) s += TEXT[sim_gen(NTEXT)];
    if (sim_gen(8) == 7) s.push_back('\0');
    if (sim_gen(24) == 23) { // long text
        static const size_t LEN[] = { 60, 130, 260, 520, 1100, 2100, 4200, 5000 };
        const size_t len = LEN[sim_gen(8)];
        const Str unit = s.empty() ? Str("xy") : s;
        while (s.size() < len) s += unit;
    }
    return s;
}

enum Kind {
    K_UNESCAPE, K_ESCAPE, K_REPLACE, K_REPLACE_IN, K_TRIM, K_CASE, K_CASE_IN, K_CAT, K_HEX, K_HEXV, K_REPEAT, K_SAFE, K_SPLIT, K_SPLIT_RE,
    K_SPLIT_LIST, K_JOIN, K_TOK, K_DUMP, K_DUMPV, K_DUMPS, K_STAT, K_OUTLIERS,
    K_NUMBER, K_CHECKS, K_SHARED, K_MATH, K_DATE, K_FINAL,
    // compared with the same call made alone and with enough memory
    K_NUM2, K_NUMUTIL, K_VIEW, K_BITS, K_STATD, K_CONST2, K_DATE2, K_TYPE, K_INSERTER, K_COPIES, K_VIEW2, K_CONST3, K_END
};
constexpr int K_ALLOC_END = K_END;
struct Shared;
const Shared* g_shared;
struct InserterError {};

Args gen_args(int kind)
{
    Args r;
    r.kind = kind;
    r.m = (int)sim_gen(24);
    r.a = gen_text(kind == K_DUMP || kind == K_DUMPS ? 12 : 8);
    r.b = TEXT[1 + sim_gen(NTEXT - 1)];
    r.c = gen_text(3);
    static const long N[] = { 0, 1, -1, 7, 42, 255, -128, 65536, 1000000007l, -9000000000000000000l };
    r.n = N[sim_gen(10)];
    if (kind == K_JOIN) { const int k = (int)sim_gen(5); for (int i = 0; i < k; i++) r.parts.push_back(gen_text(3)); }
    int k = (int)sim_gen(kind == K_DUMPV || kind == K_HEXV || kind == K_STAT || kind == K_OUTLIERS || kind == K_STATD ? 20 : 3);
    if (k && sim_gen(24) == 23) k *= 16;
    for (int i = 0; i < k; i++) { r.ints.push_back((int)N[sim_gen(9)] + (int)sim_gen(50)); r.dbls.push_back((double)sim_gen(1000) / 8 - 20); }
    return r;
}

// ------------------------------------------------------------------ reference model
const char WS[] = " \t\r\n\a\b\f\v";
bool is_in(char c, const Str& s) { return s.find(c) != Str::npos; }
void list_add(Str& out, const Str& x) { out += '<'; out += x; out += '>'; }
void app(Str& out, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void app(Str& out, const char* fmt, ...)
{
    char buf[400];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    out += buf;
}
char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
char upp(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }

template <class T> Str ref_dump(const T* p, size_t n, const Str& prompt)
{
    Str o;
    const int nod = (int)sizeof(T) * 2;
    size_t i = 0;
    do {
        if (i >= 16000) break;
        o += i ? Str(prompt.size(), ' ') : prompt;
        app(o, "%06zx: ", i);
        for (size_t j = i; j < i + 16; j++) {
            if (j < n) app(o, "%0*llx ", nod, (unsigned long long)(std::make_unsigned_t<T>)p[j]);
            else if (nod == 2) o += "   ";
            else break;
        }
        if (nod == 2) {
            o += ' ';
            for (size_t j = i; j < i + 16 && j < n; j++) { const unsigned char c = (unsigned char)p[j]; o += c >= 32 && c < 127 ? (char)c : '.'; }
        }
        o += '\n';
        i += 16;
    } while (i < n);
    if (i < n) { o += Str(prompt.size(), ' '); o += "[output truncated...]\n"; }
    return o;
}

Str ref_replace(const Str& a, const Str& needle, const Str& by)
{
    if (needle.empty()) return a;
    Str o;
    for (size_t i = 0; i < a.size();) {
        if (a.compare(i, needle.size(), needle) == 0) { o += by; i += needle.size(); }
        else o += a[i++];
    }
    return o;
}

std::vector<Str> ref_split(const Str& a, const Str& d)
{
    std::vector<Str> v(1);
    for (size_t i = 0; i < a.size();) {
        if (a.compare(i, d.size(), d) == 0) { v.emplace_back(); i += d.size(); }
        else v.back() += a[i++];
    }
    return v;
}

Str ref_trim(const Str& a, int mode, const Str& ws)
{
    size_t b = 0, e = a.size();
    if (mode != 2) while (b < e && is_in(a[b], ws)) b++;
    if (mode != 1) while (e > b && is_in(a[e - 1], ws)) e--;
    return a.substr(b, e - b);
}

Str tok_ws(const Args& x) { return x.m % 2 ? Str(",;a") : Str(WS); }

struct NumCase { const char* t; double v; int ok; };
const NumCase NUM[] = { { "12.5", 12.5, 1 }, { "-0.25", -0.25, 1 }, { "1e3", 1000, 1 }, { "abc", 0, 0 }, { "", 0, 0 }, { "1.5x", 0, 0 }, { "7e-1", 0.7, 1 }, { "0.0009765625", 0.0009765625, 1 } };

Str perform(const Args& x, const Shared& sh, Str* inplace);
Str expected_of(const Args& x)
{
    Str o;
    switch (x.kind) {
    case K_UNESCAPE:
        for (size_t i = 0; i < x.a.size(); i++) {
            const char n = i + 1 < x.a.size() ? x.a[i + 1] : 0;
            auto hex = [&](size_t k) { return k < x.a.size() && strchr("0123456789abcdefABCDEF", x.a[k]) && x.a[k]; };
            if (x.a[i] != '\\') { o += x.a[i]; continue; }
            if (n == '"' || n == '\\') { o += n; i++; }
            else if (n == 'n') { o += '\n'; i++; }
            else if (n == 'r') { o += '\r'; i++; }
            else if (n == 't') { o += '\t'; i++; }
            else if (n == 'x' && hex(i + 2) && hex(i + 3)) { o += (char)strtol(x.a.substr(i + 2, 2).c_str(), nullptr, 16); i += 3; }
            else o += '\\';
        }
        break;
    case K_ESCAPE:
        for (char c : x.a) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c == '\r') o += "\\r";
            else if (c == '\t') o += "\\t";
            else if ((signed char)c < 32) app(o, "\\x%02x", (unsigned char)c);
            else o += c;
        }
        break;
    case K_REPLACE: case K_REPLACE_IN: o = ref_replace(x.a, x.b, x.c); break;
    case K_TRIM: o = ref_trim(x.a, x.m % 3, x.m % 2 ? Str(" a") : Str(WS)); break;
    case K_CASE: case K_CASE_IN: for (char c : x.a) o += x.m % 2 ? low(c) : upp(c); break;
    case K_CAT:
        switch (x.m % 6) {
        case 0: o = x.a + x.b; break;
        case 1: o = x.a + x.b + x.c; break;
        case 2: o = x.a; app(o, "%ld", x.n); o += x.b; app(o, "%f", 2.5); o += 'z'; break;
        case 3: app(o, "%d", (int)x.n); break;
        case 4: o = x.a; app(o, "%f%llu", 1e30, (unsigned long long)x.n); break;
        default: o = x.a + x.b + x.c + x.a + x.b + x.c + x.a; break;
        }
        break;
    case K_HEX:
        switch (x.m % 4) {
        case 0: app(o, "%08x", (unsigned)(int)x.n); break;
        case 1: app(o, "%016lx", (unsigned long)x.n); break;
        case 2: app(o, "%02x", (unsigned char)x.n); break;
        default: app(o, "%04x", (unsigned short)x.n); break;
        }
        break;
    case K_HEXV: for (size_t i = 0; i < x.ints.size(); i++) { if (i) o += x.b; app(o, "%08x", (unsigned)x.ints[i]); } break;
    case K_REPEAT: for (int i = 0; i < x.m; i++) o += x.a; break;
    case K_SAFE: o = x.a.substr(0, x.a.find('\0')); break;
    case K_SPLIT: case K_SPLIT_LIST: for (auto& s : ref_split(x.a, x.b)) list_add(o, s); break;
    case K_SPLIT_RE: for (auto& s : ref_split(ref_replace(x.a, ";", ","), ",")) list_add(o, s); break;
    case K_JOIN: for (size_t i = 0; i < x.parts.size(); i++) { if (i) o += x.b; o += x.parts[i]; } break;
    case K_TOK: {
        const Str ws = tok_ws(x);
        Str t;
        for (char c : x.a) { if (is_in(c, ws)) { if (!t.empty()) list_add(o, t); t.clear(); } else t += c; }
        if (!t.empty()) list_add(o, t);
        } break;
    case K_DUMP: case K_DUMPS: o = ref_dump(x.a.data(), x.a.size(), x.b); break;
    case K_DUMPV: o = ref_dump(x.ints.data(), x.ints.size(), x.c); break;
    case K_STAT: {
        if (x.ints.empty()) { o = "-"; break; }
        std::vector<int> v = x.ints;
        std::sort(v.begin(), v.end());
        double sum = 0, sq = 0, var = 0;
        for (int i : v) { sum += i; sq += (double)i * i; }
        const double mean = sum / (double)v.size();
        for (int i : v) var += (i - mean) * (i - mean);
        const double med = v.size() % 2 ? v[v.size() / 2] : ((double)v[v.size() / 2 - 1] + v[v.size() / 2]) / 2;
        app(o, "%.6g %.6g %.6g %d %d %.6g", mean, std::sqrt(sq / (double)v.size()), med, v.front(), v.back(), v.size() > 1 ? std::sqrt(var / (double)(v.size() - 1)) : 0.0);
        } break;
    case K_OUTLIERS: {
        if (x.m % 3 >= (int)x.ints.size()) { o = "-"; break; }
        std::vector<double> v(x.ints.begin(), x.ints.end());
        for (int r = 0; r < x.m % 3; r++) {
            double mean = 0;
            for (double d : v) mean += d;
            mean /= (double)v.size();
            double far = -1;
            for (double d : v) far = std::max(far, std::fabs(d - mean));
            app(o, "[%.6g]", far);
            int n = 0; // more than one candidate: leave the choice open
            for (double d : v) n += std::fabs(std::fabs(d - mean) - far) < 1e-6 * (1 + far);
            if (n > 1) return o + "*";
            for (size_t i = 0; i < v.size(); i++) if (std::fabs(std::fabs(v[i] - mean) - far) < 1e-6 * (1 + far)) { v.erase(v.begin() + (long)i); break; }
        }
        for (double d : v) app(o, "<%.6g>", d);
        } break;
    case K_NUMBER: {
        const NumCase& c = NUM[x.m % 8];
        app(o, "%ld %d %d %.9g %d", x.n, 0, c.ok, c.ok ? c.v : 0.0, x.n > 2147483647 || x.n < -2147483648l ? 0 : 1);
        } break;
    case K_CHECKS: {
        Str la, lb;
        for (char c : x.a) la += low(c);
        for (char c : x.b) lb += low(c);
        auto starts = [](const Str& s, const Str& p) { return s.compare(0, p.size(), p) == 0; };
        auto ends = [](const Str& s, const Str& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; };
        app(o, "%d%d%d%d%d%d%d", x.a.find(x.b) != Str::npos, starts(x.a, x.b), ends(x.a, x.b), la.find(lb) != Str::npos, starts(la, lb), ends(la, lb), la == lb);
        } break;
    case K_SHARED: o = "shared 4 10 20 30 40 | 3 2 3 4 | 2 8 9 | text | 17 | good"; break;
    case K_MATH: {
        long a = std::labs(x.n % 10007) + 1, b = x.m + 1, p = a * b;
        while (b) { const long t = a % b; a = b; b = t; }
        app(o, "%ld %ld %u %u", a, p / a, 1u << (x.m % 20) | 5u, 7u & ~(1u << (x.m % 3)));
        } break;
    case K_DATE: app(o, "%04d-%02d-%02d 20%02d-%02d-%02d", 1970 + x.m, 1 + x.m % 12, 1 + x.m, x.m, 1 + x.m % 12, 1 + x.m); break;
    case K_FINAL: o = "13"; break;
    default: { // what the call returns if it runs alone
        Str in = x.a;
        return perform(x, *g_shared, &in); }
    }
    return o;
}

// ------------------------------------------------------------------ the real functions
template <class C> Str show(const C& c) { SimNoAllocFaults na; Str o; for (auto& s : c) list_add(o, Str(s.data(), s.size())); return o; }

Str perform(const Args& x, const Shared& sh, Str* inplace)
{
    Str o;
    switch (x.kind) {
    case K_UNESCAPE: return gul14::unescape(x.a);
    case K_ESCAPE: return gul14::escape(x.a);
    case K_REPLACE: return gul14::replace(x.a, x.b, x.c);
    case K_REPLACE_IN: { Str& r = gul14::replace_inplace(*inplace, x.b, x.c); if (&r != inplace) sim_fail("wrong-result", "replace_inplace does not return its argument"); SimNoAllocFaults na; return *inplace; }
    case K_TRIM:
        switch (x.m % 6) {
        case 0: return gul14::trim(x.a);
        case 1: return gul14::trim_left(x.a, " a");
        case 2: return gul14::trim_right(x.a);
        case 3: return gul14::trim(x.a, " a");
        case 4: return gul14::trim_left(x.a);
        default: return gul14::trim_right(x.a, " a");
        }
    case K_CASE: return x.m % 2 ? gul14::lowercase_ascii(x.a) : gul14::uppercase_ascii(x.a);
    case K_CASE_IN: { Str& r = x.m % 2 ? gul14::lowercase_ascii_inplace(*inplace) : gul14::uppercase_ascii_inplace(*inplace); if (&r != inplace) sim_fail("wrong-result", "the in-place function does not return its argument"); SimNoAllocFaults na; return *inplace; }
    case K_CAT:
        switch (x.m % 6) {
        case 0: return gul14::cat(x.a, x.b);
        case 1: return gul14::cat(x.a, x.b, x.c);
        case 2: return gul14::cat(x.a, x.n, x.b, 2.5, 'z');
        case 3: return gul14::cat((int)x.n);
        case 4: return gul14::cat(x.a, 1e30, (unsigned long long)x.n);
        default: return gul14::cat(x.a, x.b, x.c, x.a, x.b, x.c, x.a);
        }
    case K_HEX:
        switch (x.m % 4) {
        case 0: return gul14::hex_string((int)x.n);
        case 1: return gul14::hex_string(x.n);
        case 2: return gul14::hex_string((signed char)x.n);
        default: return gul14::hex_string((unsigned short)x.n);
        }
    case K_HEXV: return x.m % 2 ? gul14::hex_string(x.ints, x.b) : gul14::hex_string(x.ints.begin(), x.ints.end(), x.b);
    case K_REPEAT: return gul14::repeat(x.a, (size_t)x.m);
    case K_SAFE: return gul14::safe_string(x.a.c_str(), x.a.size());
    case K_SPLIT: if (x.m % 2) return show(gul14::split(x.a, x.b)); return show(gul14::split_sv(x.a, x.b));
    case K_SPLIT_LIST: return show(gul14::split<std::list<Str>>(x.a, x.b));
    case K_SPLIT_RE: return show(gul14::split(x.a, sh.re));
    case K_JOIN: return x.m % 2 ? gul14::join(x.parts, x.b) : gul14::join(x.parts.begin(), x.parts.end(), x.b);
    case K_TOK:
        switch (x.m % 4) {
        case 0: return show(gul14::tokenize(x.a));
        case 1: return show(gul14::tokenize(x.a, ",;a"));
        case 2: return show(gul14::tokenize_sv(x.a));
        default: return show(gul14::tokenize<std::list<Str>>(x.a, ",;a"));
        }
    case K_DUMP: return x.m % 2 ? gul14::hexdump(x.a, x.b) : gul14::hexdump(x.a.begin(), x.a.end(), x.b);
    case K_DUMPV: return x.m % 2 ? gul14::hexdump(x.ints, x.c) : gul14::hexdump(x.ints.data(), x.ints.data() + x.ints.size(), x.c);
    case K_DUMPS: {
        std::ostringstream os;
        os.exceptions(std::ios::badbit | std::ios::failbit);
        os << gul14::hexdump_stream(x.a, x.b);
        return os.str(); }
    case K_STAT: {
        if (x.ints.empty()) return "-";
        const auto sd = gul14::standard_deviation(x.ints);
        const auto mm = gul14::min_max(x.ints);
        const double mean = gul14::mean(x.ints), rms = gul14::rms(x.ints), med = gul14::median(x.ints), sig = sd.sigma();
        if (mm.min != gul14::minimum(x.ints) || mm.max != gul14::maximum(x.ints)) sim_fail("wrong-result", "min_max() disagrees with minimum() and maximum()");
        SimNoAllocFaults na;
        app(o, "%.6g %.6g %.6g %d %d %.6g", mean, rms, med, mm.min, mm.max, x.ints.size() > 1 ? sig : 0.0);
        return o; }
    case K_OUTLIERS: {
        if (x.m % 3 >= (int)x.ints.size()) return "-";
        std::vector<double> in;
        { SimNoAllocFaults na; in.assign(x.ints.begin(), x.ints.end()); }
        const std::vector<double>& cin = in;
        auto v = gul14::remove_outliers(cin, (size_t)(x.m % 3));
        SimNoAllocFaults na;
        // rebuild the distances from what was removed so that ties need no rule
        const Str want = expected_of(x);
        if (!want.empty() && want.back() == '*') return v.size() + (size_t)(x.m % 3) == in.size() ? want : Str("wrong size");
        o = want.substr(0, want.find('<'));
        for (double d : v) app(o, "<%.6g>", d);
        return o; }
    case K_NUMBER: {
        const NumCase& c = NUM[x.m % 8];
        char t[40];
        snprintf(t, sizeof t, "%ld", x.n);
        const auto l = gul14::to_number<long>(t);
        const auto i = gul14::to_number<int>(t);
        const auto d = gul14::to_number<double>(c.t);
        const auto g = gul14::to_number<long>("12 34");
        SimNoAllocFaults na;
        app(o, "%ld %d %d %.9g %d", l ? *l : -99, g.has_value(), d.has_value(), d ? *d : 0.0, i.has_value());
        return o; }
    case K_CHECKS: {
        using namespace gul14;
        const bool r[] = { contains(x.a, x.b), starts_with(x.a, x.b), ends_with(x.a, x.b), contains_nocase(x.a, x.b), starts_with_nocase(x.a, x.b), ends_with_nocase(x.a, x.b), equals_nocase(x.a, x.b) };
        SimNoAllocFaults na;
        for (bool b : r) o += b ? '1' : '0';
        return o; }
    case K_SHARED: {
        SimNoAllocFaults na;
        o = "shared";
        app(o, " %u", sh.sv.size());
        for (int i : sh.sv) app(o, " %d", i);
        if (sh.sv.at(3) != sh.sv.back() || sh.sv.front() != sh.sv[0] || sh.sv.empty()) o += "!";
        app(o, " | %zu", sh.sb.size());
        for (auto it = sh.sb.begin(); it != sh.sb.end(); ++it) app(o, " %d", *it);
        if (sh.sb.front() != sh.sb[0] || sh.sb.back() != sh.sb[2] || sh.sb.filled() || sh.sb.empty() || sh.sb.capacity() != 4) o += "!";
        app(o, " | %zu %d %d", sh.sbf.size(), sh.sbf[0], sh.sbf.back());
        o += " | " + *sh.opt + " | ";
        app(o, "%d | ", gul14::get<int>(sh.var));
        o += sh.exp.value();
        return o; }
    case K_MATH: {
        const long a = std::labs(x.n % 10007) + 1, b = x.m + 1;
        const long g = gul14::gcd(a, b), l = gul14::lcm(a, b);
        const unsigned s = gul14::bit_set(5u, (unsigned)x.m % 20), r = gul14::bit_reset(7u, (unsigned)x.m % 3);
        SimNoAllocFaults na;
        app(o, "%ld %ld %u %u", g, l, s, r);
        return o; }
    case K_DATE: {
        using namespace gul14::date;
        const year_month_day d{ year(1970 + x.m), month(1 + (unsigned)x.m % 12), day(1 + (unsigned)x.m) };
        const year_month_day e{ year(2000 + x.m), month(1 + (unsigned)x.m % 12), day(1 + (unsigned)x.m) };
        std::ostringstream os;
        os.exceptions(std::ios::badbit | std::ios::failbit);
        os << d << ' ';
        return os.str() + format("%F", sys_days(e)); }
    case K_FINAL: {
        int k = 0;
        {
            auto f = gul14::finally([&k] { k += 3; });
            k = 10;
        }
        app(o, "%d", k);
        return o; }
    case K_NUM2: {
        static const char* const NT[] = { "0", "1", "255", "256", "-1", "65535", "4294967295", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "3.14159265358979323846", "-2.5e-3", "1e400", "1e-400", "4.9e-324",
            "1.7976931348623157e308", "inf", "-INF", "nan", "NaN(abc)", "true", "FALSE", "1e5000", "123456789012345678901234567890", ".5", "5.", "1e", "--1", "0x10", "0.1", "1e22", "1e23" };
        const string_view t = NT[(x.m + (int)x.a.size() * 5 + (int)x.ints.size() * 11) % (int)(sizeof NT / sizeof *NT)];
        const auto uc = gul14::to_number<unsigned char>(t);
        const auto sc = gul14::to_number<signed char>(t);
        const auto sh1 = gul14::to_number<short>(t);
        const auto ui = gul14::to_number<unsigned>(t);
        const auto ull = gul14::to_number<unsigned long long>(t);
        const auto ll = gul14::to_number<long long>(t);
        const auto f = gul14::to_number<float>(t);
        const auto d = gul14::to_number<double>(t);
        const auto ld = gul14::to_number<long double>(t);
        const auto b = gul14::to_number<bool>(t);
        SimNoAllocFaults na;
        app(o, "%d%d%d%d%d%d%d%d%d%d ", !!uc, !!sc, !!sh1, !!ui, !!ull, !!ll, !!f, !!d, !!ld, !!b);
        app(o, "%d %d %d %u %llu %lld ", uc ? *uc : 0, sc ? *sc : 0, sh1 ? *sh1 : 0, ui ? *ui : 0u, ull ? *ull : 0ull, ll ? *ll : 0ll);
        app(o, "%a %a %La %d", f ? (double)*f : 0., d ? *d : 0., ld ? *ld : 0.l, b ? *b : 0);
        return o; }
    case K_NUMUTIL: {
        const double a = x.dbls.empty() ? 1.5 : x.dbls[0], b = a + 1e-12 * x.m;
        const int lo = -3, hi = 9, v = (int)(x.n % 17);
        const bool r1 = gul14::within_orders(a + 30, b + 30, (double)(x.m % 14)), r2 = gul14::within_abs(a, b, 1e-11), r3 = gul14::within_ulp(a, b, (unsigned)x.m), r4 = gul14::within_abs((unsigned)x.m, 7u, 3u);
        const int c1 = gul14::clamp(v, lo, hi), c2 = gul14::clamp(v, hi, lo, std::greater<int>());
        const long ab = gul14::abs((long)x.m - 12);
        SimNoAllocFaults na;
        app(o, "%d%d%d%d %d %d %ld", r1, r2, r3, r4, c1, c2, ab);
        return o; }
    case K_VIEW: {
        const string_view v = x.a, w = x.b;
        const string_view t1 = gul14::trim_sv(v), t2 = gul14::trim_left_sv(v), t3 = gul14::trim_right_sv(v, "a ");
        const size_t p[] = { v.find(w), v.rfind(w), v.find_first_of(w), v.find_last_of(w), v.find_first_not_of(w), v.find_last_not_of(w), v.find('a'), v.rfind('b'), v.size() };
        const int c = v.compare(w);
        const bool r[] = { v == w, v < w, gul14::contains(v, 'a'), gul14::starts_with(v, 'a'), gul14::ends_with(v, 'a'), gul14::contains_nocase(v, 'A'), gul14::starts_with_nocase(v, 'A'), gul14::ends_with_nocase(v, 'A') };
        const auto tk = gul14::tokenize_sv<gul14::SmallVector<string_view, 2>>(v, w);
        const auto sp = gul14::split_sv<std::list<string_view>>(v, w);
        const gul14::span<const int> s(x.ints.data(), x.ints.size());
        long sum = 0;
        for (int i : s) sum += i;
        std::ostringstream os;
        os.exceptions(std::ios::badbit | std::ios::failbit);
        os << v << '|' << t1;
        const Str str = os.str();
        SimNoAllocFaults na;
        o = str + "|" + Str(t2) + "|" + Str(t3) + "|" + show(tk) + "|" + show(sp);
        for (size_t k : p) app(o, " %zd", (ssize_t)k);
        for (bool k : r) o += k ? '1' : '0';
        app(o, " %d %ld", (c > 0) - (c < 0), sum);
        return o; }
    case K_VIEW2: {
        const string_view v = x.a, w = x.b;
        char buf[8] = {};
        const size_t nc = v.empty() ? 0 : v.copy(buf, 7, v.size() / 2);
        const string_view first = v.substr(0, v.size() / 2);
        string_view cut = v, other = w;
        if (v.size() > 2) { cut.remove_prefix(1); cut.remove_suffix(1); }
        cut.swap(other);
        size_t acc = v.size();
        for (auto it = v.rbegin(); it != v.rend(); ++it) acc = acc * 31 + (unsigned char)*it;
        for (auto it = v.crbegin(); it != v.crend(); ++it) acc = acc * 31 + (unsigned char)*it;
        int thrown = 0;
        try { acc += (unsigned char)v.at((size_t)x.m); } catch (const std::out_of_range&) { thrown = 1; }
        const bool r[] = { v != w, v > w, v <= w, v >= w, v == x.a, x.b == w, v.empty(), v.compare(0, 1, w) == 0, v.find(w, 1) == string_view::npos };
        std::ostringstream os;
        os.exceptions(std::ios::badbit | std::ios::failbit);
        os.width(x.m);
        os.fill('.');
        os << first;
        os.width(x.m);
        os.setf(std::ios::left, std::ios::adjustfield);
        os << w;
        const Str str = os.str(), s2(cut), s3(other);
        const std::vector<int>& iv = x.ints;
        gul14::span<const int> sp(iv);
        size_t a2 = sp.size_bytes() + sp.empty();
        if (!sp.empty()) {
            a2 = a2 * 7 + (size_t)sp.front() + (size_t)sp.back() + (size_t)sp[0];
            for (auto b : { sp.first(1), sp.last(1), sp.subspan(1), sp.subspan(0, 1) }) for (int e : b) a2 = a2 * 7 + (size_t)e;
            a2 += (size_t)sp.first<1>()[0] + (size_t)sp.last<1>()[0] + sp.subspan<1>().size();
            for (auto it = sp.rbegin(); it != sp.rend(); ++it) a2 = a2 * 7 + (size_t)*it;
            a2 += gul14::as_bytes(sp).size();
        }
        SimNoAllocFaults na;
        o = str + "|" + Str(buf, nc) + "|" + s2 + "|" + s3;
        for (bool k : r) o += k ? '1' : '0';
        app(o, " %zx %zx %d", acc, a2, thrown);
        return o; }
    case K_CONST3: {
        const auto& e = sh.exp;
        const auto m1 = e.and_then([](const Str& t) { return gul14::expected<int, int>((int)t.size()); });
        const auto m2 = e.map_error([](int k) { return k + 1; });
        const auto m3 = e.or_else([](int) { return gul14::expected<Str, int>(Str("else")); });
        const auto m4 = e.transform([](const Str& t) { return t + t; });
        const bool q[] = { sh.opt != sh.opt, sh.opt < sh.opt, sh.opt <= sh.opt, sh.opt > sh.opt, sh.opt >= sh.opt, sh.opt == gul14::nullopt, sh.opt == Str("text"), sh.opt != Str("texx"),
            sh.var != sh.var, sh.var < sh.var, sh.var > sh.var, sh.var <= sh.var, sh.var >= sh.var, e != e, e == Str("good"), bool(sh.opt), e.has_value() };
        const size_t h = std::hash<gul14::variant<int, Str>>()(sh.var);
        const int iv[] = { (int)sh.opt->size(), (int)e->size(), *sh.sv.cbegin(), (int)(sh.sv.cend() - sh.sv.cbegin()), (int)sh.sb.size(), *sh.sb.cbegin(), (int)(sh.sb.cend() - sh.sb.cbegin()), sh.sbf.front(), sh.sbf.at(1), (int)sh.sbf.size(), gul14::invoke([](int k) { return k + 1; }, x.m) };
        int thrown = 0;
        try { (void)sh.sb.at(9); } catch (const std::out_of_range&) { thrown += 1; }
        try { (void)sh.sv.at(9); } catch (const std::out_of_range&) { thrown += 2; }
        try { (void)gul14::get<Str>(sh.var); } catch (const gul14::bad_variant_access&) { thrown += 4; }
        std::ostringstream os;
        os.exceptions(std::ios::badbit | std::ios::failbit);
        os << sh.sb << sh.sbf;
        const Str str = os.str();
        SimNoAllocFaults na;
        o = str;
        for (bool b : q) o += b ? '1' : '0';
        for (int i : iv) app(o, " %d", i);
        app(o, " %d %zu %s %s %zx %d", m1 ? *m1 : -1, m2 ? m2->size() : 0, m3 ? m3->c_str() : "", m4 ? m4->c_str() : "", h, thrown);
        return o; }
    case K_BITS: {
        const unsigned b = (unsigned)x.m;
        const auto b1 = gul14::bit_set<unsigned>(b), b2 = gul14::bit_flip(0xa5a5a5u, b);
        const bool b3 = gul14::bit_test(0xa5a5a5u, b), b4 = gul14::is_big_endian(), b5 = gul14::is_little_endian();
        const char cl = gul14::lowercase_ascii((char)(60 + b)), cu = gul14::uppercase_ascii((char)(90 + b));
        const long g = gul14::gcd(x.n % 100000, (long)b * 12), l = gul14::lcm(x.n % 1000, (long)b);
        SimNoAllocFaults na;
        app(o, "%u %u %d%d%d %c%c %ld %ld", b1, b2, b3, b4, b5, cl, cu, g, l);
        return o; }
    case K_STATD: {
        const auto& d = x.dbls;
        if (d.size() < 2) return "-";
        const auto acc = [](const double& e) { return e * 2; };
        const double m = gul14::mean(d, acc), r = gul14::rms(d.begin(), d.end()), md = gul14::median(d.begin(), d.end(), acc);
        const auto mm = gul14::min_max(d.begin(), d.end());
        const double mn = gul14::minimum(d.begin(), d.end(), acc), mx = gul14::maximum(d.begin(), d.end());
        const auto sd = gul14::standard_deviation(d, acc);
        const double ac = gul14::accumulate<double>(d, [](double p, double q) { return p + q; });
        std::list<double> l(d.begin(), d.end());
        const auto cut = gul14::remove_outliers(std::move(l), 1);
        const auto cut2 = gul14::remove_outliers(d, 1, acc);
        SimNoAllocFaults na;
        app(o, "%.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", m, r, md, mm.min, mm.max, mn, mx, sd.mean(), sd.sigma(), ac);
        for (double e : cut) app(o, " %.17g", e);
        for (double e : cut2) app(o, " %.17g", e);
        return o; }
    case K_CONST2: {
        const auto& v = sh.sv;
        const bool q[] = { v.empty(), v == v, v != v, sh.sb.empty(), sh.sb.filled(), sh.sbf.empty(), sh.opt.has_value(), bool(sh.exp), sh.opt == sh.opt, sh.var == sh.var, sh.exp == sh.exp, gul14::holds_alternative<int>(sh.var), sh.var.valueless_by_exception() };
        const int n[] = { v.front(), v.back(), v.at(1), v[2], *(v.cend() - 1), (int)v.capacity(), (int)v.max_size() > 0, *v.data(), sh.sb.front(), sh.sb.back(), sh.sb[1], sh.sb.at(0), (int)sh.sb.capacity(), sh.sbf.back(), (int)sh.sbf.capacity(), (int)sh.var.index(),
            gul14::visit([](const auto& e) { return (int)sizeof(e); }, sh.var) };
        const Str s1 = sh.opt.value_or("none"), s2 = sh.exp.value_or("bad"), s3 = sh.opt.value();
        const auto mp = sh.exp.map([](const Str& e) { return e.size(); });
        const int* gi = gul14::get_if<int>(&sh.var);
        long sum = 0;
        for (const auto& e : sh.sb) sum = sum * 10 + e;
        for (const auto& e : sh.sbf) sum = sum * 10 + e;
        const size_t hs = std::hash<gul14::optional<Str>>()(sh.opt);
        SimNoAllocFaults na;
        for (bool b : q) o += b ? '1' : '0';
        for (int b : n) app(o, " %d", b);
        app(o, " %s %s %s %zu %d %ld %zx", s1.c_str(), s2.c_str(), s3.c_str(), mp ? *mp : 0, gi ? *gi : 0, sum, hs);
        return o; }
    case K_COPIES: { // copies of shared objects
        gul14::SmallVector<int, 4> v(sh.sv);
        v.push_back((int)x.n);
        gul14::SlidingBuffer<int> b(sh.sb);
        b.push_back(x.m);
        gul14::SlidingBuffer<int, 3> f(sh.sbf);
        f.push_front(x.m);
        gul14::optional<Str> op(sh.opt);
        gul14::variant<int, Str> va(sh.var);
        gul14::expected<Str, int> ex(sh.exp);
        va = x.a;
        SimNoAllocFaults na;
        for (int i : v) app(o, "%d ", i);
        for (int i : b) app(o, "%d ", i);
        for (int i : f) app(o, "%d ", i);
        return o + *op + gul14::get<Str>(va) + *ex; }
    case K_DATE2: {
        using namespace gul14::date;
        const sys_days dd = sys_days(year_month_day{ year(1999 + x.m), month(1 + (unsigned)x.m % 12), day(1 + (unsigned)x.m) });
        const auto tp = dd + std::chrono::seconds(x.m * 3661);
        const Str f1 = format("%A %d %B %Y %H:%M:%S %j %U %p", tp), f2 = format("%a %b %e %D %T", tp);
        std::istringstream is("2020-02-29 12:34:56");
        is.exceptions(std::ios::badbit);
        sys_seconds s;
        from_stream(is, "%Y-%m-%d %H:%M:%S", s);
        std::ostringstream os;
        os.exceptions(std::ios::badbit | std::ios::failbit);
        os << weekday(dd) << ' ' << year_month_weekday(dd) << ' ' << s;
        const Str f3 = os.str();
        SimNoAllocFaults na;
        return f1 + "|" + f2 + "|" + f3; }
    case K_TYPE: {
        const string_view t = x.m % 3 == 0 ? gul14::type_name<int>() : x.m % 3 == 1 ? gul14::type_name<const char*>() : gul14::type_name<gul14::SmallVector<int, 3>>();
        SimNoAllocFaults na;
        return Str(t.data(), t.size()); }
    case K_INSERTER: { // the caller's inserter fails
        int n = 0;
        using V = std::vector<Str>;
        const auto ins = [&n](V& c, string_view s) { n++; if (sim_fault(12)) throw InserterError{}; c.emplace_back(s); };
        switch (x.m % 4) {
        case 0: return show(gul14::split<V>(x.a, x.b, ins));
        case 1: return show(gul14::tokenize<V>(x.a, x.b, ins));
        case 2: return show(gul14::split<V>(x.a, sh.re, ins));
        default: return show(gul14::tokenize<V>(x.a, " \n", ins));
        }
        }
    }
    return o;
}

const char* kind_name(int k)
{
    static const char* const n[] = { "unescape", "escape", "replace", "replace_inplace", "trim", "case conversion", "in-place case conversion", "cat", "hex_string", "hex_string(range)",
        "repeat", "safe_string", "split", "split(regex)", "split<list>", "join", "tokenize", "hexdump", "hexdump<int>", "hexdump_stream", "statistics", "remove_outliers",
        "to_number", "substring checks", "const members", "gcd/lcm/bits", "date", "finally", "to_number (types)", "numeric helpers", "views", "bit functions", "statistics of doubles", "const members (2)", "date formatting", "type_name", "split/tokenize with an inserter", "copies of shared objects", "views and spans", "const members (3)" };
    static_assert(sizeof n / sizeof *n == K_END, "names");
    return n[k];
}

void wrong(const Args& x, const Str& got, const Str& want)
{
    const Str g = gul14::escape(got.substr(0, 120)), w = gul14::escape(want.substr(0, 120));
    sim_fail("wrong-result", "%s (variant %d): got \"%s\", expected \"%s\"", kind_name(x.kind), x.m, g.c_str(), w.c_str());
}

void fill(Shared& sh)
{
    for (int i = 1; i <= 4; i++) sh.sv.push_back(10 * i);
    for (int i = 2; i <= 4; i++) sh.sb.push_back(i);
    sh.sbf.push_back(8);
    sh.sbf.push_back(9);
    sh.opt = Str("text");
    sh.var = 17;
    sh.exp = Str("good");
    // The cache of std::ctype is filled by whoever comes first, without synchronisation
    // (a known property of libstdc++, not of the code under test): fill it now.
    const auto& ct = std::use_facet<std::ctype<char>>(std::locale());
    char c = 'a', t;
    ct.narrow(&c, &c + 1, '?', &t);
    ct.widen(&c, &c + 1, &t);
    for (int i = 0; i < 256; i++) { ct.narrow((char)i, '?'); ct.widen((char)i); }
}

// ------------------------------------------------------------------ concurrent calls
void util_threads()
{
    const int nt = 2 + (int)sim_gen(3);
    const int focus = sim_gen(2) ? (int)sim_gen(K_END) : -1;
    std::vector<std::vector<Args>> plan((size_t)nt);
    std::vector<std::vector<Str>> got((size_t)nt);
    for (auto& p : plan) { const int n = 1 + (int)sim_gen(4); for (int i = 0; i < n; i++) p.push_back(gen_args(focus >= 0 && sim_gen(4) ? focus : (int)sim_gen(K_END))); }
    const bool share = sim_gen(2); // all threads work on the same argument objects
    if (share) for (int t = 1; t < nt; t++) plan[(size_t)t].clear();
    Shared sh;
    g_shared = &sh;
    fill(sh);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
            const auto& p = plan[share ? 0 : (size_t)t];
            auto& g = got[(size_t)t];
            for (auto& x : p) { Str in = x.a; g.push_back(perform(x, sh, &in)); }
        });
    for (auto& t : th) t.join();
    sim_faults(0);
    for (int t = 0; t < nt; t++) {
        const auto& p = plan[share ? 0 : (size_t)t];
        for (size_t i = 0; i < p.size(); i++) { const Str w = expected_of(p[i]); if (got[(size_t)t][i] != w) wrong(p[i], got[(size_t)t][i], w); }
    }
    sim_probe(share);
}

// ------------------------------------------------------------------ failing allocations
void util_memory()
{
    sim_alloc_faults(0);
    Shared sh;
    g_shared = &sh;
    fill(sh);
    sim_faults(0);
    if (sim_gen(4)) for (int k = 0; k < K_ALLOC_END; k++) { Args x; x.kind = k; x.a = "a\\nb"; x.b = "b"; Str in = x.a; perform(x, sh, &in); }
    const int n = 1 + (int)sim_gen(8);
    bool grown[K_END] = {};
    for (int i = 0; i < n; i++) {
        const Args x = gen_args((int)sim_gen(K_ALLOC_END));
        Args before;
        { SimHarness h; before = x; }
        sim_faults(0);
        const Str want = expected_of(x);
        for (int round = 0; round < 2; round++) { // the second call is the retry with enough memory
            const int64_t blocks = sim_live_blocks();
            bool threw = false;
            {
                Str in = x.a;
                Str got;
                const uint64_t f0 = sim_faults_injected();
                try {
                    sim_faults(round == 0);
                    sim_alloc_faults(round == 0);
                    got = perform(x, sh, &in);
                    sim_alloc_faults(0);
                }
                catch (const std::bad_alloc&) { sim_alloc_faults(0); threw = true; }
                catch (const InserterError&) { sim_alloc_faults(0); threw = true; if (x.kind != K_INSERTER) sim_fail("wrong-exception", "%s: unexpected exception", kind_name(x.kind)); }
                catch (const std::ios_base::failure&) { sim_alloc_faults(0); threw = true; if (x.kind != K_DUMPS) sim_fail("wrong-exception", "%s: running out of memory is not reported as bad_alloc", kind_name(x.kind)); }
                catch (const std::exception& e) { sim_alloc_faults(0); sim_fail("wrong-exception", "%s: unexpected exception %s", kind_name(x.kind), e.what()); }
                sim_mark(x.kind * 1000 + x.m * 2 + threw);
                sim_mark((int64_t)(got.size() * 1000 + x.a.size()));
                if (threw && sim_faults_injected() == f0) sim_fail("wrong-exception", "%s: threw although no failure was injected", kind_name(x.kind));
                if (!threw && got != want) wrong(x, got, want);
                if (in.c_str()[in.size()] != 0 || in.size() > in.capacity()) sim_fail("broken-argument", "%s: the in-place target is not valid any more", kind_name(x.kind));
                if (!threw && (x.kind == K_REPLACE_IN || x.kind == K_CASE_IN) && in != want) wrong(x, in, want);
            }
            if (x.a != before.a || x.b != before.b || x.c != before.c || x.parts != before.parts || x.ints != before.ints) sim_fail("argument-modified", "%s: an input argument was changed", kind_name(x.kind));
            const int64_t d = sim_live_blocks() - blocks;
            if (d > 0 && grown[x.kind]) sim_fail("memory-leak", "%s: %ld memory blocks were leaked by a call that %s", kind_name(x.kind), (long)d, threw ? "failed" : "succeeded");
            if (d > 0) { // one-time initialisation: may happen once
                grown[x.kind] = true;
            }
            if (threw) sim_probe(2);
        }
    }
}

// ------------------------------------------------------------------ failing streams
struct StreamError {};
// Accepts characters until the simulator lets it fail
class FlakyBuf : public std::streambuf {
public:
    Str got;
    int mode = 0;          // 0 eof for ever, 1 eof once, 2 throws for ever, 3 throws once
    bool partial = false;  // a failing write accepts some of its characters
    bool broken = false, failed = false;
    bool buffered = false;
    char buf[8];
    Str lost;              // characters still in buf when the device broke
    void use_buffer() { buffered = true; setp(buf, buf + sizeof buf); }
    size_t pending() const { return (size_t)(pptr() - pbase()); }
private:
    bool fault()
    {
        if (!broken && !(sim_fault(10) && (broken = true))) return false;
        failed = true;
        if (mode & 1) broken = false;
        if (mode & 2) throw StreamError{};
        return true;
    }
    size_t put(const char* s, size_t n)
    {
        SimNoAllocFaults na;
        if (n == 0) return 0;
        const bool was = broken;
        if (!was && partial && n > 1 && sim_fault(11)) { got.append(s, n / 2); broken = !(mode & 1); failed = true; return n / 2; }
        if (fault()) return 0;
        got.append(s, n);
        return n;
    }
    bool drain()
    {
        const size_t n = pending();
        const size_t k = put(pbase(), n);
        if (k < n) { memmove(buf, buf + k, n - k); setp(buf, buf + sizeof buf); pbump((int)(n - k)); return false; }
        setp(buf, buf + sizeof buf);
        return true;
    }
protected:
    int_type overflow(int_type c) override
    {
        if (buffered) {
            if (!drain()) return traits_type::eof();
            if (c != traits_type::eof()) { *pptr() = (char)c; pbump(1); }
            return traits_type::not_eof(c);
        }
        const char ch = (char)c;
        if (c == traits_type::eof()) return 0;
        return put(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (buffered) return std::streambuf::xsputn(s, n);
        return (std::streamsize)put(s, (size_t)n);
    }
    int sync() override { return !buffered || drain() ? 0 : -1; }
};

template <class T> void dump_case(const std::vector<T>& v, const Str& prompt, int how, FlakyBuf& fb, int exc, int before)
{
    const Str want = ref_dump(v.data(), v.size(), prompt);
    std::ostream os(&fb);
    if (before) { // the stream has failed already
        const std::ios::iostate st = before == 1 ? std::ios::failbit : before == 2 ? std::ios::badbit : std::ios::failbit | std::ios::eofbit;
        os.setstate(st);
        switch (how) {
        case 0: case 4: case 6: os << gul14::hexdump_stream(v, prompt); break;
        case 1: case 5: case 7: os << gul14::hexdump_stream(v.begin(), v.end(), prompt); break;
        default: os << gul14::hexdump_stream(v.data(), v.data() + v.size(), prompt); break;
        }
        if ((os.rdstate() & st) != st) sim_fail("failure-hidden", "a stream that had failed before has forgotten its failure");
        if (!fb.got.empty() || fb.pending()) sim_fail("wrong-dump", "something was written to a stream that had failed before");
        return;
    }
    if (exc) os.exceptions(exc == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
    const uint64_t f0 = sim_faults_injected();
    enum { NONE, IOFAIL, STREAM, ALLOC } ex = NONE;
    try {
        sim_alloc_faults(1);
        switch (how) {
        case 0: os << gul14::hexdump_stream(v, prompt); break;
        case 1: os << gul14::hexdump_stream(v.begin(), v.end(), prompt); break;
        case 2: os << gul14::hexdump_stream(v.data(), v.data() + v.size(), prompt); break;
        case 3: { std::vector<T> tmp(v); os << gul14::hexdump_stream(std::move(tmp), prompt); } break;
        case 4: { std::list<T> l(v.begin(), v.end()); os << gul14::hexdump_stream(l, prompt); } break;
        case 5: { auto p = gul14::hexdump_stream(std::vector<T>(v), prompt); auto q = p; auto r = std::move(p); os << q; sim_alloc_faults(0); (void)r; } break;
        default: { // the string-producing variant, written by the caller
            const Str s = how == 6 ? gul14::hexdump(v, prompt) : gul14::hexdump(v.begin(), v.end(), prompt);
            sim_alloc_faults(0);
            if (s != want) { const Str g = gul14::escape(s.substr(s.size() > 60 ? s.size() - 60 : 0)); sim_fail("wrong-dump", "hexdump() returned %zu characters ending in \"%s\" instead of the complete dump of %zu characters", s.size(), g.c_str(), want.size()); }
            return; }
        }
        sim_alloc_faults(0);
    }
    catch (const std::bad_alloc&) { ex = ALLOC; }
    catch (const std::ios_base::failure&) { ex = IOFAIL; }
    catch (const StreamError&) { ex = STREAM; }
    sim_alloc_faults(0);
    if (ex == NONE && fb.buffered) { // what is still buffered has to be written too
        try { os.flush(); } catch (const std::ios_base::failure&) { ex = IOFAIL; } catch (const StreamError&) { ex = STREAM; }
    }
    const bool injected = sim_faults_injected() != f0;
    sim_mark(how * 100 + exc * 10 + ex);
    sim_mark((int64_t)(v.size() * 100000 + fb.got.size()));
    if (fb.got.size() > want.size() || want.compare(0, fb.got.size(), fb.got) != 0) {
        size_t i = 0;
        while (i < fb.got.size() && i < want.size() && fb.got[i] == want[i]) i++;
        sim_fail("wrong-dump", "the %zu characters written are not a prefix of the dump (%zu characters), first difference at %zu", fb.got.size(), want.size(), i);
    }
    if (!injected && (ex != NONE || !os.good())) sim_fail("wrong-exception", "hexdump failed although nothing else did");
    if (fb.failed && ex == NONE && os.good()) sim_fail("failure-hidden", "the stream refused output but its state is good and nothing was thrown");
    if (ex == NONE && os.good() && fb.got != want) sim_fail("wrong-dump", "only %zu of %zu characters were written although no failure is visible", fb.got.size(), want.size());
    if (exc && fb.failed && ex == NONE) sim_fail("failure-hidden", "the stream is set to throw but no exception arrived");
    if (!exc && ex != NONE && ex != ALLOC) sim_fail("wrong-exception", "the stream is not set to throw but an exception arrived");
    if (fb.failed) sim_probe(3);
}

// Dump objects that own their data are copied, moved and assigned while memory runs out;
// each has to give a complete dump of what it had or was to get.
template <class Cont, class T> void dump_objects(const std::vector<T>& v1, const std::vector<T>& v2, const Str& p1, const Str& p2)
{
    auto text = [](const auto& o) { std::ostringstream os; os << o; return os.str(); };
    auto x = gul14::hexdump_stream(Cont(v1.begin(), v1.end()), p1);
    Str wx = text(x);
    if (wx != gul14::hexdump(v1, p1)) sim_fail("wrong-dump", "a dump object gives another text than hexdump()");
    const int n = 1 + (int)sim_gen(4);
    for (int i = 0; i < n; i++) {
        const int op = (int)sim_gen(6);
        Str wy;
        bool threw = false;
        const uint64_t before = sim_faults_injected();
        {
            auto y = gul14::hexdump_stream(Cont(v2.begin(), v2.end()), p2);
            wy = text(y);
            sim_alloc_faults(1);
            try {
                switch (op) {
                case 0: case 1: x = (const decltype(y)&)y; break;
                case 2: x = std::move(y); break;
                case 3: { auto z((const decltype(y)&)y); SimNoAllocFaults na; if (text(z) != wy) sim_fail("wrong-dump", "a copied dump object gives a wrong dump"); } break;
                case 4: { auto z(std::move(y)); SimNoAllocFaults na; if (text(z) != wy) sim_fail("wrong-dump", "a moved dump object gives a wrong dump"); } break;
                default: { const auto& same = x; x = same; } break;
                }
                sim_alloc_faults(0);
            }
            catch (const std::bad_alloc&) { sim_alloc_faults(0); threw = true; sim_probe(5); }
            if (op != 2 && op != 4 && text(y) != wy) sim_fail("argument-changed", "copying a dump object changed it");
        } // y and its data are gone
        if (threw != (sim_faults_injected() != before)) sim_fail("wrong-exception", "copying a dump object: %s", threw ? "exception without a failure" : "a failure was hidden");
        const Str got = text(x);
        if (!threw && op <= 2) wx = wy;
        if (threw ? got != wx && got != wy : got != wx) sim_fail("wrong-dump", "after %s%s a dump object gives a wrong dump", threw ? "a failed " : "", op <= 1 || op == 5 ? "copy assignment" : op == 2 ? "move assignment" : "construction");
        wx = got;
    }
}

void hexdump_streams()
{
    sim_alloc_faults(0);
    const int n = 1 + (int)sim_gen(3);
    for (int i = 0; i < n; i++) {
        const int type = (int)sim_gen(5), how = (int)sim_gen(9), exc = (int)sim_gen(3);
        size_t len = sim_gen(50);
        if (sim_gen(400) == 399) len = 15990 + sim_gen(30);
        Str prompt = sim_gen(2) ? gen_text(4) : Str();
        if (len > 1000 && prompt.size() > 50) prompt.resize(50);
        const int64_t blocks = sim_live_blocks();
        {
            FlakyBuf fb;
            fb.mode = (int)sim_gen(4);
            fb.partial = sim_gen(2);
            if (sim_gen(4) == 3) fb.use_buffer();
            const int before = sim_gen(12) == 11 ? 1 + (int)sim_gen(3) : 0;
            const uint64_t seed = sim_gen(1u << 30);
            auto val = [&](size_t k) { uint64_t x = (seed + k) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ x >> 32; };
            auto go = [&](auto zero) {
                using T = decltype(zero);
                std::vector<T> v;
                for (size_t k = 0; k < len; k++) v.push_back(sizeof(T) == 1 && val(k) % 2 ? (T)(32 + val(k) / 2 % 95) : (T)val(k));
                if (how == 8) {
                    std::vector<T> w;
                    for (size_t k = sim_gen(2) ? len / 2 + 30 : sim_gen(8); k > 0; k--) w.push_back((T)val(k + 999));
                    const Str p2 = gen_text(4);
                    if (exc == 0) dump_objects<std::vector<T>>(v, w, prompt, p2); else if (exc == 1) dump_objects<std::list<T>>(v, w, prompt, p2); else dump_objects<std::basic_string<T>>(v, w, prompt, p2);
                    return;
                }
                dump_case(v, prompt, how, fb, exc, before);
            };
            switch (type) {
            case 0: go(char()); break;
            case 1: go((unsigned char)0); break;
            case 2: go((short)0); break;
            case 3: go(0); break;
            default: go(0ll); break;
            }
        }
        if (sim_live_blocks() - blocks - (int64_t)(prompt.capacity() > 15 ? 0 : 0) > 0) sim_fail("memory-leak", "a hex dump leaked %ld memory blocks", (long)(sim_live_blocks() - blocks));
    }
}

// ------------------------------------------------------------------ views, buffers and dates on failing streams
struct Format { std::ios::fmtflags flags; char fill; std::streamsize prec; std::streamsize width; };
Format gen_format(bool with_width)
{
    Format f;
    static const std::ios::fmtflags A[] = { {}, std::ios::left, std::ios::right, std::ios::internal };
    f.flags = A[sim_gen(4)] | (sim_gen(4) == 3 ? std::ios::hex | std::ios::showbase : std::ios::dec);
    if (sim_gen(3) == 2) f.flags |= std::ios::unitbuf;
    if (sim_gen(4) == 3) f.flags |= std::ios::showpos;
    f.fill = " *0-"[sim_gen(4)];
    f.prec = (std::streamsize)(1 + sim_gen(9));
    f.width = with_width && sim_gen(2) ? (std::streamsize)sim_gen(45) : 0;
    return f;
}
void set_format(std::ios& s, const Format& f) { s.flags(f.flags); s.fill(f.fill); s.precision(f.prec); s.width(f.width); }
Str texf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
Str texf(const char* fmt, ...)
{
    char b[200];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    return b;
}

// put(os) has to write exactly want, or a prefix of it and let the failure be seen
template <class F> void out_case(const char* what, const Str& want, F put, const Format& fm, FlakyBuf& fb, int exc, int before, bool keeps_format)
{
    std::ostream os(&fb);
    set_format(os, fm);
    if (before) {
        const std::ios::iostate st = before == 1 ? std::ios::failbit : before == 2 ? std::ios::badbit : std::ios::failbit | std::ios::eofbit;
        os.setstate(st);
        put(os);
        if ((os.rdstate() & st) != st) sim_fail("failure-hidden", "%s: a stream that had failed before has forgotten its failure", what);
        if (!fb.got.empty() || fb.pending()) sim_fail("wrong-output", "%s: something was written to a stream that had failed before", what);
        return;
    }
    if (exc) os.exceptions(exc == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
    const uint64_t f0 = sim_faults_injected();
    enum { NONE, IOFAIL, STREAM } ex = NONE;
    try { put(os); }
    catch (const std::ios_base::failure&) { ex = IOFAIL; }
    catch (const StreamError&) { ex = STREAM; }
    if (keeps_format && (os.flags() != fm.flags || os.fill() != fm.fill || os.precision() != fm.prec))
        sim_fail("format-changed", "%s: the formatting of the stream is not the same as before (%s)", what, ex == NONE ? "no exception" : "exception");
    if (!keeps_format && ex == NONE && os.good() && os.width() != 0) sim_fail("format-changed", "%s: the field width was not reset", what);
    if (ex == NONE && fb.failed && os.good()) sim_fail("failure-hidden", "%s: the device refused output but the state of the stream is good and nothing was thrown", what);
    if (ex == NONE && fb.buffered && os.good()) {
        os.unsetf(std::ios::unitbuf);
        try { os.flush(); } catch (const std::ios_base::failure&) { ex = IOFAIL; } catch (const StreamError&) { ex = STREAM; }
    }
    const bool injected = sim_faults_injected() != f0;
    sim_mark(exc * 10 + ex);
    sim_mark((int64_t)(want.size() * 100000 + fb.got.size()));
    if (fb.got.size() > want.size() || want.compare(0, fb.got.size(), fb.got) != 0)
        sim_fail("wrong-output", "%s: \"%s\" was written, which is not a prefix of \"%s\"", what, gul14::escape(fb.got).c_str(), gul14::escape(want).c_str());
    if (!injected && (ex != NONE || !os.good())) sim_fail("wrong-exception", "%s failed although the device did not", what);
    if (ex == NONE && os.good() && fb.got != want) sim_fail("wrong-output", "%s: \"%s\" was written instead of \"%s\" although no failure is visible", what, gul14::escape(fb.got).c_str(), gul14::escape(want).c_str());
    if (!exc && ex != NONE) sim_fail("wrong-exception", "%s: the stream is not set to throw but an exception arrived", what);
    if (fb.failed) sim_probe(3);
}

// Delivers a text, a few characters at a time, until the simulator lets it end early or fail
class FlakyIn : public std::streambuf {
public:
    FlakyIn(const Str& t, int c) : text(t), chunk((size_t)c) {}
    bool threw = false, cut = false, hit_end = false;
    size_t delivered() const { return pos; }
private:
    Str text;
    size_t pos = 0, chunk;
    char buf[8];
protected:
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (threw) throw StreamError{};
        if (cut) return traits_type::eof();
        if (sim_fault(12)) { cut = true; return traits_type::eof(); }
        if (sim_fault(13)) { threw = true; throw StreamError{}; }
        const size_t n = std::min(chunk, text.size() - pos);
        if (!n) { hit_end = true; return traits_type::eof(); }
        text.copy(buf, n, pos);
        pos += n;
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(buf[0]);
    }
};

template <class T> void read_into(std::istream& is, const Str& fmt, T& t, int how)
{
    std::chrono::minutes off{ 0 };
    if (how == 0) gul14::date::from_stream(is, fmt.c_str(), t, static_cast<Str*>(nullptr), &off); else gul14::date::from_stream(is, fmt.c_str(), t);
}

// Reads a date or time; T is left alone unless the read succeeds
template <class T> void in_case(const char* what, const Str& text, bool legal, const Str& fmt, const T& value, const T& sentinel, const Format& fm, int how, int exc, int chunk)
{
    FlakyIn fb(text, chunk);
    std::istream is(&fb);
    std::ostringstream tied;
    set_format(is, fm);
    is.tie(&tied);
    if (exc) is.exceptions(exc == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
    T got = sentinel;
    bool thrown = false;
    try { read_into(is, fmt, got, how); }
    catch (const std::ios_base::failure&) { thrown = true; }
    catch (const StreamError&) { thrown = true; }
    const bool ok = !thrown && !is.fail();
    sim_mark((int64_t)(fb.delivered() * 100 + ok * 10 + thrown));
    if (is.flags() != fm.flags || is.fill() != fm.fill || is.precision() != fm.prec || is.tie() != &tied)
        sim_fail("format-changed", "reading %s: the formatting of the stream is not the same as before", what);
    if (!ok && got != sentinel) sim_fail("failure-not-atomic", "reading %s from \"%s\" failed but changed the destination", what, text.c_str());
    if (fb.threw && ok) sim_fail("failure-hidden", "reading %s: the device failed but the read is reported as a success", what);
    if (fb.threw) { sim_probe(3); return; }
    // what has been read depends on the characters delivered and on nothing else
    const Str seen = fb.cut ? text.substr(0, fb.delivered()) : text;
    if (fb.cut) sim_probe(4);
    if (seen == text && legal) {
        if (!ok) sim_fail("wrong-input", "\"%s\" could not be read as %s with format %s", text.c_str(), what, fmt.c_str());
        if (got != value) sim_fail("wrong-input", "\"%s\" was read as another %s with format %s", text.c_str(), what, fmt.c_str());
        return;
    }
    T ref = sentinel;
    std::istringstream rs(seen);
    read_into(rs, fmt, ref, how);
    if (rs.fail() == ok || ref != got) sim_fail("wrong-input", "\"%s\" was read as %s in a way that depends on the device", seen.c_str(), what);
    if (thrown && !exc) sim_fail("wrong-exception", "reading %s: the stream is not set to throw but an exception arrived", what);
}

void stream_io()
{
    namespace D = gul14::date;
    sim_alloc_faults(0);
    const int n = 1 + (int)sim_gen(3);
    for (int i = 0; i < n; i++) {
        int exc = (int)sim_gen(3);
        const int kind = (int)sim_gen(15), before = sim_gen(12) == 11 ? 1 + (int)sim_gen(3) : 0;
        FlakyBuf fb;
        fb.mode = (int)sim_gen(4);
        fb.partial = sim_gen(2);
        if (sim_gen(3) == 2) fb.use_buffer();
        const bool date = kind >= 5;
        Format fm = gen_format(!date && kind < 2);
        if (kind == 8 || kind == 9) fm.flags = (fm.flags & std::ios::unitbuf) | std::ios::dec; // hours follow the format of the stream
        // an exception raised by flushing after every output would end the program within libstdc++ itself
        if ((fm.flags & std::ios::unitbuf) && fb.buffered && !(kind >= 5 && kind <= 7)) { fb.mode &= 1; exc = 0; }
        const int y = 1 + (int)sim_gen(9999), mo = 1 + (int)sim_gen(12), d = 1 + (int)sim_gen(28);
        const int h = (int)sim_gen(24), mi = (int)sim_gen(60), se = (int)sim_gen(60), ms = (int)sim_gen(1000);
        const D::year_month_day ymd{ D::year{ y }, D::month{ (unsigned)mo }, D::day{ (unsigned)d } };
        const D::sys_time<std::chrono::milliseconds> tp = D::sys_days(ymd) + std::chrono::hours(h) + std::chrono::minutes(mi) + std::chrono::seconds(se) + std::chrono::milliseconds(ms);
        switch (kind) {
        case 0: case 1: {
            Str t = gen_text(4);
            if (sim_gen(4) == 3) t += '\0';
            if (sim_gen(30) == 29) t += Str(300, 'x');
            const Str u = gen_text(3);
            std::ostringstream ref;
            set_format(ref, fm);
            ref << t;
            if (kind == 1) { ref.width(fm.width / 2); ref << u << '|'; }
            out_case("a string_view", ref.str(), [&](std::ostream& os) {
                const string_view tv(t.data(), t.size()), uv(u.data(), u.size());
                os << tv;
                if (kind == 1) { if (os.good()) os.width(fm.width / 2); os << uv << '|'; }
            }, fm, fb, exc, before, false);
            break; }
        case 2: case 3: case 4: {
            gul14::SlidingBuffer<int> sb(4);
            gul14::SlidingBuffer<Str, 3> sf;
            gul14::SlidingBufferExposed<int, 5> se5;
            Str want;
            const int k = (int)sim_gen(9);
            std::vector<int> v;
            for (int j = 0; j < k; j++) v.push_back((int)sim_gen(100000));
            const size_t cap = kind == 2 ? 4 : kind == 3 ? 3 : 5;
            for (int x : v) { if (kind == 2) sb.push_back(x); else if (kind == 3) sf.push_back(std::to_string(x)); else se5.push_back(x); }
            std::ostringstream ref;
            set_format(ref, fm);
            for (size_t j = v.size() > cap ? v.size() - cap : 0; j < v.size(); j++) { if (kind == 3) ref << std::to_string(v[j]); else ref << v[j]; ref << "  "; }
            ref << '\n';
            out_case("a sliding buffer", ref.str(), [&](std::ostream& os) { if (kind == 2) os << sb; else if (kind == 3) os << sf; else os << se5; }, fm, fb, exc, before, true);
            break; }
        case 5: out_case("a date", texf("%d-%02d-%02d", y, mo, d), [&](std::ostream& os) { os << ymd; }, fm, fb, exc, before, true); break;
        case 6: out_case("a day", texf("%02d", d), [&](std::ostream& os) { os << ymd.day(); }, fm, fb, exc, before, true); break;
        case 7: out_case("a year", texf("%04d", y), [&](std::ostream& os) { os << ymd.year(); }, fm, fb, exc, before, true); break;
        case 8: out_case("a time of day", texf("%02d:%02d:%02d.%03d", h, mi, se, ms), [&](std::ostream& os) { os << D::make_time(tp - D::sys_days(ymd)); }, fm, fb, exc, before, true); break;
        case 9: out_case("a point in time", texf("%d-%02d-%02d %02d:%02d:%02d.%03d", y, mo, d, h, mi, se, ms), [&](std::ostream& os) { using D::operator<<; os << tp; }, fm, fb, exc, before, true); break;
        default: {
            const int f = (int)sim_gen(16), how = (int)sim_gen(2), chunk = 1 + (int)sim_gen(3), bad = (int)sim_gen(6);
            const int y4 = 1000 + y % 9000;
            const int y2 = 1969 + y % 100;
            const bool two = f == 2 || f == 5;
            const D::year_month_day x{ D::year{ two ? y2 : y4 }, D::month{ (unsigned)mo }, D::day{ (unsigned)d } };
            static const char* const F[] = { "%F", "%d.%m.%Y", "%D", "%F %T", "%Y-%m-%dT%H:%M:%S", "%m/%d/%y %R", "%Y%j",
                "%F %T %z", "%Y", "%m", "%d", "%w", "%Y-%m", "%m/%d", "%F %T", "%H:%M:%S" };
            Str t;
            auto xt = D::sys_time<std::chrono::milliseconds>(D::sys_days(x));
            switch (f) {
            case 0: t = texf("%d-%02d-%02d", y4, mo, d); break;
            case 1: t = texf("%02d.%02d.%d", d, mo, y4); break;
            case 2: t = texf("%02d/%02d/%02d", mo, d, y2 % 100); break;
            case 3: case 4: t = texf(f == 3 ? "%d-%02d-%02d %02d:%02d:%02d.%03d" : "%d-%02d-%02dT%02d:%02d:%02d.%03d", y4, mo, d, h, mi, se, ms); xt += std::chrono::milliseconds(((h * 60 + mi) * 60 + se) * 1000 + ms); break;
            case 5: t = texf("%02d/%02d/%02d %02d:%02d", mo, d, y2 % 100, h, mi); xt += std::chrono::minutes(h * 60 + mi); break;
            case 6: t = texf("%d%03d", y4, (int)(D::sys_days(x) - D::sys_days(x.year() / 1 / 1)).count() + 1); break;
            case 7: t = texf("%d-%02d-%02d %02d:%02d:%02d.%03d %c%02d%02d", y4, mo, d, h, mi, se, ms, y % 2 ? '+' : '-', se % 12, mi); xt += std::chrono::milliseconds(((h * 60 + mi) * 60 + se) * 1000 + ms); xt -= std::chrono::minutes((se % 12 * 60 + mi) * (y % 2 ? 1 : -1)); break;
            case 8: t = texf("%d", y4); break;
            case 9: t = texf("%02d", mo); break;
            case 10: t = texf("%02d", d); break;
            case 11: t = texf("%d", d % 7); break;
            case 12: t = texf("%d-%02d", y4, mo); break;
            case 13: t = texf("%02d/%02d", mo, d); break;
            case 14: t = texf("%d-%02d-%02d %02d:%02d:%02d.%03d", y4, mo, d, h, mi, se, ms); break;
            default: t = texf("%02d:%02d:%02d.%03d", h, mi, se, ms); break;
            }
            const auto tod = std::chrono::milliseconds(((h * 60 + mi) * 60 + se) * 1000 + ms);
            bool legal = true;
            if (bad == 5) { t[sim_gen(t.size())] = "x-9 "[sim_gen(4)]; legal = false; }
            if (sim_gen(4) == 3) t += " and more";
            const Str fmt = F[f];
            using LT = D::local_time<std::chrono::milliseconds>;
            if (f == 8) in_case("a year", t, legal, fmt, x.year(), D::year{ 7 }, fm, how, exc, chunk);
            else if (f == 9) in_case("a month", t, legal, fmt, x.month(), D::month{ 77 }, fm, how, exc, chunk);
            else if (f == 10) in_case("a day", t, legal, fmt, x.day(), D::day{ 77 }, fm, how, exc, chunk);
            else if (f == 11) in_case("a weekday", t, legal, fmt, D::weekday{ (unsigned)(d % 7) }, D::weekday{ 77 }, fm, how, exc, chunk);
            else if (f == 12) in_case("a month of a year", t, legal, fmt, x.year() / x.month(), D::year{ 7 } / 7, fm, how, exc, chunk);
            else if (f == 13) in_case("a day of a month", t, legal, fmt, x.month() / x.day(), D::month{ 77 } / 7, fm, how, exc, chunk);
            else if (f == 14) in_case("a local time", t, legal, fmt, LT(D::local_days(x)) + tod, LT(std::chrono::milliseconds(-12345)), fm, how, exc, chunk);
            else if (f == 15) in_case("a duration", t, legal, fmt, tod, std::chrono::milliseconds(-12345), fm, how, exc, chunk);
            else if (f < 3) in_case("a date", t, legal, fmt, x, D::year_month_day{ D::year{ 7 }, D::month{ 7 }, D::day{ 7 } }, fm, how, exc, chunk);
            else in_case("a point in time", t, legal, fmt, xt, D::sys_time<std::chrono::milliseconds>(std::chrono::milliseconds(-12345)), fm, how, exc, chunk);
            } break;
        }
    }
}

const SimScenario S[] = {
    { "util_threads", util_threads, FM_STALL | FM_SKIP, 1, 0, nullptr },
    { "util_memory", util_memory, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "hexdump_streams", hexdump_streams, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "stream_io", stream_io, FM_USER, 0, 0, nullptr },
};
struct Reg { Reg() { for (auto& s : S) sim_register(&s); } } reg;
}
