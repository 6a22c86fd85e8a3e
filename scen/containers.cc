// SmallVector and SlidingBuffer under failing element operations and failing allocations.
// Each run applies a random sequence of operations to two containers and to a plain
// reference sequence; every element operation and allocation of the library is a fault site.
#include "sim.h"
#include "elem.h"
#include <gul14/SmallVector.h>
#include <gul14/SlidingBuffer.h>
#include <sstream>
#include <vector>

namespace {

struct Seq { // reference contents
    int n = 0, d[1000];
    void ins(int at, int x) { for (int i = n; i > at; i--) d[i] = d[i - 1]; d[at] = x; n++; }
    void era(int at) { for (int i = at; i + 1 < n; i++) d[i] = d[i + 1]; n--; }
    bool operator==(const Seq& o) const { if (n != o.n) return false; for (int i = 0; i < n; i++) if (d[i] != o.d[i]) return false; return true; }
    bool has(int x) const { for (int i = 0; i < n; i++) if (d[i] == x) return true; return false; }
    const char* str(char* b) const { char* p = b; p += snprintf(p, 8, "["); for (int i = 0; i < n && p - b < 380; i++) p += snprintf(p, 12, i ? " %d" : "%d", d[i]); snprintf(p, 4, "]"); return b; }
};

// ------------------------------------------------------------------ SmallVector
template <class E, int N> struct SV {
    using V = gul14::SmallVector<E, N>;
    V* v[2];
    Seq m[2];
    int64_t base_blocks;
    int next = 1, big = 1; // big: bulk operations on many elements
    const char* op = "";
    static constexpr bool copyable = !E::move_only;
    static constexpr bool strong = copyable || !E::throwing_move;

    static int read(const E& e) { return e.get(); }
    void validate(int w)
    {
        V& x = *v[w];
        const V& c = x;
        if (x.capacity() < x.size()) sim_fail("invalid-vector", "%s: capacity %u < size %u", op, (unsigned)x.capacity(), (unsigned)x.size());
        if (x.capacity() < (unsigned)N || x.inner_capacity() != (unsigned)N) sim_fail("invalid-vector", "%s: capacity below the inner capacity", op);
        const char* d = (const char*)x.data();
        const bool inside = d >= (const char*)&x && d < (const char*)(&x + 1);
        if (!inside && !sim_is_live(d)) sim_fail("invalid-vector", "%s: storage is not allocated", op);
        if (x.empty() != (x.size() == 0)) sim_fail("invalid-vector", "%s: empty() contradicts size()", op);
        if (x.end() - x.begin() != (std::ptrdiff_t)x.size() || c.end() - c.begin() != (std::ptrdiff_t)c.size()
            || c.cend() - c.cbegin() != (std::ptrdiff_t)c.size() || x.rend() - x.rbegin() != (std::ptrdiff_t)x.size()
            || x.crend() - x.crbegin() != (std::ptrdiff_t)x.size())
            sim_fail("invalid-vector", "%s: iterators contradict size()", op);
        unsigned n = x.size();
        for (auto it = x.rbegin(); it != x.rend(); ++it) if (&*it != x.data() + --n) sim_fail("wrong-iteration", "%s: reverse iteration differs", op);
        n = x.size();
        for (auto it = x.crbegin(); it != x.crend(); ++it) if (&*it != x.data() + --n) sim_fail("wrong-iteration", "%s: reverse iteration differs", op);
        if (x.size() && (&x.front() != x.data() || &x.back() != x.data() + (x.size() - 1))) sim_fail("invalid-vector", "%s: front() or back() is wrong", op);
    }
    Seq contents(int w)
    {
        Seq s;
        for (unsigned i = 0; i < v[w]->size(); i++) { if (i >= 950) sim_fail("invalid-vector", "%s: size is absurd", op); s.d[s.n++] = read((*v[w])[i]); }
        return s;
    }
    void census(int extra)
    {
        // exactly the visible elements are alive and exactly their memory is allocated
        int n = extra, mem = 0;
        for (int w = 0; w < 2; w++) {
            if (!v[w]) continue;
            n += v[w]->size();
            for (unsigned i = 0; i < v[w]->size(); i++) if ((*v[w])[i].mem) mem++;
            const char* d = (const char*)v[w]->data();
            if (!(d >= (const char*)v[w] && d < (const char*)(v[w] + 1))) mem++;
        }
        if (elem::reg().n != n) sim_fail(elem::reg().n > n ? "element-leak" : "element-lost", "%s: %d elements are alive, but the vectors hold %d", op, elem::reg().n, n);
        if (sim_live_blocks() - base_blocks != mem) sim_fail("memory-leak", "%s: %ld memory blocks are allocated, expected %d", op, (long)(sim_live_blocks() - base_blocks), mem);
    }
    // after a call: compare with the reference, or accept a valid state after a failure
    void settle(int w, Outcome o, const Seq& want, const Seq& old, bool keep_on_failure, int lo, int hi)
    {
        validate(w);
        Seq got = contents(w);
        char b1[400], b2[400];
        if (o == DONE) {
            if (!(got == want)) sim_fail("wrong-contents", "%s: contents are %s, expected %s", op, got.str(b1), want.str(b2));
            m[w] = want;
            return;
        }
        if (keep_on_failure && !(got == old)) sim_fail("failure-not-atomic", "%s failed and left %s instead of %s", op, got.str(b1), old.str(b2));
        for (int i = 0; i < got.n; i++)
            if (got.d[i] != -1 && !old.has(got.d[i]) && !want.has(got.d[i]) && !(got.d[i] >= lo && got.d[i] < hi))
                sim_fail("wrong-contents", "%s failed and left a value %d that never was in the vector", op, got.d[i]);
        m[w] = got;
        sim_probe(1);
    }
    int pos(int w) { return sim_gen(m[w].n + 1); }
    void iter(int w, typename V::Iterator it, int at) { if (it != v[w]->begin() + at) sim_fail("wrong-iterator", "%s: returned iterator does not refer to position %d", op, at); }

    void step()
    {
        const int w = sim_gen(4) == 0;
        V& x = *v[w];
        const Seq old = m[w];
        Seq want = old;
        Outcome o;
        int site;
        const int k = sim_gen(copyable ? 30 : 13);
        const int lo = next;
        switch (k) {
        case 0: op = "push_back(T&&)"; {
            E e(next); want.ins(want.n, next++);
            o = guarded(op, site, [&] { x.push_back(std::move(e)); });
            settle(w, o, want, old, strong, lo, next); } break;
        case 1: op = "emplace_back";
            want.ins(want.n, next++);
            o = guarded(op, site, [&] { E& r = x.emplace_back(next - 1); if (&r != &x.back()) sim_fail("wrong-reference", "emplace_back returned a wrong reference"); });
            settle(w, o, want, old, strong, lo, next); break;
        case 2: op = "pop_back";
            if (!want.n) break;
            want.n--;
            o = guarded(op, site, [&] { x.pop_back(); });
            settle(w, o, want, old, true, lo, next); break;
        case 3: op = "insert(pos, T&&)"; {
            const int p = pos(w);
            E e(next); want.ins(p, next++);
            o = guarded(op, site, [&] { auto it = x.insert(x.cbegin() + p, std::move(e)); iter(w, it, p); });
            settle(w, o, want, old, strong && p == old.n, lo, next); } break;
        case 4: op = "emplace"; {
            const int p = pos(w);
            want.ins(p, next++);
            o = guarded(op, site, [&] { auto it = x.emplace(x.cbegin() + p, next - 1); iter(w, it, p); });
            settle(w, o, want, old, strong && (p == old.n || site == ES_VALUE), lo, next); } break;
        case 5: op = "erase(pos)"; {
            if (!want.n) break;
            const int p = sim_gen(want.n);
            want.era(p);
            o = guarded(op, site, [&] { auto it = x.erase(x.cbegin() + p); iter(w, it, p); });
            settle(w, o, want, old, false, lo, next); } break;
        case 6: op = "erase(first, last)"; {
            const int p = pos(w), q = p + sim_gen(old.n - p + 1);
            for (int i = p; i < q; i++) want.era(p);
            o = guarded(op, site, [&] { auto it = x.erase(x.cbegin() + p, x.cbegin() + q); iter(w, it, p); });
            settle(w, o, want, old, false, lo, next); } break;
        case 7: op = "reserve"; {
            const unsigned c = sim_gen((2 * N + 8) * big), oc = x.capacity();
            o = guarded(op, site, [&] { x.reserve(c); });
            if (o == DONE && x.capacity() < (c > oc ? c : oc)) sim_fail("wrong-capacity", "reserve(%u): capacity is %u", c, (unsigned)x.capacity());
            settle(w, o, want, old, strong, lo, next); } break;
        case 8: op = "resize(n)"; {
            const int c = sim_gen((2 * N + 6) * big);
            while (want.n > c) want.n--;
            while (want.n < c) want.ins(want.n, 0);
            o = guarded(op, site, [&] { x.resize(c); });
            settle(w, o, want, old, strong, 0, 1); } break;
        case 9: op = "shrink_to_fit"; {
            o = guarded(op, site, [&] { x.shrink_to_fit(); });
            if (o == DONE && x.capacity() != (unsigned)(want.n > N ? want.n : N)) sim_fail("wrong-capacity", "shrink_to_fit with %d elements: capacity is %u", want.n, (unsigned)x.capacity());
            settle(w, o, want, old, strong, lo, next); } break;
        case 10: op = "clear"; {
            const unsigned c = x.capacity();
            want.n = 0;
            o = guarded(op, site, [&] { x.clear(); });
            if (x.capacity() != c) sim_fail("wrong-capacity", "clear changed the capacity");
            settle(w, o, want, old, true, lo, next); } break;
        case 11: op = "move assignment"; {
            V& y = *v[!w];
            const Seq oldy = m[!w];
            o = guarded(op, site, [&] { x = std::move(y); });
            want = oldy;
            Seq none;
            settle(w, o, want, old, false, lo, next);
            if (o == DONE) settle(!w, o, none, oldy, false, lo, next);
            else settle(!w, o, oldy, oldy, copyable, lo, next);
            } break;
        case 12: op = "swap"; {
            const Seq oldy = m[!w];
            const bool member = sim_gen(2);
            o = guarded(op, site, [&] { if (member) x.swap(*v[!w]); else swap(x, *v[!w]); });
            settle(w, o, oldy, old, false, lo, next);
            if (o == DONE) settle(!w, o, old, oldy, false, lo, next);
            else { validate(!w); m[!w] = contents(!w); }
            } break;
        default: copy_step(k, w);
        }
        census(0);
    }
    template <class T = E> std::enable_if_t<T::move_only> copy_step(int, int) {}
    template <class T = E> std::enable_if_t<!T::move_only> copy_step(int k, int w)
    {
        V& x = *v[w];
        const Seq old = m[w];
        Seq want = old;
        Outcome o;
        int site;
        const int lo = next;
        switch (k) {
        case 13: op = "push_back(const T&)"; {
            const E e(next); want.ins(want.n, next++);
            o = guarded(op, site, [&] { x.push_back(e); });
            if (e.get() != next - 1) sim_fail("argument-changed", "%s changed its argument", op);
            settle(w, o, want, old, true, lo, next); } break;
        case 14: op = "insert(pos, const T&)"; {
            const int p = pos(w);
            const E e(next); want.ins(p, next++);
            o = guarded(op, site, [&] { auto it = x.insert(x.cbegin() + p, e); iter(w, it, p); });
            if (e.get() != next - 1) sim_fail("argument-changed", "%s changed its argument", op);
            settle(w, o, want, old, p == old.n, lo, next); } break;
        case 15: case 16: op = "insert(pos, n, value)"; {
            const int p = pos(w), n = sim_gen((N + 4) * big);
            const E e(next);
            for (int i = 0; i < n; i++) want.ins(p, next);
            next++;
            o = guarded(op, site, [&] { auto it = x.insert(x.cbegin() + p, (unsigned)n, e); iter(w, it, p); });
            settle(w, o, want, old, false, lo, next); } break;
        case 17: case 18: op = "insert(pos, first, last)"; {
            const int p = pos(w), n = sim_gen(6);
            const E e[5] = { next, next + 1, next + 2, next + 3, next + 4 };
            for (int i = 0; i < n; i++) want.ins(p + i, next + i);
            next += 5;
            o = guarded(op, site, [&] { auto it = x.insert(x.cbegin() + p, e, e + n); iter(w, it, p); });
            settle(w, o, want, old, false, lo, next); } break;
        case 19: op = "insert(pos, {...})"; {
            const int p = pos(w);
            const std::initializer_list<E> il{ next, next + 1, next + 2 };
            for (int i = 0; i < 3; i++) want.ins(p + i, next + i);
            next += 3;
            o = guarded(op, site, [&] { auto it = x.insert(x.cbegin() + p, il); iter(w, it, p); });
            settle(w, o, want, old, false, lo, next); } break;
        case 20: op = "resize(n, value)"; {
            const int c = sim_gen((2 * N + 6) * big);
            const E e(next);
            while (want.n > c) want.n--;
            while (want.n < c) want.ins(want.n, next);
            next++;
            o = guarded(op, site, [&] { x.resize(c, e); });
            settle(w, o, want, old, true, lo, next); } break;
        case 21: op = "assign(n, value)"; {
            const int c = sim_gen((2 * N + 4) * big);
            const E e(next);
            want.n = 0;
            while (want.n < c) want.ins(want.n, next);
            next++;
            o = guarded(op, site, [&] { x.assign((unsigned)c, e); });
            settle(w, o, want, old, false, lo, next); } break;
        case 22: op = "assign(first, last)"; {
            const int n = sim_gen(6);
            const E e[5] = { next, next + 1, next + 2, next + 3, next + 4 };
            want.n = 0;
            for (int i = 0; i < n; i++) want.ins(i, next + i);
            next += 5;
            o = guarded(op, site, [&] { x.assign(e, e + n); });
            settle(w, o, want, old, false, lo, next); } break;
        case 23: op = "assign({...})"; {
            const std::initializer_list<E> il{ next, next + 1, next + 2 };
            const bool member = sim_gen(2);
            want.n = 0;
            for (int i = 0; i < 3; i++) want.ins(i, next + i);
            next += 3;
            o = guarded(op, site, [&] { if (member) x.assign(il); else x = il; });
            settle(w, o, want, old, false, lo, next); } break;
        case 24: op = "copy assignment"; {
            const V& y = *v[!w];
            const Seq oldy = m[!w];
            o = guarded(op, site, [&] { x = y; });
            settle(w, o, oldy, old, false, lo, next);
            settle(!w, DONE, oldy, oldy, true, lo, next); } break;
        case 25: op = "self-assignment"; {
            const V& y = x;
            o = guarded(op, site, [&] { x = y; });
            settle(w, o, old, old, true, lo, next); } break;
        case 26: op = "copy construction"; {
            const V& y = x;
            o = guarded(op, site, [&] {
                V t(y);
                SimNoAllocFaults na; elem::reg().on = false;
                V* keep = v[!w]; v[!w] = &t; Seq km = m[!w];
                settle(!w, DONE, old, old, true, lo, next);
                if (!(t == x) || t != x) sim_fail("wrong-comparison", "a copy does not compare equal");
                v[!w] = keep; m[!w] = km;
            });
            settle(w, DONE, old, old, true, lo, next); } break;
        case 27: op = "move construction"; {
            V* tp = nullptr;
            alignas(V) char buf[sizeof(V)];
            o = guarded(op, site, [&] { tp = new (buf) V(std::move(x)); });
            if (o == DONE) {
                Seq none;
                settle(w, DONE, none, old, true, lo, next);
                V* keep = v[w]; v[w] = tp;
                settle(w, DONE, old, old, true, lo, next);
                census(m[!w].n * 0);
                v[w] = keep;
                x = std::move(*tp);     // (no faults) give it back
                tp->~V();
                settle(w, DONE, old, old, true, lo, next);
            } else settle(w, o, old, old, copyable, lo, next);
            } break;
        case 28: op = "construction"; {
            const int n = sim_gen((2 * N + 3) * big), how = sim_gen(4);
            const E e[5] = { next, next + 1, next + 2, next + 3, next + 4 };
            const std::initializer_list<E> il{ next, next + 1, next + 2 };
            Seq s;
            if (how == 0) for (int i = 0; i < n; i++) s.ins(i, 0);
            if (how == 1) for (int i = 0; i < n; i++) s.ins(i, next);
            if (how == 2) for (int i = 0; i < n % 6; i++) s.ins(i, next + i);
            if (how == 3) for (int i = 0; i < 3; i++) s.ins(i, next + i);
            next += 5;
            auto check = [&](V& t) {
                SimNoAllocFaults na; elem::reg().on = false;
                V* keep = v[!w]; v[!w] = &t; Seq km = m[!w];
                settle(!w, DONE, s, s, true, lo, next);
                v[!w] = keep; m[!w] = km;
            };
            static const char* names[] = { "SmallVector(n)", "SmallVector(n, value)", "SmallVector(first, last)", "SmallVector({...})" };
            op = names[how];
            o = guarded(op, site, [&] {
                if (how == 0) { V t((unsigned)n); check(t); }
                else if (how == 1) { V t((unsigned)n, e[0]); check(t); }
                else if (how == 2) { V t(e, e + n % 6); check(t); }
                else { V t(il); check(t); }
            });
            } break;
        case 29: op = "at"; {
            const unsigned i = sim_gen(old.n + 3);
            const V& c = x;
            bool thrown = false;
            const uint64_t f = sim_faults_injected();
            try { elem::Faults on; if ((sim_gen(2) ? c.at(i) : x.at(i)).get() != old.d[i]) sim_fail("wrong-contents", "at(%u) returned a wrong element", i); }
            catch (const std::out_of_range&) { thrown = true; }
            catch (const std::bad_alloc&) { thrown = true; if (f == sim_faults_injected()) sim_fail("wrong-exception", "at threw bad_alloc"); }
            if (thrown != (i >= (unsigned)old.n)) sim_fail("wrong-exception", "at(%u) with %d elements: %s", i, old.n, thrown ? "exception" : "no exception");
            settle(w, DONE, old, old, true, lo, next); } break;
        }
    }
    void run()
    {
        base_blocks = sim_live_blocks();
        {
            V a, b;
            v[0] = &a; v[1] = &b;
            // fill without faults
            if (sim_gen(40) == 0) big = 16;
            const int na = sim_gen((2 * N + 2) * big), nb = sim_gen((2 * N + 2) * big);
            for (int i = 0; i < na; i++) { a.emplace_back(next); m[0].ins(i, next++); }
            for (int i = 0; i < nb; i++) { b.emplace_back(next); m[1].ins(i, next++); }
            const int n = 1 + sim_gen(10);
            for (int i = 0; i < n; i++) { if (m[0].n > 60 * (big > 1 ? 5 : 1) || m[1].n > 60 * (big > 1 ? 5 : 1)) break; step(); }
        }
        v[0] = v[1] = nullptr;
        op = "destruction";
        census(0);
    }
};
template <int K, int N> void sv() { SV<Elem<K>, N> s; s.run(); }
template <int K> void svn() { switch (sim_gen(7)) { case 0: case 1: sv<K, 2>(); break; case 2: case 3: sv<K, 1>(); break; case 4: sv<K, 7>(); break; default: sv<K, 4>(); } }
void smallvec_copy() { switch (sim_gen(4)) { case 0: svn<0>(); break; case 1: svn<4>(); break; case 2: svn<1>(); break; default: svn<5>(); } }
void smallvec_move() { switch (sim_gen(4)) { case 0: svn<2>(); break; case 1: svn<6>(); break; case 2: svn<3>(); break; default: svn<7>(); } }

// Element types whose copies cannot throw (int and the like): copying the vector still allocates.
void smallvec_noexcept()
{
    const int64_t base = sim_live_blocks();
    {
        gul14::SmallVector<int, 2> a;
        const int n = 1 + sim_gen(6), how = sim_gen(2);
        for (int i = 0; i < n; i++) a.push_back(i);
        gul14::SmallVector<int, 2> c;
        int site;
        const Outcome o = guarded("copying a SmallVector<int>", site, [&] { if (how == 0) { gul14::SmallVector<int, 2> b(a); } else c = a; });
        if (o == DONE && how == 1 && c != a) sim_fail("wrong-contents", "copy differs");
    }
    if (sim_live_blocks() != base) sim_fail("memory-leak", "memory leaked");
}

// ------------------------------------------------------------------ SlidingBuffer
template <class E, int CAP, class BT> struct SB {
    using B = BT;
    static constexpr bool fixed = CAP >= 1;
    static constexpr bool exposed = std::is_same<B, gul14::SlidingBufferExposed<E, CAP>>::value;
    B* b[2];
    Seq m[2];
    int cap[2];
    bool moved[2] = { false, false };
    int next = 1, big = 1;
    int64_t base_blocks;
    const char* op = "";

    Seq contents(int w)
    {
        B& x = *b[w];
        const B& c = x;
        Seq s;
        if (x.size() > x.capacity()) sim_fail("invalid-buffer", "%s: size %zu > capacity %zu", op, (size_t)x.size(), (size_t)x.capacity());
        if (x.filled() != (x.size() == x.capacity() && x.capacity() > 0)) sim_fail("invalid-buffer", "%s: filled() is %d with size %zu, capacity %zu", op, x.filled(), (size_t)x.size(), (size_t)x.capacity());
        if (x.empty() != (x.size() == 0)) sim_fail("invalid-buffer", "%s: empty() contradicts size()", op);
        for (size_t i = 0; i < x.size(); i++) {
            s.d[s.n++] = x[i].get();
            if (&c[i] != &x[i] || &x.at(i) != &x[i]) sim_fail("invalid-buffer", "%s: element access disagrees", op);
        }
        if (x.size() && (&x.front() != &x[0] || &x.back() != &x[x.size() - 1] || &c.front() != &c[0] || &c.back() != &c[c.size() - 1]))
            sim_fail("invalid-buffer", "%s: front() or back() is wrong", op);
        iterate(x, s, std::integral_constant<bool, exposed>());
        return s;
    }
    void iterate(B& x, const Seq& s, std::false_type)
    {
        const B& c = x;
        int i = 0;
        for (auto& e : c) if (i >= s.n || e.get() != s.d[i++]) sim_fail("wrong-iteration", "%s: const iteration differs at %d", op, i);
        i = 0;
        for (auto& e : x) if (i >= s.n || e.get() != s.d[i++]) sim_fail("wrong-iteration", "%s: iteration differs from element access at %d", op, i);
        if (i != s.n) sim_fail("wrong-iteration", "%s: iteration visits %d of %d elements", op, i, s.n);
        i = s.n;
        for (auto it = x.rbegin(); it != x.rend(); ++it) if (i <= 0 || (*it).get() != s.d[--i]) sim_fail("wrong-iteration", "%s: reverse iteration differs at %d", op, i);
        if (i != 0) sim_fail("wrong-iteration", "%s: reverse iteration misses %d elements", op, i);
        if (x.end() - x.begin() != s.n) sim_fail("wrong-iteration", "%s: iterator distance", op);
        if (s.n) { // random access
            const int p = (s.d[0] < 0 ? 0 : s.d[0]) % s.n, q = (s.d[s.n - 1] < 0 ? 0 : s.d[s.n - 1]) % s.n;
            auto a = x.begin() + p, z = p + x.begin();
            auto ca = c.cbegin();
            ca += q;
            auto e = x.end();
            e -= s.n - q;
            const bool rel = a == z && !(a != z) && (a < e) == (p < q) && (a > e) == (p > q) && (a <= e) == (p <= q) && (a >= e) == (p >= q);
            if (!rel) sim_fail("wrong-iteration", "%s: comparison of iterators at %d and %d is wrong", op, p, q);
            if (&*a != &x[p] || &x.begin()[p] != &x[p] || &*ca != &x[q] || &*e != &x[q] || e - a != q - p || &*(x.end() - (s.n - p)) != &x[p] || a->get() != s.d[p])
                sim_fail("wrong-iteration", "%s: iterator arithmetic with %d and %d is wrong", op, p, q);
            auto i1 = a, i2 = e;
            if (i1++ != a || i1 - a != 1 || i2-- != e || e - i2 != 1 || --i1 != a) sim_fail("wrong-iteration", "%s: iterator increment is wrong", op);
        }
        if (c.cend() - c.cbegin() != s.n || c.end() - c.begin() != s.n) sim_fail("wrong-iteration", "%s: iterator distance", op);
    }
    void iterate(B& x, const Seq& s, std::true_type) // order is that of the underlying container; covers all elements
    {
        for (int i = 0; i < s.n; i++) {
            bool found = false;
            for (auto& e : x) if (&e == &x[i]) found = true;
            if (!found) sim_fail("wrong-iteration", "%s: iteration misses element %d", op, i);
        }
        if (x.filled() && x.end() - x.begin() != s.n) sim_fail("wrong-iteration", "%s: iteration over a full buffer visits a different number of elements", op);
        const B& c = x;
        const auto n = x.end() - x.begin();
        if (n < s.n || n > (long)x.capacity()) sim_fail("wrong-iteration", "%s: iteration visits %ld positions, %d are occupied", op, (long)n, s.n);
        if (c.end() - c.begin() != n || c.cend() - c.cbegin() != n || x.rend() - x.rbegin() != n || c.crend() - c.crbegin() != n) sim_fail("wrong-iteration", "%s: iterator ranges differ in length", op);
        if (n && (&*c.begin() != &*x.begin() || &*c.cbegin() != &*x.begin() || &*x.rbegin() != &*(x.end() - 1) || &*c.crbegin() != &*x.rbegin())) sim_fail("wrong-iteration", "%s: iterator ranges differ", op);
    }
    void census()
    {
        int n = 0, mem = 0;
        for (int w = 0; w < 2; w++) {
            if (!b[w]) continue;
            n += b[w]->capacity();
        }
        if (elem::reg().n != n) sim_fail(elem::reg().n > n ? "element-leak" : "element-lost", "%s: %d elements are alive, but the buffers have room for %d", op, elem::reg().n, n);
        (void)mem;
    }
    void settle(int w, Outcome o, const Seq& want, int wcap, const Seq& old, int ocap, bool keep, int lo, int hi)
    {
        if (moved[w]) return;
        B& x = *b[w];
        Seq got = contents(w);
        char b1[400], b2[400];
        if (o == DONE) {
            if ((int)x.capacity() != wcap) sim_fail("wrong-capacity", "%s: capacity is %zu, expected %d", op, (size_t)x.capacity(), wcap);
            if (!(got == want)) sim_fail("wrong-contents", "%s: contents are %s, expected %s", op, got.str(b1), want.str(b2));
            m[w] = want; cap[w] = wcap;
            return;
        }
        if (keep && (!(got == old) || (int)x.capacity() != ocap)) sim_fail("failure-not-atomic", "%s failed and left %s (capacity %zu) instead of %s (capacity %d)", op, got.str(b1), (size_t)x.capacity(), old.str(b2), ocap);
        for (int i = 0; i < got.n; i++)
            if (got.d[i] > 0 && !old.has(got.d[i]) && !want.has(got.d[i]) && !(got.d[i] >= lo && got.d[i] < hi)) sim_fail("wrong-contents", "%s failed and left a foreign value %d", op, got.d[i]);
        m[w] = got; cap[w] = x.capacity();
        sim_probe(2);
    }
    void push(Seq& s, int c, bool back, int x)
    {
        if (back) { if (s.n == c) s.era(0); s.ins(s.n, x); }
        else { if (s.n == c) s.n--; s.ins(0, x); }
    }
    template <bool F = fixed> std::enable_if_t<F> resize(B&, int, int, bool) {}
    template <bool F = fixed> std::enable_if_t<!F> resize(B& x, int c, int how, bool reserve)
    {
        const auto h = how ? gul14::ShrinkBehavior::keep_back_elements : gul14::ShrinkBehavior::keep_front_elements;
        if (reserve) x.reserve(c, h); else if (how == 0 && c % 2) x.resize(c); else x.resize(c, h);
    }
    template <bool M = E::move_only> std::enable_if_t<!M> copy_step(int k, int w) { copy_step2(k, w); }
    template <bool M = E::move_only> std::enable_if_t<M> copy_step(int, int) {}
    void step()
    {
        const int w = sim_gen(4) == 0;
        B& x = *b[w];
        const Seq old = m[w];
        const int ocap = cap[w];
        Seq want = old;
        Outcome o;
        int site;
        const int k = sim_gen(E::move_only ? 9 : 17);
        const int lo = next;
        if (moved[w] && k != 7 && k != 8) return;
        switch (k) {
        case 0: op = "push_back(T&&)"; if (ocap) {
            E e(next); push(want, ocap, true, next++);
            o = guarded(op, site, [&] { x.push_back(std::move(e)); });
            settle(w, o, want, ocap, old, ocap, true, lo, next); } break;
        case 1: op = "push_front(T&&)"; if (ocap) {
            E e(next); push(want, ocap, false, next++);
            o = guarded(op, site, [&] { x.push_front(std::move(e)); });
            settle(w, o, want, ocap, old, ocap, true, lo, next); } break;
        case 2: op = "pop_back"; if (old.n) {
            want.n--;
            o = guarded(op, site, [&] { x.pop_back(); });
            settle(w, o, want, ocap, old, ocap, true, lo, next); } break;
        case 3: op = "pop_front"; if (old.n) {
            want.era(0);
            o = guarded(op, site, [&] { x.pop_front(); });
            settle(w, o, want, ocap, old, ocap, true, lo, next); } break;
        case 4: case 5: case 6: op = "resize"; if (!fixed) {
            const int c = sim_gen(9 * big), how = sim_gen(2);
            const bool rs = sim_gen(3) == 0;
            while (want.n > c) { if (how == 0) want.n--; else want.era(0); }
            o = guarded(op, site, [&] { resize(x, c, how, rs); });
            // with moves that cannot fail, a failed resize keeps all elements in order
            settle(w, o, want, c, old, ocap, !E::throwing_move, E::throwing_move ? 0 : lo, next); } break;
        case 7: op = "move assignment"; if (!moved[!w]) {
            const Seq oldy = m[!w];
            const int ycap = cap[!w];
            o = guarded(op, site, [&] { x = std::move(*b[!w]); });
            moved[!w] = true;
            if (moved[w]) { if (o == DONE) moved[w] = false; else break; }
            settle(w, o, oldy, ycap, old, ocap, false, 0, next);
            } break;
        case 8: op = "clear"; {
            if (moved[w]) { if (fixed || E::move_only) break; plain_clear(x, std::integral_constant<bool, E::move_only>()); moved[w] = false; cap[w] = x.capacity(); m[w].n = 0; settle(w, DONE, m[w], cap[w], m[w], cap[w], true, lo, next); break; }
            want.n = 0;
            clear(x, w, want, old, ocap, lo); } break;
        default: copy_step(k, w);
        }
        census();
    }
    void plain_clear(B&, std::true_type) {}
    void plain_clear(B& x, std::false_type) { x.clear(); }
    template <bool M = E::move_only> std::enable_if_t<M> clear(B&, int, Seq&, const Seq&, int, int) {}
    template <bool M = E::move_only> std::enable_if_t<!M> clear(B& x, int w, Seq& want, const Seq& old, int ocap, int lo)
    {
        int site;
        auto living = [](int val) { int n = 0; for (int i = 0; i < elem::reg().n; i++) n += static_cast<const E*>(elem::reg().p[i])->v == val; return n; };
        int before[1000];
        for (int i = 0; i < old.n; i++) before[i] = living(old.d[i]);
        const Outcome o = guarded(op, site, [&] { x.clear(); });
        settle(w, o, want, ocap, old, ocap, false, lo, next);
        if (o == DONE) for (int i = 0; i < old.n; i++) if (old.d[i] > 0 && living(old.d[i]) >= before[i]) sim_fail("element-not-released", "clear() left element %d alive", old.d[i]);
        if (o != DONE && m[w].n && !(m[w] == old)) sim_fail("failure-not-atomic", "clear failed and left neither the old contents nor an empty buffer");
    }
    void copy_step2(int k, int w)
    {
        B& x = *b[w];
        const Seq old = m[w];
        const int ocap = cap[w];
        Seq want = old;
        Outcome o;
        int site;
        const int lo = next;
        switch (k) {
        case 9: case 10: op = "push_back(const T&)"; if (ocap) {
            const E e(next); push(want, ocap, true, next++);
            o = guarded(op, site, [&] { x.push_back(e); });
            if (e.get() != next - 1) sim_fail("argument-changed", "%s changed its argument", op);
            settle(w, o, want, ocap, old, ocap, true, lo, next); } break;
        case 11: case 12: op = "push_front(const T&)"; if (ocap) {
            const E e(next); push(want, ocap, false, next++);
            o = guarded(op, site, [&] { x.push_front(e); });
            if (e.get() != next - 1) sim_fail("argument-changed", "%s changed its argument", op);
            settle(w, o, want, ocap, old, ocap, true, lo, next); } break;
        case 13: op = "copy assignment"; if (!moved[!w]) {
            const Seq oldy = m[!w];
            o = guarded(op, site, [&] { x = *b[!w]; });
            settle(w, o, oldy, cap[!w], old, ocap, false, 0, next);
            settle(!w, DONE, oldy, cap[!w], oldy, cap[!w], true, lo, next); } break;
        case 14: op = "copy construction"; {
            const int other = !w;
            o = guarded(op, site, [&] {
                B t(x);
                SimNoAllocFaults na; elem::reg().on = false;
                B* keep = b[other]; b[other] = &t; const Seq km = m[other]; const int kc = cap[other]; const bool kmv = moved[other];
                moved[other] = false;
                settle(other, DONE, old, ocap, old, ocap, true, lo, next);
                b[other] = keep; m[other] = km; cap[other] = kc; moved[other] = kmv;
            });
            settle(w, DONE, old, ocap, old, ocap, true, lo, next); } break;
        case 15: op = "at"; {
            const size_t i = sim_gen(old.n + 3);
            const B& c = x;
            bool thrown = false;
            const uint64_t f = sim_faults_injected();
            try { elem::Faults on; if ((sim_gen(2) ? c.at(i) : x.at(i)).get() != old.d[i]) sim_fail("wrong-contents", "at(%zu) returned a wrong element", i); }
            catch (const std::out_of_range&) { thrown = true; }
            catch (const std::bad_alloc&) { thrown = true; if (f == sim_faults_injected()) sim_fail("wrong-exception", "at threw bad_alloc"); }
            if (thrown != (i >= (size_t)old.n)) sim_fail("wrong-exception", "at(%zu) with %d elements: %s", i, old.n, thrown ? "exception" : "no exception");
            settle(w, DONE, old, ocap, old, ocap, true, lo, next); } break;
        case 16: op = "operator<<"; {
            std::ostringstream os, ref;
            for (int i = 0; i < old.n; i++) ref << old.d[i] << "  ";
            os << x;
            if (os.str() != ref.str() + "\n") sim_fail("wrong-contents", "operator<< printed \"%s\"", os.str().c_str()); } break;
        }
    }
    template <bool F = fixed> std::enable_if_t<F> make(int, void* p0, void* p1) { b[0] = new (p0) B(); b[1] = new (p1) B(); }
    template <bool F = fixed> std::enable_if_t<!F> make(int c, void* p0, void* p1)
    {
        b[0] = nullptr;
        int site;
        op = "construction";
        guarded(op, site, [&] { b[0] = new (p0) B(c); });
        if (!b[0]) { if (elem::reg().n) sim_fail("element-leak", "failed construction leaks elements"); b[0] = new (p0) B(c); }
        b[1] = new (p1) B();
    }
    void run()
    {
        base_blocks = sim_live_blocks();
        alignas(B) char s0[sizeof(B)], s1[sizeof(B)];
        if (sim_gen(40) == 0) big = 16;
        make(sim_gen(6 * big), s0, s1);
        cap[0] = b[0]->capacity(); cap[1] = b[1]->capacity();
        const int n = 1 + sim_gen(big > 1 ? 40 : 14);
        for (int w = 0; w < 2; w++) // fill without faults; wrap around at a random place
            if (cap[w]) for (int i = sim_gen(2 * cap[w] + 1); i > 0; i--) {
                const bool back = sim_gen(3) != 0;
                if (back) b[w]->push_back(E(next)); else b[w]->push_front(E(next));
                push(m[w], cap[w], back, next++);
            }
        op = "filling";
        for (int w = 0; w < 2; w++) settle(w, DONE, m[w], cap[w], m[w], cap[w], true, 0, 0);
        for (int i = 0; i < n; i++) step();
        for (int w = 0; w < 2; w++) { b[w]->~B(); b[w] = nullptr; }
        op = "destruction";
        census();
        if (sim_live_blocks() != base_blocks) sim_fail("memory-leak", "memory leaked by the buffers");
    }
};
template <int K> void sb()
{
    switch (sim_gen(6)) {
    case 4: { SB<Elem<K>, 1, gul14::SlidingBufferExposed<Elem<K>, 1>> s; s.run(); } break;
    case 0: { SB<Elem<K>, 0, gul14::SlidingBuffer<Elem<K>, 0>> s; s.run(); } break;
    case 1: { SB<Elem<K>, 5, gul14::SlidingBuffer<Elem<K>, 5>> s; s.run(); } break;
    case 2: { SB<Elem<K>, 1, gul14::SlidingBuffer<Elem<K>, 1>> s; s.run(); } break;
    case 3: { SB<Elem<K>, 0, gul14::SlidingBufferExposed<Elem<K>, 0>> s; s.run(); } break;
    default: { SB<Elem<K>, 4, gul14::SlidingBufferExposed<Elem<K>, 4>> s; s.run(); } break;
    }
}
void slidebuf() { switch (sim_gen(4)) { case 0: sb<0>(); break; case 1: sb<4>(); break; case 2: sb<5>(); break; default: sb<6>(); } }

SimScenario scs[] = {
    { "smallvec_copy", smallvec_copy, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "smallvec_move", smallvec_move, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "smallvec_noexcept", smallvec_noexcept, FM_ALLOC, 0, 0, nullptr },
    { "slidebuf", slidebuf, FM_ALLOC | FM_USER, 0, 0, nullptr },
};
int reg_ = [] { for (auto& s : scs) sim_register(&s); return 0; }();
}
