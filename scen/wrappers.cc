// optional, variant, expected and FinalAction under failing element operations and allocations.
#include "sim.h"
#include "elem.h"
#include <gul14/optional.h>
#include <gul14/variant.h>
#include <gul14/expected.h>
#include <gul14/finalizer.h>
#include <functional>
#include <memory>
#include <thread>

namespace {

int64_t base_blocks;
int next_value;

void census(const char* op, int elements, int blocks)
{
    if (elem::reg().n != elements) sim_fail(elem::reg().n > elements ? "element-leak" : "element-lost", "%s: %d contained objects are alive, expected %d", op, elem::reg().n, elements);
    if (sim_live_blocks() - base_blocks != blocks) sim_fail("memory-leak", "%s: %ld memory blocks are allocated, expected %d", op, (long)(sim_live_blocks() - base_blocks), blocks);
}

// ------------------------------------------------------------------ optional
constexpr int NONE = -100;
// Trivially destructible and copyable, but making one from a number may fail (the wrappers
// use other storage for such types).
struct Triv {
    static constexpr bool throwing_move = false, move_only = false, tracked = false;
    static constexpr const int* mem = nullptr;
    int v;
    Triv() : v(0) {}
    Triv(int x) : v(x) { elem::fault(ES_VALUE); }
    int get() const { return v; }
    friend bool operator==(const Triv& a, const Triv& b) { return a.v == b.v; }
    friend bool operator!=(const Triv& a, const Triv& b) { return a.v != b.v; }
    friend bool operator<(const Triv& a, const Triv& b) { return a.v < b.v; }
    friend bool operator>(const Triv& a, const Triv& b) { return a.v > b.v; }
    friend bool operator<=(const Triv& a, const Triv& b) { return a.v <= b.v; }
    friend bool operator>=(const Triv& a, const Triv& b) { return a.v >= b.v; }
};
constexpr const int* Triv::mem;
static_assert(std::is_trivially_destructible<Triv>::value && std::is_nothrow_copy_constructible<Triv>::value, "");
template <class E> int moved(int v) { return E::tracked ? -1 : v; }
template <class E> struct Opt {
    using O = gul14::optional<E>;
    O* o[2];
    int m[2] = { NONE, NONE };
    const char* op = "";
    int state(int w)
    {
        O& x = *o[w];
        const O& c = x;
        if (bool(x) != x.has_value() || (x == gul14::nullopt) != !x.has_value() || (x != gul14::nullopt) != x.has_value()) sim_fail("inconsistent", "%s: queries of optional disagree", op);
        bool thrown = false;
        int v = NONE;
        try { v = c.value().get(); } catch (const gul14::bad_optional_access&) { thrown = true; }
        if (thrown == x.has_value()) sim_fail("inconsistent", "%s: value() disagrees with has_value()", op);
        if (x.has_value() && (&*x != &x.value() || x->get() != v)) sim_fail("inconsistent", "%s: accessors of optional disagree", op);
        return v;
    }
    void settle(int w, Outcome oc, int want, int old)
    {
        const int got = state(w);
        if (oc == DONE ? got != want : got != old && got != NONE)
            sim_fail(oc == DONE ? "wrong-contents" : "inconsistent", "%s %s: optional contains %d, expected %d%s", op, oc == DONE ? "completed" : "failed", got, oc == DONE ? want : old, oc == DONE ? "" : " or nothing");
        m[w] = got;
    }
    void count()
    {
        int n = 0, b = 0;
        for (int w = 0; w < 2; w++) if (o[w] && o[w]->has_value()) { n += E::tracked; if ((**o[w]).mem) b++; }
        census(op, n, b);
    }
    template <class T = E> std::enable_if_t<T::move_only> copy_step(int, int) {}
    template <class T = E> std::enable_if_t<!T::move_only> copy_step(int k, int w)
    {
        O& x = *o[w];
        const int old = m[w], oldy = m[!w];
        int site;
        Outcome oc;
        switch (k) {
        case 8: case 9: op = "optional copy assignment"; {
            const O& y = *o[!w];
            oc = guarded(op, site, [&] { x = y; });
            settle(w, oc, oldy, old);
            settle(!w, DONE, oldy, oldy); } break;
        case 10: op = "optional = const T&"; {
            const E e(next_value);
            oc = guarded(op, site, [&] { x = e; });
            settle(w, oc, next_value, old);
            next_value++; } break;
        case 11: op = "optional copy construction"; {
            const O& c = x;
            oc = guarded(op, site, [&] {
                O t(c);
                SimNoAllocFaults na; elem::reg().on = false;
                O* keep = o[!w]; o[!w] = &t; settle(!w, DONE, old, old); o[!w] = keep; m[!w] = oldy;
                if (old != NONE && old != -1 && !(t == x)) sim_fail("inconsistent", "a copy of an optional does not compare equal");
            });
            settle(w, DONE, old, old); } break;
        case 12: op = "value_or"; {
            const O& c = x;
            const int alt = next_value++;
            oc = guarded(op, site, [&] { E e = c.value_or(alt); if (e.get() != (old == NONE ? alt : old)) sim_fail("wrong-contents", "value_or returned %d", e.get()); });
            settle(w, DONE, old, old); } break;
        case 13: op = "optional(const T&)"; {
            const E e(next_value);
            const int v = next_value++;
            oc = guarded(op, site, [&] { O t(e); SimNoAllocFaults na; elem::reg().on = false; if (!t || (*t).get() != v) sim_fail("wrong-contents", "optional(const T&) holds the wrong value"); });
            } break;
        case 15: op = "optional self-assignment"; {
            const O& y = x;
            if (sim_gen(2) || old == NONE) oc = guarded(op, site, [&] { x = y; }); else oc = guarded(op, site, [&] { x = *y; });
            settle(w, oc, old, old); } break;
        case 14: op = "make_optional"; {
            const E e(next_value);
            const int v = next_value++;
            oc = guarded(op, site, [&] { auto t = gul14::make_optional(e); SimNoAllocFaults na; elem::reg().on = false; if (!t || (*t).get() != v) sim_fail("wrong-contents", "make_optional holds the wrong value"); });
            } break;
        }
    }
    void step()
    {
        const int w = sim_gen(2);
        O& x = *o[w];
        const int old = m[w], oldy = m[!w];
        int site;
        Outcome oc;
        const int k = sim_gen(E::move_only ? 8 : 16);
        switch (k) {
        case 0: op = "emplace"; {
            oc = guarded(op, site, [&] { x.emplace(next_value); });
            settle(w, oc, next_value, old);
            next_value++; } break;
        case 1: op = "optional = T&&"; {
            E e(next_value);
            oc = guarded(op, site, [&] { x = std::move(e); });
            settle(w, oc, next_value, old);
            next_value++; } break;
        case 2: op = "reset"; oc = guarded(op, site, [&] { if (next_value % 2) x.reset(); else x = gul14::nullopt; }); settle(w, oc, NONE, old); break;
        case 3: case 4: op = "optional move assignment"; {
            oc = guarded(op, site, [&] { x = std::move(*o[!w]); });
            settle(w, oc, oldy, old);
            settle(!w, DONE, oc == DONE && oldy != NONE ? moved<E>(oldy) : oldy, oldy); } break;
        case 5: op = "optional swap"; {
            oc = guarded(op, site, [&] { x.swap(*o[!w]); });
            if (oc == DONE) { settle(w, oc, oldy, old); settle(!w, oc, old, oldy); }
            else for (int i = 0; i < 2; i++) { // both keep their engagement, unless it was being transferred
                const int g = state(i);
                if (g != old && g != oldy && g != -1) sim_fail("inconsistent", "a failed swap left %d", g);
                m[i] = g;
            } } break;
        case 6: op = "optional move construction"; {
            oc = guarded(op, site, [&] {
                O t(std::move(x));
                SimNoAllocFaults na; elem::reg().on = false;
                O* keep = o[!w]; o[!w] = &t; settle(!w, DONE, old, old); o[!w] = keep; m[!w] = oldy;
            });
            settle(w, DONE, oc == DONE && old != NONE ? moved<E>(old) : old, old); } break;
        case 7: op = "optional(in_place, ...)"; {
            const int v = next_value++;
            const int how = sim_gen(3);
            if (how == 0) { oc = guarded(op, site, [&] { O t(gul14::in_place, v); SimNoAllocFaults na; elem::reg().on = false; if (!t || (*t).get() != v) sim_fail("wrong-contents", "in-place construction"); }); break; }
            op = how == 1 ? "optional(T&&)" : "make_optional(T&&)";
            E e(v);
            auto check = [&](const O& t) { SimNoAllocFaults na; elem::reg().on = false; if (!t || (*t).get() != v || e.get() != moved<E>(v)) sim_fail("wrong-contents", "%s holds a wrong value", op); };
            oc = guarded(op, site, [&] { if (how == 1) { O t(std::move(e)); check(t); } else check(gul14::make_optional(std::move(e))); });
            } break;
        default: copy_step(k, w);
        }
        settle(0, DONE, m[0], m[0]); settle(1, DONE, m[1], m[1]);
        const O &a = *o[0], &b = *o[1]; // an empty one comes first
        if ((a == b) != (m[0] == m[1]) || (a != b) != (m[0] != m[1]) || (a < b) != (m[0] < m[1]) || (a > b) != (m[0] > m[1]) || (a <= b) != (m[0] <= m[1]) || (a >= b) != (m[0] >= m[1]))
            sim_fail("inconsistent", "%s: comparing two optionals gives a wrong result (%d, %d)", op, m[0], m[1]);
        if (b) {
            const E& v = *b;
            const int x = m[0], y = m[1];
            if ((a == v) != (x == y) || (a != v) != (x != y) || (a < v) != (x < y) || (a > v) != (x > y) || (a <= v) != (x <= y) || (a >= v) != (x >= y)
                || (v == a) != (x == y) || (v != a) != (x != y) || (v < a) != (y < x) || (v > a) != (y > x) || (v <= a) != (y <= x) || (v >= a) != (y >= x))
                sim_fail("inconsistent", "%s: comparing an optional and a value gives a wrong result (%d, %d)", op, x, y);
        }
        count();
    }
    void run()
    {
        {
            O a, b;
            o[0] = &a; o[1] = &b;
            for (int w = 0; w < 2; w++) if (sim_gen(2) == 0) { o[w]->emplace(next_value); m[w] = next_value++; }
            const int n = 1 + sim_gen(8);
            for (int i = 0; i < n; i++) step();
        }
        o[0] = o[1] = nullptr;
        op = "destruction of optional";
        count();
    }
};
void begin() { base_blocks = sim_live_blocks(); next_value = 1; }
// A type made from a list; every step may fail.
struct Listed {
    Elem<4> sum;
    int n;
    Listed(std::initializer_list<int> l, int x = 0) : sum([&] { int s = x; for (int i : l) s += i; return s; }()), n((int)l.size()) {}
};
void optional_list()
{
    {
        gul14::optional<Listed> o;
        int want = NONE, site;
        const char* op = "";
        for (int i = 1 + sim_gen(6); i > 0; i--) {
            const int k = sim_gen(4), a = next_value++, old = want;
            Outcome oc = DONE;
            switch (k) {
            case 0: op = "emplace(list)"; oc = guarded(op, site, [&] { o.emplace({ a, 2, 3 }, 4); }); if (oc == DONE) want = a + 9; break;
            case 1: op = "optional(list)"; oc = guarded(op, site, [&] { gul14::optional<Listed> t(gul14::in_place, { a, 7 }, 1); SimNoAllocFaults na; elem::reg().on = false; if (!t || t->n != 2 || t->sum.get() != a + 8) sim_fail("wrong-contents", "%s holds a wrong value", op); }); break;
            case 2: op = "assignment"; oc = guarded(op, site, [&] { gul14::optional<Listed> t(gul14::in_place, { a }, 1); o = t; }); if (oc == DONE) want = a + 1; break;
            default: op = "reset"; o = gul14::nullopt; want = NONE; break;
            }
            if (oc != DONE) { if (!o) want = NONE; else if (old == NONE) sim_fail("inconsistent", "%s failed, but the optional is not empty", op); }
            if (o.has_value() != (want != NONE) || (o && o->sum.get() != want)) sim_fail(oc == DONE ? "wrong-contents" : "inconsistent", "%s %s: the optional holds a wrong value", op, oc == DONE ? "completed" : "failed");
            census(op, want != NONE, want != NONE);
        }
    }
    census("destruction of optional", 0, 0);
}
// optional references
void optional_ref()
{
    {
        Elem<4> e[3] = { 1, 2, 3 };
        using R = gul14::optional<Elem<4>&>;
        R r[2];
        int m[2] = { -1, -1 };
        for (int i = 1 + sim_gen(8); i > 0; i--) {
            const int w = sim_gen(2), t = sim_gen(3);
            switch (sim_gen(7)) {
            case 0: r[w] = gul14::nullopt; m[w] = -1; break;
            case 1: r[w].emplace(e[t]); m[w] = t; break;
            case 2: r[w] = R(e[t]); m[w] = t; break;
            case 3: r[w] = r[!w]; m[w] = m[!w]; break;
            case 4: r[w].swap(r[!w]); std::swap(m[0], m[1]); break;
            case 5: { R c(r[w]); if (c.has_value() != (m[w] >= 0) || (c && &*c != &e[m[w]])) sim_fail("wrong-contents", "a copy of an optional reference is wrong"); } break;
            default: { const int alt = 50; int site; guarded("value_or", site, [&] { Elem<4> v = r[w].value_or(alt); SimNoAllocFaults na; elem::reg().on = false; if (v.get() != (m[w] < 0 ? alt : m[w] + 1)) sim_fail("wrong-contents", "value_or of an optional reference returned %d", v.get()); }); } break;
            }
            for (int q = 0; q < 2; q++) {
                bool thrown = false;
                Elem<4>* p = nullptr;
                try { p = &r[q].value(); } catch (const gul14::bad_optional_access&) { thrown = true; }
                if (r[q].has_value() != (m[q] >= 0) || bool(r[q]) != (m[q] >= 0) || thrown != (m[q] < 0)) sim_fail("inconsistent", "queries of an optional reference disagree");
                if (p && (p != &e[m[q]] || p != &*r[q] || r[q]->get() != m[q] + 1 || r[q] != e[m[q]])) sim_fail("wrong-contents", "an optional reference refers to a wrong object");
            }
            census("optional reference", 3, 3);
        }
    }
    census("destruction of optional reference", 0, 0);
}
void optional_() { begin(); switch (sim_gen(9)) { case 7: optional_list(); break; case 8: optional_ref(); break; case 6: { Opt<Triv> x; x.run(); } break; case 0: { Opt<Elem<0>> x; x.run(); } break; case 1: { Opt<Elem<4>> x; x.run(); } break; case 2: { Opt<Elem<1>> x; x.run(); } break; case 3: { Opt<Elem<5>> x; x.run(); } break; case 4: { Opt<Elem<3>> x; x.run(); } break; default: { Opt<Elem<6>> x; x.run(); } } }

// ------------------------------------------------------------------ variant
struct Var {
    using V = gul14::variant<Elem<0>, Elem<5>, int, Elem<1>, Elem<4>>;
    struct S { int idx = 0, val = 0; bool operator==(const S& o) const { return idx == o.idx && val == o.val; } };
    V* v[2];
    S m[2];
    const char* op = "";
    struct Get { int operator()(int i) const { return i; } template <int K> int operator()(const Elem<K>& e) const { return e.get(); } };
    struct Mem { int operator()(int) const { return 0; } template <int K> int operator()(const Elem<K>& e) const { return e.mem ? 1 : 0; } };
    template <int I> bool holds(const V& x) const
    {
        bool thrown = false;
        try { (void)gul14::get<I>(x); } catch (const gul14::bad_variant_access&) { thrown = true; }
        const bool h = gul14::get_if<I>(&x) != nullptr;
        if (thrown == h) sim_fail("inconsistent", "%s: get and get_if disagree", op);
        return h;
    }
    S state(int w)
    {
        const V& x = *v[w];
        const int h = holds<0>(x) + holds<1>(x) * 2 + holds<2>(x) * 4 + holds<3>(x) * 8 + holds<4>(x) * 16;
        const int i = x.valueless_by_exception() ? -1 : (int)x.index();
        if ((x.index() == gul14::variant_npos) != x.valueless_by_exception()) sim_fail("inconsistent", "%s: index() and valueless_by_exception() disagree", op);
        if (h != (i < 0 ? 0 : 1 << i)) sim_fail("inconsistent", "%s: get_if disagrees with index %d", op, i);
        if (gul14::holds_alternative<int>(x) != (i == 2)) sim_fail("inconsistent", "%s: holds_alternative disagrees with index %d", op, i);
        S s;
        s.idx = i; s.val = 0;
        bool thrown = false;
        try { s.val = gul14::visit(Get(), x); } catch (const gul14::bad_variant_access&) { thrown = true; }
        if (thrown != (i < 0)) sim_fail("inconsistent", "%s: visit and index %d disagree", op, i);
        return s;
    }
    void settle(int w, Outcome oc, S want, S old)
    {
        const S got = state(w);
        if (oc == DONE ? !(got == want) : !(got == old) && got.idx != -1)
            sim_fail(oc == DONE ? "wrong-contents" : "inconsistent", "%s %s: variant holds alternative %d with %d, expected %d with %d", op, oc == DONE ? "completed" : "failed", got.idx, got.val, oc == DONE ? want.idx : old.idx, oc == DONE ? want.val : old.val);
        if (got.idx == -1) sim_probe(3);
        m[w] = got;
    }
    void count(int extra = 0)
    {
        int n = extra, b = 0;
        for (int w = 0; w < 2; w++) if (v[w] && !v[w]->valueless_by_exception()) { if (v[w]->index() != 2) n++; b += gul14::visit(Mem(), (const V&)*v[w]); }
        census(op, n, b);
    }
    template <class T> void assign(int w, int idx, bool mv)
    {
        const S old = m[w];
        T e(next_value);
        S want; want.idx = idx; want.val = next_value++;
        int site;
        const Outcome oc = guarded(op, site, [&] { if (mv) *v[w] = std::move(e); else *v[w] = (const T&)e; });
        settle(w, oc, want, old);
    }
    template <int I> void emplace(int w)
    {
        const S old = m[w];
        S want; want.idx = I; want.val = next_value++;
        int site;
        const Outcome oc = guarded(op, site, [&] { auto& r = v[w]->template emplace<I>(want.val); if (&r != gul14::get_if<I>(v[w])) sim_fail("inconsistent", "emplace returned a wrong reference"); });
        settle(w, oc, want, old);
    }
    void step()
    {
        const int w = sim_gen(2), k = sim_gen(11);
        const S old = m[w], oldy = m[!w];
        V& x = *v[w];
        int site;
        Outcome oc;
        switch (k) {
        case 0: case 1: op = k ? "variant = T&&" : "variant = const T&";
            switch (sim_gen(5)) { case 0: assign<Elem<0>>(w, 0, k); break; case 1: assign<Elem<5>>(w, 1, k); break; case 2: assign<int>(w, 2, k); break; case 3: assign<Elem<1>>(w, 3, k); break; default: assign<Elem<4>>(w, 4, k); } break;
        case 2: case 3: op = "variant emplace";
            switch (sim_gen(5)) { case 0: emplace<0>(w); break; case 1: emplace<1>(w); break; case 2: emplace<2>(w); break; case 3: emplace<3>(w); break; default: emplace<4>(w); } break;
        case 4: op = "variant copy assignment"; {
            const V& y = *v[!w];
            oc = guarded(op, site, [&] { x = y; });
            settle(w, oc, oldy, old);
            settle(!w, DONE, oldy, oldy); } break;
        case 5: op = "variant move assignment"; {
            oc = guarded(op, site, [&] { x = std::move(*v[!w]); });
            settle(w, oc, oldy, old);
            S from = oldy;
            if (oc == DONE && from.idx >= 0 && from.idx != 2) from.val = -1;
            settle(!w, DONE, from, oldy); } break;
        case 6: op = "variant swap"; {
            oc = guarded(op, site, [&] { if (next_value % 2) x.swap(*v[!w]); else swap(x, *v[!w]); });
            if (oc == DONE) { settle(w, oc, oldy, old); settle(!w, oc, old, oldy); }
            else for (int i = 0; i < 2; i++) {
                const S g = state(i);
                if (g.idx != -1 && !((g.idx == old.idx && (g.val == old.val || g.val == -1)) || (g.idx == oldy.idx && (g.val == oldy.val || g.val == -1)))) sim_fail("inconsistent", "a failed swap left alternative %d with %d", g.idx, g.val);
                m[i] = g;
            } } break;
        case 7: op = "variant copy construction"; {
            const V& c = x;
            oc = guarded(op, site, [&] { V t(c); SimNoAllocFaults na; elem::reg().on = false; V* keep = v[!w]; v[!w] = &t; settle(!w, DONE, old, old); v[!w] = keep; m[!w] = oldy; });
            settle(w, DONE, old, old); } break;
        case 9: op = "variant self-assignment"; {
            const V& y = x;
            oc = guarded(op, site, [&] { x = y; });
            settle(w, oc, old, old); } break;
        case 10: op = "variant construction"; {
            const int how = sim_gen(4), val = next_value++;
            const Elem<0> e0(val);
            Elem<5> e5(val);
            oc = guarded(op, site, [&] {
                auto check = [&](const V& t, int idx) { SimNoAllocFaults na; elem::reg().on = false; V* keep = v[!w]; v[!w] = const_cast<V*>(&t); S s; s.idx = idx; s.val = val; settle(!w, DONE, s, s); v[!w] = keep; m[!w] = oldy; };
                if (how == 0) check(V(e0), 0); else if (how == 1) check(V(std::move(e5)), 1); else if (how == 2) check(V(gul14::in_place_index_t<3>(), val), 3); else check(V(gul14::in_place_type_t<Elem<4>>(), val), 4);
            }); } break;
        case 8: op = "variant move construction"; {
            oc = guarded(op, site, [&] { V t(std::move(x)); SimNoAllocFaults na; elem::reg().on = false; V* keep = v[!w]; v[!w] = &t; settle(!w, DONE, old, old); v[!w] = keep; m[!w] = oldy; });
            S from = old;
            if (oc == DONE && from.idx >= 0 && from.idx != 2) from.val = -1;
            settle(w, DONE, from, old); } break;
        }
        settle(0, DONE, m[0], m[0]); settle(1, DONE, m[1], m[1]);
        const V &a = *v[0], &b = *v[1]; // a valueless one comes first
        const int c = m[0].idx != m[1].idx ? (m[0].idx < m[1].idx ? -1 : 1) : m[0].idx < 0 || m[0].val == m[1].val ? 0 : m[0].val < m[1].val ? -1 : 1;
        if ((a == b) != (c == 0) || (a != b) != (c != 0) || (a < b) != (c < 0) || (a > b) != (c > 0) || (a <= b) != (c <= 0) || (a >= b) != (c >= 0))
            sim_fail("inconsistent", "%s: comparing two variants gives a wrong result (alternatives %d, %d)", op, m[0].idx, m[1].idx);
        count();
    }
    void run()
    {
        {
            V a, b;
            v[0] = &a; v[1] = &b;
            const int n = 1 + sim_gen(8);
            for (int i = 0; i < n; i++) step();
        }
        v[0] = v[1] = nullptr;
        op = "destruction of variant";
        count();
    }
};
void variant_() { begin(); Var x; x.run(); }

// ------------------------------------------------------------------ expected
// Copying and move construction of throwing types ends the process (known findings, scenario
// expected_copy), and so do some emplacements (expected_emplace); everything else is here.
template <class T, class E> struct Exp {
    using X = gul14::expected<T, E>;
    using U = gul14::unexpected<E>;
    struct S { bool ok = true; int val = 0; bool operator==(const S& o) const { return ok == o.ok && val == o.val; } };
    X* x[2];
    S m[2];
    const char* op = "";
    static S mk(bool ok, int v) { S s; s.ok = ok; s.val = v; return s; }
    S state(int w)
    {
        X& y = *x[w];
        const X& c = y;
        if (bool(c) != c.has_value()) sim_fail("inconsistent", "%s: queries of expected disagree", op);
        S s;
        s.ok = c.has_value();
        if (s.ok) { s.val = (*c).get(); if (&*c != &c.value() || c->get() != s.val) sim_fail("inconsistent", "%s: accessors of expected disagree", op); }
        else s.val = c.error().get();
        return s;
    }
    void settle(int w, Outcome oc, S want, S old)
    {
        const S got = state(w);
        const S& e = oc == DONE ? want : old;
        if (!(got == e)) sim_fail(oc == DONE ? "wrong-contents" : "inconsistent", "%s %s: expected holds %s %d instead of %s %d", op, oc == DONE ? "completed" : "failed", got.ok ? "value" : "error", got.val, e.ok ? "value" : "error", e.val);
        m[w] = got;
    }
    void count()
    {
        int n = 0, b = 0;
        for (int w = 0; w < 2; w++) if (x[w]) { n += x[w]->has_value() ? T::tracked : E::tracked; if (x[w]->has_value() ? (**x[w]).mem : x[w]->error().mem) b++; }
        census(op, n, b);
    }
    struct Boom {};
    void functions(int w)
    {
        X& y = *x[w];
        const S old = m[w];
        const int k = sim_gen(6), act = sim_gen(2);
        bool thrown = false, called = false;
        if (k >= 4) { // the function gets the error
            op = k == 4 ? "map_error" : "or_else";
            try { // (no failing element operations: copying an expected with those is a known finding)
                if (k == 4) {
                    auto r = ((const X&)y).map_error([&](const E& e) { called = true; if (act) throw Boom(); return e.get() + 3; });
                    if (r.has_value() != old.ok || (old.ok ? (*r).get() != old.val : r.error() != old.val + 3)) sim_fail("wrong-contents", "map_error returned a wrong result");
                } else {
                    auto r = ((const X&)y).or_else([&](const E& e) -> X { called = true; if (act) throw Boom(); return X(gul14::in_place, e.get() + 4); });
                    if (!r.has_value() || (*r).get() != (old.ok ? old.val : old.val + 4)) sim_fail("wrong-contents", "or_else returned a wrong result");
                }
            }
            catch (const Boom&) { thrown = true; }
            if (called == old.ok || thrown != (act && !old.ok)) sim_fail("wrong-exception", "%s: the function was%s called", op, called ? "" : " not");
            settle(w, DONE, old, old);
            return;
        }
        op = "map/and_then/or_else";
        try {
            elem::Faults on;
            switch (k) {
            case 0: { auto r = ((const X&)y).map([&](const T& t) { called = true; if (act) throw Boom(); return t.get() + 1; }); if (r.has_value() != old.ok || (old.ok && *r != old.val + 1)) sim_fail("wrong-contents", "map returned a wrong result"); } break;
            case 1: { auto r = ((const X&)y).and_then([&](const T& t) -> gul14::expected<int, E> { called = true; if (act) throw Boom(); return t.get() + 2; }); if (r.has_value() != old.ok || (old.ok && *r != old.val + 2)) sim_fail("wrong-contents", "and_then returned a wrong result"); } break;
            case 2: { auto r = ((const X&)y).map([&](const T&) { called = true; if (act) throw Boom(); }); if (r.has_value() != old.ok) sim_fail("wrong-contents", "map returned a wrong result"); } break;
            default: y.value(); called = true; if (act) throw Boom(); break;
            }
        }
        catch (const Boom&) { thrown = true; }
        catch (const gul14::bad_expected_access<E>& e) { if (old.ok || k != 3 || e.error().get() != old.val) sim_fail("wrong-exception", "value() threw bad_expected_access for a valid object or with a wrong error"); }
        if (called != old.ok || thrown != (act && old.ok)) sim_fail("wrong-exception", "%s: the function was%s called", op, called ? "" : " not");
        settle(w, DONE, old, old);
    }
    void step()
    {
        const int w = sim_gen(2);
        X& y = *x[w];
        const S old = m[w], oldy = m[!w];
        int site;
        Outcome oc;
        switch (sim_gen(10)) {
        case 0: op = "expected = const T&"; {
            const T e(next_value);
            oc = guarded(op, site, [&] { y = e; });
            settle(w, oc, mk(true, next_value), old);
            next_value++; } break;
        case 1: op = "expected = T&&"; {
            T e(next_value);
            oc = guarded(op, site, [&] { y = std::move(e); });
            settle(w, oc, mk(true, next_value), old);
            next_value++; } break;
        case 2: case 3: op = "expected = unexpected&&"; {
            U e{ E(next_value) };
            oc = guarded(op, site, [&] { y = std::move(e); });
            settle(w, oc, mk(false, next_value), old);
            next_value++; } break;
        case 4: op = "emplace into expected"; {
            if (old.ok && T::throwing_move) break; // known finding, see expected_emplace
            oc = guarded(op, site, [&] { y.emplace(next_value); });
            settle(w, oc, mk(true, next_value), old);
            next_value++; } break;
        case 5: op = "expected swap"; {
            oc = guarded(op, site, [&] { y.swap(*x[!w]); });
            if (oc == DONE) { settle(w, oc, oldy, old); settle(!w, oc, old, oldy); }
            else for (int i = 0; i < 2; i++) {
                const S g = state(i);
                if (!(g.ok == old.ok && (g.val == old.val || g.val == -1)) && !(g.ok == oldy.ok && (g.val == oldy.val || g.val == -1))) sim_fail("inconsistent", "a failed swap left %s %d", g.ok ? "value" : "error", g.val);
                if (old.ok != oldy.ok && !(g == m[i])) sim_fail("inconsistent", "a failed swap of value and error changed an object");
                m[i] = g;
            } } break;
        case 6: op = "expected construction"; {
            const int how = sim_gen(4), v = next_value++;
            const T e(v);
            oc = guarded(op, site, [&] {
                auto check = [&](const X& t, bool ok) { SimNoAllocFaults na; elem::reg().on = false; if (t.has_value() != ok || (ok ? (*t).get() : t.error().get()) != v) sim_fail("wrong-contents", "construction of expected"); };
                if (how == 3) { X d; SimNoAllocFaults na; elem::reg().on = false; if (!d.has_value() || (*d).get() != 0) sim_fail("wrong-contents", "default construction of expected"); return; }
                if (how == 0) check(X(gul14::in_place, v), true); else if (how == 1) check(X(gul14::unexpect, v), false); else check(X(e), true);
            }); } break;
        case 7: op = "value_or"; {
            const int alt = next_value++;
            oc = guarded(op, site, [&] { T e = ((const X&)y).value_or(alt); SimNoAllocFaults na; elem::reg().on = false; if (e.get() != (old.ok ? old.val : alt)) sim_fail("wrong-contents", "value_or returned %d", e.get()); });
            settle(w, DONE, old, old); } break;
        case 8: functions(w); break;
        case 9: op = "expected move and copy without failures"; { // nothing fails here
            if (sim_gen(2)) { y = *x[!w]; settle(w, DONE, oldy, old); settle(!w, DONE, oldy, oldy); }
            else { y = std::move(*x[!w]); settle(w, DONE, oldy, old); settle(!w, DONE, mk(oldy.ok, oldy.ok ? moved<T>(oldy.val) : moved<E>(oldy.val)), oldy); }
            X c(y); settle(w, DONE, oldy, old);
            if (c.has_value() != oldy.ok || (oldy.ok ? (*c).get() : c.error().get()) != oldy.val) sim_fail("wrong-contents", "copy construction of expected gives a wrong copy");
            } break;
        }
        settle(0, DONE, m[0], m[0]); settle(1, DONE, m[1], m[1]);
        count();
    }
    void run()
    {
        {
            X a(gul14::in_place, next_value), b(gul14::unexpect, next_value + 1);
            x[0] = &a; x[1] = &b;
            m[0] = mk(true, next_value); m[1] = mk(false, next_value + 1);
            next_value += 2;
            const int n = 1 + sim_gen(8);
            for (int i = 0; i < n; i++) step();
        }
        x[0] = x[1] = nullptr;
        op = "destruction of expected";
        count();
    }
};
// expected<void, E>
void expected_void()
{
    using E = Elem<12>;
    using X = gul14::expected<void, E>;
    using U = gul14::unexpected<E>;
    struct Boom {};
    {
        X a, b(gul14::unexpect, 1);
        X* x[2] = { &a, &b };
        int m[2] = { NONE, 1 };
        next_value = 2;
        const char* op = "";
        for (int i = 1 + sim_gen(8); i > 0; i--) {
            const int w = sim_gen(2), old = m[w];
            X& y = *x[w];
            switch (sim_gen(9)) {
            case 0: op = "expected<void> = const unexpected&"; { const U u{ E(next_value) }; y = u; m[w] = next_value++; if (u.value().get() != m[w]) sim_fail("argument-changed", "%s changed its argument", op); } break;
            case 1: op = "expected<void> = unexpected&&"; { U u{ E(next_value) }; y = std::move(u); m[w] = next_value++; } break;
            case 2: op = "expected<void> = value"; y = X(); m[w] = NONE; break;
            case 3: op = "expected<void> copy assignment"; y = (const X&)*x[!w]; m[w] = m[!w]; break;
            case 4: op = "expected<void> move assignment"; y = std::move(*x[!w]); m[w] = m[!w]; if (m[!w] != NONE) m[!w] = -1; break;
            case 5: op = "expected<void> swap"; std::swap(y, *x[!w]); m[w] = m[!w]; m[!w] = old; break;
            case 6: op = "expected<void> copy construction"; { X c((const X&)y); if (c.has_value() != (old == NONE) || (old != NONE && c.error().get() != old)) sim_fail("wrong-contents", "%s gave a wrong copy", op); } break;
            case 7: op = "expected<void> move construction"; { X c(std::move(y)); if (c.has_value() != (old == NONE) || (old != NONE && c.error().get() != old)) sim_fail("wrong-contents", "%s gave a wrong object", op); if (old != NONE) m[w] = -1; } break;
            default: op = "functions of expected<void>"; {
                const int k = sim_gen(4), act = sim_gen(2);
                bool called = false, thrown = false;
                try {
                    if (k == 0) { auto r = ((const X&)y).map([&] { called = true; if (act) throw Boom(); return 7; }); if (r.has_value() != (old == NONE) || (r.has_value() ? *r != 7 : r.error().get() != old)) sim_fail("wrong-contents", "map returned a wrong result"); }
                    else if (k == 1) { auto r = ((const X&)y).and_then([&]() -> gul14::expected<int, E> { called = true; if (act) throw Boom(); return 8; }); if (r.has_value() != (old == NONE) || (r.has_value() ? *r != 8 : r.error().get() != old)) sim_fail("wrong-contents", "and_then returned a wrong result"); }
                    else if (k == 2) { auto r = ((const X&)y).map([&] { called = true; if (act) throw Boom(); }); if (r.has_value() != (old == NONE)) sim_fail("wrong-contents", "map returned a wrong result"); }
                    else { auto r = ((const X&)y).map_error([&](const E& e) { called = true; if (act) throw Boom(); return e.get() + 3; }); if (r.has_value() != (old == NONE) || (!r.has_value() && r.error() != old + 3)) sim_fail("wrong-contents", "map_error returned a wrong result"); }
                }
                catch (const Boom&) { thrown = true; }
                const bool due = k == 3 ? old != NONE : old == NONE;
                if (called != due || thrown != (act && due)) sim_fail("wrong-exception", "%s: the function was%s called or its exception was lost", op, called ? "" : " not");
                } break;
            }
            int n = 0, blocks = 0;
            for (int q = 0; q < 2; q++) {
                if (x[q]->has_value() != (m[q] == NONE) || bool(*x[q]) != (m[q] == NONE)) sim_fail("wrong-contents", "%s: has_value() is %d", op, x[q]->has_value());
                if (m[q] != NONE) { n++; if (x[q]->error().mem) blocks++; if (x[q]->error().get() != m[q]) sim_fail("wrong-contents", "%s: error is %d, expected %d", op, x[q]->error().get(), m[q]); }
            }
            census(op, n, blocks);
        }
    }
    census("destruction of expected<void>", 0, 0);
}
// swapping when only the error type has throwing moves
void expected_swap()
{
    using X = gul14::expected<Elem<4>, Elem<9>>;
    {
        X a(gul14::in_place, 1), b(gul14::unexpect, 2);
        const int dir = sim_gen(2);
        int site;
        const Outcome o = guarded("expected swap", site, [&] { if (dir) a.swap(b); else b.swap(a); });
        const bool sw = o == DONE;
        if (a.has_value() == sw || b.has_value() != sw) sim_fail("inconsistent", "swap of value and error %s, but the objects are wrong", sw ? "completed" : "failed");
        if ((sw ? a.error().get() : a->get()) != (sw ? 2 : 1) || (sw ? b->get() : b.error().get()) != (sw ? 1 : 2)) sim_fail("wrong-contents", "swap of value and error changed a value");
        census("expected swap", 2, 1);
    }
    census("expected swap", 0, 0);
}
// E: copies never throw (needed for bad_expected_access and map), moves may not throw either
void expected_() { begin(); switch (sim_gen(10)) { case 6: { Exp<Elem<8>, Elem<8>> x; x.run(); } break; case 7: { Exp<Triv, Triv> x; x.run(); } break; case 8: { Exp<Elem<5>, Triv> x; x.run(); } break; case 9: { Exp<Triv, Elem<8>> x; x.run(); } break; case 5: expected_void(); break; case 4: expected_swap(); break; case 0: { Exp<Elem<0>, Elem<8>> x; x.run(); } break; case 1: { Exp<Elem<4>, Elem<8>> x; x.run(); } break; case 2: { Exp<Elem<1>, Elem<8>> x; x.run(); } break; default: { Exp<Elem<5>, Elem<8>> x; x.run(); } } }
// known finding: a copy or assignment that throws inside expected
void expected_copy()
{
    begin();
    using X = gul14::expected<Elem<0>, Elem<4>>;
    {
        const X v(gul14::in_place, 1), e(gul14::unexpect, 2);
        const X& src = sim_gen(2) ? e : v;
        X dst(gul14::unexpect, 3), dst2(gul14::in_place, 4);
        int site;
        const int how = sim_gen(3);
        guarded("copying an expected", site, [&] { if (how == 0) { X t(src); } else if (how == 1) dst = src; else dst2 = src; });
    }
    census("copying an expected", 0, 0);
}
// known finding: emplacing over an existing value whose moves may throw
void expected_emplace()
{
    begin();
    using X = gul14::expected<Elem<1>, Elem<8>>;
    {
        X v(gul14::in_place, 1);
        int site;
        guarded("emplace over a value", site, [&] { v.emplace(2); });
        census("emplace over a value", 1, 0);
    }
    census("emplace over a value", 0, 0);
}

// ------------------------------------------------------------------ FinalAction
constexpr int MAXG = 64;
struct Guards {
    int n = 0, runs[MAXG], due[MAXG]; // due: the scope of the guard's owner has been left
    int order[MAXG], n_order = 0;
} G;
void act(int id) { G.runs[id]++; if (G.n_order < MAXG) G.order[G.n_order++] = id; sim_point(); }
struct Act { // assignable, owns memory, moves never fail
    int id;
    std::unique_ptr<int> mem;
    explicit Act(int i) : id(i), mem(new int(i)) {}
    Act(Act&&) noexcept = default;
    Act& operator=(Act&&) noexcept = default;
    void operator()() { if (!mem || *mem != id) sim_fail("action-corrupted", "the action of a guard ran on a moved-from object"); act(id); }
};
struct Leave {};
void alive(int id) { if (G.runs[id]) sim_fail("action-too-early", "the action of guard %d ran before its scope was left", id); }
void risky() // may fail
{
    elem::Faults on;
    std::unique_ptr<int> p(new int(1));
    elem::fault(ES_VALUE);
}
int fresh() { if (G.n == MAXG) return -1; const int id = G.n++; G.runs[id] = 0; G.due[id] = 0; return id; }
void scope(int depth, int* left);
// Executes a few steps inside the scope of a guard. Returns false to leave early.
void body(int depth, int id)
{
    const int steps = sim_gen(4);
    for (int s = 0; s < steps; s++) {
        alive(id);
        switch (sim_gen(6)) {
        case 0: risky(); break;
        case 1: if (depth < 4) { int l = -1; scope(depth + 1, &l); } break;
        case 2: if (depth < 4) { try { int l = -1; scope(depth + 1, &l); } catch (const Leave&) {} catch (const ElemError&) {} catch (const std::bad_alloc&) {} } break;
        case 3: throw Leave();
        case 4: return;
        case 5: sim_point(); break;
        }
        alive(id);
    }
}
struct LeaveCheck { // placed before the guard: runs after the guard was destroyed
    int id;
    ~LeaveCheck() { if (id >= 0 && G.runs[id] != 1) sim_fail(G.runs[id] ? "action-run-twice" : "action-not-run", "the action of guard %d ran %d times although its scope was left", id, G.runs[id]); }
};
struct Plain { int id; void operator()() const { act(id); } }; // stays callable when moved from
struct Unwinder { // guards are created and moved while the stack is being unwound
    int id;
    ~Unwinder()
    {
        {
            gul14::FinalAction<Plain> g{ Plain{ id } };
            gul14::FinalAction<Plain> h{ std::move(g) };
            alive(id);
            gul14::FinalAction<Plain> k{ std::move(h) };
            alive(id);
        }
        if (G.runs[id] != 1) sim_fail(G.runs[id] ? "action-run-twice" : "action-not-run", "the action of guard %d ran %d times during stack unwinding", id, G.runs[id]);
    }
};
void fn_action() { act(G.due[MAXG - 1]); }
void scope(int depth, int* left)
{
    const int id = fresh();
    if (id < 0 || id >= MAXG - 1) return;
    LeaveCheck chk{ -1 };
    switch (sim_gen(9)) {
    case 0: { // lambda
        LeaveCheck c{ id };
        auto g = gul14::finally([id] { act(id); });
        body(depth, id); } break;
    case 1: { // moved to an inner scope and left there
        auto g = gul14::finally([id] { act(id); });
        {
            LeaveCheck c{ id };
            auto h = std::move(g);
            body(depth, id);
        }
        if (G.runs[id] != 1) sim_fail("action-not-run", "guard %d", id);
        risky(); } break;
    case 2: { // owning functor, moved around
        LeaveCheck c{ id };
        auto g = gul14::finally(Act(id));
        alive(id);
        auto h = std::move(g);
        alive(id);
        auto k = std::move(h);
        body(depth, id); } break;
    case 3: { // kept on the heap
        LeaveCheck c{ id };
        using F = gul14::FinalAction<Act>;
        auto g = std::make_unique<F>(Act(id));
        body(depth, id);
        if (sim_gen(2)) { g.reset(); if (G.runs[id] != 1) sim_fail("action-not-run", "guard %d", id); } } break;
    case 4: { // move assignment: the target gives up its own action and takes over the other one
        const int id2 = fresh();
        if (id2 < 0 || id2 >= MAXG - 1) { G.runs[id] = 1; break; }
        {
            LeaveCheck c{ id2 };
            gul14::FinalAction<Act> g{ Act(id) };
            {
                gul14::FinalAction<Act> h{ Act(id2) };
                body(depth, id2);   // if this throws, both run
                g = std::move(h);
                alive(id2);
            }
            alive(id2);
            if (G.runs[id]) sim_fail("action-too-early", "guard %d", id);
            G.due[id] = 1;          // given up
            body(depth, id2);
        } } break;
    case 5: { // std::function, in another thread
        LeaveCheck c{ id };
        if (depth > 1) { auto g = gul14::finally([id] { act(id); }); body(depth, id); break; }
        std::thread t([&] {
            try {
                std::function<void()> f = [id] { act(id); };
                auto g = gul14::finally(std::move(f));
                for (int i = 0; i < 3; i++) { sim_point(); alive(id); }
                risky();
            }
            catch (const ElemError&) {} catch (const std::bad_alloc&) {}
            if (G.runs[id] != 1) sim_fail("action-not-run", "guard %d in a thread", id);
        });
        t.join(); } break;
    case 6: { // used in a destructor, often during unwinding
        Unwinder u{ id };
        risky();
        if (sim_gen(2)) throw Leave(); } break;
    case 7: { // moved from twice: the second taker gets nothing
        LeaveCheck c{ id };
        gul14::FinalAction<Plain> g{ Plain{ id } };
        gul14::FinalAction<Plain> h{ std::move(g) };
        { gul14::FinalAction<Plain> k{ std::move(g) }; body(depth, id); }
        alive(id);
        gul14::FinalAction<Plain>& self = h;
        if (sim_gen(2)) h = std::move(self);
        body(depth, id); } break;
    case 8: { // assigned from a guard that has already been moved from
        const int id2 = fresh();
        if (id2 < 0 || id2 >= MAXG - 1) { G.runs[id] = 1; break; }
        LeaveCheck c{ id2 };
        gul14::FinalAction<Plain> h{ Plain{ id2 } };
        gul14::FinalAction<Plain> k{ std::move(h) };
        {
            gul14::FinalAction<Plain> g{ Plain{ id } };
            body(depth, id2);       // if this throws, both run
            g = std::move(h);
            alive(id2);
            G.due[id] = 1;          // given up
        }
        alive(id2);
        if (G.runs[id]) sim_fail("action-not-replaced", "the action of guard %d ran although another guard was assigned to it", id); } break;
    }
    *left = id;
}
void final_action()
{
    begin();
    G.n = 0; G.n_order = 0;
    const int n = 1 + sim_gen(3);
    for (int i = 0; i < n; i++) {
        int l = -1;
        try { scope(0, &l); } catch (const Leave&) {} catch (const ElemError&) {} catch (const std::bad_alloc&) {}
    }
    for (int i = 0; i < G.n; i++)
        if (G.runs[i] != 1 && !(G.runs[i] == 0 && G.due[i])) sim_fail(G.runs[i] ? "action-run-twice" : "action-not-run", "the action of guard %d ran %d times", i, G.runs[i]);
    if (sim_live_blocks() != base_blocks) sim_fail("memory-leak", "a guard leaks memory");
}

SimScenario scs[] = {
    { "optional", optional_, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "variant", variant_, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "expected", expected_, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "expected_copy", expected_copy, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "expected_emplace", expected_emplace, FM_ALLOC | FM_USER, 0, 0, nullptr },
    { "final_action", final_action, FM_ALLOC | FM_USER | FM_STALL | FM_WAKE, 0, 0, nullptr },
};
int reg_ = [] { for (auto& s : scs) sim_register(&s); return 0; }();
}
