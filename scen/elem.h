// Element types with life-cycle tracking and injected failures.
#ifndef ELEM_H_
#define ELEM_H_
#include "sim.h"
#include <cstddef>
#include <exception>
#include <new>
#include <type_traits>
#include <utility>

struct ElemError { int site; };
enum ElemSite { ES_DEFAULT = 1, ES_VALUE, ES_COPY, ES_MOVE, ES_COPY_ASSIGN, ES_MOVE_ASSIGN };

namespace elem {
constexpr int MAXLIVE = 4096;
struct Reg {
    const void* p[MAXLIVE];
    int n = 0;
    bool on = false;   // injected failures enabled
};
inline Reg& reg() { static Reg r; return r; }
inline int find(const void* q) { Reg& r = reg(); for (int i = r.n - 1; i >= 0; i--) if (r.p[i] == q) return i; return -1; }
inline void born(const void* q)
{
    Reg& r = reg();
    if (find(q) >= 0) sim_fail("element-constructed-twice", "an element was constructed on top of a live element");
    if (r.n == MAXLIVE) sim_fail("element-leak", "too many live elements");
    r.p[r.n++] = q;
}
inline void died(const void* q)
{
    Reg& r = reg();
    const int i = find(q);
    if (i < 0) sim_fail("element-destroyed-twice", "an element was destroyed that is not alive");
    r.p[i] = r.p[--r.n];
}
inline void alive(const void* q, const char* what) { if (find(q) < 0) sim_fail("dead-element-used", "%s of an element that is not alive", what); }
inline void fault(int site) { if (reg().on && sim_fault(site)) throw ElemError{ site }; }
struct Faults { // RAII: failures are possible inside
    int old;
    Faults() { reg().on = true; old = sim_alloc_faults(1); }
    ~Faults() { reg().on = false; sim_alloc_faults(old); }
};
}

// KIND bits: 1 moving may throw, 2 move-only, 4 owns heap memory, 8 copying never throws
template <int KIND> struct Elem {
    static constexpr bool throwing_move = (KIND & 1) != 0, move_only = (KIND & 2) != 0, heap = (KIND & 4) != 0, nothrow_copy = (KIND & 8) != 0, tracked = true;
    struct No {};
    int v = 0;      // -1 = moved from
    int* mem = nullptr;
    void set(int x) { v = x; if (heap) mem = new int(x); }
    void steal(Elem& o) noexcept { v = o.v; mem = o.mem; o.v = -1; o.mem = nullptr; }
    Elem() { elem::fault(ES_DEFAULT); set(0); elem::born(this); }
    Elem(int x) { elem::fault(ES_VALUE); set(x); elem::born(this); }
    Elem(const std::conditional_t<move_only, No, Elem>& o) noexcept(nothrow_copy) { copy(o); }
    Elem(std::conditional_t<move_only, Elem, Elem>&& o) noexcept(!throwing_move)
    {
        elem::alive(&o, "move construction");
        if (throwing_move) elem::fault(ES_MOVE);
        steal(o);
        elem::born(this);
    }
    Elem& operator=(const std::conditional_t<move_only, No, Elem>& o) noexcept(nothrow_copy) { assign(o); return *this; }
    Elem& operator=(std::conditional_t<move_only, Elem, Elem>&& o) noexcept(!throwing_move)
    {
        elem::alive(&o, "move assignment");
        elem::alive(this, "move assignment");
        if (throwing_move) elem::fault(ES_MOVE_ASSIGN);
        if (this != &o) { delete mem; steal(o); }
        return *this;
    }
    ~Elem() { elem::died(this); delete mem; v = -2; mem = nullptr; }
    int get() const
    {
        elem::alive(this, "reading");
        if (heap && v != -1 && (!mem || *mem != v)) sim_fail("element-corrupted", "an element has lost its memory");
        return v;
    }
    friend bool operator==(const Elem& a, const Elem& b) { return a.get() == b.get(); }
    friend bool operator!=(const Elem& a, const Elem& b) { return a.get() != b.get(); }
    friend bool operator<(const Elem& a, const Elem& b) { return a.get() < b.get(); }
    friend bool operator>(const Elem& a, const Elem& b) { return a.get() > b.get(); }
    friend bool operator<=(const Elem& a, const Elem& b) { return a.get() <= b.get(); }
    friend bool operator>=(const Elem& a, const Elem& b) { return a.get() >= b.get(); }
    template <class S> friend auto operator<<(S& s, const Elem& e) -> decltype(s << 1) { return s << e.get(); }
private:
    void copy(const No&) {}
    void copy(const Elem& o)
    {
        elem::alive(&o, "copying");
        if (!nothrow_copy) elem::fault(ES_COPY);
        if (o.v == -1) v = -1; else set(o.v);
        elem::born(this);
    }
    void assign(const No&) {}
    void assign(const Elem& o)
    {
        elem::alive(&o, "copy assignment");
        elem::alive(this, "copy assignment");
        if (!nothrow_copy) elem::fault(ES_COPY_ASSIGN);
        int* m = heap && o.v != -1 ? new int(o.v) : nullptr;
        delete mem;
        mem = m;
        v = o.v;
    }
};

enum Outcome { DONE, THREW_ELEM, THREW_ALLOC };

// Runs one library call with faults enabled. An exception must appear if and only if a
// fault was injected, and has to be the injected one.
template <class F> inline Outcome guarded(const char* op, int& site, F f)
{
    const uint64_t before = sim_faults_injected();
    site = 0;
    Outcome o = DONE;
    try { elem::Faults on; f(); }
    catch (const ElemError& e) { o = THREW_ELEM; site = e.site; }
    catch (const std::bad_alloc&) { o = THREW_ALLOC; }
    catch (const std::exception& e) { sim_fail("wrong-exception", "%s: unexpected exception: %s", op, e.what()); }
    const bool injected = sim_faults_injected() != before;
    if (injected && o == DONE) sim_fail("exception-swallowed", "%s: a failure was injected but the call completed normally", op);
    if (!injected && o != DONE) sim_fail("wrong-exception", "%s: exception without an injected failure", op);
    return o;
}
#endif
