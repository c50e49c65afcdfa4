// Engine S, C14 (disconnect by callable) and C17 (slots as values).
#include "signals.hpp"
#include "rt.h"
#include <functional>
#include <memory>
#include <utility>
#include <vector>

namespace {
// ---------------------------------------------------------------- what the slots report
enum { NT = 26 };
int hits[NT];
template<typename R> struct Ret { static R get(int t) { ++hits[t]; step(); return t; } };
template<> struct Ret<void> { static void get(int t) { ++hits[t]; step(); } };

template<typename R> R free0() { return Ret<R>::get(0); }
template<typename R> R free1() { return Ret<R>::get(1); }
template<typename R> struct Eq { int t, v; R operator()() const { return Ret<R>::get(t); } bool operator==(const Eq& o) const { return v == o.v; } };
template<typename R> struct Eq2 { int t, v; R operator()() const { return Ret<R>::get(t); } };
template<typename R> bool operator==(const Eq2<R>& a, const Eq2<R>& b) { return a.v == b.v; }
template<typename R> struct Non { int t; R operator()() const { return Ret<R>::get(t); } };
template<typename R> struct NonB { int t; R operator()() const { return Ret<R>::get(t); } };
template<typename R> struct A {
    int t, v; int m;
    R f() { return Ret<R>::get(t); }
    R g() { return Ret<R>::get(t + 1); }
    R c() const { return Ret<R>::get(t); }
    friend bool operator==(const A& x, const A& y) { return x.v == y.v; }
};
template<typename R> struct N { int t; R f() { return Ret<R>::get(t); } };       // not comparable
template<typename R> struct B : A<R> {};

// a multiset of targets.  Two targets are equal iff they have the same type and value; see keys
struct Key { int type, val; bool cmp; };
const Key keys[NT] = {
    {0, 0, true}, {0, 1, true},                                  // 0,1 free functions
    {1, 0, true}, {1, 1, true},                                  // 2,3 Eq
    {2, 0, true},                                                // 4   Eq2 of the same value
    {3, 0, false}, {4, 0, false},                                // 5,6 not comparable
    {5, 0, true}, {5, 1, true}, {5, 2, true},                    // 7 f on a0, 8 g on a0, 9 f on a1
    {6, 0, true}, {6, 1, true}, {6, 2, true}, {6, 0, true},      // 10 f on shared p0, 11 g on p0, 12 f on p1, 13 f on weak p0
    {7, 0, true}, {7, 1, true}, {8, 0, false},                   // 14,15 objects by value, 16 not comparable one
    {9, 0, true}, {9, 1, true},                                  // 17,18 reference wrappers
    {10, 0, true},                                               // 19 const member function on a0 through const A*
    {11, 0, true},                                               // 20 f on B* (another pointer type)
    {12, 0, false},                                              // 21 std::function
    {13, 0, true},                                               // 22 f on shared pointer to B
    {14, 0, true}, {14, 1, true},                                // 23,24 member data of a0, a1 (int results only)
    {15, 0, false},                                              // 25 a lambda
};
bool same(int x, int y) { return keys[x].type == keys[y].type && keys[x].val == keys[y].val; }

template<typename R> struct Objs {
    A<R> a0{7, 0, 23}, a1{9, 1, 24}; A<R> r0{17, 0, 0}, r1{18, 1, 0}; A<R> c0{19, 0, 0}; B<R> b0;
    std::shared_ptr<A<R>> p0 = std::make_shared<A<R>>(A<R>{10, 0, 0}), p1 = std::make_shared<A<R>>(A<R>{12, 0, 0});
    std::weak_ptr<A<R>> w0 = p0, w1 = p1;
    std::shared_ptr<B<R>> pb = std::make_shared<B<R>>();
    Objs() { b0.t = 20; b0.v = 0; pb->t = 22; pb->v = 0; }
};
const char* cform[] = {"lvalue", "const lvalue", "rvalue", "slot", "temporary slot", "scoped", "scoped slot", "scoped lvalue"};
enum { NCF = 8, NDF = 5 };
template<typename S, typename F> sig::connection con1(S& s, F f, int form)
{
    using slot = typename S::slot_type;
    const F c(f);
    switch (form) {
    case 0: return s.connect(f);
    case 1: return s.connect(c);
    case 2: return s.connect(std::move(f));
    case 3: { slot x(f); return s.connect(x); }
    case 4: return s.connect(slot(c));
    case 5: return s.connect_scoped(std::move(f)).release();
    case 6: return s.connect_scoped(slot(std::move(f))).release();
    default: return s.connect_scoped(f).release();
    }
}
template<typename S, typename F> size_t dis1(S& s, F f, int form)
{
    using slot = typename S::slot_type;
    const F c(f);
    switch (form) {
    case 0: return s.disconnect(f);
    case 1: return s.disconnect(c);
    case 2: return s.disconnect(std::move(f));
    case 3: { slot x(f); return s.disconnect(x); }
    default: return s.disconnect(slot(std::move(f)));
    }
}
template<typename S, typename M, typename P> sig::connection con2(S& s, M m, P p, int form)
{
    using slot = typename S::slot_type;
    const M cm(m); const P cp(p);
    switch (form) {
    case 0: return s.connect(m, p);
    case 1: return s.connect(cm, p);
    case 2: return s.connect(std::move(m), std::move(p));
    case 3: { slot x(m, p); return s.connect(x); }
    case 4: return s.connect(slot(cm, p));
    case 5: return s.connect_scoped(std::move(m), std::move(p)).release();
    case 6: return s.connect_scoped(slot(m, std::move(p))).release();
    default: return s.connect_scoped(m, p).release();
    }
}
template<typename S, typename M, typename P> size_t dis2(S& s, M m, P p, int form)
{
    using slot = typename S::slot_type;
    const M cm(m);
    switch (form) {
    case 0: return s.disconnect(m, p);
    case 1: return s.disconnect(cm, p);
    case 2: return s.disconnect(std::move(m), std::move(p));
    case 3: { slot x(cm, p); return s.disconnect(x); }
    default: return s.disconnect(slot(m, std::move(p)));
    }
}
// only through a slot (weak pointers)
template<typename S, typename M, typename P> sig::connection conW(S& s, M m, P p, int form)
{
    using slot = typename S::slot_type;
    const P cp(p); slot x(m, p), y(m, cp);
    switch (form) { case 0: return s.connect(x); case 1: return s.connect(y); case 2: return s.connect(slot(m, std::move(p))); case 3: case 7: return s.connect_scoped(x).release(); default: return s.connect(slot(y)); }
}
template<typename S, typename M, typename P> size_t disW(S& s, M m, P p, int form)
{
    using slot = typename S::slot_type;
    const P cp(p); slot x(m, p), y(m, cp);
    switch (form) { case 0: return s.disconnect(x); case 1: return s.disconnect(y); case 2: return s.disconnect(slot(m, std::move(p))); default: return s.disconnect(slot(x)); }
}
template<typename R> struct Pmd { static const bool ok = true; };
template<> struct Pmd<void> { static const bool ok = false; };
template<typename S, typename X> sig::connection conData(S& s, X* a, int form, std::true_type) { return con2(s, &X::m, a, form); }
template<typename S, typename X> sig::connection conData(S& s, X* a, int form, std::false_type) { return con2(s, &X::m, a, form); }

template<typename R, typename S> sig::connection connect(S& s, Objs<R>& o, int t, int form)
{
    using namespace std;
    switch (t) {
    case 0: return form == 0 ? s.connect(free0<R>) : form == 3 ? s.connect(&free0<R>) : con1(s, &free0<R>, form);
    case 1: return form == 0 ? s.connect(free1<R>) : con1(s, &free1<R>, form);
    case 2: return con1(s, Eq<R>{2, 0}, form); case 3: return con1(s, Eq<R>{3, 1}, form);
    case 4: return con1(s, Eq2<R>{4, 0}, form);
    case 5: return con1(s, Non<R>{5}, form); case 6: return con1(s, NonB<R>{6}, form);
    case 7: return con2(s, &A<R>::f, &o.a0, form); case 8: return con2(s, &A<R>::g, &o.a0, form); case 9: return con2(s, &A<R>::f, &o.a1, form);
    case 10: return form == 1 ? s.connect(&A<R>::f, static_cast<const shared_ptr<A<R>>&>(o.p0)) : con2(s, &A<R>::f, o.p0, form);
    case 11: return con2(s, &A<R>::g, o.p0, form); case 12: return con2(s, &A<R>::f, o.p1, form);
    case 13: return conW(s, &A<R>::f, o.w0, form);
    case 14: return con2(s, &A<R>::f, A<R>{14, 0, 0}, form); case 15: return con2(s, &A<R>::f, A<R>{15, 1, 0}, form);
    case 16: return con2(s, &N<R>::f, N<R>{16}, form);
    case 17: return con2(s, &A<R>::f, ref(o.r0), form); case 18: return con2(s, &A<R>::f, ref(o.r1), form);
    case 19: return con2(s, &A<R>::c, const_cast<const A<R>*>(&o.c0), form);
    case 20: return con2(s, &A<R>::f, &o.b0, form);
    case 21: return con1(s, function<R()>(Eq<R>{21, 0}), form);
    case 22: return con2(s, &A<R>::f, o.pb, form);
    case 23: return con2(s, &A<R>::m, &o.a0, form); case 24: return con2(s, &A<R>::m, &o.a1, form);
    default: return con1(s, [] { return Ret<R>::get(25); }, form);
    }
}
template<typename R, typename S> size_t disconnect(S& s, Objs<R>& o, int t, int form)
{
    using namespace std;
    switch (t) {
    case 0: return form == 0 ? s.disconnect(free0<R>) : dis1(s, &free0<R>, form);
    case 1: return form == 0 ? s.disconnect(free1<R>) : dis1(s, &free1<R>, form);
    case 2: return dis1(s, Eq<R>{2, 0}, form); case 3: return dis1(s, Eq<R>{3, 1}, form);
    case 4: return dis1(s, Eq2<R>{4, 0}, form);
    case 5: return dis1(s, Non<R>{5}, form); case 6: return dis1(s, NonB<R>{6}, form);
    case 7: return dis2(s, &A<R>::f, &o.a0, form); case 8: return dis2(s, &A<R>::g, &o.a0, form); case 9: return dis2(s, &A<R>::f, &o.a1, form);
    // once the object is gone it can only be named through its weak pointer
    case 10: return o.p0 ? (form == 1 ? s.disconnect(&A<R>::f, static_cast<const shared_ptr<A<R>>&>(o.p0)) : dis2(s, &A<R>::f, o.p0, form)) : disW(s, &A<R>::f, o.w0, form);
    case 11: return o.p0 ? dis2(s, &A<R>::g, o.p0, form) : disW(s, &A<R>::g, o.w0, form);
    case 12: return o.p1 ? dis2(s, &A<R>::f, o.p1, form) : disW(s, &A<R>::f, o.w1, form);
    case 13: return disW(s, &A<R>::f, o.w0, form);
    case 14: return dis2(s, &A<R>::f, A<R>{14, 0, 0}, form); case 15: return dis2(s, &A<R>::f, A<R>{15, 1, 0}, form);
    case 16: return dis2(s, &N<R>::f, N<R>{16}, form);
    case 17: return dis2(s, &A<R>::f, ref(o.r0), form); case 18: return dis2(s, &A<R>::f, ref(o.r1), form);
    case 19: return dis2(s, &A<R>::c, const_cast<const A<R>*>(&o.c0), form);
    case 20: return dis2(s, &A<R>::f, &o.b0, form);
    case 21: return dis1(s, function<R()>(Eq<R>{21, 0}), form);
    case 22: return dis2(s, &A<R>::f, o.pb, form);
    case 23: return dis2(s, &A<R>::m, &o.a0, form); case 24: return dis2(s, &A<R>::m, &o.a1, form);
    default: return 0;
    }
}
// a slot that is removed by each lambda expression of its own: lambda types are unique, so nothing is equal to it
int slot_target(int t) { return t == 13 ? 10 : t; }

struct Rec { int t; bool there, blocked, expired; sig::connection c; };
template<typename R> struct W14 {
    sig::signal<R()> s; Objs<R> o; std::vector<Rec> r;
    void connect_(int t, int form) { note("connect target %d (%s)\n", t, cform[form]); step(); Rec x{t, true, false, false, {}}; x.c = connect<R>(s, o, t, form); r.push_back(x); check(); }
    void disconnect_(int t, int form)
    {
        note("disconnect target %d (%s)\n", t, cform[form]);
        size_t want = 0; bool thr = false;
        for (auto& x : r) if (x.there) { if (keys[x.t].type == keys[t].type && !keys[t].cmp && t != 25) thr = true; if (same(x.t, t) && t != 25) ++want; }
        step();
        size_t got = 0; bool thrown = false;
        try { got = disconnect<R>(s, o, t, form); } catch (sig::not_comparable_exception&) { thrown = true; }
        note("  -> %zu%s\n", got, thrown ? " thrown" : "");
        if (thrown != thr) fail(thr ? "disconnect of a target that cannot be compared with a stored one of its type did not throw (target %d)" : "disconnect threw not_comparable_exception (target %d)", t);
        if (!thr) { if (got != want) fail("disconnect returned %zu, %zu slots have an equal target", got, want); for (auto& x : r) if (same(x.t, t) && t != 25) x.there = false; }
        check();
    }
    void check()
    {
        int want[NT] = {}; long base = 0;
        for (auto& x : r) {
            bool on = x.there && !x.expired;
            if (x.c.connected() != on) fail(on ? "the slot of target %d is not connected anymore" : "the slot of target %d is still connected", x.t);
            if (on && !x.blocked) ++want[slot_target(x.t)];
            if (on && x.c.blocked() != x.blocked) fail("the slot of target %d changed its blocked state", x.t);
        }
        for (int& h : hits) h = 0;
        s(); (void)base;
        for (int t = 0; t < NT; ++t) if (hits[t] != want[t] && t != 23 && t != 24) fail("target %d was invoked %d times, %d such slots are connected and not blocked", t, hits[t], want[t]);
    }
    void again() { for (size_t i = 0; i < r.size(); ++i) { bool d = r[i].c.disconnect(); if (d != r[i].there) fail(d ? "a removed slot (target %d) could be disconnected again" : "the slot of target %d could not be disconnected", r[i].t); r[i].there = false; check(); } }
};
template<typename R> void c14run(bool th)
{
    const int top = Pmd<R>::ok ? NT : 23;      // member data yields no void result here
    const int small[] = {2, 3, 0, 10, 7, 5};
    W14<R> w;
    switch (choose(3)) {
    case 0: {                                  // one target, every way to pass it; every other target, every way
        int t = choose(top), f = choose(NCF), d = choose(top == NT ? NT - 1 : top), g = choose(NDF);
        bool twice = choose(2);
        if (choose(2)) w.connect_(2, 0);
        w.connect_(t, f); if (twice) w.connect_(t, 0);
        if (choose(2)) w.connect_(7, 0);
        w.disconnect_(d, g);
        w.again();
        break; }
    case 1: {                                  // every arrangement of targets, every target to remove
        int n = 2 + choose(th ? 3 : 2), last = 0;
        for (int i = 0; i < n; ++i) { int t = choose(top); w.connect_(t, (t + i) % NCF); last = t; }
        (void)last;
        int d = choose(top == NT ? NT - 1 : top);
        w.disconnect_(d, (d + n) % NDF);
        if (choose(2)) w.again(); else w.disconnect_(d, 0);
        break; }
    case 2: {                                  // fewer targets, more slots, their states, several removals, connecting again
        const int K = th ? 6 : 5;
        int n = 3 + choose(th ? 3 : 2);
        for (int i = 0; i < n; ++i) w.connect_(small[choose(K)], i % NCF);
        int st = choose(1 + n + 1);
        if (st >= 1 && st <= n) { note("block slot %d\n", st - 1); w.r[st - 1].c.block(); w.r[st - 1].blocked = true; }
        if (st == n + 1) { note("release p0\n"); w.o.p0.reset(); for (auto& x : w.r) if (x.t == 10) x.expired = true; }
        int d = small[choose(K)];
        w.disconnect_(d, choose(2) * 3);
        int k = choose(3);
        if (k == 0) { w.disconnect_(small[choose(K)], 0); w.again(); }
        if (k == 1) { if (w.o.p0) w.connect_(d, 0); w.disconnect_(d, 3); w.again(); }
        if (k == 2) { int i = choose(n); note("disconnect through the connection of slot %d\n", i); if (w.r[i].c.disconnect() != w.r[i].there) fail("disconnect through the connection of slot %d gave the wrong result", i); w.r[i].there = false; w.check(); w.disconnect_(d, 0); w.again(); }
        break; }
    }
}
// Objects owned by shared pointers, some of them gone, new ones at the addresses of old ones: what is bound to one
// object is never equal to what is bound to another.
template<typename R> struct Dead {
    struct T { int id; R f() { return Ret<R>::get(id * 2); } R g() { return Ret<R>::get(id * 2 + 1); } };
    struct Del { void operator()(T* t) const { t->~T(); } };
    enum { NO = 4 };
    using S = sig::signal<R()>; using slot = typename S::slot_type;
    struct Rec { int o, fn; bool there; sig::connection c; slot k; };
    alignas(T) unsigned char mem[2][sizeof(T)];
    std::shared_ptr<T> p[NO]; std::weak_ptr<T> w[NO]; int n = 0; S s; std::vector<Rec> r; int occ[2] = {-1, -1};
    void make(int at) { occ[at] = n; p[n] = std::shared_ptr<T>(new (mem[at]) T{n}, Del()); w[n] = p[n]; note("object %d at address %d\n", n, at); ++n; }
    static R (T::*pm(int fn))() { return fn ? &T::g : &T::f; }
    slot mk(int o, int fn) { return p[o] && (o + fn) % 2 ? slot(pm(fn), p[o]) : slot(pm(fn), w[o]); }
    void con(int o, int fn, int form)
    {
        note("connect %c of object %d (%d)\n", fn ? 'g' : 'f', o, form); step();
        Rec x{o, fn, true, {}, mk(o, fn)};
        x.c = form == 0 ? s.connect(pm(fn), p[o]) : form == 1 ? s.connect(x.k) : conW(s, pm(fn), w[o], 0);
        r.push_back(x); check();
    }
    void dis(int o, int fn, int form, const slot* k)
    {
        note("disconnect %c of object %d%s\n", fn ? 'g' : 'f', o, k ? ", by an old slot" : ""); step();
        size_t want = 0; for (auto& x : r) want += x.there && x.o == o && x.fn == fn;
        size_t got = k ? s.disconnect(*k) : form == 0 && p[o] ? s.disconnect(pm(fn), p[o]) : s.disconnect(slot(pm(fn), w[o]));
        if (got != want) fail("disconnect returned %zu, %zu slots are bound to the object", got, want);
        for (auto& x : r) if (x.o == o && x.fn == fn) x.there = false;
        check();
    }
    void check()
    {
        int want[NT] = {}; bool th;
        for (auto& x : r) {
            bool on = x.there && p[x.o]; if (on) ++want[x.o * 2 + x.fn];
            if (x.c.connected() != on) fail(on ? "a slot of object %d is not connected anymore" : "a slot of object %d is still connected", x.o);
        }
        for (auto& x : r) for (auto& y : r) { th = (x.k == y.k) != (x.o == y.o && x.fn == y.fn); if (th || (x.k != y.k) == (x.o == y.o && x.fn == y.fn)) fail("slots of objects %d and %d compare wrongly", x.o, y.o); }
        for (int& h : hits) h = 0;
        s();
        for (int t = 0; t < NO * 2; ++t) if (hits[t] != want[t]) fail("member function %d was invoked %d times, %d such slots are connected", t, hits[t], want[t]);
    }
};
template<typename R> void c14dead(bool th)
{
    Dead<R> w; w.make(0); w.make(1);
    const int depth = th ? 5 : 4;
    w.con(choose(2), 0, choose(3));
    for (int d = 0; d < depth; ++d) {
        int c = choose(1 + 2 + 4 + 2 + 2); if (!c) break; --c;
        if (c < 2) { int o = w.n - 2 + c; if (!w.p[o]) { for (o = 0; o < w.n && !w.p[o]; ++o); if (o == w.n) break; } w.con(o, choose(2), choose(3)); }
        else if (c < 6) { int o = c - 2; if (o >= w.n) break; int e = choose(2); if (e) { size_t i = 0; while (i < w.r.size() && w.r[i].o != o) ++i; if (i == w.r.size()) break; w.dis(o, w.r[i].fn, 0, &w.r[i].k); } else w.dis(o, choose(2), choose(2), nullptr); }
        else if (c < 8) { int o = c - 6; if (!w.p[o]) break; note("object %d is gone\n", o); w.p[o].reset(); w.check(); }
        else { int at = c - 8; if (w.n == w.NO || w.p[w.occ[at]]) break; w.make(at); w.check(); }
    }
}
void c14(bool th) { switch (choose(4)) { case 0: c14run<int>(th); break; case 1: c14run<void>(th); break; case 2: c14dead<int>(th); break; default: c14dead<void>(th); } }

// ---------------------------------------------------------------- C17
int insts17;
struct Chk { Chk* self; Chk() : self(this) { ++insts17; } Chk(const Chk& o) : self(this) { o.ok(); ++insts17; } Chk& operator=(const Chk& o) { ok(); o.ok(); return *this; } ~Chk() { ok(); self = nullptr; --insts17; } void ok() const { if (self != this) fail("a destroyed target is used"); } };
int where;            // id of the target invoked
int arg_seen;
template<typename R> struct Out { static R make(int v) { return v; } };
template<> struct Out<void> { static void make(int) {} };
template<typename R> struct Cnt { int tag, n; Chk k; R operator()(int a) { k.ok(); step(); ++n; where = tag * 100 + n; arg_seen = a; return Out<R>::make(where); } bool operator==(const Cnt& o) const { k.ok(); o.k.ok(); return tag == o.tag && n == o.n; } };
template<typename R> R fn0(int a) { step(); where = 1001; arg_seen = a; return Out<R>::make(where); }
template<typename R> R fn1(int a) { step(); where = 1002; arg_seen = a; return Out<R>::make(where); }
template<typename R> struct Obj { int id, n; Chk k; R f(int a) { k.ok(); step(); ++n; where = id * 100 + n; arg_seen = a; return Out<R>::make(where); } bool operator==(const Obj& o) const { return id == o.id && n == o.n; } };
template<typename R> struct NC { Chk k; R operator()(int a) { k.ok(); step(); where = 2001; arg_seen = a; return Out<R>::make(where); } };

enum K17 { EMPTY, CNT, FN0, FN1, RAW, TRK, TRK2, OBJ, NCM, NK };
struct Model { K17 k = EMPTY; int n = 0; bool blocked = false; };
template<typename R> struct Res { template<typename O> static void check(const O& o, bool ran) { if (bool(o) != ran) fail(ran ? "invoking a slot yielded nothing" : "invoking an empty, blocked or expired slot yielded a value"); if (ran && *o != where) fail("invoking a slot yielded another value than its target returned"); } };
template<> struct Res<void> { template<typename O> static void check(const O& o, bool) { if (o) fail("a void slot yielded a value"); } };

template<typename R> struct W17 {
    enum { NV = 3 };
    int nv; using slot = sig::slot<R(int)>;
    slot v[NV]; Model m[NV];
    Obj<R> raw{7, 0, {}}; std::shared_ptr<Obj<R>> trk = std::make_shared<Obj<R>>(Obj<R>{8, 0, {}}), trk2 = std::make_shared<Obj<R>>(Obj<R>{9, 0, {}}); bool gone = false;
    int rawn = 0, trkn = 0, trk2n = 0;
    struct Conn { sig::connection c; Model m; bool on; }; std::vector<Conn> cs; sig::signal<R(int)> s;

    slot make(int k)
    {
        switch (k) {
        case CNT: return slot(Cnt<R>{5, 0, {}}); case FN0: return slot(fn0<R>); case FN1: return slot(&fn1<R>);
        case RAW: return slot(&Obj<R>::f, &raw); case TRK: return slot(&Obj<R>::f, trk); case TRK2: return slot(&Obj<R>::f, trk2);
        case OBJ: return slot(&Obj<R>::f, Obj<R>{6, 0, {}}); case NCM: return slot(NC<R>{});
        default: return slot();
        }
    }
    // expected effect of one invocation on a model, with the value
    bool runs(const Model& x) const { return x.k != EMPTY && !x.blocked && !(x.k == TRK && gone); }
    int expect(Model& x)
    {
        switch (x.k) {
        case CNT: return 500 + ++x.n; case OBJ: return 600 + ++x.n; case FN0: return 1001; case FN1: return 1002; case NCM: return 2001;
        case RAW: return 700 + ++rawn; case TRK: return 800 + ++trkn; case TRK2: return 900 + ++trk2n; default: return -1;
        }
    }
    bool equal(const Model& a, const Model& b) const { return a.k == b.k && ((a.k != CNT && a.k != OBJ) || a.n == b.n); }
    bool compare(const slot& a, const slot& b, bool& thrown) { thrown = false; try { bool e = a == b; bool ne = a != b; if (e == ne) fail("== and != of two slots agree"); return e; } catch (sig::not_comparable_exception&) { thrown = true; return false; } }
    void check()
    {
        bool cmp = false;
        for (int i = 0; i < nv; ++i) {
            if (bool(v[i]) != (m[i].k != EMPTY)) fail("variable %d %s", i, v[i] ? "is not empty" : "is empty");
            if (v[i].blocked() != (m[i].blocked && m[i].k != EMPTY)) fail("variable %d is %sblocked", i, v[i].blocked() ? "" : "not ");
            for (int j = 0; j < nv; ++j) {
                if (m[i].k == NCM && m[j].k == NCM && (cmp || !j)) continue;        // throwing is slow: once per check
                bool thr; if (m[i].k == NCM && m[j].k == NCM) cmp = true;
                bool e = compare(v[i], v[j], thr);
                bool wt = m[i].k == NCM && m[j].k == NCM;
                if (thr != wt) fail(wt ? "comparing slots whose targets cannot be compared did not throw (%d, %d)" : "comparing variables %d and %d threw", i, j);
                if (!thr && e != equal(m[i], m[j])) fail("variables %d and %d compare %sequal", i, j, e ? "" : "un");
            }
        }
        for (auto& c : cs) {
            bool on = c.on && !(c.m.k == TRK && gone);
            if (c.c.connected() != on) fail(on ? "a connected slot is not connected" : "a slot that must not be connected is connected");
            if (c.on && c.c.blocked() != c.m.blocked) fail("the block state of a connected slot changed");
        }
    }
    void invoke(int i)
    {
        bool r = runs(m[i]); where = -1; arg_seen = -1;
        step();
        auto o = v[i](42);
        if ((where >= 0) != r) fail(r ? "invoking variable %d did not call its target" : "invoking variable %d, which is empty, blocked or expired, called a target", i);
        if (r) { int w = expect(m[i]); if (w != where) fail("invoking variable %d called target state %d, expected %d", i, where, w); if (arg_seen != 42) fail("the argument did not arrive"); }
        Res<R>::check(o, r);
    }
    void emit()
    {
        // with one argument each: only which targets ran matters
        std::vector<int> want;
        for (auto& c : cs) if (c.on && runs(c.m)) want.push_back(expect(c.m));
        int last = want.empty() ? -1 : want.back();
        where = -1; step();
        auto o = s(42);
        if (where != last) fail("the last slot invoked by the emission was %d, expected %d", where, last);
        Res<R>::check(o, last >= 0);
    }
};
template<typename R> void c17run(bool th)
{
    insts17 = 0;
    {
        // all kinds of targets with short histories, fewer kinds with longer ones, three variables
        W17<R> w; int mode = choose(3); w.nv = mode == 2 ? 3 : 2;
        const int depth = mode == 0 ? (th ? 4 : 3) : mode == 1 ? (th ? 5 : 4) : (th ? 4 : 3);
        const int kinds[] = {CNT, TRK, NCM, OBJ, RAW, FN0, TRK2, FN1};
        const int nk = mode == 0 ? (th ? 5 : 8) : mode == 1 ? 2 : 2;
        // start: variable 0 holds something, variable 1 something else or nothing
        for (int i = 0; i < w.nv; ++i) {
            int k = mode && !th ? (i == 2 || (i && mode == 1) ? 0 : i ? choose(2) : 1 + choose(nk)) : choose(nk + 1); if (!k) continue;
            K17 kk = (K17)kinds[k - 1]; w.v[i] = w.make(kk); w.m[i].k = kk; note("variable %d = target %d\n", i, kk);
        }
        w.check();
        for (int d = 0; d < depth; ++d) {
            const int per = 9;
            int c = choose(1 + w.nv * per + 2);
            if (!c) break;
            --c; step();
            if (c == w.nv * per) { note("release the tracked object\n"); w.trk.reset(); w.gone = true; w.check(); continue; }
            if (c == w.nv * per + 1) { note("emit\n"); w.emit(); w.check(); continue; }
            int i = c / per, j = (i + 1) % w.nv; if (w.nv == 3 && (c % per) < 5 && choose(2)) j = (i + 2) % 3;
            using slot = typename W17<R>::slot;
            switch (c % per) {
            case 0: note("%d = copy of %d\n", i, j); w.v[i] = w.v[j]; w.m[i] = w.m[j]; break;
            case 1: note("%d = move of %d\n", i, j); w.v[i] = std::move(w.v[j]); w.m[i] = w.m[j]; w.m[j] = Model(); break;
            case 2: { note("temporary copy of %d, moved into %d\n", j, i); slot t(w.v[j]); w.v[i] = std::move(t); w.m[i] = w.m[j]; if (t) fail("a moved-from slot is not empty"); break; }
            case 3: { note("temporary moved from %d, copied into %d\n", j, i); slot t(std::move(w.v[j])); w.v[i] = t; w.m[i] = w.m[j]; w.m[j] = Model(); break; }
            case 4: { note("swap %d %d\n", i, j); std::swap(w.v[i], w.v[j]); std::swap(w.m[i], w.m[j]); break; }
            case 5: { int k = choose(3); if (k == 0) { note("%d = %d\n", i, i); slot& r = w.v[i]; w.v[i] = r; } else if (k == 1) { note("%d = empty\n", i); w.v[i] = slot(); w.m[i] = Model(); } else { K17 kk = (K17)kinds[choose(nk < 3 ? nk : 3)]; if (kk == TRK && w.gone) kk = CNT; note("%d = target %d\n", i, kk); w.v[i] = w.make(kk); w.m[i] = Model(); w.m[i].k = kk; } break; }
            case 6: if (choose(2)) { note("unblock %d\n", i); w.v[i].unblock(); w.m[i].blocked = false; } else { note("block %d\n", i); w.v[i].block(); if (w.m[i].k != EMPTY) w.m[i].blocked = true; } break;
            case 7: note("invoke %d\n", i); w.invoke(i); break;
            case 8: {
                if (choose(2)) {
                    note("connect %d\n", i);
                    typename W17<R>::Conn c2; c2.c = w.s.connect(w.v[i]); c2.m = w.m[i]; c2.on = w.m[i].k != EMPTY;
                    if (!c2.on && (c2.c.connected() || c2.c.valid() || c2.c.disconnect())) fail("connecting an empty slot gives a connection that is connected");
                    w.cs.push_back(c2);
                } else {
                    note("disconnect by %d\n", i);
                    size_t want = 0; bool thr = false;
                    for (auto& c2 : w.cs) if (c2.on) { if (w.m[i].k == NCM && c2.m.k == NCM) thr = true; else if (w.equal(w.m[i], c2.m)) ++want; }
                    size_t got = 0; bool thrown = false;
                    try { got = w.s.disconnect(w.v[i]); } catch (sig::not_comparable_exception&) { thrown = true; }
                    if (thrown != thr || (!thr && got != want)) fail("disconnect by slot %d returned %zu (thrown %d), expected %zu (%d)", i, got, thrown, want, thr);
                    if (!thr) {
                        // removed one after another, the last taking the place of the removed one (C02)
                        std::vector<typename W17<R>::Conn> on, off;
                        for (auto& c2 : w.cs) (c2.on ? on : off).push_back(c2);
                        for (size_t q = 0; q < on.size();) if (w.equal(w.m[i], on[q].m)) { on[q].on = false; off.push_back(on[q]); on[q] = on.back(); on.pop_back(); } else ++q;
                        w.cs = on; w.cs.insert(w.cs.end(), off.begin(), off.end());
                    }
                }
                break; }
            }
            w.check();
        }
    }
    if (insts17) fail("%d stored targets were not destroyed (or destroyed twice)", insts17);
}
void c17(bool th) { if (choose(2)) c17run<void>(th); else c17run<int>(th); }
const SuiteS suites[] = {{"C14", c14}, {"C17", c17}};
}
int main(int argc, char** argv) { return rt_main(argc, argv, suites, 2); }
